// Command p24 checks that unification of RoboStar types takes least upper bounds, and that types survive as text.
package main

import (
	"errors"
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/lib"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Item is a type, by name, or a value standing for its type, or neither for no type at all.
type Item struct {
	Type string   `json:"type,omitempty"`
	Val  *lib.Val `json:"val,omitempty"`
}

// Case is types to unify in several ways, and texts to read as types.
type Case struct {
	Items []Item `json:"items"`
	// Orders are permutations of the items, each with the ways in which to group them: each step unifies
	// the neighbours at that position (of those that are left) until there is one.
	Orders []Order  `json:"orders"`
	Texts  []string `json:"texts"`
}

// Order is a way of unifying the items.
type Order struct {
	Perm  []int `json:"perm"`
	Group []int `json:"group"`
}

func main() {
	pbt.InProcess = true
	pbt.Register("P24",
		"sequences of up to seven (sometimes 40) types (given by name, by a value having them, or absent; numbers of nearly the same size and sign), each unified in several random orders and groupings, and texts of types in varying case and with small damage; results are compared with the least upper bound by a reference order; non-trivial: at least three items, of which two are different types of one kind or of different kinds",
		gen, check)
	pbt.Main()
}

func gen(t *rapid.T) Case {
	var c Case
	pool := [][]string{{"nat", "int", "real"}, {"nat", "int"}, {"()"}, {"enum"}, lib.TypeNames}[rapid.Uniform(5).Draw(t, "pool")]
	for i := model.Len(t, "items", 1, 7, 40); i > 0; i-- {
		switch {
		case model.Chance(t, "none", 10):
			c.Items = append(c.Items, Item{})
		case model.Chance(t, "other", 4):
			c.Items = append(c.Items, Item{Type: model.From(t, "otherType", lib.TypeNames)})
		default:
			ty := model.From(t, "type", pool)
			it := Item{Type: ty}
			if ty != "real" && model.Chance(t, "byValue", 50) {
				v := valOf(t, ty)
				it = Item{Val: &v}
			}
			c.Items = append(c.Items, it)
		}
	}
	for k := model.Range(t, "orders", 2, 4); k > 0; k-- {
		idx := make([]int, len(c.Items))
		for i := range idx {
			idx[i] = i
		}
		o := Order{Perm: rapid.Permutation(idx).Draw(t, "perm")}
		for n := len(idx); n > 1; n-- {
			o.Group = append(o.Group, model.Range(t, "at", 0, n-2))
		}
		c.Orders = append(c.Orders, o)
	}
	for k := model.Range(t, "texts", 1, 3); k > 0; k-- {
		s := []rune(model.From(t, "text", lib.TypeNames))
		for i := range s {
			if model.Chance(t, "upper", 30) {
				s[i] = []rune(strings.ToUpper(string(s[i])))[0]
			}
		}
		text := string(s)
		if model.Chance(t, "damage", 40) {
			at := model.Range(t, "damageAt", 0, len(s))
			switch model.Range(t, "how", 0, 3) {
			case 0:
				text = string(s[:at])
			case 1:
				text = string(s[at:])
			case 2:
				text = string(s[:at]) + model.Pick(t, "insert", " ", "x", "(", "é", "\x00", "\n", "s", "[]") + string(s[at:])
			default:
				text = model.Pick(t, "whole", "float", "double", "string", "bool", "empty", "arithmos", "unknown", "integer", "natural", "null", "void", "int|nat", "nat,int")
			}
		}
		c.Texts = append(c.Texts, text)
	}
	return c
}

func valOf(t *rapid.T, ty string) lib.Val {
	pos := []int64{0, 1, 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1}
	switch ty {
	case "nat":
		n := model.From(t, "nat", pos)
		return lib.Val{Int: &n}
	case "int":
		n := -1 - model.From(t, "int", pos)
		return lib.Val{Int: &n}
	case "enum":
		s := model.Pick(t, "enum", "a", "A", "nat", "int", "0x", "", "()")
		return lib.Val{Enum: &s}
	default:
		return lib.Val{}
	}
}

// name gives the type of an item, or "" for none.
func (i Item) name() string {
	switch {
	case i.Val == nil:
		return i.Type
	case i.Val.Enum != nil:
		return "enum"
	case i.Val.Int == nil:
		return "()"
	case *i.Val.Int < 0:
		return "int"
	default:
		return "nat"
	}
}

func (i Item) build() *rstype.RsType {
	switch {
	case i.Val != nil:
		v := i.Val.Build()
		return v.Type()
	case i.Type == "":
		return nil
	default:
		return lib.Type(i.Type)
	}
}

var rank = map[string]int{"nat": 1, "int": 2, "real": 3}

// bound is the least upper bound of two types; ok is unset if there is none.
func bound(a, b string) (string, bool) {
	switch {
	case a == "":
		return b, true
	case b == "" || a == b:
		return a, true
	case rank[a] > 0 && rank[b] > 0:
		if rank[a] > rank[b] {
			return a, true
		}
		return b, true
	default:
		return "", false
	}
}

func of(t *rstype.RsType) string {
	if t == nil {
		return ""
	}
	return lib.OfType(t)
}

func check(c Case, rec *pbt.Rec) error {
	names := make([]string, len(c.Items))
	want, possible, mixed := "", true, false
	for i, it := range c.Items {
		names[i] = it.name()
		mixed = mixed || want != "" && names[i] != "" && want != names[i]
		if possible {
			want, possible = bound(want, names[i])
		}
	}
	for i, it := range c.Items {
		if got := of(it.build()); got != names[i] {
			return fmt.Errorf("item %d has type %q, want %q", i, got, names[i])
		}
	}
	for _, o := range c.Orders {
		got, err := unifyAll(c.Items, o)
		switch {
		case err != nil && possible:
			return fmt.Errorf("unifying %q in order %v (grouped %v): %v, want %q", names, o.Perm, o.Group, err, want)
		case err != nil && !errors.Is(err, rstype.ErrUnifyDifferentKinds):
			return fmt.Errorf("unifying %q in order %v (grouped %v): %v, which isn't ErrUnifyDifferentKinds", names, o.Perm, o.Group, err)
		case err == nil && !possible:
			return fmt.Errorf("unifying %q in order %v (grouped %v): got %q, want an error", names, o.Perm, o.Group, got)
		case err == nil && got != want:
			return fmt.Errorf("unifying %q in order %v (grouped %v): got %q, want %q", names, o.Perm, o.Group, got, want)
		}
		rec.Count("orders", 1)
	}
	if err := pairs(names); err != nil {
		return err
	}
	for _, text := range c.Texts {
		if err := readText(text, rec); err != nil {
			return err
		}
	}
	rec.LabelIf(!possible, "no bound")
	rec.LabelIf(possible && mixed, "numbers of different types")
	rec.LabelIf(possible && want == "", "no types")
	rec.NonTrivialIf(len(names) >= 3 && mixed)
	return nil
}

// unifyAll unifies items as o says, checking that operands stay as they were.
func unifyAll(items []Item, o Order) (string, error) {
	left := make([]*rstype.RsType, len(items))
	for i, at := range o.Perm {
		left[i] = items[at].build()
	}
	shared := append([]*rstype.RsType{}, left...)
	before := make([]string, len(shared))
	for i, t := range shared {
		before[i] = of(t)
	}
	for _, at := range o.Group {
		u, err := rstype.Unify(left[at], left[at+1])
		if err != nil {
			return "", err
		}
		left = append(append(left[:at:at], u), left[at+2:]...)
	}
	for i, t := range shared {
		if of(t) != before[i] {
			return "", fmt.Errorf("a type %q became %q", before[i], of(t))
		}
	}
	return of(left[0]), nil
}

// pairs checks the laws of one and two types.
func pairs(names []string) error {
	for _, a := range names {
		for _, b := range names {
			if a == "" || b == "" {
				continue
			}
			if got, err := rstype.Unify(lib.Type(a), lib.Type(b)); err == nil {
				if of(got) != a && of(got) != b {
					return fmt.Errorf("%q and %q unify to %q", a, b, of(got))
				}
				back, err := rstype.Unify(got, lib.Type(b))
				if err != nil || of(back) != of(got) {
					return fmt.Errorf("%q and %q unify to %q, which unifies with %q to %q (%v)", a, b, of(got), b, of(back), err)
				}
			}
			x, y := lib.Type(a), lib.Type(b)
			if (x.String() == y.String()) != (a == b) {
				return fmt.Errorf("types %q and %q have texts %q and %q", a, b, x, y)
			}
		}
	}
	return nil
}

// readText checks that exactly the names of types, in any case, are read as types.
func readText(text string, rec *pbt.Rec) error {
	want := ""
	for _, n := range lib.TypeNames {
		if asciiLower(text) == n {
			want = n
		}
	}
	// The type is read over one that is already there.
	for _, old := range lib.TypeNames {
		got := lib.Type(old)
		err := got.UnmarshalText([]byte(text))
		if want == "" {
			if err == nil {
				return fmt.Errorf("text %q is read as type %q", text, of(got))
			}
			rec.Count("texts refused", 1)
			continue
		}
		if err != nil || of(got) != want {
			return fmt.Errorf("text %q is read over %q as type %q (%v), want %q", text, old, of(got), err, want)
		}
		bs, err := got.MarshalText()
		if err != nil || string(bs) != want {
			return fmt.Errorf("type %q is written as %q (%v)", want, bs, err)
		}
		if s := got.String(); s != want {
			return fmt.Errorf("type %q is shown as %q", want, s)
		}
		rec.Count("texts read", 1)
	}
	return nil
}

func asciiLower(s string) string {
	bs := []byte(s)
	for i, b := range bs {
		if 'A' <= b && b <= 'Z' {
			bs[i] = b + 'a' - 'A'
		}
	}
	return string(bs)
}
