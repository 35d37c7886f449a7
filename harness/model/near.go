package model

import (
	"math/big"
	"strings"
)

// NearMisses gives events on e's channel with values close to, but not, e's: ones that sloppy comparisons confuse.
//
// typ is the channel's type in the suite; typed limits values to ones that can be typed to animated tests.
func NearMisses(e Event, typ string, typed bool) []Event {
	if e.Val == nil {
		return nil
	}
	v := *e.Val
	var vals []string
	switch typ {
	case "nat", "int":
		n, _ := ParseInt(v)
		for _, d := range []int64{1, -1, 10, 256, 65536} {
			vals = append(vals, new(big.Int).Add(n, big.NewInt(d)).String())
		}
		if typ == "int" {
			vals = append(vals, new(big.Int).Neg(n).String())
		}
	case "enum":
		vals = append(vals, v+"x", v+v, strings.ToUpper(v), strings.ToLower(v), "x"+v)
		if rs := []rune(v); len(rs) > 0 {
			vals = append(vals, string(rs[:len(rs)-1]), string(rs[1:]))
		}
		if fs := strings.Fields(v); len(fs) > 1 {
			vals = append(vals, fs[0], strings.Join(fs, ""), strings.Join(fs, " "), fs[len(fs)-1])
		}
		if !typed {
			vals = append(vals, "", v+" ", " "+v)
		}
	}
	var es []Event
	seen := map[string]bool{v: true}
	for _, w := range vals {
		if seen[w] || !fits(w, typ) || (typed && !CanType(w)) {
			continue
		}
		seen[w] = true
		es = append(es, Ev(e.Ch, e.Kind, w))
	}
	return es
}

// fits checks whether a value is in the range of the C++ type for typ.
func fits(v, typ string) bool {
	if typ != "nat" && typ != "int" {
		return true
	}
	n, ok := ParseInt(v)
	if !ok {
		return false
	}
	if typ == "nat" {
		return n.Sign() >= 0 && n.Cmp(big.NewInt(1<<32-1)) <= 0
	}
	return n.Cmp(big.NewInt(-1<<31)) >= 0 && n.Cmp(big.NewInt(1<<31-1)) <= 0
}

// Stray gives the events that may be played to a test at root, with near misses of its own.
func Stray(root *Node, all []Event, types map[string]string, typed bool) []Event {
	outs := OutputsOf(root, all)
	seen := map[string]bool{}
	var res []Event
	add := func(e Event) {
		if !seen[e.Text()] {
			seen[e.Text()] = true
			res = append(res, e)
		}
	}
	for _, e := range outs {
		add(e)
	}
	for i := 0; i < 3; i++ {
		for _, e := range outs {
			if near := NearMisses(e, types[e.Ch], typed); len(near) > 0 {
				add(near[(len(e.Text())*7+i*3)%len(near)])
			}
		}
	}
	return res
}

// CanType tells whether a value can be typed to an animated test.
func CanType(v string) bool {
	return v != "" && v == strings.TrimSpace(v) && !strings.ContainsAny(v, "\n\r\v\f\x00")
}
