// Package lib builds the repository's in-memory structures from plain descriptions, and compares them back.
//
// Descriptions are compared field by field; the repository's own comparisons aren't trusted.
package lib

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"

	"verif/harness/model"
)

// Val describes a value: at most one of the fields is set.
type Val struct {
	Int  *int64  `json:"int,omitempty"`
	Enum *string `json:"enum,omitempty"`
}

// Text is an unambiguous text for v.
func (v Val) Text() string {
	switch {
	case v.Int != nil:
		return "int " + strconv.FormatInt(*v.Int, 10)
	case v.Enum != nil:
		return "enum " + strconv.Quote(*v.Enum)
	default:
		return "none"
	}
}

// Build constructs v.
func (v Val) Build() value.Value {
	switch {
	case v.Int != nil:
		return value.Int(*v.Int)
	case v.Enum != nil:
		return value.Enum(*v.Enum)
	default:
		return value.None()
	}
}

// Canonical checks whether v is the value that its text denotes.
func (v Val) Canonical() bool {
	if v.Enum == nil {
		return true
	}
	_, isInt := model.ParseInt(*v.Enum)
	return !isInt && strings.TrimSpace(*v.Enum) == *v.Enum
}

// OfVal describes a value.
func OfVal(v value.Value) Val {
	if v.IsEmpty() {
		return Val{}
	}
	s := v.StringValue()
	if v.Type().IsEnum() {
		return Val{Enum: &s}
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		s = "bad integer " + s
		return Val{Enum: &s}
	}
	return Val{Int: &n}
}

// Event describes an event.
type Event struct {
	Ch   string `json:"ch"`
	Kind string `json:"kind"`
	Val  Val    `json:"val"`
}

// Text is an unambiguous text for e.
func (e Event) Text() string { return fmt.Sprintf("%q.%s %s", e.Ch, e.Kind, e.Val.Text()) }

var kinds = map[string]channel.Kind{"in": channel.KindIn, "out": channel.KindOut, "call": channel.KindCall}

// Channel constructs the channel of e.
func (e Event) Channel() channel.Channel { return channel.Channel{Name: e.Ch, Kind: kinds[e.Kind]} }

// Build constructs e.
func (e Event) Build() testlang.Event {
	return testlang.Event{Channel: e.Channel(), Value: e.Val.Build()}
}

// BuildAll constructs each event; the result is nil if there are none and asNil is set.
func BuildAll(es []Event) []testlang.Event {
	if len(es) == 0 {
		return nil
	}
	res := make([]testlang.Event, len(es))
	for i, e := range es {
		res[i] = e.Build()
	}
	return res
}

// OfKind describes a channel kind.
func OfKind(k channel.Kind) string {
	for s, x := range kinds {
		if x == k {
			return s
		}
	}
	return fmt.Sprintf("bad kind %d", k)
}

// OfEvent describes an event.
func OfEvent(e testlang.Event) Event {
	return Event{Ch: e.Channel.Name, Kind: OfKind(e.Channel.Kind), Val: OfVal(e.Value)}
}

// Texts gives the texts of events.
func Texts(es []Event) []string {
	res := make([]string, len(es))
	for i, e := range es {
		res[i] = e.Text()
	}
	return res
}

// OfEvents gives the texts of built events.
func OfEvents(es []testlang.Event) []string {
	res := make([]string, len(es))
	for i, e := range es {
		res[i] = OfEvent(e).Text()
	}
	return res
}

// Node describes a test tree.
type Node struct {
	ID      string   `json:"id,omitempty"`
	Tests   []string `json:"tests,omitempty"`
	Outcome int      `json:"outcome"` // an index into Outcomes
	Event   *Event   `json:"event,omitempty"`
	Next    []*Node  `json:"next,omitempty"`
}

// Outcomes are the repository's outcomes, and one that doesn't exist.
var Outcomes = []testlang.Outcome{testlang.OutcomeUnset, testlang.OutcomeInc, testlang.OutcomePass, testlang.OutcomeFail, testlang.Outcome(9)}

// Indices into Outcomes.
const (
	Unset = iota
	Inc
	Pass
	Fail
	Bad
)

// Build constructs n.
func (n *Node) Build() testlang.Node {
	b := testlang.Node{ID: testlang.NodeID(n.ID), Tests: append([]string(nil), n.Tests...), Outcome: Outcomes[n.Outcome]}
	if n.Event != nil {
		e := n.Event.Build()
		b.Event = &e
	}
	for _, k := range n.Next {
		b.Next = append(b.Next, k.Build())
	}
	return b
}

// OutcomeIndex gives the index of an outcome.
func OutcomeIndex(o testlang.Outcome) int {
	for i, x := range Outcomes {
		if x == o {
			return i
		}
	}
	return Bad
}

// OfNode describes a test tree.
func OfNode(b *testlang.Node) *Node {
	n := &Node{ID: string(b.ID), Tests: b.Tests, Outcome: OutcomeIndex(b.Outcome)}
	if b.Event != nil {
		e := OfEvent(*b.Event)
		n.Event = &e
	}
	for i := range b.Next {
		n.Next = append(n.Next, OfNode(&b.Next[i]))
	}
	return n
}

// Text is an unambiguous text for a tree.
func (n *Node) Text() string {
	var sb strings.Builder
	n.text(&sb)
	return sb.String()
}

func (n *Node) text(sb *strings.Builder) {
	ev := "-"
	if n.Event != nil {
		ev = n.Event.Text()
	}
	fmt.Fprintf(sb, "{%q %q %d %s", n.ID, n.Tests, n.Outcome, ev)
	for _, k := range n.Next {
		sb.WriteByte(' ')
		k.text(sb)
	}
	sb.WriteByte('}')
}

// TypeNames are the names of the RoboStar types.
var TypeNames = []string{"()", "enum", "nat", "int", "real"}

// Type constructs a type.
func Type(name string) *rstype.RsType {
	switch name {
	case "enum":
		return rstype.Enum()
	case "nat":
		return rstype.Arithmos(rstype.ArithmosDomainNat)
	case "int":
		return rstype.Arithmos(rstype.ArithmosDomainInt)
	case "real":
		return rstype.Arithmos(rstype.ArithmosDomainReal)
	default:
		return rstype.Empty()
	}
}

// OfType names a type.
func OfType(t *rstype.RsType) string {
	if t == nil {
		return "null"
	}
	var is []string
	for i, b := range []bool{t.IsEmpty(), t.IsEnum(), t.IsNat(), t.IsInt(), t.IsReal()} {
		if b {
			is = append(is, TypeNames[i])
		}
	}
	return strings.Join(is, "&")
}

// Sorted gives a sorted copy.
func Sorted(xs []string) []string {
	ys := append([]string{}, xs...)
	sort.Strings(ys)
	return ys
}

var textPool = []string{
	"a", "b", "foo", "test0", "é", "日本", "a b", "<x>", "&amp;", "\"q\"", "\\", "\u2028", "\u2029", "\x01", "\t", "{}", "[]", "null", "0", "-1", "a.b", "a.in", "\u007f",
	"\U0001F916", "\ufffd", "\ufeff", "id", "ID", "Id", "'", "/", ",", ":", "#", "\r", "\n", "long name with many words in it",
}

// FreeText draws any text.
func FreeText(t *rapid.T, label string) string {
	switch {
	case model.Chance(t, label+"Free", 25):
		return rapid.StringN(0, 8, -1).Draw(t, label)
	case model.Chance(t, label+"Odd", 50):
		return model.From(t, label, textPool)
	case model.Rarely(t, label+"Long", 10):
		return strings.Repeat(model.Pick(t, label+"Part", "x", "Ab ", "<é>"), model.Pick(t, label+"Len", 70, 300, 1100, 4200)) + "."
	default:
		return rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_]{0,5}`).Draw(t, label)
	}
}

// ChanName draws any channel name.
func ChanName(t *rapid.T, label string) string {
	s := strings.TrimSpace(strings.ReplaceAll(FreeText(t, label), ".", "_"))
	if s == "" {
		return "c"
	}
	return s
}

// FreeVal draws any value; canonical limits it to values that are what their text denotes.
func FreeVal(t *rapid.T, canonical bool) Val {
	switch model.Range(t, "valKind", 0, 3) {
	case 0:
		return Val{}
	case 1:
		n := rapid.OneOf(rapid.Int64Range(-3, 12), rapid.SampledFrom([]int64{1 << 31, -1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1, -1 << 63}), rapid.Int64()).Draw(t, "int")
		return Val{Int: &n}
	default:
		var s string
		if !canonical && model.Chance(t, "intText", 30) {
			s = model.Pick(t, "enum", "0", "1", "-1", "+1", "01", "3", " 3", "x ", " ")
		} else {
			s = *model.GenVal(t, "enum", model.ValOpts{})
		}
		v := Val{Enum: &s}
		if canonical && !v.Canonical() {
			s = "v" + strings.TrimSpace(s)
		}
		return v
	}
}

// FreeEvent draws any event.
func FreeEvent(t *rapid.T, canonical bool) Event {
	return Event{Ch: ChanName(t, "chan"), Kind: model.Pick(t, "kind", "in", "out", "call"), Val: FreeVal(t, canonical)}
}

// nearVal draws a value much like v.
func nearVal(t *rapid.T, v Val) Val {
	switch {
	case v.Int != nil:
		n := *v.Int
		switch model.Range(t, "nearInt", 0, 3) {
		case 0:
			n = -n
		case 1:
			n++
		default:
			n ^= 1 << model.Range(t, "nearBit", 0, 63)
		}
		return Val{Int: &n}
	case v.Enum != nil:
		s := *v.Enum
		switch model.Range(t, "nearEnum", 0, 5) {
		case 0:
			s += " "
		case 1:
			s = strings.ToUpper(s)
		case 2:
			s = strings.ToLower(s)
		case 3:
			s += "x"
		case 4:
			s = strings.TrimSpace(s)
		default:
			if rs := []rune(s); len(rs) > 0 {
				s = string(rs[:len(rs)-1])
			}
		}
		return Val{Enum: &s}
	}
	return v
}

// Alphabet draws a small set of events with many nearly equal ones.
func Alphabet(t *rapid.T, min, max int) []Event {
	n := model.Range(t, "alphabet", min, max)
	chans := []string{ChanName(t, "chan1"), ChanName(t, "chan2")}
	vals := []Val{FreeVal(t, false), FreeVal(t, false), {}}
	vals = append(vals, nearVal(t, vals[0]), nearVal(t, vals[1]))
	one, s := int64(1), "1"
	vals = append(vals, Val{Int: &one}, Val{Enum: &s})
	es := make([]Event, n)
	for i := range es {
		es[i] = Event{Ch: model.From(t, "ch", chans), Kind: model.Pick(t, "kind", "in", "out", "call"), Val: model.From(t, "val", vals)}
	}
	return es
}

// Names draws n distinct names.
func Names(t *rapid.T, label string, n int) []string {
	seen := map[string]bool{}
	var res []string
	for i := 0; len(res) < n; i++ {
		s := FreeText(t, label)
		if seen[s] {
			s = fmt.Sprintf("%s~%d", s, i)
		}
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	return res
}
