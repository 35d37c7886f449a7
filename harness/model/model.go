// Package model holds the reference model: events, traces, test trees, and what a generated test must do.
// It shares no code with the repository.
package model

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// Event is an event in canonical form.
type Event struct {
	Ch   string  `json:"ch"`
	Kind string  `json:"kind"` // in, out, call
	Val  *string `json:"val,omitempty"`
}

// Ev constructs an event with a value.
func Ev(ch, kind, val string) Event { return Event{Ch: ch, Kind: kind, Val: &val} }

// Text is the canonical text of e.
func (e Event) Text() string {
	s := e.Ch + "." + e.Kind
	if e.Val != nil {
		s += "." + *e.Val
	}
	return s
}

// Same checks whether two events are the same.
func (e Event) Same(f Event) bool { return e.Text() == f.Text() }

var intRE = regexp.MustCompile(`^[+-]?[0-9]+$`)

var (
	minInt64 = big.NewInt(-1 << 63)
	maxInt64 = new(big.Int).SetUint64(1<<63 - 1)
)

// ParseInt parses val as a 64-bit decimal integer.
func ParseInt(val string) (*big.Int, bool) {
	if !intRE.MatchString(val) {
		return nil, false
	}
	n, ok := new(big.Int).SetString(strings.TrimPrefix(val, "+"), 10)
	if !ok || n.Cmp(minInt64) < 0 || n.Cmp(maxInt64) > 0 {
		return nil, false
	}
	return n, true
}

// CanonVal gives the canonical form of a value's text.
func CanonVal(raw string) string {
	raw = strings.TrimSpace(raw)
	if n, ok := ParseInt(raw); ok {
		return n.String()
	}
	return raw
}

// Type is the least type of a value: (), nat, int or enum.
func (e Event) Type() string {
	if e.Val == nil {
		return "()"
	}
	if n, ok := ParseInt(*e.Val); ok {
		if n.Sign() < 0 {
			return "int"
		}
		return "nat"
	}
	return "enum"
}

// Join is the least type covering both a and b; ok is false if there is none.
func Join(a, b string) (string, bool) {
	switch {
	case a == b:
		return a, true
	case a == "nat" && b == "int" || a == "int" && b == "nat":
		return "int", true
	default:
		return "", false
	}
}

// Types gives the least types for the channels of events; ok is false if there is a conflict.
func Types(events []Event) (types map[string]string, ok bool) {
	types = map[string]string{}
	for _, e := range events {
		t, seen := types[e.Ch]
		if !seen {
			types[e.Ch] = e.Type()
			continue
		}
		j, ok := Join(t, e.Type())
		if !ok {
			return nil, false
		}
		types[e.Ch] = j
	}
	return types, true
}

// Trace is a named forbidden trace; the last event is the forbidden one.
type Trace struct {
	Name   string  `json:"name"`
	Events []Event `json:"events"`
}

// Text is a readable, canonical form of the events of t.
func (t Trace) Text() string {
	cells := make([]string, len(t.Events))
	for i, e := range t.Events {
		cells[i] = e.Text()
	}
	return strings.Join(cells, " , ")
}

// Names gives the names that the rows must get.
func Names(rows []Trace) []string {
	names := make([]string, len(rows))
	used := map[string]bool{}
	for i, row := range rows {
		var candidate func(int) string
		if row.Name == "" || row.Name == "test" {
			candidate = func(n int) string { return fmt.Sprintf("test%d", n) }
		} else {
			candidate = func(n int) string {
				if n == 0 {
					return row.Name
				}
				return fmt.Sprintf("%s%d", row.Name, n-1)
			}
		}
		for n := 0; ; n++ {
			if c := candidate(n); !used[c] {
				used[c] = true
				names[i] = c
				break
			}
		}
	}
	return names
}

// Node is a node of a test tree.
type Node struct {
	ID      string   `json:"id,omitempty"`
	Tests   []string `json:"tests,omitempty"`
	Outcome string   `json:"outcome,omitempty"` // inc, pass, fail, or empty for roots
	Event   *Event   `json:"event,omitempty"`
	Next    []*Node  `json:"next,omitempty"`
}

// Suite is a suite of test trees.
type Suite map[string]*Node

// Chain is the test tree for a single forbidden trace.
func Chain(name string, events []Event) *Node {
	tests := []string{name}
	node := &Node{Tests: tests, Outcome: "fail"}
	for i := len(events) - 1; i >= 0; i-- {
		e := events[i]
		out := "inc"
		if i == len(events)-1 {
			out = "pass"
		}
		node = &Node{Tests: tests, Outcome: out, Event: &e, Next: []*Node{node}}
	}
	return &Node{Tests: tests, Next: []*Node{node}}
}

// JSON gives the node in the tool's JSON form, as generic data.
func (n *Node) JSON() map[string]any {
	m := map[string]any{}
	if n.ID != "" {
		m["id"] = n.ID
	}
	if len(n.Tests) != 0 {
		ts := make([]any, len(n.Tests))
		for i, t := range n.Tests {
			ts[i] = t
		}
		m["tests"] = ts
	}
	if n.Outcome != "" {
		m["outcome"] = n.Outcome
	}
	if n.Event != nil {
		m["event"] = n.Event.Text()
	}
	if len(n.Next) != 0 {
		ns := make([]any, len(n.Next))
		for i, k := range n.Next {
			ns[i] = k.JSON()
		}
		m["next"] = ns
	}
	return m
}

// Bytes gives the suite as the tool's JSON.
func (s Suite) Bytes() []byte {
	m := map[string]any{}
	for k, n := range s {
		m[k] = n.JSON()
	}
	bs, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return bs
}

// Keys gives the sorted test names of s.
func (s Suite) Keys() []string {
	ks := make([]string, 0, len(s))
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Walk visits each node below and including n.
func (n *Node) Walk(f func(n *Node, depth int)) { n.walk(f, 0) }

func (n *Node) walk(f func(*Node, int), depth int) {
	f(n, depth)
	for _, k := range n.Next {
		k.walk(f, depth+1)
	}
}

// Events gives each event below n.
func (n *Node) Events() []Event {
	var es []Event
	n.Walk(func(n *Node, _ int) {
		if n.Event != nil {
			es = append(es, *n.Event)
		}
	})
	return es
}

// Members gives the sorted names of all tests named below n.
func (n *Node) Members() []string {
	set := map[string]bool{}
	n.Walk(func(k *Node, depth int) {
		if depth == 0 {
			return
		}
		for _, t := range k.Tests {
			set[t] = true
		}
	})
	ks := make([]string, 0, len(set))
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Statuses, as explained by the tests.
const (
	WaitStart = "waiting to start"
	WaitIn    = "waiting for input acknowledgement"
	WaitOut   = "waiting for output"
	OffScript = "an event happened that took the test off-script"
	Timeout   = "the test ran out of time"
	Fail      = "an unwanted behaviour occurred"
	Bug       = "an internal error occurred"
)

// Sent is a stimulus sent to the system.
type Sent struct {
	Ch  string `json:"ch"`
	Val string `json:"val"` // empty for events with no value
}

// Machine predicts what a generated test does.
type Machine struct {
	Root    *Node
	Cur     *Node
	Status  string
	Verdict map[string]string
	Sent    []Sent
	Failed  []string // tests that have failed
}

// NewMachine starts predicting the test for root.
func NewMachine(root *Node) *Machine {
	m := &Machine{Root: root, Cur: root, Verdict: map[string]string{}}
	for _, t := range root.Members() {
		m.Verdict[t] = "unset"
	}
	if m.FirstHasIn() {
		m.Status = WaitStart
	} else {
		m.enter(root)
	}
	return m
}

// FirstHasIn checks whether the test starts by sending an input.
func (m *Machine) FirstHasIn() bool { return m.Root.in() != nil }

func (n *Node) in() *Node {
	for _, k := range n.Next {
		if k.Event != nil && k.Event.Kind == "in" {
			return k
		}
	}
	return nil
}

var outcomeWord = map[string]string{"inc": "inconclusive", "pass": "passed", "fail": "failed"}

func (m *Machine) enter(n *Node) {
	m.Cur = n
	fail := false
	for _, k := range n.Next {
		for _, t := range k.Tests {
			m.Verdict[t] = outcomeWord[k.Outcome]
		}
		fail = fail || k.Outcome == "fail"
	}
	if fail {
		m.Status = Fail
		return
	}
	if in := n.in(); in != nil {
		m.Status = WaitIn
		val := ""
		if in.Event.Val != nil {
			val = *in.Event.Val
		}
		m.Sent = append(m.Sent, Sent{Ch: in.Event.Ch, Val: val})
		return
	}
	m.Status = WaitOut
}

// Running checks whether the test hasn't ended.
func (m *Machine) Running() bool {
	return m.Status == WaitStart || m.Status == WaitIn || m.Status == WaitOut
}

// ExitCode is the exit code for the current status.
func (m *Machine) ExitCode() int {
	switch m.Status {
	case Fail:
		return 1
	case Bug:
		return 2
	default:
		return 0
	}
}

// Ready is the initial delay ending.
func (m *Machine) Ready() {
	if m.Status == WaitStart {
		m.enter(m.Root)
	}
}

// Timeout is the test timing out.
func (m *Machine) Timeout() {
	if m.Running() {
		m.Status = Timeout
	}
}

// Ack is the system acknowledging an input.
func (m *Machine) Ack() {
	switch {
	case !m.Running():
	case m.Status == WaitIn:
		m.enter(m.Cur.in())
	default:
		m.Status = Bug
	}
}

// Output is the system producing an output (or call).
func (m *Machine) Output(e Event) {
	if !m.Running() {
		return
	}
	if m.Status == WaitOut {
		for _, k := range m.Cur.Next {
			if k.Event != nil && k.Event.Ch == e.Ch && k.Event.Kind != "in" && sameVal(k.Event.Val, e.Val) {
				m.enter(k)
				return
			}
		}
	}
	m.Status = OffScript
}

func sameVal(a, b *string) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}
