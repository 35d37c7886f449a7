// Command p18 checks that suites survive being written and read back.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"

	"pgregory.net/rapid"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/structure"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/lib"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Case is a test suite and a state machine suite.
type Case struct {
	Tests map[string]*lib.Node `json:"tests"`
	Types map[string]string    `json:"types"`
	Stms  map[string]*Stm      `json:"stms"`
	Slow  bool                 `json:"slow"` // read byte by byte
}

// Stm describes a state machine.
type Stm struct {
	States []State           `json:"states"`
	Types  map[string]string `json:"types"`
	Tests  []string          `json:"tests"`
}

// State describes a state.
type State struct {
	ID       string         `json:"id"`
	Sets     []Set          `json:"sets"`
	Verdicts map[string]int `json:"verdicts"`
	None     bool           `json:"none"` // no verdicts at all
}

// Set describes a transition set.
type Set struct {
	Ch    string       `json:"ch"`
	Kind  string       `json:"kind"`
	Trans []Transition `json:"trans"`
}

// Transition describes a transition.
type Transition struct {
	Val  lib.Val `json:"val"`
	Next string  `json:"next"`
}

func main() {
	pbt.InProcess = true
	pbt.Register("P18",
		"test suites and state machine suites with free names, identifiers, test lists, outcomes, events, canonical values of every type, types, transitions and verdicts, written, read back, compared field by field with what was built, and written again; non-trivial: the suites have at least three nodes or states below a test, and an event or transition with a value",
		gen, check)
	pbt.Main()
}

func gen(t *rapid.T) Case {
	c := Case{Tests: map[string]*lib.Node{}, Stms: map[string]*Stm{}, Types: types(t), Slow: model.Chance(t, "slow", 20)}
	for _, n := range lib.Names(t, "test", model.Range(t, "tests", 0, 3)) {
		budget := model.Len(t, "nodes", 1, 12, 80)
		c.Tests[n] = tree(t, &budget, 0)
	}
	if model.Rarely(t, "big", 3) {
		var alpha []*lib.Event
		for i := 0; i < 4; i++ {
			e := lib.FreeEvent(t, true)
			alpha = append(alpha, &e, nil)
		}
		depth := model.Range(t, "bigDepth", 50, 700)
		var n *lib.Node
		for i, e := range model.Cycle(t, alpha, depth) {
			k := &lib.Node{ID: fmt.Sprint("n", i), Outcome: i % 4, Event: e, Tests: []string{"a", fmt.Sprint("t", i%5)}}
			if n != nil {
				k.Next = []*lib.Node{n}
			}
			n = k
		}
		wide := model.Range(t, "bigWidth", 0, 300)
		for i, e := range model.Cycle(t, alpha, wide) {
			n.Next = append(n.Next, &lib.Node{ID: strings.Repeat("id", i), Outcome: i % 4, Event: e})
		}
		c.Tests["big"] = n
		m := &Stm{Types: map[string]string{}}
		for i := model.Range(t, "bigStms", 20, 400); i > 0; i-- {
			s := State{ID: fmt.Sprint("s", i), Verdicts: map[string]int{}}
			for j := i % 40; j > 0; j-- {
				s.Verdicts[fmt.Sprint("v", j)] = j % 4
			}
			for j := i % 7; j > 0; j-- {
				set := Set{Ch: fmt.Sprint("c", j), Kind: "out"}
				for k := i % 30; k > 0; k-- {
					v := int64(k * i)
					set.Trans = append(set.Trans, Transition{Val: lib.Val{Int: &v}, Next: fmt.Sprint("s", k)})
				}
				s.Sets = append(s.Sets, set)
			}
			m.States = append(m.States, s)
			m.Tests = append(m.Tests, fmt.Sprint("member", i))
			m.Types[fmt.Sprint("c", i)] = lib.TypeNames[i%len(lib.TypeNames)]
		}
		c.Stms["big"] = m
	}
	for _, n := range lib.Names(t, "stm", model.Range(t, "stms", 0, 3)) {
		m := &Stm{Types: types(t), Tests: names(t, "members")}
		for _, id := range lib.Names(t, "state", model.Len(t, "states", 1, 4, 30)) {
			m.States = append(m.States, state(t, id))
		}
		c.Stms[n] = m
	}
	return c
}

func names(t *rapid.T, label string) []string {
	return lib.Names(t, label, model.Len(t, label+"Num", 0, 2, 9))
}

func types(t *rapid.T) map[string]string {
	ts := map[string]string{}
	for _, n := range names(t, "typed") {
		ts[n] = model.From(t, "type", lib.TypeNames)
	}
	return ts
}

func tree(t *rapid.T, budget *int, depth int) *lib.Node {
	n := &lib.Node{Outcome: model.Range(t, "outcome", lib.Unset, lib.Fail)}
	if model.Chance(t, "hasID", 50) {
		n.ID = lib.FreeText(t, "id")
	}
	// Duplicates in test lists, and their order, must survive.
	for k := model.Len(t, "tags", 0, 2, 6); k > 0; k-- {
		n.Tests = append(n.Tests, lib.FreeText(t, "tag"))
	}
	if model.Chance(t, "hasEvent", 75) {
		e := lib.FreeEvent(t, true)
		n.Event = &e
	}
	for k := model.Pick(t, "kids", 1, 1, 0, 2, 3, 4); k > 0 && *budget > 0 && depth < 40; k-- {
		*budget--
		n.Next = append(n.Next, tree(t, budget, depth+1))
	}
	return n
}

func state(t *rapid.T, id string) State {
	s := State{ID: id, Verdicts: map[string]int{}, None: model.Chance(t, "noVerdicts", 10)}
	if !s.None {
		for _, n := range names(t, "verdictOn") {
			s.Verdicts[n] = model.Range(t, "verdict", lib.Unset, lib.Fail)
		}
	}
	for k := model.Len(t, "sets", 0, 2, 5); k > 0; k-- {
		set := Set{Ch: lib.ChanName(t, "chan"), Kind: model.Pick(t, "kind", "in", "out", "call")}
		for j := model.Len(t, "trans", 0, 2, 6); j > 0; j-- {
			set.Trans = append(set.Trans, Transition{Val: lib.FreeVal(t, true), Next: lib.FreeText(t, "next")})
		}
		s.Sets = append(s.Sets, set)
	}
	return s
}

func buildTypes(ts map[string]string) stm.TypeMap {
	if len(ts) == 0 {
		return nil
	}
	m := stm.TypeMap{}
	for k, v := range ts {
		m[k] = lib.Type(v)
	}
	return m
}

func (m *Stm) build() *stm.Stm {
	b := &stm.Stm{Types: buildTypes(m.Types), Tests: structure.NewSet(m.Tests...)}
	for _, s := range m.States {
		st := &stm.State{ID: testlang.NodeID(s.ID)}
		if !s.None {
			v := verdict.Verdict{}
			for k, o := range s.Verdicts {
				v[k] = lib.Outcomes[o]
			}
			st.Verdict = &v
		}
		for _, set := range s.Sets {
			ts := make([]transition.Transition, len(set.Trans))
			for i, tr := range set.Trans {
				ts[i] = transition.Transition{Value: tr.Val.Build(), Next: testlang.NodeID(tr.Next)}
			}
			st.TransitionSets = append(st.TransitionSets, transition.NewSet(lib.Event{Ch: set.Ch, Kind: set.Kind}.Channel(), ts...))
		}
		b.States = append(b.States, st)
	}
	return b
}

// The texts of parts of a suite, of a description and of what was built.

func typesText(ts map[string]string) string {
	var parts []string
	for k, v := range ts {
		parts = append(parts, fmt.Sprintf("%q: %s", k, v))
	}
	return strings.Join(lib.Sorted(parts), ", ")
}

func ofTypes(m stm.TypeMap) map[string]string {
	ts := map[string]string{}
	for k, v := range m {
		ts[k] = lib.OfType(v)
	}
	return ts
}

func (s State) text() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "state %q", s.ID)
	for _, set := range s.Sets {
		fmt.Fprintf(&sb, " on %q.%s {", set.Ch, set.Kind)
		for _, tr := range set.Trans {
			fmt.Fprintf(&sb, " [%s] %q;", tr.Val.Text(), tr.Next)
		}
		sb.WriteString(" }")
	}
	var parts []string
	for k, v := range s.Verdicts {
		parts = append(parts, fmt.Sprintf("%q: %d", k, v))
	}
	fmt.Fprintf(&sb, " verdicts %q", lib.Sorted(parts))
	return sb.String()
}

func ofState(b *stm.State) State {
	s := State{ID: string(b.ID), Verdicts: map[string]int{}}
	if b.Verdict != nil {
		for k, o := range *b.Verdict {
			s.Verdicts[k] = lib.OutcomeIndex(o)
		}
	}
	for _, set := range b.TransitionSets {
		d := Set{Ch: set.Channel.Name, Kind: lib.OfKind(set.Channel.Kind)}
		for _, tr := range set.Transitions {
			d.Trans = append(d.Trans, Transition{Val: lib.OfVal(tr.Value), Next: string(tr.Next)})
		}
		s.Sets = append(s.Sets, d)
	}
	return s
}

func (m *Stm) text() string {
	parts := []string{"types " + typesText(m.Types), fmt.Sprintf("tests %q", lib.Sorted(m.Tests))}
	for _, s := range m.States {
		parts = append(parts, s.text())
	}
	return strings.Join(parts, "\n")
}

func ofStm(b *stm.Stm) *Stm {
	m := &Stm{Types: ofTypes(b.Types), Tests: b.Tests.Values()}
	for _, s := range b.States {
		m.States = append(m.States, ofState(s))
	}
	return m
}

func (c Case) reader(bs []byte) io.Reader {
	var r io.Reader = bytes.NewReader(bs)
	if c.Slow {
		r = iotest.OneByteReader(r)
	}
	return r
}

func check(c Case, rec *pbt.Rec) error {
	if err := checkTests(c, rec); err != nil {
		return fmt.Errorf("test suite: %w", err)
	}
	if err := checkStms(c, rec); err != nil {
		return fmt.Errorf("state machine suite: %w", err)
	}
	return nil
}

func checkTests(c Case, rec *pbt.Rec) error {
	suite := testlang.Suite{}
	for k, n := range c.Tests {
		b := n.Build()
		suite[k] = &b
	}
	var first, second bytes.Buffer
	if err := suite.Write(&first); err != nil {
		return fmt.Errorf("can't be written: %v", err)
	}
	back, err := testlang.ReadSuite(c.reader(first.Bytes()))
	if err != nil {
		return fmt.Errorf("can't be read back: %v: %s", err, first.Bytes())
	}
	if len(back) != len(c.Tests) {
		return fmt.Errorf("%d tests became %d", len(c.Tests), len(back))
	}
	values, deepest := 0, 0
	for _, k := range keys(c.Tests) {
		got := back[k]
		if got == nil {
			return fmt.Errorf("test %q is gone", k)
		}
		if g, w := lib.OfNode(got).Text(), c.Tests[k].Text(); g != w {
			return fmt.Errorf("test %q became %s, was %s", k, g, w)
		}
		if g, w := lib.OfNode(suite[k]).Text(), c.Tests[k].Text(); g != w {
			return fmt.Errorf("writing changed test %q to %s, was %s", k, g, w)
		}
		n, v := size(c.Tests[k])
		values += v
		if n > deepest {
			deepest = n
		}
	}
	if err := back.Write(&second); err != nil {
		return fmt.Errorf("can't be written again: %v", err)
	}
	if err := equivalent(first.Bytes(), second.Bytes()); err != nil {
		return err
	}
	rec.NonTrivialIf(deepest > 3 && values > 0)
	rec.LabelIf(deepest > 3, "tests: over 3 nodes")
	rec.LabelIf(deepest > 100, "tests: over 100 nodes")
	rec.LabelIf(values > 0, "tests: events with values")
	rec.LabelIf(len(c.Tests) == 0, "tests: empty suite")
	return nil
}

func size(n *lib.Node) (nodes, values int) {
	nodes = 1
	if n.Event != nil && n.Event.Val.Text() != "none" {
		values = 1
	}
	for _, k := range n.Next {
		kn, kv := size(k)
		nodes, values = nodes+kn, values+kv
	}
	return nodes, values
}

func keys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func checkStms(c Case, rec *pbt.Rec) error {
	suite := &stm.Suite{Types: buildTypes(c.Types), Tests: map[string]*stm.Stm{}}
	for k, m := range c.Stms {
		suite.Tests[k] = m.build()
	}
	var first, second bytes.Buffer
	if err := suite.Write(&first); err != nil {
		return fmt.Errorf("can't be written: %v", err)
	}
	back, err := stm.ReadSuite(c.reader(first.Bytes()))
	if err != nil {
		return fmt.Errorf("can't be read back: %v: %s", err, first.Bytes())
	}
	if g, w := typesText(ofTypes(back.Types)), typesText(c.Types); g != w {
		return fmt.Errorf("types became %s, were %s", g, w)
	}
	if len(back.Tests) != len(c.Stms) {
		return fmt.Errorf("%d state machines became %d", len(c.Stms), len(back.Tests))
	}
	states, values := 0, 0
	for _, k := range keys(c.Stms) {
		got := back.Tests[k]
		if got == nil {
			return fmt.Errorf("state machine %q is gone", k)
		}
		if g, w := ofStm(got).text(), c.Stms[k].text(); g != w {
			return fmt.Errorf("state machine %q became %s, was %s", k, g, w)
		}
		if g, w := ofStm(suite.Tests[k]).text(), c.Stms[k].text(); g != w {
			return fmt.Errorf("writing changed state machine %q to %s, was %s", k, g, w)
		}
		for _, n := range c.Stms[k].Tests {
			if !got.Tests.Has(n) {
				return fmt.Errorf("state machine %q: tests lack %q", k, n)
			}
		}
		if got.InitialState() != testlang.NodeID(c.Stms[k].States[0].ID) {
			return fmt.Errorf("state machine %q: initial state is %q, was %q", k, got.InitialState(), c.Stms[k].States[0].ID)
		}
		states += len(c.Stms[k].States)
		for _, s := range c.Stms[k].States {
			for _, set := range s.Sets {
				for _, tr := range set.Trans {
					if tr.Val.Text() != "none" {
						values++
					}
				}
			}
		}
	}
	if err := back.Write(&second); err != nil {
		return fmt.Errorf("can't be written again: %v", err)
	}
	if err := equivalent(first.Bytes(), second.Bytes()); err != nil {
		return err
	}
	rec.NonTrivialIf(states > 2 && values > 0)
	rec.LabelIf(states > 2, "state machines: over 2 states")
	rec.LabelIf(states > 100, "state machines: over 100 states")
	rec.LabelIf(values > 0, "state machines: transitions with values")
	rec.LabelIf(len(c.Types) > 0, "state machines: suite types")
	return nil
}

// equivalent compares two documents, ignoring the order of what are sets.
func equivalent(a, b []byte) error {
	var x, y any
	if err := json.Unmarshal(a, &x); err != nil {
		return fmt.Errorf("document doesn't parse: %v", err)
	}
	if err := json.Unmarshal(b, &y); err != nil {
		return fmt.Errorf("second document doesn't parse: %v", err)
	}
	unorder(x, 0)
	unorder(y, 0)
	if !reflect.DeepEqual(x, y) {
		return fmt.Errorf("written again, it differs: first\n%s\nthen\n%s", a, b)
	}
	return nil
}

// unorder sorts the lists made only of texts: the order of tests is checked on the read suites.
func unorder(x any, depth int) {
	switch x := x.(type) {
	case map[string]any:
		for _, v := range x {
			unorder(v, depth+1)
		}
	case []any:
		texts := true
		for _, v := range x {
			_, ok := v.(string)
			texts = texts && ok
			unorder(v, depth+1)
		}
		if texts {
			sort.Slice(x, func(i, j int) bool { return x[i].(string) < x[j].(string) })
		}
	}
}
