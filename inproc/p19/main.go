// Command p19 checks that collapsing is the inverse of expanding.
package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/lib"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Forbidden describes a forbidden trace.
type Forbidden struct {
	Name   string      `json:"name"`
	Prefix []lib.Event `json:"prefix"`
	Forbid lib.Event   `json:"forbid"`
}

// Case is a suite of forbidden traces to expand, and a suite of trees to collapse.
type Case struct {
	Traces []Forbidden          `json:"traces"` // with distinct names
	Trees  map[string]*lib.Node `json:"trees"`
}

func main() {
	pbt.InProcess = true
	pbt.Register("P19",
		"suites of forbidden traces over free events, expanded and collapsed one by one and together; and chains with up to two random defects (extra, missing, reordered or duplicated nodes; wrong outcomes; missing or stray events, test names and next nodes; anywhere in the chain), judged by a reference chain recogniser; non-trivial: a trace with a prefix was round-tripped and a tree that isn't a chain was given",
		gen, check)
	pbt.Main()
}

func gen(t *rapid.T) Case {
	var c Case
	names := lib.Names(t, "name", model.Range(t, "traces", 0, 5))
	for _, n := range names {
		f := Forbidden{Name: n, Forbid: lib.FreeEvent(t, false)}
		for k := model.Len(t, "prefix", 0, 5, 60); k > 0; k-- {
			f.Prefix = append(f.Prefix, lib.FreeEvent(t, false))
		}
		c.Traces = append(c.Traces, f)
	}
	if len(c.Traces) > 0 && model.Rarely(t, "big", 3) {
		f := &c.Traces[0]
		f.Prefix = append(f.Prefix, model.Cycle(t, append(f.Prefix, f.Forbid), model.Range(t, "bigPrefix", 50, 1500))...)
		for i := model.Range(t, "bigSuite", 0, 120); i > 0; i-- {
			g := c.Traces[i%len(names)]
			g.Prefix, g.Name = g.Prefix[:len(g.Prefix)/i], fmt.Sprint(g.Name, "~more", i)
			c.Traces = append(c.Traces, g)
		}
	}
	c.Trees = map[string]*lib.Node{}
	for _, n := range lib.Names(t, "tree", model.Range(t, "trees", 1, 3)) {
		tree := chain(t, n)
		for k := model.Range(t, "defects", 0, 2); k > 0; k-- {
			damage(t, tree)
		}
		c.Trees[n] = tree
	}
	return c
}

func chain(t *rapid.T, name string) *lib.Node {
	tests := []string{name}
	e := lib.FreeEvent(t, false)
	n := &lib.Node{Tests: tests, Outcome: lib.Pass, Event: &e, Next: []*lib.Node{{Tests: tests, Outcome: lib.Fail}}}
	var long []lib.Event
	if model.Rarely(t, "bigChain", 3) {
		long = model.Cycle(t, []lib.Event{e, lib.FreeEvent(t, false), lib.FreeEvent(t, false)}, model.Range(t, "bigChainLen", 50, 800))
	}
	for i := range long {
		n = &lib.Node{Tests: tests, Outcome: lib.Inc, Event: &long[i], Next: []*lib.Node{n}}
	}
	for k := model.Len(t, "prefix", 0, 4, 20); k > 0; k-- {
		e := lib.FreeEvent(t, false)
		n = &lib.Node{Tests: tests, Outcome: lib.Inc, Event: &e, Next: []*lib.Node{n}}
	}
	return &lib.Node{Tests: tests, Next: []*lib.Node{n}}
}

// nodes lists the nodes of a tree.
func nodes(n *lib.Node) []*lib.Node {
	res := []*lib.Node{n}
	for _, k := range n.Next {
		res = append(res, nodes(k)...)
	}
	return res
}

func clone(n *lib.Node) *lib.Node {
	m := *n
	m.Next = nil
	for _, k := range n.Next {
		m.Next = append(m.Next, clone(k))
	}
	return &m
}

// damage draws a change to a tree.
func damage(t *rapid.T, root *lib.Node) {
	all := nodes(root)
	i := model.Range(t, "at", 0, len(all)-1)
	if model.Chance(t, "fromEnd", 50) {
		i = len(all) - 1 - i%min(3, len(all))
	}
	n := all[i]
	switch model.Range(t, "damage", 0, 9) {
	case 0:
		n.Tests = nil
	case 1:
		n.Outcome = model.Range(t, "outcome", 0, lib.Bad)
	case 2:
		if n.Event != nil {
			n.Event = nil
		} else {
			e := lib.FreeEvent(t, false)
			n.Event = &e
		}
	case 3:
		n.Next = nil
	case 4: // branch to a copy of what follows
		if len(n.Next) > 0 {
			n.Next = append(n.Next, clone(n.Next[0]))
		}
	case 5: // branch to, or end in, a node of its own
		e := lib.FreeEvent(t, false)
		k := &lib.Node{Tests: []string{"x"}, Outcome: model.Range(t, "newOutcome", 0, lib.Fail), Event: &e}
		if k.Outcome == lib.Fail || k.Outcome == lib.Unset {
			k.Event = nil
		}
		if model.Chance(t, "first", 50) {
			n.Next = append([]*lib.Node{k}, n.Next...)
		} else {
			n.Next = append(n.Next, k)
		}
	case 6: // skip a node
		if len(n.Next) > 0 {
			n.Next = n.Next[0].Next
		}
	case 7: // repeat a node
		k := clone(n)
		n.Next = []*lib.Node{k}
	case 8: // insert a node
		e := lib.FreeEvent(t, false)
		n.Next = []*lib.Node{{Tests: []string{"x"}, Outcome: model.Range(t, "newOutcome", lib.Inc, lib.Pass), Event: &e, Next: n.Next}}
	case 9: // swap the contents of a node and the next one
		if len(n.Next) > 0 {
			k := n.Next[0]
			n.Tests, k.Tests = k.Tests, n.Tests
			n.Outcome, k.Outcome = k.Outcome, n.Outcome
			n.Event, k.Event = k.Event, n.Event
		}
	}
}

// recognise is the reference: the prefix and forbidden event of a chain, or why it isn't one.
func recognise(root *lib.Node) (prefix []lib.Event, forbid lib.Event, why string) {
	if root.Event != nil || root.Outcome != lib.Unset || len(root.Tests) == 0 {
		return nil, forbid, "bad root"
	}
	n, passed := root, false
	for depth := 1; ; depth++ {
		if len(n.Next) != 1 {
			return nil, forbid, "not linear"
		}
		n = n.Next[0]
		if len(n.Tests) == 0 {
			return nil, forbid, "no tests"
		}
		switch {
		case n.Outcome == lib.Inc && n.Event != nil && !passed:
			prefix = append(prefix, *n.Event)
		case n.Outcome == lib.Pass && n.Event != nil && !passed:
			forbid, passed = *n.Event, true
		case n.Outcome == lib.Fail && n.Event == nil && passed && len(n.Next) == 0:
			return prefix, forbid, ""
		default:
			return nil, forbid, fmt.Sprintf("unexpected node: outcome %d after passing: %v, with event: %v, with next: %d", n.Outcome, passed, n.Event != nil, len(n.Next))
		}
	}
}

func sameTrace(got trace.Forbidden, prefix []lib.Event, forbid lib.Event) error {
	gotTexts, want := lib.OfEvents(got.Prefix), lib.Texts(prefix)
	if fmt.Sprint(gotTexts) != fmt.Sprint(want) || len(gotTexts) != len(want) {
		return fmt.Errorf("collapsed to prefix %q, want %q", gotTexts, want)
	}
	if g := lib.OfEvent(got.Forbid); g.Text() != forbid.Text() {
		return fmt.Errorf("collapsed to forbidden event %s, want %s", g.Text(), forbid.Text())
	}
	return nil
}

func check(c Case, rec *pbt.Rec) error {
	prefixed, broken := false, false
	all := map[string]trace.Forbidden{}
	for _, f := range c.Traces {
		built := trace.New(lib.BuildAll(f.Prefix)...).ForbidWithName(f.Forbid.Build(), f.Name)
		all[f.Name] = built
		got, err := trace.Collapse(built.Expand(f.Name))
		if err != nil {
			return fmt.Errorf("expansion of %q doesn't collapse: %v", f.Name, err)
		}
		if err := sameTrace(got, f.Prefix, f.Forbid); err != nil {
			return fmt.Errorf("trace %q: %w", f.Name, err)
		}
		if err := sameTrace(built, f.Prefix, f.Forbid); err != nil {
			return fmt.Errorf("expanding %q changed it: %w", f.Name, err)
		}
		prefixed = prefixed || len(f.Prefix) > 0
	}
	suite := trace.ExpandAll(all)
	back, err := trace.CollapseAll(suite)
	if err != nil {
		return fmt.Errorf("expanded suite doesn't collapse: %v", err)
	}
	if len(back) != len(c.Traces) || len(suite) != len(c.Traces) {
		return fmt.Errorf("%d traces became %d tests and then %d traces", len(c.Traces), len(suite), len(back))
	}
	for _, f := range c.Traces {
		got, ok := back[f.Name]
		if !ok {
			return fmt.Errorf("trace %q is missing from the collapsed suite", f.Name)
		}
		if err := sameTrace(got, f.Prefix, f.Forbid); err != nil {
			return fmt.Errorf("trace %q of suite: %w", f.Name, err)
		}
	}

	// Trees that may not be chains.
	names := make([]string, 0, len(c.Trees))
	for n := range c.Trees {
		names = append(names, n)
	}
	sort.Strings(names)
	trees := testlang.Suite{}
	for k, v := range suite {
		trees[k] = v
	}
	anyBad := ""
	for _, n := range names {
		tree := c.Trees[n]
		built := tree.Build()
		prefix, forbid, why := recognise(tree)
		got, err := trace.Collapse(&built)
		switch {
		case why == "" && err != nil:
			return fmt.Errorf("tree %q is a chain, but doesn't collapse: %v", n, err)
		case why == "":
			if err := sameTrace(got, prefix, forbid); err != nil {
				return fmt.Errorf("tree %q: %w", n, err)
			}
			rec.Label("tree: chain")
		case err == nil:
			return fmt.Errorf("tree %q isn't a chain (%s), but collapsed to %v: %s", n, why, got, tree.Text())
		default:
			broken, anyBad = true, n
			rec.Label("tree: %s", strings.SplitN(why, ":", 2)[0])
		}
		if after := lib.OfNode(&built); after.Text() != tree.Text() {
			return fmt.Errorf("collapsing tree %q changed it from %s to %s", n, tree.Text(), after.Text())
		}
		trees[n] = &built
	}
	collapsed, err := trace.CollapseAll(trees)
	switch {
	case broken && err == nil:
		return fmt.Errorf("suite with tree %q, which isn't a chain, collapsed", anyBad)
	case !broken && err != nil:
		return fmt.Errorf("suite of chains doesn't collapse: %v", err)
	case !broken && len(collapsed) != len(trees):
		return fmt.Errorf("suite of %d chains collapsed to %d traces", len(trees), len(collapsed))
	}
	rec.NonTrivialIf(prefixed && broken)
	rec.LabelIf(prefixed, "trace with prefix")
	rec.LabelIf(len(c.Traces) > 20, "over 20 traces")
	rec.LabelIf(len(c.Traces) > 0 && len(c.Traces[0].Prefix) > 100, "prefix over 100 events")
	rec.Count("traces round-tripped", len(c.Traces))
	rec.Count("trees collapsed", len(c.Trees))
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
