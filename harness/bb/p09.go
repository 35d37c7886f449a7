package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// TreesCase is a suite of test trees, well-formed or not.
type TreesCase struct {
	Suite     model.Suite `json:"suite"`
	Mutations []string    `json:"mutations,omitempty"`
}

func init() {
	pbt.Register("P09",
		"suites of chains and factorised trees of any shape, with zero to three mutations (tests, outcome, event or next nodes removed, added or changed) at random nodes, given to rtcg-make-stms and compared with the reference well-formedness rule; non-trivial: mutated below the root, or accepted with at least two tests or a branch",
		genP09, checkP09)
}

// genShape draws any well-formed test tree.
func genShape(t *rapid.T, alpha []model.Event, depth int) *model.Node {
	names := []string{"a", "b", "c", "long name", "é"}
	tests := func() []string {
		if model.Rarely(t, "blankTest", 15) {
			// A name may be empty, and needn't be the only such.
			return make([]string, model.Range(t, "blankTests", 1, 2))
		}
		return append([]string{}, names[:model.Range(t, "numTests", 1, 3)]...)
	}
	event := func() *model.Event {
		e := model.From(t, "event", alpha)
		return &e
	}
	var build func(d int) *model.Node
	build = func(d int) *model.Node {
		if d <= 0 || model.Chance(t, "leaf", 35) {
			return &model.Node{Tests: tests(), Outcome: "pass", Event: event(), Next: []*model.Node{{Tests: tests(), Outcome: "fail"}}}
		}
		n := &model.Node{Tests: tests(), Outcome: "inc", Event: event()}
		for i := model.Range(t, "width", 1, 3); i > 0; i-- {
			n.Next = append(n.Next, build(d-1))
		}
		return n
	}
	root := build(depth)
	root.Event, root.Outcome = nil, ""
	if len(root.Next) == 1 && root.Next[0].Outcome == "fail" {
		root.Next = []*model.Node{build(0)}
	}
	return root
}

func genP09(t *rapid.T) TreesCase {
	chans := model.GenUniverse(t, model.UniOpts{Max: 4})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	c := TreesCase{Suite: model.Suite{}}
	n := model.Len(t, "numTests", 1, 3, 8)
	for i := 0; i < n; i++ {
		c.Suite[fmt.Sprintf("t%d", i)] = genShape(t, alpha, model.Range(t, "depth", 0, 4))
	}
	if model.Rarely(t, "big", 25) {
		enlarge(t, c.Suite, alpha)
	}
	for i := model.From(t, "numMutations", []int{0, 0, 1, 1, 1, 1, 2, 3}); i > 0; i-- {
		c.mutate(t, alpha)
	}
	return c
}

// enlarge makes a suite much larger in one direction, keeping its tests well-formed.
func enlarge(t *rapid.T, s model.Suite, alpha []model.Event) {
	keys := s.Keys()
	key := model.From(t, "enlargedTest", keys)
	root := s[key]
	kind := model.Range(t, "bigKind", 0, 3)
	if kind%2 == 1 && root.Next[0].Outcome == "fail" {
		kind = 0
	}
	switch kind {
	case 0: // deep
		s[key] = model.Prefixed(root, model.Cycle(t, alpha, model.Range(t, "bigDepth", 10, 300)))
	case 1: // wide
		next := root.Next
		for i := model.Range(t, "bigWidth", 10, 150); i > 0; i-- {
			root.Next = append(root.Next, clone(next[i%len(next)], fmt.Sprint("w", i)))
		}
	case 3: // wide, with many channels
		next := root.Next
		chans := model.Range(t, "bigChans", 3, 40)
		for i := model.Range(t, "bigWidth", 10, 80); i > 0; i-- {
			k := clone(next[i%len(next)], fmt.Sprint("w", i))
			e := *k.Event
			e.Ch += fmt.Sprint("_", i*7%chans)
			if e.Val != nil && !isNumber(*e.Val) {
				v := fmt.Sprint(*e.Val, "w", i)
				e.Val = &v
			}
			k.Event = &e
			root.Next = append(root.Next, k)
		}
	default: // many tests
		for i := model.Range(t, "bigSuite", 10, 80); i > 0; i-- {
			s[fmt.Sprintf("more%d", i)] = clone(s[keys[i%len(keys)]], "")
		}
	}
}

func isNumber(s string) bool {
	_, is := model.ParseInt(s)
	return is
}

// clone copies a tree, without its identifiers and with a suffix to its tests.
func clone(n *model.Node, suffix string) *model.Node {
	k := *n
	k.ID = ""
	k.Tests, k.Next = nil, nil
	for _, t := range n.Tests {
		k.Tests = append(k.Tests, t+suffix)
	}
	for _, m := range n.Next {
		k.Next = append(k.Next, clone(m, suffix))
	}
	return &k
}

func (c *TreesCase) mutate(t *rapid.T, alpha []model.Event) {
	key := model.From(t, "mutatedTest", c.Suite.Keys())
	var nodes []*model.Node
	var paths []int
	c.Suite[key].Walk(func(n *model.Node, depth int) { nodes = append(nodes, n); paths = append(paths, depth) })
	i := model.Range(t, "mutatedNode", 0, len(nodes)-1)
	n := nodes[i]
	kind := model.Pick(t, "mutation", "noTests", "outcome", "noEvent", "addEvent", "noNext", "addNext", "addFail", "dropNext", "truncate")
	switch kind {
	case "noTests":
		n.Tests = nil
	case "outcome":
		n.Outcome = model.Pick(t, "newOutcome", "", "inc", "pass", "fail")
	case "noEvent":
		n.Event = nil
	case "addEvent":
		e := model.From(t, "newEvent", alpha)
		n.Event = &e
	case "noNext":
		n.Next = nil
	case "addNext":
		e := model.From(t, "newEvent", alpha)
		n.Next = append(n.Next, &model.Node{Tests: []string{"a"}, Outcome: "pass", Event: &e, Next: []*model.Node{{Tests: []string{"a"}, Outcome: "fail"}}})
	case "addFail":
		n.Next = append(n.Next, &model.Node{Tests: []string{"a"}, Outcome: "fail"})
	case "dropNext":
		if len(n.Next) > 0 {
			n.Next = n.Next[1:]
		}
	case "truncate":
		if len(n.Next) > 0 {
			n.Next = n.Next[:1]
		}
	}
	c.Mutations = append(c.Mutations, fmt.Sprintf("%s at depth %d of %s", kind, paths[i], key))
}

// illFormed explains what is wrong with a test tree, or gives "".
func illFormed(n *model.Node, root bool) string {
	switch {
	case len(n.Tests) == 0:
		return "node without tests"
	case root && n.Event != nil:
		return "root with event"
	case root && n.Outcome != "":
		return "root with outcome"
	case root:
	case n.Outcome == "":
		return "node without outcome"
	case n.Outcome == "fail":
		if n.Event != nil {
			return "failing node with event"
		}
		if len(n.Next) != 0 {
			return "failing node with next nodes"
		}
	default:
		if n.Event == nil {
			return n.Outcome + " node without event"
		}
		if len(n.Next) == 0 {
			return n.Outcome + " node without next nodes"
		}
		if n.Outcome == "pass" && len(n.Next) != 1 {
			return "passing node with several next nodes"
		}
	}
	for _, k := range n.Next {
		if d := illFormed(k, false); d != "" {
			return d
		}
	}
	return ""
}

func checkP09(c TreesCase, rec *pbt.Rec) error {
	bad, badTests := "", 0
	for _, k := range c.Suite.Keys() {
		if d := illFormed(c.Suite[k], true); d != "" {
			bad = d
			badTests++
		}
	}
	out := MakeStms(c.Suite.Bytes())
	if why := out.Crashed(); why != "" {
		return fmt.Errorf("rtcg-make-stms %s: %s", why, out)
	}

	belowRoot := false
	for _, m := range c.Mutations {
		belowRoot = belowRoot || !strings.Contains(m, "depth 0 ")
	}
	branch := false
	for _, n := range c.Suite {
		n.Walk(func(n *model.Node, _ int) { branch = branch || len(n.Next) > 1 })
	}
	nodes := 0
	for _, n := range c.Suite {
		n.Walk(func(*model.Node, int) { nodes++ })
	}
	rec.LabelIf(len(c.Suite) > 10, "over 10 tests")
	rec.LabelIf(nodes > 100, "over 100 nodes")
	rec.NonTrivialIf(belowRoot || (bad == "" && (branch || len(c.Suite) > 1)))

	if bad != "" {
		rec.Label("rejected: %s", bad)
		rec.LabelIf(badTests < len(c.Suite), "well-formed tests beside the ill-formed one")
		return mustReject(out, "a suite with an ill-formed test ("+bad+")")
	}
	if !suiteTypesOK(c.Suite) {
		pbt.Infra("generated suite has a type conflict")
	}
	rec.LabelIf(len(c.Mutations) > 0, "accepted though mutated")
	rec.LabelIf(len(c.Mutations) == 0, "accepted")
	if out.Code != 0 {
		return fmt.Errorf("well-formed suite was rejected: %s", out)
	}
	var s jstms
	parseInto(out.Stdout, &s, "output of rtcg-make-stms")
	if strings.Join(keysOf(s.Tests), "\n") != strings.Join(c.Suite.Keys(), "\n") {
		return fmt.Errorf("state machines for %q, want %q", keysOf(s.Tests), c.Suite.Keys())
	}
	return nil
}

// mustReject checks that a tool reported an error and nothing else.
func mustReject(out Out, what string) error {
	switch {
	case out.Crashed() != "":
		return fmt.Errorf("%s: %s: %s", what, out.Crashed(), out)
	case out.Code == 0:
		return fmt.Errorf("%s was accepted: %s; stdout: %s", what, out, clip(string(out.Stdout), 600))
	case len(out.Stdout) != 0:
		return fmt.Errorf("%s was rejected, but with output: %s; stdout: %s", what, out, clip(string(out.Stdout), 600))
	case len(strings.TrimSpace(string(out.Stderr))) == 0:
		return fmt.Errorf("%s was rejected without a message: %s", what, out)
	}
	return nil
}
