package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// PlayCase is a suite of traces and scripts to play to its tests.
type PlayCase struct {
	Rows    []model.Trace           `json:"rows"`
	Scripts map[string][]model.Play `json:"scripts"` // by test name
}

func init() {
	pbt.Register("P01",
		"suites of forbidden traces taken through read-traces, make-stms and rtcg-gen and compiled; each test is played its complete forbidden history, every prefix of it followed by a timeout, every single deviation from it by one event or word, and random histories, and compared with the reference machine; non-trivial: some test has at least two events, one of them an output or call",
		genP01, checkP01)

	pbt.Register("P02",
		"factorised trees over up to eight member tests, taken through make-stms and rtcg-gen and compiled, played every member's forbidden history and random histories; status and each member's verdict are compared with the member's own machine; non-trivial: at least two members and a branch",
		genP02, checkP02)
}

// animateSuite draws rows that can be played on the animate variant.
func animateRows(t *rapid.T) []model.Trace {
	return model.GenRows(t, model.SuiteOpts{
		Uni: model.UniOpts{Max: 5}, Val: model.ValOpts{Cpp: true, Typed: true}, MaxTests: 4, MaxEvents: 30,
	})
}

func genP01(t *rapid.T) PlayCase {
	c := PlayCase{Rows: animateRows(t), Scripts: map[string][]model.Play{}}
	if model.Chance(t, "similarNames", 15) {
		if from, to := model.SimilarNames(t, model.ToSuite(c.Rows)); from != "" {
			for _, r := range c.Rows {
				for i := range r.Events {
					if r.Events[i].Ch == from {
						r.Events[i].Ch = to
					}
				}
			}
		}
	}
	suite := model.ToSuite(c.Rows)
	alpha := suite.Events()
	types, _ := model.Types(alpha)
	for _, name := range suite.Keys() {
		outs := model.Stray(suite[name], alpha, types, true)
		for i := 0; i < 4; i++ {
			c.Scripts[name] = append(c.Scripts[name], model.GenScript(t, suite[name], outs, model.Pick(t, "followPct", 60, 85, 95)))
		}
	}
	return c
}

// words gives what is typed for a step.
func words(s model.Step) []string {
	switch s.Op {
	case "out":
		if s.Ev.Val == nil {
			return []string{s.Ev.Ch}
		}
		return []string{s.Ev.Ch, *s.Ev.Val}
	case "junk":
		return []string{"?!junk"}
	default:
		return []string{s.Op}
	}
}

// playAnimate plays a script and compares the outcome with the machine's.
func playAnimate(b Built, test string, root *model.Node, script model.Play) (*model.Machine, Out, error) {
	m := model.NewMachine(root)
	var in []string
	for _, s := range script {
		in = append(in, words(s)...)
		model.Apply(m, s)
	}
	if m.Running() {
		in = append(in, "timeout")
		m.Timeout()
	}
	o := b.animateRun(test, in)
	e := parseEnd(o)
	if d := endDiff(e, m); d != "" {
		return m, o, fmt.Errorf("test %q played %q: %s\nlog:\n%s", test, in, d, clip(string(o.Stderr), 3000))
	}
	return m, o, nil
}

// endDiff compares how a test ended with what the machine predicts.
func endDiff(e Ended, m *model.Machine) string {
	if e.Code != m.ExitCode() {
		return fmt.Sprintf("exit code is %d, want %d (%s)", e.Code, m.ExitCode(), m.Status)
	}
	if e.Status != m.Status {
		return fmt.Sprintf("status is %q, want %q", e.Status, m.Status)
	}
	if a, b := show(e.Verdict), show(m.Verdict); a != b {
		return fmt.Sprintf("verdicts are %s, want %s", a, b)
	}
	return ""
}

// systematic gives the forbidden history of a chain test, each prefix of it, and each single deviation from it.
func systematic(root *model.Node, outs []model.Event, limit int) []model.Play {
	full := model.FullScript(root, func(kids []*model.Node) *model.Node { return kids[0] })
	plays := []model.Play{full}
	for i := len(full) - 1; i >= 0; i-- {
		pre := full[:i:i]
		plays = append(plays, append(pre, model.Step{Op: "timeout"}))
		for _, op := range []string{"ready", "accept"} {
			if full[i].Op != op {
				plays = append(plays, append(append(pre, model.Step{Op: op}), full[i:]...))
			}
		}
		for j := range outs {
			if full[i].Op != "out" || !full[i].Ev.Same(outs[j]) {
				plays = append(plays, append(append(pre, model.Step{Op: "out", Ev: &outs[j]}), full[i:]...))
			}
		}
	}
	if len(plays) > limit {
		// Keep a spread of them.
		kept := plays[:1:1]
		for i := 1; i < limit; i++ {
			kept = append(kept, plays[1+(i-1)*(len(plays)-1)/(limit-1)])
		}
		plays = kept
	}
	return plays
}

func checkP01(c PlayCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()

	tests := mustOK(ReadTraces([]byte(model.CSV(c.Rows))), "reading traces").Stdout
	stms := mustOK(MakeStms(tests), "making state machines").Stdout
	mustOK(GenFrom(dir, Animate().XML(), stms), "generating tests")

	suite := model.ToSuite(c.Rows)
	b := buildTests(filepath.Join(dir, "out", "animate", "src"), suite.Keys(), false, false)
	rec.LabelIf(!b.Whole, "compiled one by one")

	alpha := suite.Events()
	types, _ := model.Types(alpha)
	for _, name := range suite.Keys() {
		root := suite[name]
		outs := model.Stray(root, alpha, types, true)
		plays := append(systematic(root, outs, 60), c.Scripts[name]...)
		for _, p := range plays {
			m, _, err := playAnimate(b, name, root, p)
			if err != nil {
				return err
			}
			rec.Count("histories", 1)
			rec.Count("histories ending as: "+m.Status, 1)
		}
		evs := root.Events()
		hasOut := false
		for _, e := range evs {
			hasOut = hasOut || e.Kind != "in"
			rec.Label("kind %s, type %s", e.Kind, e.Type())
		}
		rec.NonTrivialIf(len(evs) > 1 && hasOut)
		rec.LabelIf(len(evs) > 8, "over 8 events")
	}
	rec.LabelIf(len(suite) > 1, "several tests")
	return nil
}

// TreePlayCase is a factorised test tree and scripts to play to it.
type TreePlayCase struct {
	Tree    *model.Node  `json:"tree"`
	Scripts []model.Play `json:"scripts"`
}

func genP02(t *rapid.T) TreePlayCase {
	chans := model.GenUniverse(t, model.UniOpts{Max: 5})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{Cpp: true, Typed: true})
	tree := model.GenTree(t, alpha, model.TreeOpts{Depth: 5, Width: 3, Mixed: true})
	c := TreePlayCase{Tree: tree}
	finishSuite(t, model.Suite{"t": tree}, true)
	all := model.Suite{"t": tree}.Events()
	types, _ := model.Types(all)
	outs := model.Stray(tree, all, types, true)
	for i := 0; i < 20; i++ {
		c.Scripts = append(c.Scripts, model.GenScript(t, tree, outs, model.Pick(t, "followPct", 50, 80, 95)))
	}
	return c
}

// memberTraces gives the forbidden traces of a tree's members.
func memberTraces(root *model.Node) map[string][]model.Event {
	res := map[string][]model.Event{}
	var walk func(n *model.Node, path []model.Event)
	walk = func(n *model.Node, path []model.Event) {
		if n.Event != nil {
			path = append(path[:len(path):len(path)], *n.Event)
		}
		for _, k := range n.Next {
			if k.Outcome == "fail" {
				for _, t := range k.Tests {
					res[t] = path
				}
			}
			walk(k, path)
		}
	}
	walk(root, nil)
	return res
}

// mixedMembers gives the members whose failing node lies beside other nodes; their last event's node can't be passing.
func mixedMembers(root *model.Node) map[string]bool {
	res := map[string]bool{}
	root.Walk(func(n *model.Node, _ int) {
		for _, k := range n.Next {
			for _, t := range k.Tests {
				if k.Outcome == "fail" && len(n.Next) > 1 {
					res[t] = true
				}
			}
		}
	})
	return res
}

func checkP02(c TreePlayCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	name := "combined"
	suite := model.Suite{name: c.Tree}
	stms := mustOK(MakeStms(suite.Bytes()), "making state machines").Stdout
	mustOK(GenFrom(dir, Animate().XML(), stms), "generating tests")
	b := buildTests(filepath.Join(dir, "out", "animate", "src"), []string{name}, false, false)

	members := memberTraces(c.Tree)
	mixed := mixedMembers(c.Tree)
	rec.LabelIf(len(mixed) > 0, "failing nodes beside others")
	plays := c.Scripts
	// Each leaf's history.
	for _, t := range keysOf(members) {
		on := map[*model.Node]bool{}
		var mark func(n *model.Node) bool
		mark = func(n *model.Node) bool {
			for _, k := range n.Next {
				if mark(k) {
					on[n] = true
				}
			}
			for _, u := range n.Tests {
				if n.Outcome == "fail" && u == t {
					return true
				}
			}
			return on[n]
		}
		mark(c.Tree)
		plays = append(plays, model.FullScript(c.Tree, func(kids []*model.Node) *model.Node {
			for _, k := range kids {
				if on[k] {
					return k
				}
			}
			return kids[0]
		}))
	}

	branch := false
	c.Tree.Walk(func(n *model.Node, _ int) { branch = branch || len(n.Next) > 1 })
	rec.NonTrivialIf(len(members) > 1 && branch)
	rec.LabelIf(len(members) > 4, "over 4 members")
	rec.LabelIf(branch, "branching")

	for _, p := range plays {
		m, o, err := playAnimate(b, name, c.Tree, p)
		if err != nil {
			return err
		}
		rec.Count("histories", 1)
		rec.Count("histories ending as: "+m.Status, 1)

		// Each member by itself.
		e := parseEnd(o)
		own := map[string]*model.Machine{}
		for t, evs := range members {
			own[t] = model.NewMachine(model.Chain(t, evs))
		}
		comb := model.NewMachine(c.Tree)
		for _, s := range append(p[:len(p):len(p)], model.Step{Op: "timeout"}) {
			if comb.Status == model.Fail {
				break
			}
			model.Apply(comb, s)
			for _, om := range own {
				model.Apply(om, s)
			}
		}
		failed := 0
		for _, t := range keysOf(members) {
			if mixed[t] && own[t].Verdict[t] == "passed" && e.Verdict[t] == "inconclusive" {
				continue
			}
			if own[t].Verdict[t] != e.Verdict[t] {
				return fmt.Errorf("member %q of the combined test played %s has verdict %q, but by itself it would have %q", t, show(p), e.Verdict[t], own[t].Verdict[t])
			}
			if e.Verdict[t] == "failed" {
				failed++
			}
		}
		if (failed > 0) != (e.Code == 1) {
			return fmt.Errorf("combined test played %s: %d members failed, but exit code is %d", show(p), failed, e.Code)
		}
		rec.LabelIf(failed > 1, "two members fail at once")
	}
	return nil
}

func join(xs []string) string { return strings.Join(xs, ",") }
