package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// MachState is a state of a machine that needn't come from a tree.
type MachState struct {
	ID       string            `json:"id"`
	Verdicts map[string]string `json:"verdicts,omitempty"` // inc, pass or fail
	Bare     bool              `json:"bare,omitempty"`     // whether no verdicts are given even if there are none
	Trans    []MachTrans       `json:"trans,omitempty"`
	Split    bool              `json:"split,omitempty"` // whether each transition is in a set of its own
}

// MachTrans is a transition.
type MachTrans struct {
	Ev model.Event `json:"ev"`
	To int         `json:"to"`
}

// Mach is a state machine; it starts in the first state.
type Mach struct {
	Tests  []string    `json:"tests"`
	States []MachState `json:"states"`
}

// MachCase is a suite of state machines and histories of their tests.
type MachCase struct {
	Machs   map[string]Mach         `json:"machs"`
	Convs   []Conv                  `json:"convs,omitempty"`
	Animate bool                    `json:"animate,omitempty"`
	Scripts map[string][]model.Play `json:"scripts"`
}

func init() {
	pbt.Register("P27",
		"suites of state machines given to rtcg-gen directly: up to nine states in any order, with loops, shared, unreachable and dead ends, any verdicts on any states, and transitions of a channel in one set or several; compiled for animate or ROS and played each event in each state that can be reached, and random walks, some with up to 1000 steps; status, verdicts, exit code and publications are compared with an interpreter of the machine; non-trivial: some history enters a state twice",
		genP27, checkP27)
}

// interp runs a machine; what it shares with tests made from trees is in Machine.
type interp struct {
	model.Machine
	mach    Mach
	cur     int
	hasIn   bool
	entered []int
}

func newInterp(m Mach) *interp {
	i := &interp{mach: m, entered: make([]int, len(m.States))}
	i.Verdict = map[string]string{}
	for _, t := range m.Tests {
		i.Verdict[t] = "unset"
	}
	for _, s := range m.States {
		i.hasIn = i.hasIn || s.in() != nil
	}
	if m.States[0].in() != nil {
		i.Status = model.WaitStart
	} else {
		i.enter(0)
	}
	return i
}

func (s MachState) in() *MachTrans {
	for i, t := range s.Trans {
		if t.Ev.Kind == "in" {
			return &s.Trans[i]
		}
	}
	return nil
}

var verdictWord = map[string]string{"inc": "inconclusive", "pass": "passed", "fail": "failed"}

func (i *interp) enter(n int) {
	i.cur = n
	i.entered[n]++
	s := i.mach.States[n]
	fails := false
	for t, v := range s.Verdicts {
		i.Verdict[t] = verdictWord[v]
		fails = fails || v == "fail"
	}
	in := s.in()
	switch {
	case fails:
		i.Status = model.Fail
	case in != nil:
		i.Status = model.WaitIn
		val := ""
		if in.Ev.Val != nil {
			val = *in.Ev.Val
		}
		i.Sent = append(i.Sent, model.Sent{Ch: in.Ev.Ch, Val: val})
	default:
		i.Status = model.WaitOut
	}
}

// apply applies a step; on animate, words that aren't offered are ignored.
func (i *interp) apply(s model.Step, animate bool) {
	if !i.Running() {
		return
	}
	switch s.Op {
	case "ready":
		if i.Status == model.WaitStart {
			i.enter(0)
		}
	case "timeout":
		i.Status = model.Timeout
	case "accept":
		switch {
		case i.Status == model.WaitIn:
			i.enter(i.mach.States[i.cur].in().To)
		case i.hasIn && !animate:
			i.Status = model.Bug
		}
	case "out":
		if i.Status == model.WaitOut {
			for _, t := range i.mach.States[i.cur].Trans {
				if t.Ev.Ch == s.Ev.Ch && t.Ev.Kind != "in" && sameText(t.Ev.Val, s.Ev.Val) {
					i.enter(t.To)
					return
				}
			}
		}
		i.Status = model.OffScript
	}
}

func sameText(a, b *string) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

// follow draws a step that the test waits for.
func (i *interp) follow(t *rapid.T) model.Step {
	switch i.Status {
	case model.WaitStart:
		return model.Step{Op: "ready"}
	case model.WaitIn:
		return model.Step{Op: "accept"}
	}
	trans := i.mach.States[i.cur].Trans
	if len(trans) == 0 {
		return model.Step{Op: "timeout"}
	}
	return model.Step{Op: "out", Ev: &trans[rapid.Uniform(len(trans)).Draw(t, "trans")].Ev}
}

// flat is a tree with the events of the machine, for what depends on these only.
func (m Mach) flat() *model.Node {
	root := &model.Node{}
	for i := range m.States {
		for j := range m.States[i].Trans {
			root.Next = append(root.Next, &model.Node{Event: &m.States[i].Trans[j].Ev})
		}
	}
	return root
}

func (c MachCase) events() []model.Event {
	s := model.Suite{}
	for name, m := range c.Machs {
		s[name] = m.flat()
	}
	return s.Events()
}

// json gives the machine as rtcg-gen reads it.
func (m Mach) json(types map[string]string) map[string]any {
	own := map[string]string{}
	var states []any
	for _, s := range m.States {
		var sets []map[string]any
		for _, t := range s.Trans {
			own[t.Ev.Ch] = types[t.Ev.Ch]
			ch := t.Ev.Ch + "." + t.Ev.Kind
			tr := map[string]any{"next": m.States[t.To].ID}
			if t.Ev.Val != nil {
				tr["value"] = *t.Ev.Val
			}
			found := false
			for _, set := range sets {
				if !s.Split && set["channel"] == ch {
					set["transitions"] = append(set["transitions"].([]any), tr)
					found = true
				}
			}
			if !found {
				sets = append(sets, map[string]any{"channel": ch, "transitions": []any{tr}})
			}
		}
		js := map[string]any{"id": s.ID}
		if len(sets) > 0 {
			js["transitionSets"] = sets
		}
		if len(s.Verdicts) > 0 || !s.Bare {
			v := map[string]string{}
			for t, o := range s.Verdicts {
				v[t] = o
			}
			js["verdicts"] = v
		}
		states = append(states, js)
	}
	return map[string]any{"states": states, "tests": m.Tests, "types": own}
}

func genMach(t *rapid.T, name string, alpha []model.Event) Mach {
	var ins, outs []model.Event
	for _, e := range alpha {
		if e.Kind == "in" {
			ins = append(ins, e)
		} else {
			outs = append(outs, e)
		}
	}
	m := Mach{Tests: []string{name}}
	if model.Chance(t, "members", 60) {
		m.Tests = nil
		for i := 1 + rapid.Uniform(4).Draw(t, "numMembers"); i > 0; i-- {
			m.Tests = append(m.Tests, fmt.Sprintf("%s%d", model.Pick(t, "member", "m", "Test_", "step"), i))
		}
	}
	n := model.Len(t, "numStates", 1, 9, 24)
	names := rapid.Permutation([]string{"initial", "a", "b_", "step_1", "step1", "step_0", "Step2", "last", "initial_", "s10", "s1", "x_1"}).Draw(t, "ids")
	fails := model.Pick(t, "failPct", 0, 5, 15)
	for i := 0; i < n; i++ {
		s := MachState{ID: fmt.Sprintf("n%d", i)}
		if i < len(names) && model.Chance(t, "ownID", 60) {
			s.ID = names[i]
		}
		s.Bare = model.Chance(t, "bare", 30)
		s.Split = model.Chance(t, "split", 25)
		for _, u := range m.Tests {
			if model.Chance(t, "verdict", 55) {
				if s.Verdicts == nil {
					s.Verdicts = map[string]string{}
				}
				s.Verdicts[u] = model.Pick(t, "outcome", "inc", "pass")
				if model.Chance(t, "fails", fails) {
					s.Verdicts[u] = "fail"
				}
			}
		}
		to := func() int {
			switch rapid.Uniform(6).Draw(t, "toKind") {
			case 0:
				return 0
			case 1:
				return i
			case 2, 3:
				return (i + 1) % n
			default:
				return rapid.Uniform(n).Draw(t, "to")
			}
		}
		switch {
		case model.Chance(t, "dead", 7):
		case len(ins) > 0 && (len(outs) == 0 || model.Chance(t, "input", 35)):
			s.Trans = []MachTrans{{Ev: model.From(t, "in", ins), To: to()}}
		default:
			idx := rapid.Permutation(seqInts(len(outs))).Draw(t, "outs")
			w := 1 + rapid.Uniform(5).Draw(t, "width")
			for j := 0; j < w && j < len(idx); j++ {
				s.Trans = append(s.Trans, MachTrans{Ev: outs[idx[j]], To: to()})
			}
		}
		m.States = append(m.States, s)
	}
	return m
}

func genP27(t *rapid.T) MachCase {
	c := MachCase{Machs: map[string]Mach{}, Animate: model.Chance(t, "animate", 50), Scripts: map[string][]model.Play{}}
	chans := model.GenUniverse(t, model.UniOpts{Max: 5, Types: []string{"enum", "()", "nat", "int", "enum"}})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{Cpp: true, Typed: c.Animate})
	for i := 1 + rapid.Uniform(2).Draw(t, "numMachs"); i > 0; i-- {
		name := fmt.Sprintf("%s%d", model.Pick(t, "testName", "test", "Case", "t_"), i)
		c.Machs[name] = genMach(t, name, alpha)
	}
	types, ok := model.Types(c.events())
	if !ok {
		pbt.Infra("channels of several types")
	}
	c.Convs = GenConvs(t, types, 12)
	for _, name := range keysOf(c.Machs) {
		m := c.Machs[name]
		outs := model.Stray(m.flat(), c.events(), types, c.Animate)
		for j := 0; j < 12; j++ {
			follow := model.Pick(t, "followPct", 90, 97, 100)
			i := newInterp(m)
			var p model.Play
			after := rapid.Uniform(4).Draw(t, "after")
			size := 1 + rapid.Uniform(60).Draw(t, "size")
			if j == 0 && model.Chance(t, "long", 25) {
				size, follow = 300+rapid.Uniform(700).Draw(t, "longSize"), 100
			}
			for len(p) < size {
				if !i.Running() {
					if after--; after < 0 || c.Animate {
						break
					}
				}
				var s model.Step
				switch {
				case i.Running() && rapid.Uniform(100).Draw(t, "follow") < follow:
					s = i.follow(t)
				case len(outs) > 0 && model.Chance(t, "strayOut", 50):
					e := model.From(t, "stray", outs)
					s = model.Step{Op: "out", Ev: &e}
				default:
					s = model.Step{Op: model.Pick(t, "op", "ready", "accept", "timeout")}
				}
				p = append(p, s)
				i.apply(s, c.Animate)
			}
			c.Scripts[name] = append(c.Scripts[name], p)
		}
	}
	return c
}

// perState gives, for each state that can be reached, a history that gets there and then does each thing in turn.
func perState(m Mach, outs []model.Event) []model.Play {
	type visit struct{ path model.Play }
	reach := make([]*visit, len(m.States))
	reach[0] = &visit{}
	if m.States[0].in() != nil {
		reach[0].path = model.Play{{Op: "ready"}}
	}
	var plays []model.Play
	for queue := []int{0}; len(queue) > 0; queue = queue[1:] {
		n := queue[0]
		path := reach[n].path
		add := func(s model.Step) {
			plays = append(plays, append(path[:len(path):len(path)], s))
		}
		add(model.Step{Op: "timeout"})
		add(model.Step{Op: "accept"})
		add(model.Step{Op: "ready"})
		for j := range outs {
			add(model.Step{Op: "out", Ev: &outs[j]})
		}
		s := m.States[n]
		fails := false
		for _, v := range s.Verdicts {
			fails = fails || v == "fail"
		}
		if fails {
			continue
		}
		for j, t := range s.Trans {
			step := model.Step{Op: "out", Ev: &s.Trans[j].Ev}
			if t.Ev.Kind == "in" {
				step = model.Step{Op: "accept"}
			}
			if reach[t.To] == nil {
				reach[t.To] = &visit{append(path[:len(path):len(path)], step)}
				queue = append(queue, t.To)
			}
		}
	}
	return plays
}

func checkP27(c MachCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	types, _ := model.Types(c.events())
	tests := map[string]any{}
	for name, m := range c.Machs {
		tests[name] = m.json(types)
	}
	variant := "ros"
	if c.Animate {
		variant = "animate"
	}
	if len(c.Convs) > 0 {
		mustWrite(filepath.Join(dir, "in", variant, "src", "convert", "convert.cpp"), []byte(ConvertCpp(c.Convs, !c.Animate)))
	}
	cfg := Config{Variants: []Variant{Variant{Name: variant}.WithConvs(c.Convs)}}
	mustOK(GenFrom(dir, cfg.XML(), mustIndent(map[string]any{"types": types, "tests": tests})), "generating tests")
	b := buildTests(filepath.Join(dir, "out", variant, "src"), keysOf(c.Machs), !c.Animate, len(c.Convs) > 0)
	rec.Label("%s", variant)
	rec.LabelIf(!b.Whole, "compiled one by one")
	for _, name := range keysOf(c.Machs) {
		m := c.Machs[name]
		outs := model.Stray(m.flat(), c.events(), types, c.Animate)
		plays := perState(m, outs)
		if len(plays) > 150 {
			var kept []model.Play
			for i := 0; i < 150; i++ {
				kept = append(kept, plays[i*len(plays)/150])
			}
			plays = kept
		}
		for _, p := range append(plays, c.Scripts[name]...) {
			i, err := c.play(b, name, p)
			if err != nil {
				return err
			}
			rec.Count("histories", 1)
			rec.Count("histories ending as: "+i.Status, 1)
			again := false
			for _, n := range i.entered {
				again = again || n > 1
			}
			rec.NonTrivialIf(again)
			if len(p) >= 300 {
				rec.Count("histories of at least 300 steps", 1)
			}
			if again {
				rec.Count("histories entering a state again", 1)
			}
		}
		rec.LabelIf(m.States[0].ID != "initial", "not called initial")
		rec.LabelIf(len(m.States) > 5, "over 5 states")
		for _, s := range m.States {
			rec.LabelIf(s.Bare && len(s.Verdicts) == 0, "state without verdicts")
			rec.LabelIf(s.Split && len(s.Trans) > 1, "transitions in separate sets")
			rec.LabelIf(len(s.Trans) == 0, "dead end")
			rec.LabelIf(s.Bare && len(s.Verdicts) == 0 && len(s.Trans) == 0, "empty state")
		}
	}
	return nil
}

// play plays a history and compares it with the interpreter's.
func (c MachCase) play(b Built, name string, p model.Play) (*interp, error) {
	i := newInterp(c.Machs[name])
	if c.Animate {
		var in []string
		for _, s := range p {
			in = append(in, words(s)...)
			i.apply(s, true)
		}
		if i.Running() {
			in = append(in, "timeout")
			i.Status = model.Timeout
		}
		o := b.animateRun(name, in)
		if d := endDiff(parseEnd(o), &i.Machine); d != "" {
			return i, fmt.Errorf("test %q played %q: %s\nlog:\n%s", name, in, d, clip(string(o.Stderr), 3000))
		}
		log := string(o.Stderr)
		for _, s := range i.Sent {
			at := strings.Index(log, sentMark)
			if at < 0 || !strings.HasPrefix(log[at+len(sentMark):], s.Ch+" after conversion: ") {
				return i, fmt.Errorf("test %q played %q doesn't send the inputs due (%s)\nlog:\n%s", name, in, show(i.Sent), clip(string(o.Stderr), 3000))
			}
			log = log[at+len(sentMark):]
		}
		if strings.Contains(log, sentMark) {
			return i, fmt.Errorf("test %q played %q sends more inputs than are due (%s)\nlog:\n%s", name, in, show(i.Sent), clip(string(o.Stderr), 3000))
		}
		return i, nil
	}

	r := b.rosRun(name, script(c.Convs, p))
	var want [][]RosMsg
	sent := 0
	note := func() {
		var msgs []RosMsg
		for ; sent < len(i.Sent); sent++ {
			s := i.Sent[sent]
			msgs = append(msgs, RosMsg{Topic: model.Topic(s.Ch), Payload: payload(c.Convs, s.Ch, s.Val, false)})
		}
		want = append(want, msgs)
	}
	note()
	final := 0
	for _, s := range p {
		if final == 0 && !i.Running() {
			final = len(want)
		}
		i.apply(s, false)
		note()
	}
	want = untilFinal(want, final, len(r.Sent))
	// What is left running times out, or is stopped by the scripted ROS.
	e := parseEnd(r.Out)
	if d := endDiff(e, &i.Machine); d != "" {
		return i, fmt.Errorf("ROS test %q given %s: %s\nlog:\n%s", name, show(p), d, clip(string(bytes.ReplaceAll(r.Stderr, []byte("\n\n"), []byte("\n"))), 3000))
	}
	if a, b := fmt.Sprintf("%q", r.Sent), fmt.Sprintf("%q", want); a != b {
		return i, fmt.Errorf("ROS test %q given %s published %s, want %s", name, show(p), a, b)
	}
	return i, nil
}
