package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// RosCase is a suite of test trees, conversions for some channels, and callback schedules.
type RosCase struct {
	Suite     model.Suite             `json:"suite"`
	Convs     []Conv                  `json:"convs,omitempty"`
	Schedules map[string][]model.Play `json:"schedules"`
	Animate   bool                    `json:"animate,omitempty"` // whether to play on the animate variant instead
}

func init() {
	pbt.Register("P03",
		"suites of chains and factorised trees, with user conversions (not identities) on some channels, compiled for the ROS variant (against a scripted ROS) or the animate variant, and played their forbidden histories and random ones; the messages published (values logged) during each step are compared with the reference machine; non-trivial: some schedule makes the test send at least two inputs",
		genP03, checkP03)

	pbt.Register("P04",
		"suites of chains and factorised trees compiled for the ROS variant against a scripted ROS, and callback schedules (outputs, acknowledgements, initial delay and timeout in any order and number, early and repeated ones, and several after the test has ended) with the outcome and publications compared with the reference machine; non-trivial: a schedule has a callback after the end of the test or an untimely acknowledgement or delay",
		genP04, checkP04)

	pbt.Register("P21",
		"suites over channels named by random identifiers in mixed case with digits, underscores and letters outside ASCII, some with user conversions, compiled for the ROS variant; the topics that each test advertises and subscribes to are compared with the reference naming; non-trivial: some name has an underscore inserted and some name already has one or a digit",
		genP21, checkP21)
}

// genRosSuite draws chains and trees over channels of any types, with names that make different ROS topics unless ros is false.
func genRosSuite(t *rapid.T, maxTests int, typed, ros bool, kinds ...string) (model.Suite, map[string]string) {
	chans := model.GenUniverse(t, model.UniOpts{Max: 5, Kinds: kinds, Types: []string{"enum", "()", "nat", "int", "enum"}})
	opts := model.ValOpts{Cpp: true, Typed: typed}
	alpha := model.GenAlphabet(t, chans, opts)
	suite := model.Suite{}
	n := model.Len(t, "numTests", 1, maxTests, 4*maxTests)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%d", model.Pick(t, "testName", "test", "Case", "t_"), i)
		if model.Chance(t, "tree", 30) {
			suite[name] = model.GenTree(t, alpha, model.TreeOpts{Depth: 4, Width: 3, Mixed: true})
			continue
		}
		evs := make([]model.Event, model.Len(t, "numEvents", 1, 6, 30))
		for j := range evs {
			evs[j] = model.From(t, "event", alpha)
		}
		suite[name] = model.Chain(name, evs)
	}
	finishSuite(t, suite, !ros)
	types, _ := model.Types(suite.Events())
	return suite, types
}

// finishSuite gives nodes identifiers and, if similar is set, channels similar names.
func finishSuite(t *rapid.T, suite model.Suite, similar bool) {
	for _, k := range suite.Keys() {
		if model.Chance(t, "givenIDs", 15) {
			model.GiveIDs(t, suite[k])
		}
	}
	if similar && model.Chance(t, "similarNames", 35) {
		if from, to := model.SimilarNames(t, suite); from != "" {
			suite.Rename(from, to)
		}
	}
}

func genP03(t *rapid.T) RosCase {
	c := RosCase{Schedules: map[string][]model.Play{}, Animate: model.Chance(t, "animate", 35)}
	var types map[string]string
	c.Suite, types = genRosSuite(t, 3, c.Animate, !c.Animate, "in", "in", "out", "call")
	c.Convs = GenConvs(t, types, 35)
	for _, name := range c.Suite.Keys() {
		outs := model.Stray(c.Suite[name], c.Suite.Events(), types, c.Animate)
		for i := 0; i < 6; i++ {
			p := model.GenScript(t, c.Suite[name], outs, model.Pick(t, "followPct", 80, 95, 99))
			if !c.Animate {
				p = withoutJunk(p)
			}
			c.Schedules[name] = append(c.Schedules[name], p)
		}
	}
	return c
}

func genP04(t *rapid.T) RosCase {
	c := RosCase{Schedules: map[string][]model.Play{}}
	var types map[string]string
	c.Suite, types = genRosSuite(t, 3, false, true)
	c.Convs = GenConvs(t, types, 20)
	for _, name := range c.Suite.Keys() {
		outs := model.Stray(c.Suite[name], c.Suite.Events(), types, false)
		for i := 0; i < 25; i++ {
			c.Schedules[name] = append(c.Schedules[name], genSchedule(t, c.Suite[name], outs))
		}
	}
	return c
}

// withoutJunk drops the steps that only exist on a terminal.
func withoutJunk(p model.Play) model.Play {
	var res model.Play
	for _, s := range p {
		if s.Op != "junk" {
			res = append(res, s)
		}
	}
	return res
}

// genSchedule draws a callback schedule, going on after the test has ended.
func genSchedule(t *rapid.T, root *model.Node, outs []model.Event) model.Play {
	m := model.NewMachine(root)
	var p model.Play
	follow := model.Pick(t, "followPct", 60, 85, 95)
	after := rapid.Uniform(5).Draw(t, "after")
	maxLen := 3 + rapid.Uniform(30).Draw(t, "maxLen")
	for len(p) < maxLen {
		if !m.Running() {
			if after == 0 {
				break
			}
			after--
		}
		var s model.Step
		if m.Running() && model.Chance(t, "follow", follow) {
			s = model.FollowStep(t, m)
		} else {
			s = model.Step{Op: model.Pick(t, "op", "ready", "accept", "out", "out", "timeout", "accept")}
			if s.Op == "out" {
				if len(outs) == 0 {
					s.Op = "accept"
				} else {
					e := model.From(t, "out", outs)
					s.Ev = &e
				}
			}
		}
		p = append(p, s)
		applyRos(m, s)
	}
	return p
}

// applyRos applies a callback to a machine.
func applyRos(m *model.Machine, s model.Step) {
	switch s.Op {
	case "ready":
		m.Ready()
	case "timeout":
		m.Timeout()
	case "accept":
		if hasIn(m.Root) {
			m.Ack()
		}
	case "out":
		m.Output(*s.Ev)
	}
}

func hasIn(root *model.Node) bool {
	for _, e := range root.Events() {
		if e.Kind == "in" {
			return true
		}
	}
	return false
}

// payload is a value as a message's payload.
func payload(convs []Conv, ch string, val string, animate bool) string {
	for _, c := range convs {
		if c.Ch == ch {
			return c.Payload(val)
		}
	}
	return val
}

// script renders a schedule for the scripted ROS.
func script(convs []Conv, p model.Play) []string {
	lines := []string{"late"}
	for _, s := range p {
		switch s.Op {
		case "ready":
			lines = append(lines, "delay")
		case "timeout":
			lines = append(lines, "timeout")
		case "accept":
			lines = append(lines, "msg input_accepted "+hexed("1"))
		case "out":
			val := ""
			if s.Ev.Val != nil {
				val = *s.Ev.Val
			}
			lines = append(lines, "msg "+model.Topic(s.Ev.Ch)+" "+hexed(payload(convs, s.Ev.Ch, val, false)))
		}
	}
	return lines
}

// buildVariant generates and compiles a suite with conversions.
func buildVariant(dir string, suite model.Suite, convs []Conv, ros bool) Built {
	stms := mustOK(MakeStms(suite.Bytes()), "making state machines").Stdout
	name := "animate"
	if ros {
		name = "ros"
	}
	cfg := Config{Variants: []Variant{Variant{Name: name}.WithConvs(convs)}}
	if len(convs) > 0 {
		mustWrite(filepath.Join(dir, "in", name, "src", "convert", "convert.cpp"), []byte(ConvertCpp(convs, ros)))
	}
	mustOK(GenFrom(dir, cfg.XML(), stms), "generating tests")
	return buildTests(filepath.Join(dir, "out", name, "src"), suite.Keys(), ros, len(convs) > 0)
}

// playRos plays a schedule, to the end even if ROS was shut down, and compares everything with the machine.
func playRos(b Built, test string, root *model.Node, convs []Conv, p model.Play) (*model.Machine, error) {
	return playRosTo(b, test, root, convs, p, true)
}

// playRosTo is playRos, unless late is false: ROS then delivers nothing more after it was shut down, which the test
// has to do as soon as it has ended.
func playRosTo(b Built, test string, root *model.Node, convs []Conv, p model.Play, late bool) (*model.Machine, error) {
	m := model.NewMachine(root)
	lines := script(convs, p)
	if !late {
		lines = lines[1:]
	}
	r := b.rosRun(test, lines)
	want := [][]RosMsg{nil}
	note := func(from int) {
		last := len(want) - 1
		for _, s := range m.Sent[from:] {
			want[last] = append(want[last], RosMsg{Topic: model.Topic(s.Ch), Payload: payload(convs, s.Ch, s.Val, false)})
		}
	}
	note(0)
	final := 0
	for _, s := range p {
		if final == 0 && !m.Running() {
			final = len(want)
		}
		if !late && final > 0 {
			break
		}
		want = append(want, nil)
		n := len(m.Sent)
		applyRos(m, s)
		note(n)
	}
	want = untilFinal(want, final, len(r.Sent))
	e := parseEnd(r.Out)
	if d := endDiff(e, m); d != "" {
		return m, fmt.Errorf("ROS test %q given %s: %s\nlog:\n%s", test, show(p), d, clip(string(bytes.ReplaceAll(r.Stderr, []byte("\n\n"), []byte("\n"))), 3000))
	}
	if a, b := fmt.Sprintf("%q", r.Sent), fmt.Sprintf("%q", want); a != b {
		if len(r.Sent) != len(want) {
			return m, fmt.Errorf("ROS test %q takes %d callbacks of %s, want %d: it has to run until it has ended, and no longer", test, len(r.Sent)-1, show(p), len(want)-1)
		}
		return m, fmt.Errorf("ROS test %q given %s published %s, want %s", test, show(p), a, b)
	}
	return m, nil
}

// untilFinal drops what a test that ended after the first final callbacks' entries didn't wait for: whether a finished
// test still takes callbacks is up to it.
func untilFinal(want [][]RosMsg, final, n int) [][]RosMsg {
	if final > 0 && final <= n && n < len(want) {
		return want[:n]
	}
	return want
}

func checkP04(c RosCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	b := buildVariant(dir, c.Suite, c.Convs, true)
	rec.LabelIf(!b.Whole, "compiled one by one")
	for _, name := range c.Suite.Keys() {
		root := c.Suite[name]
		for _, p := range c.Schedules[name] {
			m, err := playRos(b, name, root, c.Convs, p)
			if err != nil {
				return err
			}
			rec.Count("schedules", 1)
			rec.Count("schedules ending as: "+m.Status, 1)
			if _, err := playRosTo(b, name, root, c.Convs, p, false); err != nil {
				return err
			}

			// What the schedule exercised.
			sim := model.NewMachine(root)
			late, untimely := false, false
			for _, s := range p {
				late = late || !sim.Running()
				untimely = untimely || (sim.Running() && s.Op == "accept" && sim.Status != model.WaitIn) || (sim.Running() && s.Op == "ready" && sim.Status != model.WaitStart)
				applyRos(sim, s)
			}
			if late {
				rec.Count("schedules with callbacks after the end", 1)
			}
			if untimely {
				rec.Count("schedules with untimely acknowledgement or delay", 1)
			}
			rec.NonTrivialIf(late || untimely)
		}
	}
	return nil
}

const sentMark = "(Actual value received by SUT on "

func checkP03(c RosCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	b := buildVariant(dir, c.Suite, c.Convs, !c.Animate)
	rec.LabelIf(!b.Whole, "compiled one by one")
	rec.LabelIf(len(c.Convs) > 0, "user conversions")
	rec.LabelIf(c.Animate, "animate")
	rec.LabelIf(!c.Animate, "ROS")
	types, _ := model.Types(c.Suite.Events())
	for _, name := range c.Suite.Keys() {
		root := c.Suite[name]
		outs := model.Stray(root, c.Suite.Events(), types, c.Animate)
		plays := append(systematic(root, outs, 25), c.Schedules[name]...)
		for _, p := range plays {
			var m *model.Machine
			var err error
			if c.Animate {
				m, err = playSent(b, name, root, c.Convs, p)
			} else {
				m, err = playRos(b, name, root, c.Convs, p)
			}
			if err != nil {
				return err
			}
			rec.Count("histories", 1)
			rec.Count("inputs sent", len(m.Sent))
			rec.NonTrivialIf(len(m.Sent) >= 2)
		}
	}
	return nil
}

// playSent plays a script to an animate test and compares the inputs it logs.
func playSent(b Built, test string, root *model.Node, convs []Conv, p model.Play) (*model.Machine, error) {
	m, o, err := playAnimate(b, test, root, p)
	if err != nil {
		return m, err
	}
	log := string(o.Stderr)
	for _, s := range m.Sent {
		val := payload(convs, s.Ch, s.Val, true)
		if val == "" && typeOf(root, s.Ch) == "()" {
			val = "()"
		}
		line := sentMark + s.Ch + " after conversion: " + val + ")\n"
		i := strings.Index(log, sentMark)
		if i < 0 || !strings.HasPrefix(log[i:], line) {
			return m, fmt.Errorf("animate test %q given %s: next input in the log isn't %q (inputs due: %s)\nlog:\n%s", test, show(p), line, show(m.Sent), clip(string(o.Stderr), 3000))
		}
		log = log[i+len(line):]
	}
	if strings.Contains(log, sentMark) {
		return m, fmt.Errorf("animate test %q given %s sends more inputs than are due (%s)\nlog:\n%s", test, show(p), show(m.Sent), clip(string(o.Stderr), 3000))
	}
	return m, nil
}

func typeOf(root *model.Node, ch string) string {
	types, _ := model.Types(root.Events())
	return types[ch]
}

func genP21(t *rapid.T) RosCase {
	c := RosCase{Schedules: map[string][]model.Play{}}
	used := map[string]bool{}
	var alpha []model.Event
	for i := 4 + rapid.Uniform(9).Draw(t, "numChans"); i > 0; i-- {
		var name string
		switch rapid.Uniform(14).Draw(t, "nameKind") {
		case 0:
			name = model.From(t, "foreign", foreignNames)
		case 1, 2, 3, 4:
			name = rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_]{0,9}`).Draw(t, "chan")
		case 5, 6, 7, 8:
			name = rapid.StringMatching(`([a-z]{1,3}[A-Z]{1,3}[0-9_]?){1,4}`).Draw(t, "chan")
		default:
			name = rapid.StringMatching(`[A-Z]{0,3}([a-z]{1,2}_?[A-Z]?[0-9]?){1,3}_?`).Draw(t, "chan")
		}
		name = model.Distinct(name, used)
		var val *string
		if model.Chance(t, "enum", 50) {
			v := "v"
			val = &v
		}
		alpha = append(alpha, model.Event{Ch: name, Kind: model.Pick(t, "kind", "in", "out", "call"), Val: val})
	}
	c.Suite = model.Suite{}
	for i := 1 + rapid.Uniform(2).Draw(t, "numTests"); i > 0; i-- {
		var evs []model.Event
		for _, e := range alpha {
			if model.Chance(t, "useChan", 70) {
				evs = append(evs, e)
			}
		}
		if len(evs) == 0 {
			evs = alpha[:1]
		}
		name := fmt.Sprintf("test%d", i)
		c.Suite[name] = model.Chain(name, evs)
	}
	if model.Chance(t, "conversions", 40) {
		types, _ := model.Types(c.Suite.Events())
		c.Convs = GenConvs(t, types, 50)
	}
	return c
}

// foreignNames are channel names with letters outside ASCII.
var foreignNames = []string{"étatA", "ñandúGo", "öffneTür", "größe", "ÅngströmUp", "łódkaX", "λ", "двигательВКЛ", "Öl_Stand", "xÉ", "ÉÀb", "çaVa"}

func checkP21(c RosCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	b := buildVariant(dir, c.Suite, c.Convs, true)
	rec.LabelIf(len(c.Convs) > 0, "user conversions")
	inserted, kept := false, false
	for _, name := range c.Suite.Keys() {
		adv, sub := map[string]bool{}, map[string]bool{}
		for _, e := range c.Suite[name].Events() {
			topic := model.Topic(e.Ch)
			if e.Kind == "in" {
				adv[topic] = true
				sub["input_accepted"] = true
			} else {
				sub[topic] = true
			}
			if model.Topic(topic) != topic || strings.ToLower(topic) != topic || strings.ReplaceAll(topic, "_", "") != strings.ToLower(strings.ReplaceAll(e.Ch, "_", "")) {
				pbt.Infra("reference topic naming breaks its own laws for %q", e.Ch)
			}
			inserted = inserted || len(topic) > len(e.Ch)
			kept = kept || strings.ContainsAny(e.Ch, "_0123456789")
			rec.Count("channels", 1)
		}
		r := b.rosRun(name, nil)
		parseEnd(r.Out)
		sort.Strings(r.Adv)
		sort.Strings(r.Sub)
		if a, b := show(r.Adv), show(append([]string(nil), keysOf(adv)...)); a != b {
			return fmt.Errorf("test %q advertises %s, want %s (events: %s)", name, a, b, eventTexts(c.Suite[name]))
		}
		if a, b := show(r.Sub), show(append([]string(nil), keysOf(sub)...)); a != b {
			return fmt.Errorf("test %q subscribes to %s, want %s (events: %s)", name, a, b, eventTexts(c.Suite[name]))
		}
	}
	rec.NonTrivialIf(inserted && kept)
	rec.LabelIf(inserted, "underscore inserted")
	return nil
}

func eventTexts(n *model.Node) string {
	var ts []string
	for _, e := range n.Events() {
		ts = append(ts, e.Text())
	}
	return strings.Join(ts, ", ")
}
