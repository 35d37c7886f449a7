package main

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register("P26",
		"suites of chains and factorised trees, some with conversions that aren't identities or with given state identifiers, compiled for the ROS variant (against a scripted ROS) or the animate variant, and played their forbidden histories and random ones, with callbacks after the end; every fact in the log (states entered, verdicts changed, what is sent or can be received there and where that leads, inputs accepted, values that were unexpected, delays and timeouts, and how the test ended) is compared, in order, with the reference machine and the identifiers in the state machines; non-trivial: some history enters at least three states and some history goes off-script or has an untimely callback",
		genP26, checkP26)
}

func genP26(t *rapid.T) RosCase {
	c := RosCase{Schedules: map[string][]model.Play{}, Animate: model.Chance(t, "animate", 50)}
	var types map[string]string
	c.Suite, types = genRosSuite(t, 3, true, !c.Animate)
	for _, k := range c.Suite.Keys() {
		c.Suite[k].Walk(func(nd *model.Node, _ int) {
			if nd.Event != nil && nd.Event.Val != nil {
				v := strings.Join(strings.Fields(*nd.Event.Val), " ")
				nd.Event.Val = &v
			}
		})
	}
	c.Convs = GenConvs(t, types, 25)
	for _, name := range c.Suite.Keys() {
		outs := oneLine(model.Stray(c.Suite[name], c.Suite.Events(), types, true))
		for i := 0; i < 8; i++ {
			p := genSchedule(t, c.Suite[name], outs)
			if c.Animate {
				p = model.GenScript(t, c.Suite[name], outs, model.Pick(t, "followPct", 70, 90, 98))
			}
			c.Schedules[name] = append(c.Schedules[name], p)
		}
	}
	return c
}

func oneLine(es []model.Event) []model.Event {
	var res []model.Event
	for _, e := range es {
		if e.Val == nil || model.CanType(*e.Val) {
			res = append(res, e)
		}
	}
	return res
}

// stateIDs gives the identifier of each node's state.
func stateIDs(stm *jstm, root *model.Node) map[*model.Node]string {
	byID := map[string]jstate{}
	for _, s := range stm.States {
		byID[s.ID] = s
	}
	ids := map[*model.Node]string{}
	var match func(id string, n *model.Node)
	match = func(id string, n *model.Node) {
		ids[n] = id
		next := map[string][]jtransition{}
		for _, set := range byID[id].TransitionSets {
			next[set.Channel] = append(next[set.Channel], set.Transitions...)
		}
		for _, k := range n.Next {
			if k.Event == nil || k.Outcome == "fail" {
				continue
			}
			ch := k.Event.Ch + "." + k.Event.Kind
			if len(next[ch]) == 0 {
				pbt.Failf("state %q has no transition for %q", id, k.Event.Text())
			}
			match(next[ch][0].Next, k)
			next[ch] = next[ch][1:]
		}
	}
	match(stm.States[0].ID, root)
	return ids
}

// logPatterns are the facts that a log can state; each is known by its place.
var logPatterns = []struct {
	name string
	re   *regexp.Regexp
}{
	{"entered", regexp.MustCompile(`^Entered state (.*)\.$`)},
	{"verdict", regexp.MustCompile(`^Test (\S+) is now (\S+); was (\S+)\.$`)},
	{"sends", regexp.MustCompile(`^State '(.*?)' sends (.*) to SUT on (\S+); if accepted, next state will be '(.*)'\.$`)},
	{"receives", regexp.MustCompile(`^State '(.*?)' can receive (.*) from SUT on (\S+); if received, next state will be '(.*)'\.$`)},
	{"accepted", regexp.MustCompile(`^Accepted input on state (.*) as expected\.$`)},
	{"early", regexp.MustCompile(`^Accepted input before the test started\.$`)},
	{"unasked", regexp.MustCompile(`^Accepted input in unexpected state ?(.*?)\.?$`)},
	{"value", regexp.MustCompile(`^Unexpected value (.*) for (\S+) in state (.*)\.$`)},
	{"output", regexp.MustCompile(`^Output (.*) on (\S+) in unexpected state (.*)\.$`)},
	{"timeout", regexp.MustCompile(`^Timeout!$`)},
	{"started", regexp.MustCompile(`^Initial delay finished, now entering first state\.$`)},
	{"running", regexp.MustCompile(`^Test (\S+) in main loop\.$`)},
	{"finished", regexp.MustCompile(`^Test (\S+) finished: (.*)\.$`)},
	{"outcome", regexp.MustCompile(`^  (\S+) = (\S+)$`)},
	{"twice", regexp.MustCompile(`^Tried to end test twice`)},
	{"nonend", regexp.MustCompile(`^Tried to end with a non-ending status`)},
}

// facts reads the facts that a log states.
func facts(log string) []string {
	var res []string
	for _, l := range strings.Split(log, "\n") {
		if !strings.HasPrefix(l, "[") {
			continue
		}
		_, l, _ = strings.Cut(l, "] ")
		for _, p := range logPatterns {
			if m := p.re.FindStringSubmatch(l); m != nil {
				res = append(res, p.name+fmt.Sprintf("%q", m[1:]))
				break
			}
		}
	}
	return res
}

// account is what a log must say: facts in groups, whose inner order is free.
type account struct {
	groups [][]string
	ids    map[*model.Node]string
	name   string
}

func (a *account) add(fact string, args ...string) {
	if args == nil {
		args = []string{}
	}
	a.groups = append(a.groups, []string{fact + fmt.Sprintf("%q", args)})
}

// entered says what is logged on entering the machine's node.
func (a *account) entered(m *model.Machine, before map[string]string) {
	a.add("entered", a.ids[m.Cur])
	var group []string
	for _, t := range keysOf(m.Verdict) {
		if m.Verdict[t] != before[t] {
			group = append(group, "verdict"+fmt.Sprintf("%q", []string{t, m.Verdict[t], before[t]}))
		}
	}
	a.groups = append(a.groups, group)
	if m.Status == model.Fail {
		return
	}
	group = nil
	for _, k := range m.Cur.Next {
		what := "receives"
		if k.Event.Kind == "in" {
			what = "sends"
		}
		val := ""
		if k.Event.Val != nil {
			val = *k.Event.Val
		}
		group = append(group, what+fmt.Sprintf("%q", []string{a.ids[m.Cur], val, k.Event.Ch, a.ids[k]}))
	}
	a.groups = append(a.groups, group)
}

func copied(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// tell gives the account of a history.
func tell(name string, root *model.Node, ids map[*model.Node]string, p model.Play, animate bool) (*account, *model.Machine) {
	a := &account{ids: ids, name: name}
	m := model.NewMachine(root)
	if m.Status != model.WaitStart {
		unset := map[string]string{}
		for t := range m.Verdict {
			unset[t] = "unset"
		}
		a.entered(m, unset)
	}
	a.add("running", name)
	if animate {
		p = append(p[:len(p):len(p)], model.Step{Op: "timeout"}) // at the end of input
	}
	for _, s := range p {
		if !m.Running() {
			break
		}
		cur, status, before := m.Cur, m.Status, copied(m.Verdict)
		if animate {
			model.Apply(m, s)
		} else {
			applyRos(m, s)
		}
		switch s.Op {
		case "ready":
			if status == model.WaitStart {
				a.add("started")
				a.entered(m, before)
			}
		case "timeout":
			a.add("timeout")
		case "accept":
			switch {
			case status == model.WaitIn:
				a.add("accepted", ids[cur])
				a.entered(m, before)
			case m.Status == model.Bug && status == model.WaitStart:
				a.add("early")
			case m.Status == model.Bug:
				a.add("unasked", ids[cur])
			}
		case "out":
			val := "()"
			if s.Ev.Val != nil {
				val = *s.Ev.Val
			}
			ch := s.Ev.Ch + "." + s.Ev.Kind
			switch {
			case m.Status != model.OffScript:
				a.entered(m, before)
			case hasNext(cur, s.Ev):
				a.add("value", val, ch, ids[cur])
			default:
				a.add("output", val, ch, ids[cur])
			}
		}
	}
	a.add("finished", name, m.Status)
	var group []string
	for _, t := range keysOf(m.Verdict) {
		group = append(group, "outcome"+fmt.Sprintf("%q", []string{t, m.Verdict[t]}))
	}
	a.groups = append(a.groups, group)
	return a, m
}

// hasNext checks whether a node has a next one for the event's channel.
func hasNext(n *model.Node, e *model.Event) bool {
	for _, k := range n.Next {
		if k.Event != nil && k.Event.Ch == e.Ch && k.Event.Kind == e.Kind {
			return true
		}
	}
	return false
}

// diff compares the account with what a log says.
func (a *account) diff(got []string) string {
	for _, g := range a.groups {
		n := len(g)
		if n > len(got) {
			return fmt.Sprintf("it ends before saying %s (says %s)", strings.Join(g, ", "), strings.Join(got, ", "))
		}
		if x, y := strings.Join(sortedCopy(got[:n]), ", "), strings.Join(sortedCopy(g), ", "); x != y {
			return fmt.Sprintf("it says %s, want %s", x, y)
		}
		got = got[n:]
	}
	if len(got) > 0 {
		return fmt.Sprintf("it goes on with %s", strings.Join(got, ", "))
	}
	return ""
}

func checkP26(c RosCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	var stms jstms
	parseInto(mustOK(MakeStms(c.Suite.Bytes()), "making state machines").Stdout, &stms, "output of rtcg-make-stms")
	b := buildVariant(dir, c.Suite, c.Convs, !c.Animate)
	rec.LabelIf(len(c.Convs) > 0, "user conversions")
	rec.LabelIf(c.Animate, "animate")
	rec.LabelIf(!c.Animate, "ROS")
	types, _ := model.Types(c.Suite.Events())
	states, odd := 0, false
	for _, name := range c.Suite.Keys() {
		root := c.Suite[name]
		if stms.Tests[name] == nil || len(stms.Tests[name].States) == 0 {
			return fmt.Errorf("no state machine for test %q", name)
		}
		ids := stateIDs(stms.Tests[name], root)
		outs := oneLine(model.Stray(root, c.Suite.Events(), types, true))
		for _, p := range append(systematic(root, outs, 12), c.Schedules[name]...) {
			a, m := tell(name, root, ids, p, c.Animate)
			var log string
			if c.Animate {
				var in []string
				for _, s := range p {
					in = append(in, words(s)...)
				}
				log = string(b.animateRun(name, in).Stderr)
			} else {
				log = string(b.rosRun(name, script(c.Convs, withoutJunk(p))).Stderr)
			}
			got := facts(log)
			if d := a.diff(got); d != "" {
				return fmt.Errorf("log of test %q given %s isn't right: %s\nlog:\n%s", name, show(p), d, clip(strings.ReplaceAll(log, "\n\n", "\n"), 3000))
			}
			rec.Count("histories", 1)
			rec.Count("facts", len(got))
			n := 0
			for _, f := range got {
				if strings.HasPrefix(f, "entered") {
					n++
				}
				odd = odd || strings.HasPrefix(f, "value") || strings.HasPrefix(f, "output") || strings.HasPrefix(f, "early") || strings.HasPrefix(f, "unasked")
				what, _, _ := strings.Cut(f, "[")
				rec.Count("facts of kind "+what, 1)
			}
			if n > states {
				states = n
			}
			rec.Count("histories ending as: "+m.Status, 1)
		}
	}
	rec.NonTrivialIf(states >= 3 && odd)
	return nil
}
