package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// BrokenCase is a suite of state machines, some of which may be broken.
type BrokenCase struct {
	Machs  map[string]Mach `json:"machs"`
	Faults []Fault         `json:"faults,omitempty"`
	Clean  bool            `json:"clean,omitempty"`
	Indent bool            `json:"indent,omitempty"`
	Output string          `json:"output,omitempty"`
}

// Fault is a way in which one state of a machine is broken.
type Fault struct {
	Mach  string `json:"mach"`
	State int    `json:"state"`
	Set   int    `json:"set"`   // which transition set
	Trans int    `json:"trans"` // which of its transitions
	How   string `json:"how"`
	Text  string `json:"text,omitempty"`
}

func init() {
	pbt.Register("P28",
		"suites of one to four state machines of any shape, given to rtcg-gen with up to two faults in any of their states (reachable or not): identifiers missing, empty or another state's, transitions to no state or another machine's, sets with no channel or no transitions, verdicts on tests that aren't listed; most with earlier output and half with -clean; exit code, message, and the whole file system are compared; non-trivial: several machines or states, and a fault not in the first state",
		genP28, checkP28)
}

// faultKinds are the kinds of faults.
var faultKinds = []string{"no id", "null id", "empty id", "same id", "no next", "null next", "empty next", "unknown next", "foreign next", "no channel", "null channel",
	"no transitions", "null transitions", "empty transitions", "unlisted verdict", "foreign verdict", "tests missing", "test not listed"}

func genP28(t *rapid.T) BrokenCase {
	c := BrokenCase{Machs: map[string]Mach{}, Clean: model.Chance(t, "clean", 50), Indent: model.Chance(t, "indent", 50)}
	c.Output = model.Pick(t, "output", "", "", "made", "other")
	chans := model.GenUniverse(t, model.UniOpts{Max: 4, Types: []string{"enum", "()", "nat", "int"}})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{Cpp: true})
	for i := 1 + rapid.Uniform(4).Draw(t, "numMachs"); i > 0; i-- {
		name := fmt.Sprintf("%s%d", model.Pick(t, "testName", "test", "Case", "t_"), i)
		c.Machs[name] = genMach(t, name, alpha)
	}
	names := keysOf(c.Machs)
	for i := rapid.Uniform(5).Draw(t, "numFaults"); i > 0; i-- {
		if i > 2 {
			i = 1 // mostly one
		}
		f := Fault{Mach: model.From(t, "faultMach", names), How: model.From(t, "how", faultKinds)}
		m := c.Machs[f.Mach]
		f.State = rapid.Uniform(len(m.States)).Draw(t, "faultState")
		s := m.States[f.State]
		switch f.How {
		case "no id", "null id", "empty id":
		case "same id":
			if len(m.States) < 2 {
				continue
			}
			f.Text = m.States[(f.State+1+rapid.Uniform(len(m.States)-1).Draw(t, "same"))%len(m.States)].ID
		case "no next", "null next", "empty next", "no channel", "null channel", "no transitions", "null transitions", "empty transitions", "unknown next", "foreign next":
			// Look for the next state that has transitions.
			for k := 0; len(s.Trans) == 0 && k < len(m.States); k++ {
				f.State = (f.State + 1) % len(m.States)
				s = m.States[f.State]
			}
			if len(s.Trans) == 0 {
				continue
			}
			f.Set = rapid.Uniform(len(s.sets())).Draw(t, "set")
			f.Trans = rapid.Uniform(s.sets()[f.Set]).Draw(t, "trans")
			if f.How == "unknown next" {
				target := m.States[s.Trans[0].To].ID
				f.Text = model.Pick(t, "unknown", "nowhere", "step99", target+"_", "x"+target, target[:len(target)-1], strings.ToUpper(target), strings.ToLower(target), target+" ", "initial", f.Mach, "0")
			}
			if f.How == "foreign next" {
				o := c.Machs[model.From(t, "otherMach", names)]
				f.Text = o.States[rapid.Uniform(len(o.States)).Draw(t, "otherState")].ID
			}
			if strings.HasSuffix(f.How, "n next") && (f.Text == "" || m.has(f.Text)) {
				continue
			}
		case "unlisted verdict":
			f.Text = model.Pick(t, "unlisted", "other", m.Tests[0]+"x", m.Tests[0][1:], strings.ToUpper(m.Tests[0]), "", m.States[0].ID, "t")
		case "foreign verdict":
			o := c.Machs[model.From(t, "otherMach", names)]
			f.Text = model.From(t, "otherTest", o.Tests)
		case "tests missing", "test not listed":
			f.State = -1
			for k, s := range m.States {
				for _, u := range keysOf(s.Verdicts) {
					if f.State < 0 || model.Chance(t, "pick", 30) {
						f.State, f.Text = k, u
					}
				}
			}
			if f.State < 0 {
				continue
			}
		}
		if strings.HasSuffix(f.How, "n verdict") || f.How == "unlisted verdict" {
			if contains(m.Tests, f.Text) {
				continue
			}
		}
		if len(c.Faults) > 0 && (c.Faults[0].Mach == f.Mach) {
			continue // so that one can't mend the other
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (m Mach) has(id string) bool {
	for _, s := range m.States {
		if s.ID == id {
			return true
		}
	}
	return false
}

// sets gives the number of transitions in each transition set of s.
func (s MachState) sets() []int {
	var res []int
	at := map[string]int{}
	for _, t := range s.Trans {
		ch := t.Ev.Ch + "." + t.Ev.Kind
		if i, ok := at[ch]; ok && !s.Split {
			res[i]++
			continue
		}
		at[ch] = len(res)
		res = append(res, 1)
	}
	return res
}

// apply breaks a machine in its JSON form.
func (f Fault) apply(mach map[string]any) {
	state := mach["states"].([]any)[f.State].(map[string]any)
	verdicts := func() map[string]string {
		if v, ok := state["verdicts"].(map[string]string); ok {
			return v
		}
		v := map[string]string{}
		state["verdicts"] = v
		return v
	}
	set := func() map[string]any { return state["transitionSets"].([]map[string]any)[f.Set] }
	trans := func() map[string]any { return set()["transitions"].([]any)[f.Trans].(map[string]any) }
	switch f.How {
	case "no id":
		delete(state, "id")
	case "null id":
		state["id"] = nil
	case "empty id":
		state["id"] = ""
	case "same id":
		state["id"] = f.Text
	case "no next":
		delete(trans(), "next")
	case "null next":
		trans()["next"] = nil
	case "empty next":
		trans()["next"] = ""
	case "unknown next", "foreign next":
		trans()["next"] = f.Text
	case "no channel":
		delete(set(), "channel")
	case "null channel":
		set()["channel"] = nil
	case "no transitions":
		delete(set(), "transitions")
	case "null transitions":
		set()["transitions"] = nil
	case "empty transitions":
		set()["transitions"] = []any{}
	case "unlisted verdict", "foreign verdict":
		verdicts()[f.Text] = "pass"
	case "tests missing":
		delete(mach, "tests")
	case "test not listed":
		var rest []string
		for _, u := range mach["tests"].([]string) {
			if u != f.Text {
				rest = append(rest, u)
			}
		}
		mach["tests"] = append([]string{"unused"}, rest...)
	default:
		pbt.Infra("unknown fault %q", f.How)
	}
}

func checkP28(c BrokenCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	suite := model.Suite{}
	for name, m := range c.Machs {
		suite[name] = m.flat()
	}
	types, _ := model.Types(suite.Events())
	tests := map[string]any{}
	for name, m := range c.Machs {
		tests[name] = m.json(types)
	}
	var how []string
	for _, f := range c.Faults {
		f.apply(tests[f.Mach].(map[string]any))
		how = append(how, f.How)
	}
	doc := map[string]any{"types": types, "tests": tests}
	stms := mustJSON(doc)
	if c.Indent {
		stms = mustIndent(doc)
	}
	cfg := Config{Variants: []Variant{{Name: "animate"}, {Name: "ros"}}}
	mustWrite(filepath.Join(dir, "gen.xml"), []byte(cfg.XML()))
	mustWrite(filepath.Join(dir, "stms.json"), stms)
	output := "out"
	args := []string{"gen.xml", "stms.json"}
	if c.Output != "" {
		output = c.Output
		args = append([]string{"-output", c.Output}, args...)
	}
	if c.Clean {
		args = append([]string{"-clean"}, args...)
	}
	if c.Output != "made" {
		for _, p := range []string{"animate/src/test1/src/main.cpp", "animate/Makefile", "ros/src/notes.txt", "keep/me"} {
			mustWrite(filepath.Join(dir, output, p), []byte("left by "+p+"\n"))
		}
	}
	before := snap(dir)
	out := Gen(dir, nil, args...)
	if why := out.Crashed(); why != "" {
		return fmt.Errorf("suite (faults %q): %s; %s", how, why, out)
	}
	after := snap(dir)
	if len(c.Faults) > 0 {
		if err := mustReject(out, fmt.Sprintf("suite with faults %q", how)); err != nil {
			return err
		}
		if d := treeDiff(after, before, nil); d != "" {
			return fmt.Errorf("a suite is refused (%q), but %s; %s", how, d, out)
		}
		named := false
		for _, f := range c.Faults {
			named = named || strings.Contains(string(out.Stderr), f.Mach)
		}
		if !named {
			return fmt.Errorf("a suite is refused (%q), but the message doesn't say which machine is broken: %s", how, out)
		}
	} else {
		if out.Code != 0 {
			return fmt.Errorf("a suite of machines without faults is refused: %s", out)
		}
		for name := range c.Machs {
			for _, v := range []string{"animate", "ros"} {
				p := filepath.Join(output, v, "src", name, "src", "main.cpp")
				if !strings.Contains(after[p], "main") {
					return fmt.Errorf("a suite of machines without faults is taken, but %q isn't made: %s", p, out)
				}
			}
		}
	}
	rec.LabelIf(len(c.Faults) == 0, "no fault")
	rec.LabelIf(c.Clean && len(how) > 0, "faults with -clean")
	deep := false
	for _, f := range c.Faults {
		rec.Label("fault: %s", f.How)
		deep = deep || f.State > 0
	}
	rec.NonTrivialIf(deep)
	return nil
}
