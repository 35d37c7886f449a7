// Command p20 checks how failures are grouped into spine nodes.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/lib"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Forbidden describes a forbidden trace.
type Forbidden struct {
	Name   string      `json:"name"`
	Prefix []lib.Event `json:"prefix"`
	Forbid lib.Event   `json:"forbid"`
}

// Case is a suite of traces, and traces after which to look for failures besides the suite's prefixes.
type Case struct {
	Tests []Forbidden   `json:"tests"` // with distinct names
	After [][]lib.Event `json:"after"`
}

func main() {
	pbt.InProcess = true
	pbt.Register("P20",
		"suites of forbidden traces over a small alphabet of nearly equal events, so that prefixes are often shared, equal or nearly equal; the failures and spine nodes after every prefix of every member and after other traces are compared with a reference; non-trivial: some trace reaches at least two failures, at least one an input and one an output or call",
		gen, check)
	pbt.Main()
}

func gen(t *rapid.T) Case {
	alpha := lib.Alphabet(t, 2, 7)
	var c Case
	var prefixes [][]lib.Event
	draw := func() []lib.Event {
		if len(prefixes) > 0 && model.Chance(t, "again", 55) {
			p := append([]lib.Event(nil), model.From(t, "prefixOf", prefixes)...)
			switch model.Range(t, "edit", 0, 5) {
			case 0:
				p = p[:model.Range(t, "cut", 0, len(p))]
			case 1:
				p = append(p, model.From(t, "extra", alpha))
			case 2:
				if len(p) > 0 {
					p[model.Range(t, "at", 0, len(p)-1)] = model.From(t, "other", alpha)
				}
			}
			return p
		}
		var p []lib.Event
		for k := model.Len(t, "len", 0, 4, 12); k > 0; k-- {
			p = append(p, model.From(t, "event", alpha))
		}
		return p
	}
	for _, n := range lib.Names(t, "name", model.Len(t, "tests", 0, 8, 25)) {
		p := draw()
		prefixes = append(prefixes, p)
		c.Tests = append(c.Tests, Forbidden{Name: n, Prefix: p, Forbid: model.From(t, "forbid", alpha)})
	}
	if n := len(c.Tests); n > 0 && model.Rarely(t, "big", 3) {
		switch model.Range(t, "bigKind", 0, 1) {
		case 0: // many tests, with few prefixes
			for i := model.Range(t, "bigSuite", 20, 300); i > 0; i-- {
				c.Tests = append(c.Tests, Forbidden{Name: fmt.Sprint(c.Tests[i%n].Name, "~more", i), Prefix: c.Tests[i*i%n].Prefix, Forbid: alpha[i%len(alpha)]})
			}
		default: // long prefixes, some shared
			long := model.Cycle(t, alpha, model.Range(t, "bigLen", 20, 200))
			for i := range c.Tests {
				if i%3 != 2 {
					c.Tests[i].Prefix = append(append([]lib.Event(nil), long...), c.Tests[i].Prefix...)
				}
			}
			c.After = append(c.After, long)
		}
	}
	for k := model.Range(t, "others", 0, 3); k > 0; k-- {
		c.After = append(c.After, draw())
	}
	return c
}

func key(es []lib.Event) string { return strings.Join(lib.Texts(es), "\n") }

func diff(what string, got, want []string) error {
	g, w := lib.Sorted(got), lib.Sorted(want)
	if len(g) == len(w) {
		eq := true
		for i := range g {
			eq = eq && g[i] == w[i]
		}
		if eq {
			return nil
		}
	}
	return fmt.Errorf("%s: got %q, want %q", what, g, w)
}

func check(c Case, rec *pbt.Rec) error {
	tests := map[string]trace.Forbidden{}
	for _, f := range c.Tests {
		tests[f.Name] = trace.New(lib.BuildAll(f.Prefix)...).ForbidWithName(f.Forbid.Build(), f.Name)
	}
	seen := map[string]bool{}
	mixed := false
	try := func(after []lib.Event) error {
		if seen[key(after)] {
			return nil
		}
		seen[key(after)] = true
		m, err := checkAfter(c, tests, after, rec)
		mixed = mixed || m
		return err
	}
	for _, a := range c.After {
		if err := try(a); err != nil {
			return err
		}
	}
	for _, f := range c.Tests {
		whole := append(append([]lib.Event(nil), f.Prefix...), f.Forbid)
		for i := 0; i <= len(whole); i++ {
			if err := try(whole[:i]); err != nil {
				return err
			}
		}
	}
	for _, f := range c.Tests {
		got := tests[f.Name]
		if strings.Join(lib.OfEvents(got.Prefix), "\n") != key(f.Prefix) || lib.OfEvent(got.Forbid).Text() != f.Forbid.Text() {
			return fmt.Errorf("test %q was changed", f.Name)
		}
	}
	if len(tests) != len(c.Tests) {
		return fmt.Errorf("the suite was changed")
	}
	rec.NonTrivialIf(mixed)
	rec.LabelIf(len(c.Tests) > 50, "over 50 tests")
	rec.LabelIf(len(seen) > 100, "over 100 traces followed")
	rec.Count("traces followed", len(seen))
	return nil
}

func checkAfter(c Case, tests map[string]trace.Forbidden, after []lib.Event, rec *pbt.Rec) (mixed bool, err error) {
	what := fmt.Sprintf("after %q", lib.Texts(after))
	var wantFails, wantIn, wantOut []string
	for _, f := range c.Tests {
		if key(f.Prefix) != key(after) {
			continue
		}
		wantFails = append(wantFails, fmt.Sprintf("%q %s", f.Name, f.Forbid.Text()))
		tags := []string{f.Name}
		forbid := f.Forbid
		node := (&lib.Node{Tests: tags, Outcome: lib.Pass, Event: &forbid, Next: []*lib.Node{{Tests: tags, Outcome: lib.Fail}}}).Text()
		if f.Forbid.Kind == "in" {
			wantIn = append(wantIn, node)
		} else {
			wantOut = append(wantOut, node)
		}
	}
	built := trace.New(lib.BuildAll(after)...)
	var got []string
	for _, f := range factorise.Failures(tests, built) {
		got = append(got, fmt.Sprintf("%q %s", f.Test, lib.OfEvent(f.Event).Text()))
	}
	if err := diff("failures "+what, got, wantFails); err != nil {
		return false, err
	}

	// The spine nodes: those with inputs below them, and exactly one other.
	var gotIn, gotOut []string
	others := 0
	for _, n := range factorise.SpineNodes(tests, built) {
		n := n
		s := lib.OfNode(&n)
		if s.Outcome != lib.Inc {
			return false, fmt.Errorf("spine node %s isn't inconclusive: %s", what, s.Text())
		}
		if err := carries(s, after); err != nil {
			return false, fmt.Errorf("spine node %s %w", what, err)
		}
		ins := 0
		for _, k := range s.Next {
			if k.Event != nil && k.Event.Kind == "in" {
				ins++
			}
		}
		switch {
		case ins == 0:
			others++
			for _, k := range s.Next {
				gotOut = append(gotOut, k.Text())
			}
		case ins == 1 && len(s.Next) == 1:
			gotIn = append(gotIn, s.Next[0].Text())
		default:
			return false, fmt.Errorf("spine node %s has an input and other nodes below it: %s", what, s.Text())
		}
	}
	if others != 1 {
		return false, fmt.Errorf("%s: %d spine nodes without inputs, want 1", what, others)
	}
	if err := diff("nodes for inputs "+what, gotIn, wantIn); err != nil {
		return false, err
	}
	if err := diff("nodes for outputs and calls "+what, gotOut, wantOut); err != nil {
		return false, err
	}
	rec.LabelIf(len(wantFails) == 0, "no failures")
	rec.LabelIf(len(wantIn) > 1, "several failing inputs")
	rec.LabelIf(len(wantOut) > 1, "several failing outputs")
	rec.LabelIf(len(after) == 0 && len(wantFails) > 0, "failures at the root")
	return len(wantIn) > 0 && len(wantOut) > 0, nil
}

func carries(s *lib.Node, after []lib.Event) error {
	if len(after) == 0 {
		if s.Event != nil && (s.Event.Ch != "" || s.Event.Val.Text() != "none") {
			return fmt.Errorf("carries %s at the root", s.Event.Text())
		}
		return nil
	}
	want := after[len(after)-1]
	if s.Event == nil || s.Event.Text() != want.Text() {
		return fmt.Errorf("carries %v, want %s", s.Event, want.Text())
	}
	return nil
}
