package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// NotationCase is the same rows of traces in three notations.
type NotationCase struct {
	Rows  []model.Trace `json:"rows"`
	CSV1  string        `json:"csv1"`
	CSV2  string        `json:"csv2"`
	Spell []string      `json:"spell"` // spellings of the rows' events, in order, for use in a JSON suite
}

func init() {
	pbt.Register("P08",
		"rows of traces rendered in two random notations (kind case, padding, integer spellings, quoting, comments, blank lines) and as a JSON suite with randomly spelled events, taken through rtcg-read-traces and rtcg-make-stms; non-trivial: some event is spelled differently in the two notations and some value isn't a plain identifier or natural number",
		func(t *rapid.T) NotationCase {
			rows := model.FreeRows(t, 15, 20)
			c := NotationCase{Rows: rows, CSV1: model.MessyCSV(t, rows), CSV2: model.MessyCSV(t, rows)}
			for _, r := range rows {
				for _, e := range r.Events {
					c.Spell = append(c.Spell, e.Spelling(t))
				}
			}
			return c
		}, checkP08)
}

func checkP08(c NotationCase, rec *pbt.Rec) error {
	want := model.ToSuite(c.Rows)
	out1 := mustOK(ReadTraces([]byte(c.CSV1)), "reading the first notation")
	out2 := mustOK(ReadTraces([]byte(c.CSV2)), "reading the second notation")

	var got1, got2 jsuite
	parseInto(out1.Stdout, &got1, "output of rtcg-read-traces")
	parseInto(out2.Stdout, &got2, "output of rtcg-read-traces")
	if d := sameSuite(got1, want); d != "" {
		return fmt.Errorf("suite from the first notation: %s", d)
	}
	if d := sameSuite(got2, want); d != "" {
		return fmt.Errorf("suite from the second notation: %s", d)
	}

	// Re-reading the events that were written, as traces.
	names := model.Names(c.Rows)
	var again strings.Builder
	for _, n := range names {
		sep := model.Quote(n + ":" + chainEvents(got1[n])[0])
		again.WriteString(sep)
		for _, ev := range chainEvents(got1[n])[1:] {
			again.WriteString("," + model.Quote(ev))
		}
		again.WriteString("\n")
	}
	out3 := mustOK(ReadTraces([]byte(again.String())), "re-reading canonical events")
	var got3 jsuite
	parseInto(out3.Stdout, &got3, "output of rtcg-read-traces")
	renamed := model.Suite{}
	reRows := make([]model.Trace, len(names))
	for i := range names {
		reRows[i] = model.Trace{Name: names[i], Events: c.Rows[i].Events}
	}
	renamed = model.ToSuite(reRows)
	if d := sameSuite(got3, renamed); d != "" {
		return fmt.Errorf("suite from the events written: %s", d)
	}

	// State machines.
	conflict := !suiteTypesOK(want)
	stms := MakeStms(out1.Stdout)
	if !conflict {
		mustOK(stms, "making state machines")
		var s jstms
		parseInto(stms.Stdout, &s, "output of rtcg-make-stms")
		for i, n := range names {
			evs := stmChainEvents(s.Tests[n])
			for j, e := range c.Rows[i].Events {
				if j >= len(evs) || evs[j] != e.Text() {
					return fmt.Errorf("state machine %q has events %q, want event %d to be %q", n, evs, j, e.Text())
				}
			}
		}

		// The same suite with its events spelled otherwise.
		i := 0
		messy := map[string]any{}
		for r, n := range names {
			chain := model.Chain(n, c.Rows[r].Events).JSON()
			node := chain
			for range c.Rows[r].Events {
				node = node["next"].([]any)[0].(map[string]any)
				node["event"] = c.Spell[i]
				i++
			}
			messy[n] = chain
		}
		stms2 := mustOK(MakeStms(mustJSON(messy)), "making state machines from events spelled otherwise")
		var s2 jstms
		parseInto(stms2.Stdout, &s2, "output of rtcg-make-stms")
		if a, b := show(s), show(s2); a != b {
			return fmt.Errorf("state machines differ by notation: %s versus %s", a, b)
		}
	}

	odd := false
	respelled := false
	i := 0
	for _, r := range c.Rows {
		for _, e := range r.Events {
			if e.Val != nil && !plainVal(*e.Val) {
				odd = true
			}
			if c.Spell[i] != e.Text() {
				respelled = true
			}
			i++
		}
	}
	rec.NonTrivialIf(odd && respelled && c.CSV1 != c.CSV2)
	rec.LabelIf(conflict, "type conflict (state machines skipped)")
	rec.LabelIf(odd, "odd values")
	rec.Count("events", i)
	return nil
}

func plainVal(s string) bool {
	for _, r := range s {
		if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') {
			return false
		}
	}
	return s != "" && len(s) < 10
}

// chainEvents gives the events of a chain test.
func chainEvents(n *jnode) []string {
	var evs []string
	for n != nil && len(n.Next) == 1 {
		n = n.Next[0]
		if n != nil && n.Event != nil {
			evs = append(evs, *n.Event)
		}
	}
	if len(evs) == 0 {
		pbt.Failf("test has no events")
	}
	return evs
}

// stmChainEvents gives the events of a state machine made from a chain test.
func stmChainEvents(s *jstm) []string {
	if s == nil {
		return nil
	}
	byID := map[string]jstate{}
	for _, st := range s.States {
		byID[st.ID] = st
	}
	var evs []string
	st, ok := byID["initial"]
	for ok && len(st.TransitionSets) == 1 && len(st.TransitionSets[0].Transitions) == 1 && len(evs) < 10000 {
		ts := st.TransitionSets[0]
		ev := ts.Channel
		if v := ts.Transitions[0].Value; v != nil {
			ev += "." + *v
		}
		evs = append(evs, ev)
		st, ok = byID[ts.Transitions[0].Next]
	}
	return evs
}

// suiteTypesOK checks whether each channel has one kind of value throughout a suite.
func suiteTypesOK(s model.Suite) bool {
	var all []model.Event
	for _, n := range s {
		all = append(all, n.Events()...)
	}
	_, ok := model.Types(all)
	return ok
}

func sortedCopy(xs []string) []string {
	ys := append([]string{}, xs...)
	sort.Strings(ys)
	return ys
}
