package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// TracesCase is a traces file and the rows that it spells.
type TracesCase struct {
	Rows []model.Trace `json:"rows"`
	CSV  string        `json:"csv"`
}

func init() {
	pbt.Register("P06",
		"rows of traces with arbitrary names, channels and values, rendered with arbitrary CSV formatting (quotes, padding, comments, blank lines, CR LF, spellings), read by rtcg-read-traces and compared with the reference expansion; non-trivial: at least two rows, one of at least two events, and some formatting beyond the plain form",
		func(t *rapid.T) TracesCase {
			rows := model.FreeRows(t, 40, 60)
			return TracesCase{Rows: rows, CSV: model.MessyCSV(t, rows)}
		}, checkP06)

	pbt.Register("P07",
		"sequences of named and unnamed rows over a small pool of clashing names, each row with its own event, read by rtcg-read-traces and compared with the reference naming; non-trivial: some row doesn't get its first candidate name",
		genP07, checkP07)
}

func checkP06(c TracesCase, rec *pbt.Rec) error {
	out := mustOK(ReadTraces([]byte(c.CSV)), "reading a well-formed traces file")
	var got jsuite
	parseInto(out.Stdout, &got, "output of rtcg-read-traces")
	if d := sameSuite(got, model.ToSuite(c.Rows)); d != "" {
		return fmt.Errorf("suite differs: %s", d)
	}

	long, maxLen := false, 0
	for _, r := range c.Rows {
		long = long || len(r.Events) > 1
		if len(r.Events) > maxLen {
			maxLen = len(r.Events)
		}
	}
	messy := c.CSV != model.CSV(c.Rows)
	rec.NonTrivialIf(len(c.Rows) > 1 && long && messy)
	rec.LabelIf(len(c.Rows) == 0, "no rows")
	rec.LabelIf(len(c.Rows) > 10, "over 10 rows")
	rec.LabelIf(maxLen > 10, "row over 10 events")
	rec.LabelIf(len(c.Rows) > 200, "over 200 rows")
	rec.LabelIf(maxLen > 200, "row over 200 events")
	rec.LabelIf(len(c.CSV) > 1<<16, "over 64 kB")
	rec.LabelIf(maxLen == 1, "only one-event rows")
	rec.LabelIf(strings.Contains(c.CSV, "\r\n"), "CR LF")
	rec.LabelIf(strings.Contains(c.CSV, "#"), "comments or hashes")
	rec.LabelIf(strings.Contains(c.CSV, "\""), "quoted cells")
	rec.LabelIf(strings.Contains(c.CSV, "\n\n") || strings.Contains(c.CSV, "\n\r\n"), "blank lines")
	rec.Count("rows", len(c.Rows))
	return nil
}

func genP07(t *rapid.T) TracesCase {
	n := model.Len(t, "numRows", 1, 12, 130)
	rows := make([]model.Trace, n)
	small := model.Chance(t, "smallPool", 50)
	for i := range rows {
		name := ""
		switch {
		case small:
			name = model.Pick(t, "name", "", "a", "a0", "a1", "test0", "test1", "test")
		default:
			name = model.Pick(t, "name", "", "", "test", "test0", "test1", "test2", "test3", "test00", "test10", "test-1", "Test", "a", "a0", "a1", "a2", "a00", "a01",
				"a10", "A", "0", "1", "", "t", "tes", "b", "b0", "é", "é0", "a b", "a.b", "a0", "a", "#a", "\"q\"")
		}
		rows[i] = model.Trace{Name: name, Events: []model.Event{model.Ev("row", "out", fmt.Sprint(i))}}
	}
	if model.Rarely(t, "big", 5) {
		for k := model.Range(t, "bigRows", 50, 1200); k > 0; k-- {
			rows = append(rows, model.Trace{Name: rows[(k*k)%n].Name, Events: []model.Event{model.Ev("row", "out", fmt.Sprint(len(rows)))}})
		}
	}
	csv := ""
	if model.Chance(t, "messy", 30) {
		csv = model.MessyCSV(t, rows)
	} else {
		csv = model.CSV(rows)
	}
	return TracesCase{Rows: rows, CSV: csv}
}

func checkP07(c TracesCase, rec *pbt.Rec) error {
	out := mustOK(ReadTraces([]byte(c.CSV)), "reading a well-formed traces file")
	var got jsuite
	parseInto(out.Stdout, &got, "output of rtcg-read-traces")

	// byRow maps the event of each row to the name it got.
	byRow := map[string][]string{}
	for _, name := range keysOf(got) {
		n := got[name]
		if n == nil || len(n.Next) != 1 || n.Next[0] == nil || n.Next[0].Event == nil {
			return fmt.Errorf("test %q isn't a one-event test", name)
		}
		byRow[*n.Next[0].Event] = append(byRow[*n.Next[0].Event], name)
	}
	names := model.Names(c.Rows)
	clash := 0
	for i, want := range names {
		ev := c.Rows[i].Events[0].Text()
		if len(byRow[ev]) != 1 || byRow[ev][0] != want {
			return fmt.Errorf("row %d (named %q) became tests %q, want %q; expected names: %q", i, c.Rows[i].Name, byRow[ev], want, names)
		}
		if want != c.Rows[i].Name && !(c.Rows[i].Name == "" && want == fmt.Sprintf("test%d", i)) {
			clash++
		}
	}
	if len(got) != len(names) {
		return fmt.Errorf("%d tests for %d rows: %q", len(got), len(names), keysOf(got))
	}
	rec.NonTrivialIf(clash > 0)
	rec.LabelIf(clash > 3, "over 3 clashes")
	rec.LabelIf(len(names) > 20, "over 20 rows")
	rec.LabelIf(len(names) > 200, "over 200 rows")
	rec.Count("clashing rows", clash)
	return nil
}
