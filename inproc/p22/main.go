// Command p22 checks the laws of comparing values, channels, events and traces.
package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/lib"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Case is some traces, all pairs of which are compared, and some raw texts of events.
type Case struct {
	Traces [][]lib.Event `json:"traces"`
	Raw    []string      `json:"raw"`
}

func main() {
	pbt.InProcess = true
	pbt.Register("P22",
		"families of traces over a small alphabet of nearly equal events (same text as integer and enumeration, same name with other kind, with and without value), with shared prefixes and one-event edits (among them two events fused to one with the same text); every ordered pair of traces, events, channels and values is compared by the repository and by the reference; and texts of events in varying spellings; non-trivial: some trace is a strict prefix of another, and some pair of equally long different traces exists",
		gen, check)
	pbt.Main()
}

func gen(t *rapid.T) Case {
	alpha := lib.Alphabet(t, 2, 6)
	n := model.Range(t, "traces", 1, 6)
	c := Case{}
	for i := 0; i < n; i++ {
		var tr []lib.Event
		if i > 0 && model.Chance(t, "derive", 70) {
			prev := c.Traces[model.Range(t, "of", 0, i-1)]
			tr = append(tr, prev...)
			switch model.Range(t, "edit", 0, 6) {
			case 0:
				tr = tr[:model.Range(t, "cut", 0, len(tr))]
			case 1:
				tr = append(tr, model.From(t, "extra", alpha))
			case 2:
				if len(tr) > 0 {
					tr[model.Range(t, "at", 0, len(tr)-1)] = model.From(t, "other", alpha)
				}
			case 3:
				if len(tr) > 1 {
					i := model.Range(t, "swap", 0, len(tr)-2)
					tr[i], tr[i+1] = tr[i+1], tr[i]
				}
			case 4, 5:
				if len(tr) > 1 {
					i := model.Range(t, "fuse", 0, len(tr)-2)
					tr = append(append(tr[:i:i], fuse(tr[i], tr[i+1])), tr[i+2:]...)
				}
			}
		} else {
			for k := model.Len(t, "len", 0, 5, 40); k > 0; k-- {
				tr = append(tr, model.From(t, "event", alpha))
			}
		}
		c.Traces = append(c.Traces, tr)
	}
	if model.Rarely(t, "big", 2) {
		// Long traces that differ near the end, or only in length.
		long := model.Cycle(t, alpha, model.Range(t, "bigLen", 40, 400))
		for i := 0; i < 2; i++ {
			other := append([]lib.Event(nil), long...)
			other[model.Range(t, "bigAt", 0, len(other)-1)] = model.From(t, "bigOther", alpha)
			c.Traces = append(c.Traces, other)
		}
		c.Traces = append(c.Traces, long, long[:model.Range(t, "bigCut", 0, len(long))])
	}
	for i := model.Range(t, "raw", 0, 4); i > 0; i-- {
		e := model.From(t, "rawEvent", alpha)
		c.Raw = append(c.Raw, rawText(t, e))
	}
	return c
}

// fuse makes one event that looks like two events in the text of a trace.
func fuse(d, e lib.Event) lib.Event {
	shown := d.Ch + "." + d.Kind
	switch {
	case d.Val.Int != nil:
		shown += fmt.Sprintf(".int!%d", *d.Val.Int)
	case d.Val.Enum != nil:
		shown += fmt.Sprintf(".enum!%q", *d.Val.Enum)
	}
	return lib.Event{Ch: shown + ", " + e.Ch, Kind: e.Kind, Val: e.Val}
}

// ambiguous tells whether the text of a trace with events d can be that of another.
func ambiguous(d []lib.Event) bool {
	for _, e := range d {
		if strings.Contains(e.Text(), ", ") {
			return true
		}
	}
	return false
}

// rawText draws a spelling of e.
func rawText(t *rapid.T, e lib.Event) string {
	pad := func(l string) string { return model.Pick(t, l, "", "", " ", "  ") }
	kind := e.Kind
	if model.Chance(t, "upper", 30) {
		kind = strings.ToUpper(kind)
	}
	s := pad("p1") + e.Ch + pad("p2") + "." + pad("p3") + kind + pad("p4")
	switch {
	case e.Val.Int != nil:
		s += "." + pad("p5") + model.Pick(t, "sign", "", "", "0", "00") + fmt.Sprint(*e.Val.Int) + pad("p6")
	case e.Val.Enum != nil:
		s += "." + pad("p5") + *e.Val.Enum + pad("p6")
	}
	return s
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func check(c Case, rec *pbt.Rec) error {
	var events []lib.Event
	seen := map[string]bool{}
	for _, tr := range c.Traces {
		for _, e := range tr {
			if !seen[e.Text()] {
				seen[e.Text()] = true
				events = append(events, e)
			}
		}
	}
	// Events, and what they are made of.
	for _, d := range events {
		for _, e := range events {
			if err := compareEvents(d, e); err != nil {
				return err
			}
		}
	}
	// Traces.
	strict, other := false, false
	for _, d := range c.Traces {
		for _, e := range c.Traces {
			dt, et := lib.Texts(d), lib.Texts(e)
			built, rebuilt := trace.New(lib.BuildAll(d)...), trace.New(lib.BuildAll(e)...)
			wantPrefix := len(dt) <= len(et) && same(dt, et[:len(dt)])
			if got := built.IsPrefixOf(rebuilt); got != wantPrefix {
				return fmt.Errorf("%q is a prefix of %q: got %v, want %v", dt, et, got, wantPrefix)
			}
			if got := built.Equals(rebuilt); got != same(dt, et) {
				return fmt.Errorf("%q equals %q: got %v, want %v", dt, et, got, same(dt, et))
			}
			if got := built.String() == rebuilt.String(); got != same(dt, et) && (!got || !ambiguous(d) && !ambiguous(e)) {
				return fmt.Errorf("%q and %q have the same text: got %v, want %v", dt, et, got, same(dt, et))
			}
			if !same(lib.OfEvents(built), dt) || !same(lib.OfEvents(rebuilt), et) {
				return fmt.Errorf("comparing %q and %q changed them to %q and %q", dt, et, lib.OfEvents(built), lib.OfEvents(rebuilt))
			}
			strict = strict || (wantPrefix && len(dt) < len(et))
			other = other || (len(dt) == len(et) && !wantPrefix)
			rec.Count("pairs of traces", 1)
		}
		// Each cut of a trace, as a slice sharing its memory.
		whole := trace.New(lib.BuildAll(d)...)
		for i := range whole {
			if !whole[:i].IsPrefixOf(whole) || whole.IsPrefixOf(whole[:i]) || whole[:i].Equals(whole) || whole.Equals(whole[:i]) {
				return fmt.Errorf("cut %d of %q: wrong comparison with the whole", i, lib.Texts(d))
			}
		}
		if !trace.New().IsPrefixOf(whole) || !trace.Trace(nil).IsPrefixOf(whole) || !whole.IsPrefixOf(whole) || !whole.Equals(whole) {
			return fmt.Errorf("%q: wrong comparison with itself or the empty trace", lib.Texts(d))
		}
	}
	// Parsed events.
	type parsed struct {
		raw, canon string
		e          testlang.Event
	}
	var ps []parsed
	for _, raw := range c.Raw {
		var e testlang.Event
		if err := e.UnmarshalText([]byte(raw)); err != nil {
			return fmt.Errorf("event %q doesn't parse: %v", raw, err)
		}
		canon, err := e.MarshalText()
		if err != nil {
			return fmt.Errorf("event %q can't be written: %v", raw, err)
		}
		ps = append(ps, parsed{raw, string(canon), e})
	}
	for _, p := range ps {
		for _, q := range ps {
			if got := p.e.Equals(q.e); got != (p.canon == q.canon) {
				return fmt.Errorf("events read from %q and %q are equal: %v, but their canonical texts are %q and %q", p.raw, q.raw, got, p.canon, q.canon)
			}
		}
	}
	rec.NonTrivialIf(strict && other)
	rec.LabelIf(strict, "strict prefix")
	rec.LabelIf(len(c.Traces) > 0 && len(c.Traces[len(c.Traces)-1]) > 40, "over 40 events")
	rec.LabelIf(other, "equally long, different")
	rec.Count("pairs of events", len(events)*len(events))
	return nil
}

func compareEvents(d, e lib.Event) error {
	want := d.Text() == e.Text()
	db, eb := d.Build(), e.Build()
	if got := db.Equals(eb); got != want {
		return fmt.Errorf("event %s equals %s: got %v", d.Text(), e.Text(), got)
	}
	if got := db.String() == eb.String(); got != want {
		return fmt.Errorf("events %s and %s have the same text: got %v", d.Text(), e.Text(), got)
	}
	wantVal := d.Val.Text() == e.Val.Text()
	if got := db.Value.Equals(eb.Value); got != wantVal {
		return fmt.Errorf("value %s equals %s: got %v", d.Val.Text(), e.Val.Text(), got)
	}
	if got := db.Value.String() == eb.Value.String(); got != wantVal {
		return fmt.Errorf("values %s and %s have the same text: got %v", d.Val.Text(), e.Val.Text(), got)
	}
	wantCh := d.Ch == e.Ch && d.Kind == e.Kind
	if got := db.Channel.Equals(eb.Channel); got != wantCh {
		return fmt.Errorf("channel %q.%s equals %q.%s: got %v", d.Ch, d.Kind, e.Ch, e.Kind, got)
	}
	if lib.OfEvent(db).Text() != d.Text() || lib.OfEvent(eb).Text() != e.Text() {
		return fmt.Errorf("comparing %s and %s changed them", d.Text(), e.Text())
	}
	return nil
}
