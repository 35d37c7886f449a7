package model

import (
	"strings"

	"pgregory.net/rapid"
)

// Anything-goes text for names and channels that needn't become C++.

var textRunes = []rune("abcXYZ019_-+*/\\'\"`,:;#!?&<>=()[]{}%$@^~|  \té日ΩİK\u2028\u00a0\x01\x7f𝔘\n")

// FreeText draws non-empty trimmed text without the runes in not.
func FreeText(t *rapid.T, label, not string, max int) string {
	var pool []rune
	for _, r := range textRunes {
		if !strings.ContainsRune(not, r) {
			pool = append(pool, r)
		}
	}
	s := strings.TrimSpace(rapid.StringOfN(rapid.RuneFrom(pool), 1, max, -1).Draw(t, label))
	if s == "" {
		return "w"
	}
	return s
}

// FreeUniverse draws channels with any names; each channel has values of one type.
func FreeUniverse(t *rapid.T, max int) []Chan {
	n := Range(t, "numChans", 1, max)
	used := map[string]bool{}
	chans := make([]Chan, n)
	for i := range chans {
		name := ""
		if Chance(t, "freeChan", 50) {
			name = FreeText(t, "chan", ".", 8)
		} else {
			name = From(t, "chan", chanPool)
		}
		for used[name] {
			name += "k"
		}
		used[name] = true
		chans[i] = Chan{Name: name, Kind: Pick(t, "kind", "in", "out", "call"), Type: Pick(t, "type", "nat", "enum", "int", "()")}
	}
	return chans
}

// FreeRows draws rows of traces with any names, channels and values, for use with read-traces.
//
// Names may clash; each channel is used with one type of value.
func FreeRows(t *rapid.T, maxRows, maxEvents int) []Trace {
	chans := FreeUniverse(t, 5)
	alpha := GenAlphabet(t, chans, ValOpts{})
	// Channels may be used with several kinds in events:
	if Chance(t, "mixKinds", 30) {
		for i := range alpha {
			alpha[i].Kind = Pick(t, "kind", "in", "out", "call")
		}
	}
	n := Len(t, "numRows", 1, 6, maxRows)
	if Chance(t, "noRows", 3) {
		n = 0
	}
	rows := make([]Trace, n)
	for i := range rows {
		k := Len(t, "numEvents", 1, 5, maxEvents)
		evs := make([]Event, k)
		for j := range evs {
			evs[j] = From(t, "event", alpha)
		}
		rows[i] = Trace{Name: FreeName(t), Events: evs}
	}
	if n > 0 && Rarely(t, "big", 8) {
		i := Range(t, "bigRow", 0, n-1)
		switch Range(t, "bigKind", 0, 2) {
		case 0: // a long row
			rows[i].Events = append(rows[i].Events, Cycle(t, alpha, Range(t, "bigEvents", 50, 700))...)
		case 1: // many rows
			for k := Range(t, "bigRows", 20, 1500); k > 0; k-- {
				rows = append(rows, rows[(k*k)%n])
			}
		default: // a long cell
			e := &rows[i].Events[Range(t, "bigEvent", 0, len(rows[i].Events)-1)]
			if typ := e.Type(); typ == "enum" {
				v := *e.Val + strings.Repeat("long", Range(t, "bigValue", 1000, 40000))
				e.Val = &v
			} else {
				e.Ch += strings.Repeat("long", Range(t, "bigChannel", 1000, 40000))
			}
		}
	}
	return rows
}

// FreeName draws a test name, often clashing with others, or "".
func FreeName(t *rapid.T) string {
	switch {
	case Chance(t, "named", 60):
		return Pick(t, "name", "a", "b", "a0", "a1", "a00", "a10", "b0", "test", "test0", "test1", "test2", "test00", "test10", "Test", "x.y", "my test")
	case Chance(t, "freeName", 20):
		return FreeText(t, "name", ":", 8)
	default:
		return ""
	}
}

// Spelling draws a spelling of an event that means the same.
func (e Event) Spelling(t *rapid.T) string {
	pad := func(label string) string {
		if Chance(t, label, 25) {
			return Pick(t, label+"Text", " ", "  ", "\t", "   ", " \t ", "\u00a0", "\u3000 ")
		}
		return ""
	}
	kind := e.Kind
	if Chance(t, "kindCase", 40) {
		kind = caseOf(t, kind)
	}
	s := pad("p0") + e.Ch + pad("p1") + "." + pad("p2") + kind + pad("p3")
	if e.Val == nil {
		return s
	}
	v := *e.Val
	if _, isInt := ParseInt(v); isInt && Chance(t, "intSpelling", 40) {
		digits := strings.TrimLeft(v, "-")
		sign := v[:len(v)-len(digits)]
		if sign == "" && Chance(t, "plus", 50) {
			sign = "+"
		}
		if v == "0" && Chance(t, "minus", 30) {
			sign = "-"
		}
		v = sign + strings.Repeat("0", Range(t, "zeros", 0, 3)) + digits
	}
	return s + "." + pad("p4") + v + pad("p5")
}

func caseOf(t *rapid.T, s string) string {
	bs := []byte(s)
	for i := range bs {
		if Chance(t, "upper", 50) {
			bs[i] -= 'a' - 'A'
		}
	}
	return string(bs)
}

// MessyCSV draws a rendering of rows with arbitrary formatting.
func MessyCSV(t *rapid.T, rows []Trace) string {
	eol := Pick(t, "eol", "\n", "\n", "\r\n")
	var b strings.Builder
	filler := func() {
		for Chance(t, "filler", 20) {
			if Chance(t, "comment", 60) {
				b.WriteString("#" + Pick(t, "commentText", "", " a comment", "foo.in.1,bar.out.2", " \"unbalanced", "# ,,, ::", " x: y.in.3") + eol)
			} else {
				b.WriteString(eol)
			}
		}
	}
	filler()
	for i, r := range rows {
		for j, e := range r.Events {
			cell := e.Spelling(t)
			if j == 0 {
				switch {
				case r.Name != "":
					cell = namePad(t, "n0") + r.Name + namePad(t, "n1") + ":" + cell
				case strings.Contains(cell, ":") || Chance(t, "emptyName", 10):
					cell = namePad(t, "n0") + ":" + cell
				}
			}
			if j > 0 {
				b.WriteByte(',')
			}
			lead := ""
			if Chance(t, "lead", 25) {
				lead = Pick(t, "leadText", " ", "  ", "\t")
			}
			quote := bareUnsafe(cell) || Chance(t, "quote", 20)
			if quote {
				cell = Quote(cell)
			} else if j == 0 && strings.HasPrefix(strings.TrimSpace(cell), "#") {
				cell = Quote(cell)
			}
			b.WriteString(lead + cell)
		}
		if i < len(rows)-1 || !Chance(t, "noFinalEOL", 20) {
			b.WriteString(eol)
			filler()
		}
	}
	return b.String()
}

func namePad(t *rapid.T, label string) string {
	if Chance(t, label, 25) {
		return Pick(t, label+"Text", " ", "  ", "\t")
	}
	return ""
}

// bareUnsafe checks whether a cell means something else when not quoted.
func bareUnsafe(cell string) bool {
	return strings.TrimSpace(cell) == "" || strings.ContainsAny(cell, "\",\n\r")
}
