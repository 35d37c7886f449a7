package main

import (
	"bytes"
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// TermCase is a suite and what is typed to its animated tests.
type TermCase struct {
	Suite  model.Suite        `json:"suite"`
	Convs  []Conv             `json:"convs,omitempty"`
	Widen  map[string]string  `json:"widen,omitempty"` // types given to numeric channels in the state machines, by hand
	Typing map[string][]Typed `json:"typing"`          // by test name
}

// Typed is everything typed to a test.
type Typed []Item

// Item is a piece of typing that means something by itself, with the white space after it.
//
// What it means depends on its fields alone, and the state of the test: Text is only what is sent.
type Item struct {
	Text string       `json:"text"`
	Op   string       `json:"op"`           // ready, accept, timeout, out, refused, cut (a channel without its value at the end)
	Ev   *model.Event `json:"ev,omitempty"` // out
	N    int          `json:"n,omitempty"`  // refused: how many refusals there must be
}

func init() {
	pbt.Register("P25",
		"suites of chains and factorised trees (some with conversions or widened types) compiled for the animate variant, and typing: commands and events with any white space between them, numbers in several notations, enumeration values with spaces, values that aren't of the channel's type, unknown and misspelt words, untimely commands, and the end of input at any point instead of a timeout; the outcome, the refusals and what each prompt offers are compared with the reference machine; non-trivial: some typing has something to refuse and ends with the input rather than the test",
		genP25, checkP25)
}

func genP25(t *rapid.T) TermCase {
	c := TermCase{Typing: map[string][]Typed{}}
	chans := model.GenUniverse(t, model.UniOpts{Max: 5})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{Cpp: true, Typed: true})
	c.Suite = model.Suite{}
	for i := model.Len(t, "numTests", 1, 3, 9); i > 0; i-- {
		name := fmt.Sprintf("%s%d", model.Pick(t, "testName", "test", "Case", "t_"), i)
		if model.Chance(t, "tree", 35) {
			c.Suite[name] = model.GenTree(t, alpha, model.TreeOpts{Depth: 4, Width: 3, Mixed: true})
			continue
		}
		evs := make([]model.Event, model.Len(t, "numEvents", 1, 5, 25))
		for j := range evs {
			evs[j] = model.From(t, "event", alpha)
		}
		c.Suite[name] = model.Chain(name, evs)
	}
	finishSuite(t, c.Suite, true)
	types, _ := model.Types(c.Suite.Events())
	if model.Chance(t, "convs", 25) {
		c.Convs = GenConvs(t, types, 40)
	} else if model.Chance(t, "widening", 25) {
		c.Widen = map[string]string{}
		for _, ch := range keysOf(types) {
			if wider := map[string][]string{"nat": {"int", "real"}, "int": {"real"}}[types[ch]]; wider != nil && model.Chance(t, "widen", 50) && !beyond(c.Suite, ch) {
				c.Widen[ch] = model.From(t, "wider", wider)
			}
		}
	}
	for _, name := range c.Suite.Keys() {
		for i := 0; i < 12; i++ {
			c.Typing[name] = append(c.Typing[name], genTyping(t, c, name, types))
		}
	}
	return c
}

// beyond tells whether some value on a channel isn't a C++ int.
func beyond(s model.Suite, ch string) bool {
	for _, e := range s.Events() {
		if e.Ch == ch && e.Val != nil {
			if n, ok := model.ParseInt(*e.Val); ok && (n.Cmp(big.NewInt(1<<31-1)) > 0 || n.Cmp(big.NewInt(-1<<31)) < 0) {
				return true
			}
		}
	}
	return false
}

// typeIn is the type of a channel in the state machines.
func (c TermCase) typeIn(types map[string]string, ch string) string {
	if w, ok := c.Widen[ch]; ok {
		return w
	}
	return types[ch]
}

// offered gives the channels that a test takes outputs and calls on.
func offered(root *model.Node) map[string]bool {
	chans := map[string]bool{}
	for _, e := range root.Events() {
		if e.Kind != "in" {
			chans[e.Ch] = true
		}
	}
	return chans
}

func genTyping(t *rapid.T, c TermCase, name string, types map[string]string) Typed {
	root := c.Suite[name]
	var outs []model.Event
	for _, e := range model.Stray(root, c.Suite.Events(), types, true) {
		if c.Widen[e.Ch] != "int" || !beyond(model.Suite{"": {Event: &e}}, e.Ch) {
			outs = append(outs, e)
		}
	}
	chans := offered(root)
	m := model.NewMachine(root)
	follow := model.Pick(t, "followPct", 60, 80, 92)
	stop := -1 // where the typing just ends
	if model.Chance(t, "stops", 50) {
		stop = model.Range(t, "stop", 0, 14)
	}
	var typed Typed
	for len(typed) < 60 && len(typed) != stop {
		if !m.Running() {
			if !model.Chance(t, "more", 30) {
				break
			}
		}
		it := Item{}
		switch {
		case m.Running() && model.Chance(t, "follow", follow):
			s := model.FollowStep(t, m)
			it = c.typing(t, types, s.Op, s.Ev)
		case len(outs) > 0 && model.Chance(t, "strayOut", 20):
			e := model.From(t, "strayEvent", outs)
			it = c.typing(t, types, "out", &e)
		case len(outs) > 0 && model.Chance(t, "badValue", 35):
			it = c.badValue(t, types, model.From(t, "badEvent", outs))
		case model.Chance(t, "words", 60):
			it = refusedWords(t, c.Suite, chans)
		default:
			it = c.typing(t, types, model.Pick(t, "stray", "accept", "ready", "accept", "ready", "timeout"), nil)
		}
		typed = append(typed, it)
		it.apply(m)
	}
	if n := len(typed); n > 0 && model.Chance(t, "bareEnd", 40) {
		// The input ends right after the last character that means anything.
		typed[n-1].Text = strings.TrimRight(typed[n-1].Text, " \t\r\n\v\f")
	} else if len(outs) > 0 && model.Chance(t, "cut", 25) {
		if e := model.From(t, "cutEvent", outs); e.Val != nil {
			typed = append(typed, Item{Op: "cut", Text: e.Ch + model.Pick(t, "cutSpace", "", " ", "\n", "\t \n\n")})
		}
	}
	return typed
}

// gap draws white space between words.
func gap(t *rapid.T) string {
	return model.Pick(t, "gap", "\n", "\n", " ", "\t", "\r\n", "\n\n\n", "  \n\t ", "\v\f", strings.Repeat(" ", 300))
}

// typing draws one way to type a command or event.
func (c TermCase) typing(t *rapid.T, types map[string]string, op string, ev *model.Event) Item {
	it := Item{Op: op, Ev: ev}
	if op != "out" {
		it.Text = op + gap(t)
		return it
	}
	if ev.Val == nil {
		it.Text = ev.Ch + gap(t)
		return it
	}
	ty := c.typeIn(types, ev.Ch)
	if ty == "enum" {
		it.Text = ev.Ch + gap(t) + *ev.Val + model.Pick(t, "lineEnd", "\n", "\n", " \n", "\r\n", "\t \r\n", "\n\n \n")
		return it
	}
	if ty == "real" && model.Chance(t, "otherReal", 25) {
		// Some other value, which no integer is.
		v := *ev.Val + ".5"
		e := model.Ev(ev.Ch, ev.Kind, v)
		it.Ev = &e
		it.Text = ev.Ch + gap(t) + v + gap(t)
		return it
	}
	it.Text = ev.Ch + gap(t) + numeral(t, *ev.Val, ty) + gap(t)
	return it
}

// numeral draws a notation of an integer.
func numeral(t *rapid.T, v, ty string) string {
	neg := strings.HasPrefix(v, "-")
	digits := strings.TrimPrefix(v, "-")
	if model.Chance(t, "zeros", 15) {
		digits = strings.Repeat("0", model.Range(t, "numZeros", 1, 12)) + digits
	}
	if ty == "real" {
		digits += model.Pick(t, "fraction", "", "", ".", ".0", ".000", "e0", "E+0", ".0e-0")
	}
	if neg {
		return "-" + digits
	}
	if model.Chance(t, "plus", 10) {
		return "+" + digits
	}
	return digits
}

// badValue draws an event whose value isn't one of the channel's type.
func (c TermCase) badValue(t *rapid.T, types map[string]string, e model.Event) Item {
	ty := c.typeIn(types, e.Ch)
	var v string
	switch {
	case e.Val == nil || ty == "enum":
		// Everything is a value.
		return c.typing(t, types, "out", &e)
	case ty == "real":
		v = model.Pick(t, "badReal", "x", "1.5x", "1,5", "--1", "1e", "..", "1.2.3", "ready", "timeout", "-", "1e999999", "five", "٣")
	case ty == "int":
		v = model.Pick(t, "badInt", "x", *e.Val+"x", *e.Val+".0", *e.Val+",", "-", "+", "--1", "4294967296", "2147483648", "-2147483649", "99999999999999999999999", "0x", "accept", "timeout", "1e3", "1.5", "٣", "é")
	default:
		v = model.Pick(t, "badNat", "x", "-1", "-"+*e.Val+"1", "-4294967295", *e.Val+"x", *e.Val+".0", *e.Val+"-", "-", "+", "+-1", "4294967296", "18446744073709551616", "99999999999999999999999", "0x1F", "accept", "timeout", "1e3", "1.5", "٣", "é")
	}
	return Item{Op: "refused", N: 1, Text: e.Ch + gap(t) + v + gap(t)}
}

// refusedWords draws words that are neither commands nor channels offered.
func refusedWords(t *rapid.T, s model.Suite, chans map[string]bool) Item {
	it := Item{Op: "refused"}
	for i := model.Len(t, "numWords", 1, 3, 20); i > 0; i-- {
		var w string
		switch model.Range(t, "wordKind", 0, 5) {
		case 0:
			w = model.Pick(t, "word", "Ready", "ACCEPT", "Timeout", "time out", "ready.", "accepted", "t", "readyaccept", "timeout\x00", "quit", "\"timeout\"", "in", "out", "call", "\x04", "-", "1", "é", "\xff\xfe")
		case 1, 2:
			if evs := s.Events(); len(evs) > 0 {
				e := model.From(t, "wordEvent", evs)
				w = model.Pick(t, "chanWord", e.Ch, e.Ch+"x", strings.ToUpper(e.Ch), e.Ch[:len(e.Ch)-1], e.Ch+"."+e.Kind, e.Ch+"\x00", "_"+e.Ch)
			}
		case 3:
			w = strings.Repeat("long", model.Pick(t, "longWord", 100, 5000))
		default:
			w = rapid.StringOfN(rapid.RuneFrom([]rune("abz01.,:;!?()<>\\\"'é{}%")), 1, 6, -1).Draw(t, "freeWord")
		}
		for _, f := range strings.Fields(w) {
			if f != "ready" && f != "accept" && f != "timeout" && !chans[f] {
				it.Text += f + gap(t)
				it.N++
			}
		}
	}
	if it.N == 0 {
		it.Text, it.N = "?!junk\n", 1
	}
	return it
}

// apply applies an item to a machine, and returns how many refusals and prompts it brings.
func (it Item) apply(m *model.Machine) (refusals, prompts int) {
	if !m.Running() {
		return 0, 0
	}
	switch it.Op {
	case "refused":
		return it.N, it.N
	case "ready":
		if m.Status != model.WaitStart {
			return 1, 1
		}
		m.Ready()
	case "accept":
		if m.Status != model.WaitIn {
			return 1, 1
		}
		m.Ack()
	case "timeout":
		m.Timeout()
	case "out":
		m.Output(*it.Ev)
	}
	return 0, 1
}

// offer is what a prompt must offer in the machine's state.
func offer(m *model.Machine, out map[string]string) string {
	lines := []string{"timeout"}
	switch m.Status {
	case model.WaitStart:
		lines = append(lines, "ready")
	case model.WaitIn:
		lines = append(lines, "accept")
	}
	for ch, ty := range out {
		lines = append(lines, ch+" (type: "+ty+")")
	}
	sort.Strings(lines)
	return strings.Join(lines, "; ")
}

var offerRE = regexp.MustCompile(`(?m)^  (\S+) \((.*)\)$`)

// offers reads what each prompt offered.
func offers(stdout []byte) []string {
	var res []string
	for i, part := range bytes.Split(stdout, []byte("Type one of the following:\n")) {
		if i == 0 {
			continue
		}
		var lines []string
		for _, l := range offerRE.FindAllSubmatch(part, -1) {
			text := string(l[1])
			if bytes.HasPrefix(l[2], []byte("type: ")) {
				text += " (" + string(l[2]) + ")"
			}
			lines = append(lines, text)
		}
		sort.Strings(lines)
		res = append(res, strings.Join(lines, "; "))
	}
	return res
}

func checkP25(c TermCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	stms := retype(mustOK(MakeStms(c.Suite.Bytes()), "making state machines").Stdout, c.Widen)
	cfg := Config{Variants: []Variant{Variant{Name: "animate"}.WithConvs(c.Convs)}}
	if len(c.Convs) > 0 {
		mustWrite(filepath.Join(dir, "in", "animate", "src", "convert", "convert.cpp"), []byte(ConvertCpp(c.Convs, false)))
	}
	mustOK(GenFrom(dir, cfg.XML(), stms), "generating tests")
	b := buildTests(filepath.Join(dir, "out", "animate", "src"), c.Suite.Keys(), false, len(c.Convs) > 0)
	types, _ := model.Types(c.Suite.Events())
	rec.LabelIf(len(c.Convs) > 0, "user conversions")
	rec.LabelIf(len(c.Widen) > 0, "widened types")

	for _, name := range c.Suite.Keys() {
		root := c.Suite[name]
		out := map[string]string{}
		for ch := range offered(root) {
			out[ch] = c.typeIn(types, ch)
		}
		for _, typed := range c.Typing[name] {
			m := model.NewMachine(root)
			var in strings.Builder
			var want []string
			refusals, atMost, refusable := 0, 0, false
			ends := true // whether the input ends before the test
			for _, it := range typed {
				in.WriteString(it.Text)
				now := offer(m, out)
				if it.Op == "cut" && m.Running() {
					atMost++
					want = append(want, now)
					rec.Count("input ending within an event", 1)
					continue
				}
				r, p := it.apply(m)
				refusals += r
				refusable = refusable || r > 0
				for ; p > 0; p-- {
					want = append(want, now)
				}
			}
			if m.Running() {
				want = append(want, offer(m, out))
				m.Timeout()
				rec.Count("input ending before the test", 1)
			} else {
				ends = false
			}
			atMost += refusals

			o := Run(Cmd{Path: b.exe[name], Args: b.args[name], Stdin: []byte(in.String()), Dir: scratch()})
			if d := endDiff(parseEnd(o), m); d != "" {
				return fmt.Errorf("test %q given %q: %s\nlog:\n%s", name, clip(in.String(), 1000), d, clip(string(o.Stderr), 3000))
			}
			if n := bytes.Count(o.Stdout, []byte("Sorry, try again.\n")); n < refusals || n > atMost {
				return fmt.Errorf("test %q given %q refuses %d times, want %d (test: %s)", name, clip(in.String(), 1000), n, refusals, eventTexts(root))
			}
			got := offers(o.Stdout)
			for i := 0; i < len(got) || i < len(want); i++ {
				switch {
				case i >= len(want):
					return fmt.Errorf("test %q given %q prompts %d times, want %d", name, clip(in.String(), 1000), len(got), len(want))
				case i >= len(got):
					return fmt.Errorf("test %q given %q prompts %d times, want %d", name, clip(in.String(), 1000), len(got), len(want))
				case got[i] != want[i]:
					return fmt.Errorf("test %q given %q: prompt %d offers %q, want %q", name, clip(in.String(), 1000), i+1, got[i], want[i])
				}
			}
			rec.Count("typings", 1)
			rec.Count("prompts", len(got))
			rec.Count("refusals", refusals)
			rec.Count("typings ending as: "+m.Status, 1)
			rec.NonTrivialIf(refusable && ends)
		}
		for ch, ty := range out {
			rec.Label("type " + ty)
			_ = ch
		}
	}
	return nil
}
