package model

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Chan is a channel of a universe: every event on it has values of one type.
type Chan struct {
	Name string
	Kind string
	Type string // (), nat, int, enum
}

// Pick draws one of xs.
func Pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.Uniform(len(xs)).Draw(t, label)]
}

// From draws one of xs.
func From[T any](t *rapid.T, label string, xs []T) T { return Pick(t, label, xs...) }

// Chance is true about pct% of the time, shrinking to false.
func Chance(t *rapid.T, label string, pct int) bool {
	return rapid.Uniform(100).Draw(t, label) >= 100-pct
}

// Len draws a length: usually small, sometimes up to max.
func Len(t *rapid.T, label string, min, typical, max int) int {
	if max > typical && Chance(t, label+"Long", 5) {
		return min + rapid.Uniform(max-min+1).Draw(t, label)
	}
	return min + rapid.Uniform(typical-min+1).Draw(t, label)
}

// Range draws a number from lo to hi.
func Range(t *rapid.T, label string, lo, hi int) int {
	return lo + rapid.Uniform(hi-lo+1).Draw(t, label)
}

// Rarely is true about permille in a thousand times, shrinking to false.
func Rarely(t *rapid.T, label string, permille int) bool {
	return rapid.Uniform(1000).Draw(t, label) >= 1000-permille
}

// Cycle gives n items that cycle through alpha with some stride, at the cost of two draws.
func Cycle[T any](t *rapid.T, alpha []T, n int) []T {
	start, stride := rapid.Uniform(len(alpha)).Draw(t, "cycleStart"), 1+rapid.Uniform(3).Draw(t, "cycleStride")
	es := make([]T, n)
	for i := range es {
		es[i] = alpha[(start+i*stride+i/7)%len(alpha)]
	}
	return es
}

// UpcaseFirst is the rule that makes C++ identifiers from channel names.
func UpcaseFirst(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToUpper(r)) + s[n:]
}

// Topic is the rule that makes ROS topics from channel names.
func Topic(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i, c := range rs {
		if unicode.IsUpper(c) && i > 0 && unicode.IsLower(rs[i-1]) {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToLower(c))
	}
	return b.String()
}

// reserved names can't be channel or test names in generated C++ (compared in lower case, without underscores).
var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`timeout ready accept inputaccepted initialdelay dump verdict
		alignas alignof and andeq asm auto bitand bitor bool break case catch char char16t char32t class compl const
		constexpr constcast continue decltype default delete do double dynamiccast else enum explicit export extern
		false float for friend goto if inline int long mutable namespace new noexcept not noteq nullptr operator or
		oreq private protected public register reinterpretcast return short signed sizeof static staticassert
		staticcast struct switch template this threadlocal throw true try typedef typeid typename union unsigned
		using virtual void volatile wchart while xor xoreq main std rtcg convert unix linux i386 errno eof null
		stdin stdout stderr assert`) {
		reserved[w] = true
	}
}

func normal(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

var chanPool = []string{
	"foo", "bar", "batteryInfo", "Stop", "goLeft", "x", "Z", "move_to", "cmdVel", "stateOFF", "HTTPGet", "a1", "b2c",
	"reading", "MOVE", "land", "takeOff", "camera_Image", "p", "q", "eventABC", "ABCevent", "r2D2", "set__point",
}

// ident draws a C++ identifier that is safe as a channel or test name.
func ident(t *rapid.T, label string) string {
	if Chance(t, label+"Pool", 60) {
		return From(t, label, chanPool)
	}
	if Rarely(t, label+"Long", 30) {
		return rapid.StringMatching(`[a-zA-Z]([a-z]{3}[A-Z]|[a-z]{3}_){4,12}[a-zA-Z0-9]`).Draw(t, label)
	}
	return rapid.StringMatching(`[a-zA-Z]([a-zA-Z0-9]|_[a-zA-Z0-9]){0,7}`).Draw(t, label)
}

// Distinct makes s distinct from the names in used, under the normalisation of C++ and ROS names.
func Distinct(s string, used map[string]bool) string {
	for c, i := s, 0; ; i++ {
		if n := normal(c); !used[n] && !reserved[n] {
			used[n] = true
			return c
		}
		c = fmt.Sprintf("%s%c%d", s, 'k', i)
	}
}

// ValOpts limits generated values.
type ValOpts struct {
	Cpp   bool // Cpp limits integers to what the generated C++ can hold.
	Typed bool // Typed limits enumerations of outputs and calls to what can be typed to animated tests.
	Plain bool // Plain limits enumerations to identifiers.
}

var enumPool = []string{
	"red", "green", "Blue", "OFF", "on", "A", "b", "true", "False", "null", "NaN", "1.5", "-0.25", "0x10", "1e3", "a.b.c", "--", "-",
	"+", "1_000", "a-b", "a+b", "(x)", "{y}", "{{.}}", "{{/*", "<tag>", "&amp;", "a&b", "$x", "${NAME}", "%d", "%s", "//", "/*", "*/", "#1",
	"a:b", "a=b", "a;b", "a/b", "é", "日本", "Ωmega", "٣", "１２", "a\\b", "\\", "\\n", "\"", "a\"b", "'", "''", "?", "??=", "??/", "a?b",
	"99999999999999999999", "9223372036854775808", "-9223372036854775809", "R\"(x)\"", "\\x41", "\\u0041", "\\0", "\"+\"", "`",
	"12abc", "3 ", "zero", "enum", "in", "out", "x.in.3",
}

var spacedPool = []string{"two words", "a  b", "a, b", "", "a\tb", "line\nbreak", "x y.z", "\x01ctl", "bell\a1", "del\x7f9", ", ", "a\n\nb"}

// GenVal draws a canonical value of the given type, or nil for ().
func GenVal(t *rapid.T, typ string, o ValOpts) *string {
	var s string
	switch typ {
	case "()":
		return nil
	case "nat":
		if o.Cpp {
			s = strconv.FormatUint(uint64(rapid.OneOf(
				rapid.Uint32Range(0, 5), rapid.SampledFrom([]uint32{10, 42, 255, 256, 1000, 1<<31 - 1, 1 << 31, 1<<32 - 1}), rapid.Uint32(),
			).Draw(t, "nat")), 10)
		} else {
			s = strconv.FormatInt(rapid.OneOf(
				rapid.Int64Range(0, 5), rapid.SampledFrom([]int64{10, 42, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1}), rapid.Int64Range(0, 1<<63-1),
			).Draw(t, "nat"), 10)
		}
	case "int":
		if o.Cpp {
			s = strconv.FormatInt(int64(rapid.OneOf(
				rapid.Int32Range(-5, 5), rapid.SampledFrom([]int32{-10, 10, 42, -42, 1<<31 - 1, -1<<31 + 1, -1 << 31}), rapid.Int32(),
			).Draw(t, "int")), 10)
		} else {
			s = strconv.FormatInt(rapid.OneOf(
				rapid.Int64Range(-5, 5), rapid.SampledFrom([]int64{-10, 10, 1 << 32, -1 << 32, 1<<63 - 1, -1 << 63}), rapid.Int64(),
			).Draw(t, "int"), 10)
		}
	case "enum":
		s = genEnum(t, o)
	default:
		panic("bad type " + typ)
	}
	return &s
}

func genEnum(t *rapid.T, o ValOpts) string {
	var s string
	switch {
	case o.Plain || Chance(t, "enumIdent", 40):
		s = rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_]{0,6}`).Draw(t, "enum")
	case Chance(t, "enumSpaced", 15):
		s = From(t, "enum", spacedPool)
	case Chance(t, "enumFree", 30):
		s = rapid.StringOfN(rapid.RuneFrom([]rune("ab01+-._\\\"'?/:<>&%$#@!~^|{}[]()é ")), 1, 8, -1).Draw(t, "enum")
	default:
		s = From(t, "enum", enumPool)
	}
	if Rarely(t, "enumLong", 25) {
		s = long(t, s)
	}
	s = CanonVal(s)
	if o.Typed && !CanType(s) {
		s = strings.Join(strings.FieldsFunc(s, func(r rune) bool { return unicode.IsSpace(r) }), " ")
	}
	if _, isInt := ParseInt(s); isInt || (s == "" && o.Typed) {
		s = "v" + s
	}
	return s
}

// long draws a long text that ends in s.
func long(t *rapid.T, s string) string {
	part := Pick(t, "longPart", "x", "Ab1", "long_value_")
	n := Pick(t, "longLen", 65, 130, 260, 1030, 4100)
	return strings.Repeat(part, n/len(part)+1) + s
}

// UniOpts limits generated channel universes.
type UniOpts struct {
	Max   int
	Kinds []string // allowed kinds; defaults to all
	Types []string // allowed types; defaults to all
}

// GenUniverse draws a set of channels usable in generated C++.
func GenUniverse(t *rapid.T, o UniOpts) []Chan {
	if o.Max == 0 {
		o.Max = 5
	}
	if o.Kinds == nil {
		o.Kinds = []string{"in", "out", "call"}
	}
	if o.Types == nil {
		o.Types = []string{"nat", "enum", "int", "()"}
	}
	used := map[string]bool{}
	n := Len(t, "numChans", 1, o.Max, 3*o.Max)
	chans := make([]Chan, n)
	for i := range chans {
		chans[i] = Chan{
			Name: Distinct(ident(t, "chan"), used),
			Kind: From(t, "kind", o.Kinds),
			Type: From(t, "type", o.Types),
		}
	}
	if Chance(t, "twoWay", 20) {
		// Some channel also goes the other way.
		c := From(t, "twoWayChan", chans)
		c.Kind = From(t, "otherWay", o.Kinds)
		if (c.Kind == "in") != (chans[indexOf(chans, c.Name)].Kind == "in") {
			chans = append(chans, c)
		}
	}
	return chans
}

func indexOf(chans []Chan, name string) int {
	for i, c := range chans {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// GenAlphabet draws events over a universe; each channel gets one to three values.
func GenAlphabet(t *rapid.T, chans []Chan, o ValOpts) []Event {
	var es []Event
	seen := map[string]bool{}
	for _, c := range chans {
		n := 1
		o := o
		o.Typed = o.Typed && c.Kind != "in"
		if c.Type != "()" {
			n = Len(t, "numVals", 1, 3, 11)
		}
		for i := 0; i < n; i++ {
			e := Event{Ch: c.Name, Kind: c.Kind, Val: GenVal(t, c.Type, o)}
			if c.Type == "enum" && len(es) > 0 && es[len(es)-1].Val != nil && Chance(t, "alike", 25) {
				if v := alike(t, *es[len(es)-1].Val); v != "" && (!o.Typed || CanType(v)) {
					e.Val = &v
				}
			}
			if (c.Type == "nat" || c.Type == "int") && i > 0 && es[len(es)-1].Ch == c.Name && Chance(t, "alikeNumber", 25) {
				v := alikeNumber(t, *es[len(es)-1].Val, o.Cpp)
				e.Val = &v
			}
			if !seen[e.Text()] {
				seen[e.Text()] = true
				es = append(es, e)
			}
		}
	}
	return es
}

// alikeNumber draws a number of the same sign as s that differs in one bit only.
func alikeNumber(t *rapid.T, s string, cpp bool) string {
	bits := 62
	if cpp {
		bits = 30
	}
	n, _ := ParseInt(s)
	neg := n.Sign() < 0
	n = new(big.Int).Abs(n)
	bit := Range(t, "alikeBit", 0, bits)
	n.SetBit(n, bit, 1-n.Bit(bit))
	if neg {
		n.SetBit(n, bits+1, 0) // Only the least number has it.
		n.Neg(n)
	}
	return n.String()
}

// alike draws an enumeration value much like s, or "".
func alike(t *rapid.T, s string) string {
	if _, isInt := ParseInt(s); isInt {
		return ""
	}
	if len(s) > 60 && Chance(t, "alikeEnd", 70) {
		rs := []rune(s)
		return string(rs[:len(rs)-len(rs)%8]) + Pick(t, "alikeEndText", "_", "y", "zz")
	}
	switch Range(t, "alikeHow", 0, 3) {
	case 0:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 1:
		return UpcaseFirst(s)
	case 2:
		return s + "_"
	default:
		return "x" + s
	}
}

// GenTestName draws a test name that is usable in generated C++, or "" for an unnamed test.
func GenTestName(t *rapid.T) string {
	if Chance(t, "named", 40) {
		return From(t, "name", []string{"alpha", "beta", "Gamma", "t_1", "myTest", "T", "alpha0", "case2", "xX", "do_it", "longer_name_9"})
	}
	return ""
}

// SuiteOpts limits generated suites of traces.
type SuiteOpts struct {
	Uni       UniOpts
	Val       ValOpts
	MaxTests  int
	MaxEvents int
}

// GenRows draws rows of forbidden traces usable in generated C++, with prefixes often shared.
func GenRows(t *rapid.T, o SuiteOpts) []Trace {
	chans := GenUniverse(t, o.Uni)
	alpha := GenAlphabet(t, chans, o.Val)
	n := Len(t, "numTests", 1, o.MaxTests, 4*o.MaxTests)
	rows := make([]Trace, n)
	for i := range rows {
		var evs []Event
		if i > 0 && Chance(t, "share", 40) {
			prev := rows[Range(t, "shareOf", 0, i-1)].Events
			evs = append(evs, prev[:Range(t, "shareLen", 0, len(prev)-1)]...)
		}
		k := Len(t, "numEvents", 1, 5, o.MaxEvents)
		for j := 0; j < k; j++ {
			evs = append(evs, From(t, "event", alpha))
		}
		rows[i] = Trace{Name: GenTestName(t), Events: evs}
	}
	return rows
}

// ToSuite expands rows to chains under the names that they must get.
func ToSuite(rows []Trace) Suite {
	s := Suite{}
	for i, n := range Names(rows) {
		s[n] = Chain(n, rows[i].Events)
	}
	return s
}

// TreeOpts limits generated factorised trees.
type TreeOpts struct {
	Depth int
	Width int
	Mixed bool // Mixed allows failing nodes beside others.
}

// GenTree draws a deterministic factorised tree over alpha, whose member tests are named from names.
func GenTree(t *rapid.T, alpha []Event, o TreeOpts) *Node {
	var ins, outs []Event
	for _, e := range alpha {
		if e.Kind == "in" {
			ins = append(ins, e)
		} else {
			outs = append(outs, e)
		}
	}
	if Chance(t, "wide", 4) {
		o.Width *= 3
	}
	count := 0
	var fresh = func() string {
		count++
		return fmt.Sprintf("%s%d", From(t, "memberName", []string{"m", "Test", "fac_"}), count)
	}
	// children draws the events offered at a node.
	children := func() []Event {
		useIn := len(ins) > 0 && (len(outs) == 0 || Chance(t, "useIn", 30))
		if useIn {
			return []Event{From(t, "inEvent", ins)}
		}
		n := Range(t, "branches", 1, o.Width)
		idx := rapid.Permutation(seq(len(outs))).Draw(t, "branchEvents")
		if n > len(idx) {
			n = len(idx)
		}
		es := make([]Event, n)
		for i := range es {
			es[i] = outs[idx[i]]
		}
		return es
	}
	var build func(e *Event, depth int) *Node
	build = func(e *Event, depth int) *Node {
		n := &Node{Event: e}
		if e != nil && (depth >= o.Depth || count > 80 || Chance(t, "leaf", 35)) {
			n.Outcome = "pass"
			for i := Range(t, "leafTests", 1, 2); i > 0; i-- {
				n.Tests = append(n.Tests, fresh())
			}
			n.Next = []*Node{{Outcome: "fail", Tests: n.Tests}}
			return n
		}
		if e != nil {
			n.Outcome = "inc"
		}
		for _, ke := range children() {
			ke := ke
			k := build(&ke, depth+1)
			n.Next = append(n.Next, k)
			n.Tests = append(n.Tests, k.Tests...)
		}
		return n
	}
	root := build(nil, 0)
	if o.Mixed && len(outs) > 0 && Chance(t, "mixed", 25) {
		mix(t, root, outs, fresh)
	}
	if Chance(t, "spine", 6) {
		// A long way to the first branch.
		root = Prefixed(root, Cycle(t, alpha, Range(t, "spineLen", 5, 40)))
	}
	return root
}

// mix makes some nodes that lead to a failure also lead on, to the failures of further tests, and gives these tests.
func mix(t *rapid.T, n *Node, outs []Event, fresh func() string) []string {
	var more []string
	if n.Outcome == "pass" {
		if !Chance(t, "mixHere", 50) {
			return nil
		}
		n.Outcome = "inc"
		idx := rapid.Permutation(seq(len(outs))).Draw(t, "mixEvents")
		w := Range(t, "mixWidth", 1, 2)
		if w > len(idx) {
			w = len(idx)
		}
		for i := w; i > 0; i-- {
			u := fresh()
			k := &Node{Tests: []string{u}, Outcome: "pass", Event: &outs[idx[i-1]], Next: []*Node{{Outcome: "fail", Tests: []string{u}}}}
			if Chance(t, "mixBefore", 50) {
				n.Next = append([]*Node{k}, n.Next...)
			} else {
				n.Next = append(n.Next, k)
			}
			more = append(more, u)
		}
	} else {
		for _, k := range n.Next {
			more = append(more, mix(t, k, outs, fresh)...)
		}
	}
	n.Tests = append(n.Tests[:len(n.Tests):len(n.Tests)], more...)
	if Chance(t, "mixOrder", 50) {
		n.Tests = rapid.Permutation(n.Tests).Draw(t, "mixTests")
	}
	return more
}

// Prefixed gives a test tree in which some events come before those of root.
func Prefixed(root *Node, evs []Event) *Node {
	for i := len(evs) - 1; i >= 0; i-- {
		root.Event, root.Outcome = &evs[i], "inc"
		root = &Node{Tests: root.Tests, Next: []*Node{root}}
	}
	return root
}

func seq(n int) []int {
	xs := make([]int, n)
	for i := range xs {
		xs[i] = i
	}
	return xs
}

// SimilarNames draws a channel and a new name for it that differs from another one's in underscores or case only.
//
// The two are channels that one test takes outputs on, where there are such. The names still make different C++
// identifiers, but not different ROS topics. If there is none, they are empty.
func SimilarNames(t *rapid.T, s Suite) (from, name string) {
	all := map[string]bool{}
	for _, e := range s.Events() {
		all[e.Ch] = true
	}
	test := s[From(t, "similarIn", s.Keys())]
	names := map[string]bool{}
	for _, e := range test.Events() {
		if e.Kind != "in" {
			names[e.Ch] = true
		}
	}
	if len(names) < 2 {
		names = all
	}
	if len(names) < 2 {
		return "", ""
	}
	p := rapid.Permutation(sortedKeys(names)).Draw(t, "similarChans")
	to := []rune(p[1])
	vars := []string{string(to) + "_"}
	for i, c := range to {
		head, tail := string(to[:i]), string(to[i+1:])
		switch {
		case i == 0:
		case c == '_':
			vars = append(vars, head+UpcaseFirst(tail), head+tail)
		case unicode.IsUpper(c):
			vars = append(vars, head+"_"+string(unicode.ToLower(c))+tail, head+string(unicode.ToLower(c))+tail)
		case unicode.IsLower(c):
			vars = append(vars, head+string(unicode.ToUpper(c))+tail, head+"_"+string(c)+tail)
		}
	}
	name = From(t, "similar", vars)
	for n := range all {
		if UpcaseFirst(n) == UpcaseFirst(name) {
			return "", ""
		}
	}
	return p[0], name
}

// Rename renames a channel throughout a suite.
func (s Suite) Rename(from, to string) {
	for _, n := range s {
		n.Walk(func(n *Node, _ int) {
			if n.Event != nil && n.Event.Ch == from {
				e := *n.Event
				e.Ch = to
				n.Event = &e
			}
		})
	}
}

// GiveIDs gives some nodes of a tree identifiers of their own that, in C++, are different names.
func GiveIDs(t *rapid.T, root *Node) {
	used := map[string]bool{"INITIAL": true}
	root.Walk(func(n *Node, depth int) {
		if depth == 0 || n.Outcome == "fail" || !Chance(t, "giveID", 30) {
			return
		}
		id := Pick(t, "id", "node_1", "node1", "Node_2", "node_2_", "no_de2", "step_0", "step_1", "step1_", "Here", "he_re", "x", "x_", "x_1", "s0", "step0", "step3", "initial_", "state_", "value", "msg")
		if key := strings.ToUpper(id); !used[key] {
			used[key] = true
			n.ID = id
		}
	})
}

// Step is one step of a script played to a test.
type Step struct {
	Op string `json:"op"` // ready, accept, timeout, out, junk
	Ev *Event `json:"ev,omitempty"`
}

// Play is a script.
type Play = []Step

// Events gives the distinct events of a suite, in order of their text.
func (s Suite) Events() []Event {
	byText := map[string]Event{}
	var texts []string
	for _, n := range s {
		for _, e := range n.Events() {
			if _, ok := byText[e.Text()]; !ok {
				byText[e.Text()] = e
				texts = append(texts, e.Text())
			}
		}
	}
	sort.Strings(texts)
	es := make([]Event, len(texts))
	for i, t := range texts {
		es[i] = byText[t]
	}
	return es
}

// OutputsOf gives those of the events that are on output or call channels of the test at root.
func OutputsOf(root *Node, events []Event) []Event {
	chans := map[string]bool{}
	for _, e := range root.Events() {
		if e.Kind != "in" {
			chans[e.Ch+"."+e.Kind] = true
		}
	}
	var es []Event
	for _, e := range events {
		if chans[e.Ch+"."+e.Kind] {
			es = append(es, e)
		}
	}
	return es
}

// GenScript draws a script of steps for the test at root, mostly following it.
//
// alpha is the set of output events available.
func GenScript(t *rapid.T, root *Node, alpha []Event, follow int) []Step {
	m := NewMachine(root)
	var steps []Step
	for m.Running() && len(steps) < 200 {
		var step Step
		if Chance(t, "follow", follow) {
			step = FollowStep(t, m)
		} else {
			step = strayStep(t, m, alpha)
		}
		steps = append(steps, step)
		Apply(m, step)
	}
	return steps
}

// FollowStep draws a step that follows the test.
func FollowStep(t *rapid.T, m *Machine) Step {
	switch m.Status {
	case WaitStart:
		return Step{Op: "ready"}
	case WaitIn:
		return Step{Op: "accept"}
	default:
		kids := m.Cur.Next
		k := kids[Range(t, "branch", 0, len(kids)-1)]
		return Step{Op: "out", Ev: k.Event}
	}
}

func strayStep(t *rapid.T, m *Machine, alpha []Event) Step {
	if len(alpha) > 0 && Chance(t, "strayOut", 50) {
		e := From(t, "strayEvent", alpha)
		return Step{Op: "out", Ev: &e}
	}
	return Step{Op: Pick(t, "stray", "timeout", "ready", "accept", "junk")}
}

// Apply applies an animate step to a machine: words that the menu doesn't offer are ignored.
func Apply(m *Machine, s Step) {
	switch s.Op {
	case "ready":
		m.Ready()
	case "accept":
		if m.Status == WaitIn {
			m.Ack()
		}
	case "timeout":
		m.Timeout()
	case "out":
		m.Output(*s.Ev)
	}
}

// FullScript follows the path of a chain test to its failure.
func FullScript(root *Node, choose func(kids []*Node) *Node) []Step {
	m := NewMachine(root)
	var steps []Step
	for m.Running() {
		var s Step
		switch m.Status {
		case WaitStart:
			s = Step{Op: "ready"}
		case WaitIn:
			s = Step{Op: "accept"}
		default:
			s = Step{Op: "out", Ev: choose(m.Cur.Next).Event}
		}
		steps = append(steps, s)
		Apply(m, s)
	}
	return steps
}

func sortedKeys(set map[string]bool) []string {
	var keys []string
	for k := range set {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
