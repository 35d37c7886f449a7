package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// BadCase is an input for one tool, usually malformed.
type BadCase struct {
	Tool   string `json:"tool"`
	Input  []byte `json:"input"`
	Text   string `json:"text,omitempty"`   // the input as text, for information
	Config []byte `json:"config,omitempty"` // for rtcg-gen
	Clean  bool   `json:"clean,omitempty"`
	How    string `json:"how"`
	// Malformed is set if the input certainly isn't in the tool's format.
	Malformed bool `json:"malformed"`
}

func init() {
	pbt.Register("P13",
		"valid inputs of each tool (traces, test suites, state machine suites, configurations) with one or more mutations: wrong JSON types, nulls, bad events, kinds, outcomes, types and variants, dropped and duplicated members, truncation, random byte edits, splices, deep nesting and plain noise; a mutation is known to make the input malformed by construction, or because a JSON or XML parser rejects it; non-trivial: malformed by a mutation other than truncation, or rejected by the tool",
		genP13, checkP13)
}

// stmsDoc is the reference state machine suite of a suite, as generic data.
func stmsDoc(suite model.Suite) map[string]any {
	types, _ := model.Types(suite.Events())
	asMap := func(ts map[string]string) map[string]any {
		m := map[string]any{}
		for k, v := range ts {
			m[k] = v
		}
		return m
	}
	tests := map[string]any{}
	for _, name := range suite.Keys() {
		root := suite[name]
		var states []any
		count := 0
		var build func(n *model.Node, id string)
		build = func(n *model.Node, id string) {
			state := map[string]any{"id": id}
			at := len(states)
			states = append(states, state)
			_ = at
			verdicts := map[string]any{}
			var sets []any
			index := map[string]int{}
			for _, k := range n.Next {
				for _, t := range k.Tests {
					verdicts[t] = k.Outcome
				}
				if k.Outcome == "fail" {
					continue
				}
				ch := k.Event.Ch + "." + k.Event.Kind
				if _, ok := index[ch]; !ok {
					index[ch] = len(sets)
					sets = append(sets, map[string]any{"channel": ch, "transitions": []any{}})
				}
				count++
				next := fmt.Sprintf("step%d", count)
				tr := map[string]any{"next": next}
				if k.Event.Val != nil {
					tr["value"] = *k.Event.Val
				}
				set := sets[index[ch]].(map[string]any)
				set["transitions"] = append(set["transitions"].([]any), tr)
				build(k, next)
			}
			state["verdicts"] = verdicts
			if len(sets) > 0 {
				state["transitionSets"] = sets
			}
		}
		build(root, "initial")
		ts, _ := model.Types(root.Events())
		var members []any
		for _, m := range root.Members() {
			members = append(members, m)
		}
		tests[name] = map[string]any{"states": states, "types": asMap(ts), "tests": members}
	}
	return map[string]any{"types": asMap(types), "tests": tests}
}

// place is a place in a JSON document where a value can be replaced.
type place struct {
	path []string
	val  any
	set  func(v any)
	del  func()
}

// places lists the places in a document, in a fixed order.
func places(x any, path []string, set func(any), del func(), out []place) []place {
	out = append(out, place{path, x, set, del})
	sub := func(k string) []string { return append(path[:len(path):len(path)], k) }
	switch v := x.(type) {
	case map[string]any:
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			out = places(v[k], sub(k), func(n any) { v[k] = n }, func() { delete(v, k) }, out)
		}
	case []any:
		for i := range v {
			i := i
			out = places(v[i], sub("#"), func(n any) { v[i] = n }, nil, out)
		}
	}
	return out
}

func jsonKind(x any) string {
	switch x.(type) {
	case map[string]any:
		return "object"
	case []any:
		return "array"
	case string:
		return "string"
	default:
		return "other"
	}
}

// ofKind gives some JSON value of a kind.
func ofKind(t *rapid.T, kind string) any {
	switch kind {
	case "object":
		return model.Pick[any](t, "object", map[string]any{}, map[string]any{"id": "x"}, map[string]any{"next": []any{}})
	case "array":
		return model.Pick[any](t, "array", []any{}, []any{"x"}, []any{[]any{}})
	case "string":
		return model.Pick[any](t, "string", "", "x", "foo.in.1", "inc", "null")
	case "number":
		return model.Pick[any](t, "number", json.Number("0"), json.Number("1"), json.Number("-1.5e300"))
	default:
		return model.Pick[any](t, "bool", true, false)
	}
}

// role tells what a string means, from its path.
func role(path []string, stms bool) string {
	if len(path) == 0 {
		return ""
	}
	last := path[len(path)-1]
	prev := ""
	if len(path) > 1 {
		prev = path[len(path)-2]
	}
	switch {
	case !stms && last == "event":
		return "event"
	case !stms && last == "outcome", stms && prev == "verdicts" && len(path) == 6:
		return "outcome"
	case stms && last == "channel":
		return "channel"
	case stms && prev == "types" && (len(path) == 2 || len(path) == 4):
		return "type"
	}
	return ""
}

var badStrings = map[string][]string{
	"event":   {"", "foo", ".in.1", " .out", "foo.sideways.1", "foo.", "foo..1", "foo.inn.2", "in.foo", "foo in 1", ".", "..", "foo.in-1", "foo:in.1", "foo.0.1"},
	"channel": {"", "foo", ".in", " .out", "foo.sideways", "foo.", "in.foo", "foo in", ".", "foo.0", "foo.in.5", "foo.out.x", "foo.in.", "foo.call. ", "foo.out.a.b"},
	"outcome": {"", "maybe", "passed", "failed", "inconclusive", "inc ", "0", "unknown"},
	"type":    {"", "float", "natural", "( )", "integer", "nat ", "string", "unknown", "{int}"},
}

// mutateJSON changes a document; it reports what it did and whether that makes the document malformed.
func mutateJSON(t *rapid.T, doc any, stms bool) (any, string, bool) {
	ps := places(doc, nil, func(n any) { doc = n }, nil, nil)
	// Pick strings with a role often.
	p := model.From(t, "place", ps)
	at := strings.Join(p.path, "/")
	switch model.Pick(t, "jsonMutation", "type", "type", "role", "role", "null", "nullKey", "drop", "string", "dup") {
	case "type":
		var kinds []string
		for _, k := range []string{"object", "array", "string", "number", "bool"} {
			if k != jsonKind(p.val) {
				kinds = append(kinds, k)
			}
		}
		k := model.From(t, "kind", kinds)
		p.set(ofKind(t, k))
		return doc, fmt.Sprintf("%s for %s at %s", k, jsonKind(p.val), at), true
	case "role":
		var rs []place
		for _, q := range ps {
			if role(q.path, stms) != "" {
				rs = append(rs, q)
			}
		}
		if len(rs) == 0 {
			return doc, "nothing", false
		}
		q := model.From(t, "rolePlace", rs)
		r := role(q.path, stms)
		s := model.From(t, "badString", badStrings[r])
		q.set(s)
		return doc, fmt.Sprintf("bad %s %q", r, s), true
	case "null":
		p.set(nil)
		return doc, "null at " + at, nullMalformed(p.path, stms)
	case "nullKey":
		// Tests and states.
		var rs []place
		for _, q := range ps {
			if nullMalformed(q.path, stms) {
				rs = append(rs, q)
			}
		}
		if len(rs) == 0 {
			return doc, "nothing", false
		}
		q := model.From(t, "nullPlace", rs)
		q.set(nil)
		return doc, "null at " + strings.Join(q.path, "/"), true
	case "drop":
		if p.del == nil {
			return doc, "nothing", false
		}
		p.del()
		return doc, "dropped " + at, stms && len(p.path) == 3 && p.path[0] == "tests" && p.path[2] == "states"
	case "string":
		if jsonKind(p.val) == "string" {
			p.set(model.Pick(t, "anyString", "", " ", "../x", "a/b", "\x00", "x\n", "step1", "initial", strings.Repeat("x", 5000), "{{.}}", "foo.in.99999999999999999999"))
		}
		return doc, "other string at " + at, false
	default:
		if a, ok := p.val.([]any); ok && len(a) > 0 {
			p.set(append(append([]any{}, a...), a...))
		}
		return doc, "array doubled at " + at, false
	}
}

func nullMalformed(path []string, stms bool) bool {
	if !stms {
		return len(path) == 1
	}
	return len(path) == 2 && path[0] == "tests" || len(path) == 3 && path[0] == "tests" && path[2] == "states" ||
		len(path) == 4 && path[0] == "tests" && path[2] == "states"
}

// mutateBytes edits bytes at random.
func mutateBytes(t *rapid.T, bs []byte, alphabet string) []byte {
	bs = append([]byte{}, bs...)
	for i := model.Range(t, "edits", 1, 4); i > 0; i-- {
		if len(bs) == 0 {
			return bs
		}
		at := rapid.Uniform(len(bs)).Draw(t, "editAt")
		switch model.Pick(t, "edit", "replace", "insert", "delete", "flip", "splice", "cut") {
		case "replace":
			bs[at] = alphabet[rapid.Uniform(len(alphabet)).Draw(t, "byte")]
		case "insert":
			bs = append(bs[:at:at], append([]byte{alphabet[rapid.Uniform(len(alphabet)).Draw(t, "byte")]}, bs[at:]...)...)
		case "delete":
			bs = append(bs[:at:at], bs[at+1:]...)
		case "flip":
			bs[at] ^= 1 << rapid.Uniform(8).Draw(t, "bit")
		case "splice":
			to := at + rapid.Uniform(len(bs)-at).Draw(t, "spliceLen")
			at2 := rapid.Uniform(len(bs)).Draw(t, "spliceTo")
			bs = append(bs[:at2:at2], append(append([]byte{}, bs[at:to]...), bs[at2:]...)...)
		default:
			to := at + rapid.Uniform(len(bs)-at).Draw(t, "cutLen")
			bs = append(bs[:at:at], bs[to:]...)
		}
		if len(bs) > 100000 {
			bs = bs[:100000]
		}
	}
	return bs
}

// noise draws input that nobody meant.
func noise(t *rapid.T, tool string) []byte {
	switch rapid.Uniform(4).Draw(t, "noise") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
	case 1:
		n := model.Pick(t, "depth", 10, 1000, 9999, 20000, 200000)
		open := model.Pick(t, "open", "[", "{\"a\":", "{\"t\":{\"tests\":[\"a\"],\"next\":[", "{\"tests\":{\"a\":{\"states\":[", "<a>", "\"")
		return []byte(strings.Repeat(open, n/len(open)+1))
	case 2:
		return []byte(model.Pick(t, "text", "", "\n", " ", "null", "[]", "{}", "0", "\"\"", "true", "nul", "{", "}", "[{}]", "{\"a\":{}}", "{\"tests\":{\"a\":{}}}", "{\"tests\":[]}",
			"{\"types\":{\"a\":null}}", "\xff\xfe", "\x00", "\xef\xbb\xbf{}", "a:", ":", ":::", ",", ",,", "a.in,", "#", "\"", "\"a", "a\"b.in.1", "-", "<rtcg-gen/>"))
	default:
		return []byte(rapid.StringOfN(rapid.RuneFrom([]rune("{}[]\",:.in<>/=a1 \n#\\")), 0, 40, -1).Draw(t, "soup"))
	}
}

// badJSON checks whether bs isn't a JSON value of the right kind.
func badJSON(bs []byte) bool {
	var x any
	if err := json.Unmarshal(bs, &x); err != nil {
		return true
	}
	switch x.(type) {
	case map[string]any, nil:
		return false
	default:
		return true
	}
}

// badXML checks whether bs isn't well-formed XML, or its root element isn't rtcg-gen.
func badXML(bs []byte) bool {
	dec := xml.NewDecoder(bytes.NewReader(bs))
	depth, ended := 0, false
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			return !ended
		}
		if err != nil {
			return true
		}
		switch e := tok.(type) {
		case xml.StartElement:
			if ended || depth == 0 && e.Name.Local != "rtcg-gen" {
				return true
			}
			depth++
		case xml.EndElement:
			depth--
			ended = depth == 0
		case xml.CharData:
			if ended && len(bytes.TrimSpace(e)) > 0 {
				return true
			}
		}
	}
}

// trailing draws what doesn't belong after a document.
func trailing(t *rapid.T, doc []byte, more ...string) []byte {
	s := model.Pick(t, "trailing", append(more, "x", "\x00", "}", ">", string(doc), "\n\n"+string(doc), "é")...)
	return []byte(model.Pick(t, "beforeTrailing", "", "\n", "  ", "\n\n\n") + s)
}

func genP13(t *rapid.T) BadCase {
	c := BadCase{Tool: model.Pick(t, "tool", "rtcg-read-traces", "rtcg-make-stms", "rtcg-gen", "rtcg-gen", "config")}
	chans := model.GenUniverse(t, model.UniOpts{Max: 4})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	rows := make([]model.Trace, model.Range(t, "numRows", 1, 3))
	for i := range rows {
		for j := model.Range(t, "numEvents", 1, 4); j > 0; j-- {
			rows[i].Events = append(rows[i].Events, model.From(t, "event", alpha))
		}
	}
	suite := model.ToSuite(rows)
	if model.Chance(t, "tree", 30) {
		suite["tree"] = model.GenTree(t, alpha, model.TreeOpts{Depth: 3, Width: 2})
	}
	types, _ := model.Types(suite.Events())
	cfg := genConfig(t, types)
	for i := range cfg.Variants {
		cfg.Variants[i].Overrides = nil // these need further files
	}
	style := cfg.Style
	cfg.Style = 0 // mutations are of the plain spelling
	c.Config = []byte(cfg.XML())
	c.Clean = model.Chance(t, "clean", 50)

	jsonInput := func(stms bool) {
		var doc any
		if stms {
			doc = mustDecode(mustJSON(stmsDoc(suite)), "")
		} else {
			doc = mustDecode(suite.Bytes(), "")
		}
		orig := mustJSON(doc)
		switch rapid.Uniform(11).Draw(t, "how") {
		case 10:
			c.Input = append(orig[:len(orig):len(orig)], trailing(t, orig, "{}", "[]", "null", "1", "\"\"", ",", "]", "// end", "#")...)
			c.How = "something trailing"
			c.Malformed = true
		case 0:
			c.Input = orig
			c.How = "valid"
		case 1:
			c.Input = noise(t, c.Tool)
			c.How = "noise"
			c.Malformed = badJSON(c.Input)
		case 2:
			c.Input = orig[:rapid.Uniform(len(orig)).Draw(t, "truncate")]
			c.How = "truncated"
			c.Malformed = true
		case 3, 4:
			c.Input = mutateBytes(t, orig, "{}[]\",:x1.\\ \n\xff\x00-")
			c.How = "bytes edited"
			c.Malformed = badJSON(c.Input)
		default:
			var how string
			doc, how, c.Malformed = mutateJSON(t, doc, stms)
			c.How = how
			if !c.Malformed && model.Chance(t, "again", 40) {
				doc, how, _ = mutateJSON(t, doc, stms)
				c.How += "; " + how
				// Whether that is malformed depends on what came before.
			}
			c.Input = mustJSON(doc)
		}
	}
	switch c.Tool {
	case "rtcg-read-traces":
		genBadCSV(t, &c, rows)
	case "rtcg-make-stms":
		jsonInput(false)
	case "rtcg-gen":
		jsonInput(true)
	default:
		c.Input = mustJSON(stmsDoc(suite))
		genBadConfig(t, &c)
		if c.How == "valid" {
			cfg.Style = style
			c.Config = []byte(cfg.XML())
		}
	}
	if c.Tool != "rtcg-gen" && c.Tool != "config" {
		c.Config = nil
	}
	text := string(c.Input)
	if c.Tool == "config" {
		text = string(c.Config)
	}
	c.Text = strings.ToValidUTF8(clip(text, 3000), "?")
	return c
}

func genBadCSV(t *rapid.T, c *BadCase, rows []model.Trace) {
	if model.Chance(t, "notUTF8", 8) {
		row := &rows[rapid.Uniform(len(rows)).Draw(t, "badRow")]
		bad := model.Pick(t, "badText", "caf\xe9", "\xe9t\xe9", "\xc3", "x\xed\xa0\x80y", "\xf8\x88\x80\x80\x80", "\xff\xfe", "a\xc0\xaf", "é\xc3")
		e := &row.Events[rapid.Uniform(len(row.Events)).Draw(t, "badEvent")]
		switch rapid.Uniform(3).Draw(t, "badPart") {
		case 0:
			row.Name = bad
		case 1:
			e.Ch = bad
		default:
			e.Val = &bad
		}
		c.Input, c.How, c.Malformed = []byte(model.MessyCSV(t, rows)), "not UTF-8", true
		return
	}
	csv := model.MessyCSV(t, rows)
	switch rapid.Uniform(8).Draw(t, "how") {
	case 0:
		c.How = "valid"
	case 1:
		csv = string(noise(t, c.Tool))
		c.How = "noise"
	case 2:
		csv = csv[:rapid.Uniform(len(csv)+1).Draw(t, "truncate")]
		c.How = "truncated"
	case 3:
		csv = string(mutateBytes(t, []byte(csv), ",.:\"\n\r# ix0\xff\x00"))
		c.How = "bytes edited"
	default:
		// A bad cell in a row; the rest is fine.
		cells := []string{"foo", "foo.sideways", "foo.", ".in.1", " . out", "foo..1", "\"\"", "foo.in\",1", "fo\"o.in", "\"foo.in", "in.foo", "foo.IN-1", "\"foo\".in", "\"a\"b.in\"", "foo.i n", "..", "a,", "foo-in-1"}
		bad := model.From(t, "badCell", cells)
		row := bad
		switch rapid.Uniform(3).Draw(t, "where") {
		case 0:
			row = "ok.in.1," + bad
		case 1:
			row = bad + ",ok.in.1"
		}
		if model.Chance(t, "named", 30) && !strings.HasPrefix(row, "\"") {
			row = "name:" + row
		}
		lines := strings.SplitAfter(model.CSV(rows), "\n")
		clean := true
		for _, l := range lines {
			clean = clean && strings.Count(l, "\"")%2 == 0 // no cells spanning lines
		}
		if !clean {
			lines = []string{"a.in.1\n", "b.out.2\n"}
		}
		at := rapid.Uniform(len(lines)).Draw(t, "badRow")
		lines = append(lines[:at:at], append([]string{row + "\n"}, lines[at:]...)...)
		csv = strings.Join(lines, "")
		c.How = "bad cell " + bad
		c.Malformed = true
	}
	c.Input = []byte(csv)
}

func genBadConfig(t *rapid.T, c *BadCase) {
	orig := string(c.Config)
	swap := func(old, new string) bool {
		if !strings.Contains(orig, old) {
			return false
		}
		c.Config = []byte(strings.Replace(orig, old, new, 1))
		return true
	}
	switch rapid.Uniform(10).Draw(t, "how") {
	case 9:
		c.Config = append(c.Config, trailing(t, c.Config, "<a/>", "</rtcg-gen>", "<rtcg-gen/>", "&amp;", "<!--", "<?", "<")...)
		c.How = "something trailing"
	case 0:
		c.How = "valid"
		return
	case 1:
		c.Config = noise(t, "config")
		c.How = "noise"
	case 2:
		c.Config = []byte(orig[:rapid.Uniform(len(strings.TrimSpace(orig))).Draw(t, "truncate")])
		c.How = "truncated"
	case 3, 4:
		c.Config = mutateBytes(t, []byte(orig), "<>/=\"'& x\xff\x00]")
		c.How = "bytes edited"
	case 5:
		v := model.Pick(t, "variant", "qt", "", "ros2", "animate ", "0", "c++", "all")
		if swap(`variant="animate"`, `variant="`+v+`"`) || swap(`variant="ros"`, `variant="`+v+`"`) {
			c.How, c.Malformed = "unknown variant "+v, true
		}
		return
	case 6:
		v := model.Pick(t, "system", "yes", "maybe", "2", "truee")
		if swap(`system="true"`, `system="`+v+`"`) {
			c.How, c.Malformed = "bad boolean "+v, true
		}
		return
	case 7:
		v := model.Pick(t, "root", "rtcg", "gen", "cpp", "Rtcg-gen")
		c.Config = []byte(strings.NewReplacer("<rtcg-gen>", "<"+v+">", "</rtcg-gen>", "</"+v+">").Replace(orig))
		c.How, c.Malformed = "wrong root", true
		return
	default:
		if swap("</cpp>", model.Pick(t, "tag", "", "</cp>", "</cpp", "<cpp>", "&x;</cpp>", "<</cpp>")) {
			c.How = "broken tag"
		}
	}
	c.Malformed = badXML(c.Config)
}

func checkP13(c BadCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	var out Out
	gen := false
	switch c.Tool {
	case "rtcg-read-traces":
		out = ReadTraces(c.Input)
	case "rtcg-make-stms":
		out = MakeStms(c.Input)
	default:
		gen = true
		mustWrite(filepath.Join(dir, "gen.xml"), c.Config)
		// What an earlier run, and the user, left.
		for _, p := range []string{"out/animate/src/test0/src/main.cpp", "out/animate/Makefile", "out/ros/src/notes.txt", "out/keep/me", "other/file", "animate/x"} {
			mustWrite(filepath.Join(dir, p), []byte("left by "+p+"\n"))
		}
		before := snap(dir)
		args := []string{"gen.xml", "-"}
		if c.Clean {
			args = append([]string{"-clean"}, args...)
		}
		out = Gen(dir, c.Input, args...)
		if out.Code != 0 && c.Malformed || out.Crashed() != "" {
			if d := treeDiff(snap(dir), before, nil); d != "" && out.Crashed() == "" {
				return fmt.Errorf("rtcg-gen rejects malformed input (%s), but %s; %s", c.How, d, out)
			}
		}
	}
	if why := out.Crashed(); why != "" || (out.Code != 0 && out.Code != 1) {
		return fmt.Errorf("input (%s): %s; %s", c.How, why, out)
	}
	if c.Malformed || out.Code != 0 {
		if err := mustReject(out, "input ("+c.How+")"); err != nil {
			return err
		}
	} else if !gen {
		if isBlank(out.Stdout) {
			return fmt.Errorf("input (%s) was accepted without output: %s", c.How, out)
		}
		if c.Tool == "rtcg-make-stms" {
			var s jstms
			parseInto(out.Stdout, &s, "output of rtcg-make-stms")
		} else {
			var s jsuite
			parseInto(out.Stdout, &s, "output of rtcg-read-traces")
		}
	}

	if c.How == "valid" && out.Code != 0 {
		return fmt.Errorf("valid input is rejected: %s", out)
	}
	kind := strings.SplitN(c.How, " ", 2)[0]
	rec.Label("%s: malformed=%v, exit %d", c.Tool, c.Malformed, out.Code)
	rec.Label("mutation: %s", kind)
	rec.LabelIf(gen && c.Clean && c.Malformed, "malformed with -clean")
	rec.NonTrivialIf(c.Malformed && c.How != "truncated" || out.Code == 1)
	return nil
}
