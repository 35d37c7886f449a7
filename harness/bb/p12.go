package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// RerunCase is a suite and configuration, and ways in which to change the rest of them.
type RerunCase struct {
	Rows  []model.Trace          `json:"rows"`            // rows with distinct names
	Trees map[string]*model.Node `json:"trees,omitempty"` // combined tests added after read-traces
	Keep  []int                  `json:"keep"`            // rows of the changed suite, in order
	KeepT []string               `json:"keepTrees,omitempty"`
	Cfg   Config                 `json:"cfg"`
	// Extra is the variant left out of the changed configuration, and Swap whether variants are swapped in it.
	Extra int  `json:"extra"`
	Swap  bool `json:"swap,omitempty"`
}

func init() {
	pbt.Register("P12",
		"suites of chains and combined tests with random configurations (variants, conversions, includes, metadata), taken through all three tools several times, in other directories, and again with tests removed and reordered and a variant removed or moved; outputs are compared apart from dates, and from order for combined tests; non-trivial: at least two tests, of which some but not all are kept",
		genP12, checkP12)
}

// genConfig draws a configuration for suites with the given types.
func genConfig(t *rapid.T, types map[string]string) Config {
	var c Config
	names := [][]string{{"animate"}, {"ros"}, {"animate", "ros"}, {"ros", "animate"}, {"animate", "ros"}}
	for _, n := range model.From(t, "variants", names) {
		v := genVariant(t, n, types)
		c.Variants = append(c.Variants, v)
	}
	c.Style = genStyle(t)
	return c
}

func genVariant(t *rapid.T, name string, types map[string]string) Variant {
	v := Variant{Name: name, Makefile: model.Chance(t, "makefile", 50)}
	if model.Chance(t, "catkin", 50) {
		p := genPackage(t)
		v.Catkin = &p
	}
	for _, ch := range keysOf(types) {
		if model.Chance(t, "override", 25) {
			v.Overrides = append(v.Overrides, Override{Ch: ch, Type: model.Pick(t, "type", "my::Type", "float", "sensor_msgs::BatteryState", "std::map<int, int>")})
		}
	}
	if model.Chance(t, "absent", 25) {
		v.Overrides = append(v.Overrides, Override{Ch: "absentChannel", Type: "no_such::Type"})
	}
	for i := model.Range(t, "includes", 0, 3); i > 0; i-- {
		v.Includes = append(v.Includes, Include{
			Src:    model.Pick(t, "src", "vector", "sensor_msgs/BatteryState.h", "my types.h", "a.h", "b.hpp", "../x.h", "x-y/z+.h"),
			System: model.Chance(t, "system", 50),
		})
	}
	return v
}

var packageText = []string{"${NAME}", "x ${NAME} y", "plain", "${NAME}${NAME}", "${name}", "$NAME", "${NAME", "a & b <c> \"d\" 'e'", "tests for ${NAME} (all)", "é日本", "${VERSION}", "$${NAME}", "1.2.3", ""}

func genPackage(t *rapid.T) Package {
	opt := func(label string) *string {
		if !model.Chance(t, label, 50) {
			return nil
		}
		s := model.From(t, label+"Text", packageText)
		return &s
	}
	p := Package{Name: opt("name"), Version: opt("version"), Description: opt("description"), License: opt("license")}
	if model.Chance(t, "maintainer", 50) {
		p.Maintainer = &Person{Name: model.From(t, "maintainerName", packageText), Email: model.From(t, "email", packageText)}
	}
	for i := model.Range(t, "depends", 0, 3); i > 0; i-- {
		p.Depends = append(p.Depends, model.Pick(t, "depend", "sensor_msgs", "geometry_msgs", "my_pkg", "roscpp", "std_msgs", "a"))
	}
	return p
}

func genP12(t *rapid.T) RerunCase {
	var c RerunCase
	chans := model.GenUniverse(t, model.UniOpts{Max: 5})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	n := model.Len(t, "numRows", 1, 5, 30)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		evs := make([]model.Event, model.Len(t, "numEvents", 1, 4, 40))
		for j := range evs {
			evs[j] = model.From(t, "event", alpha)
		}
		name := model.Distinct(model.Pick(t, "name", "alpha", "beta", "t", "Case_9", "x", "B", "step", "initial", "A b", "é"), used)
		c.Rows = append(c.Rows, model.Trace{Name: name, Events: evs})
	}
	c.Trees = map[string]*model.Node{}
	for i := model.Range(t, "numTrees", 0, 2); i > 0; i-- {
		name := fmt.Sprintf("combined%d", i)
		c.Trees[name] = model.GenTree(t, alpha, model.TreeOpts{Depth: 4, Width: 3})
		if model.Chance(t, "keepTree", 60) {
			c.KeepT = append(c.KeepT, name)
		}
	}
	for _, i := range rapid.Permutation(seqInts(n)).Draw(t, "order") {
		if model.Chance(t, "keep", 60) {
			c.Keep = append(c.Keep, i)
		}
	}
	types, _ := model.Types(c.full().Events())
	c.Cfg = genConfig(t, types)
	c.Extra = rapid.Uniform(2).Draw(t, "extra")
	c.Swap = model.Chance(t, "swap", 40)
	return c
}

func seqInts(n int) []int {
	xs := make([]int, n)
	for i := range xs {
		xs[i] = i
	}
	return xs
}

func (c RerunCase) full() model.Suite {
	s := model.ToSuite(c.Rows)
	for k, n := range c.Trees {
		s[k] = n
	}
	return s
}

// addTrees adds combined tests to the output of read-traces.
func addTrees(suite []byte, trees map[string]*model.Node, keep func(string) bool) []byte {
	m, ok := mustDecode(suite, "output of rtcg-read-traces").(map[string]any)
	if !ok {
		pbt.Failf("output of rtcg-read-traces isn't an object")
	}
	for k, n := range trees {
		if keep(k) {
			m[k] = n.JSON()
		}
	}
	return mustJSON(m)
}

func sortTests(s *jstms) *jstms {
	for _, m := range s.Tests {
		if m != nil {
			sort.Strings(m.Tests)
		}
	}
	return s
}

func checkP12(c RerunCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	all := func(string) bool { return true }

	// The same again.
	csv := []byte(model.CSV(c.Rows))
	tests := mustOK(ReadTraces(csv), "reading traces").Stdout
	for i := 0; i < 2; i++ {
		if again := mustOK(ReadTraces(csv), "reading traces again").Stdout; string(again) != string(tests) {
			return fmt.Errorf("rtcg-read-traces gives different output for the same input: %s", textDiff(string(again), string(tests)))
		}
	}
	suite := addTrees(tests, c.Trees, all)
	first := mustOK(MakeStms(suite), "making state machines").Stdout
	var stms jstms
	parseInto(first, &stms, "output of rtcg-make-stms")
	want := show2(sortTests(&stms))
	for i := 0; i < 3; i++ {
		out := mustOK(MakeStms(suite), "making state machines again").Stdout
		if len(c.Trees) == 0 && string(out) != string(first) {
			return fmt.Errorf("rtcg-make-stms gives different output for the same input: %s", textDiff(string(out), string(first)))
		}
		var s jstms
		parseInto(out, &s, "output of rtcg-make-stms")
		if got := show2(sortTests(&s)); got != want {
			return fmt.Errorf("rtcg-make-stms gives different machines for the same input: %s", textDiff(got, want))
		}
	}

	types, _ := model.Types(c.full().Events())
	for _, v := range c.Cfg.Variants {
		if v.hasOverride(types) {
			mustWrite(filepath.Join(dir, "in", v.Name, "src", "convert", "convert.cpp"), []byte("// "+v.Name+"\n"))
		}
	}
	norm := func(p, s string) string {
		for t := range c.Trees {
			if strings.Contains(p, t+"/") || strings.HasPrefix(p, t) {
				return undatedSorted(p, s)
			}
		}
		return undated(p, s)
	}
	cfgPath := filepath.Join(dir, "in", "rtcg-gen.xml")
	mustWrite(cfgPath, []byte(c.Cfg.XML()))
	gen := func(i int, cfg string, stms []byte) Tree {
		out := filepath.Join(dir, fmt.Sprintf("out%d", i))
		cwd := filepath.Join(dir, fmt.Sprintf("cwd%d", i%2))
		if err := os.MkdirAll(cwd, 0o755); err != nil {
			pbt.Infra("%v", err)
		}
		mustOK(Gen(cwd, stms, "-output", out, cfg, "-"), "generating tests")
		return snap(out)
	}
	base := gen(0, cfgPath, first)
	if len(base.files()) == 0 {
		return fmt.Errorf("nothing was generated")
	}
	for i := 1; i <= 2; i++ {
		if d := treeDiff(gen(i, cfgPath, first), base, norm); d != "" {
			return fmt.Errorf("rtcg-gen gives different output for the same input: %s", d)
		}
	}

	// Other tests removed and reordered.
	var rows []model.Trace
	for _, i := range c.Keep {
		rows = append(rows, c.Rows[i])
	}
	kept := map[string]bool{}
	for _, k := range c.KeepT {
		kept[k] = true
	}
	tests2 := mustOK(ReadTraces([]byte(model.CSV(rows))), "reading the changed traces").Stdout
	var a, b jsuite
	parseInto(tests, &a, "output of rtcg-read-traces")
	parseInto(tests2, &b, "output of rtcg-read-traces")
	for k := range b {
		if x, y := show2(b[k]), show2(a[k]); x != y {
			return fmt.Errorf("tree of test %q changes with other tests: %s", k, textDiff(x, y))
		}
	}
	suite2 := addTrees(tests2, c.Trees, func(k string) bool { return kept[k] })
	second := mustOK(MakeStms(suite2), "making state machines of the changed suite").Stdout
	var stms2 jstms
	parseInto(second, &stms2, "output of rtcg-make-stms")
	sortTests(&stms2)
	if len(stms2.Tests) != len(rows)+len(c.KeepT) {
		return fmt.Errorf("changed suite of %d tests has %d state machines", len(rows)+len(c.KeepT), len(stms2.Tests))
	}
	for k := range stms2.Tests {
		if x, y := show2(stms2.Tests[k]), show2(stms.Tests[k]); x != y {
			return fmt.Errorf("state machine of test %q changes with other tests: %s", k, textDiff(x, y))
		}
	}
	changed := gen(3, cfgPath, second)
	full := c.full()
	compared := 0
	for k := range stms2.Tests {
		same := true
		for _, e := range full[k].Events() {
			same = same && stms.Types[e.Ch] == stms2.Types[e.Ch]
		}
		if !same {
			continue
		}
		for _, v := range c.Cfg.Variants {
			sub := filepath.Join(v.Name, "src", k)
			x, y := changed.sub(sub), base.sub(sub)
			if v.hasOverride(stms.Types) != v.hasOverride(stms2.Types) {
				// Whether there is conversion code to build is up to the whole suite.
				delete(x, "CMakeLists.txt")
				delete(y, "CMakeLists.txt")
			}
			n := undated
			if c.Trees[k] != nil {
				n = undatedSorted
			}
			if d := treeDiff(x, y, n); d != "" {
				return fmt.Errorf("%s sources of test %q change with other tests: %s", v.Name, k, d)
			}
			compared++
		}
	}

	// Another variant removed or moved.
	cfg2 := c.Cfg
	if len(cfg2.Variants) == 2 {
		if c.Swap {
			cfg2.Variants = []Variant{c.Cfg.Variants[1], c.Cfg.Variants[0]}
		} else {
			cfg2.Variants = []Variant{c.Cfg.Variants[c.Extra]}
		}
		path := filepath.Join(dir, "in", "other.xml")
		mustWrite(path, []byte(cfg2.XML()))
		got := gen(4, path, first)
		for _, v := range cfg2.Variants {
			if d := treeDiff(got.sub(v.Name), base.sub(v.Name), norm); d != "" {
				return fmt.Errorf("files of variant %s change with another variant: %s", v.Name, d)
			}
		}
		rec.Label("two variants")
	}
	rec.Count("test sources compared", compared)
	rec.LabelIf(len(c.Trees) > 0, "combined tests")
	rec.NonTrivialIf(len(full) > 1 && len(stms2.Tests) > 0 && len(stms2.Tests) < len(full))
	return nil
}

// show2 renders a value in full, one item a line.
func show2(x any) string {
	return string(mustIndent(x))
}
