package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// BuildCase is a suite and a configuration to generate projects from.
type BuildCase struct {
	Suite   model.Suite `json:"suite"`
	Animate bool        `json:"animate"`
	Ros     bool        `json:"ros"`
	Convs   []Conv      `json:"convs,omitempty"`    // conversions in the animate variant
	RosCnvs []Conv      `json:"rosConvs,omitempty"` // conversions in the ROS variant
	Absent  bool        `json:"absent,omitempty"`   // whether there is an override for a channel that the suite doesn't have
	Plain   bool        `json:"plain,omitempty"`    // whether conversions don't include the generated header
	Incs    []Include   `json:"includes,omitempty"`
	Package *Package    `json:"package,omitempty"`
}

func init() {
	pbt.Register("P05",
		"suites of no to four chains and factorised trees over any value types (enumeration values of any characters) with configurations of the animate and ROS variants, with or without conversions, includes and package metadata; the animate project is built by make with its own Makefile, the ROS packages by cmake with their own CMakeLists.txt (against stand-ins for catkin and ROS), and every executable is run until a timeout; non-trivial: at least one test, and conversions, an escaped enumeration value, or a channel without values",
		genP05, checkP05)
}

func genP05(t *rapid.T) BuildCase {
	c := BuildCase{Suite: model.Suite{}}
	c.Animate = model.Chance(t, "animate", 65)
	c.Ros = !c.Animate || model.Chance(t, "ros", 25)
	types := map[string]string{}
	if !model.Chance(t, "empty", 4) {
		c.Suite, types = genRosSuite(t, 3, false, c.Ros)
		// More odd enumeration values:
		for _, ch := range keysOf(types) {
			if types[ch] == "enum" {
				if !model.Chance(t, "odd", 60) {
					continue
				}
				odd := model.Pick(t, "oddValue", "a\"b", "\\", "\\n", "??/", "%d%s", "/*", "//", "tab\there", "line\nbreak", "é", "日本", "R\"(x)\"", "'", "a?b", "{{.}}", "$(x)",
					"#define", "\"", "\\\"", "\x01f", "\x7f9", "??=", "*/", "\\u0041", "", "a, b")
				v := &odd
				for _, k := range c.Suite.Keys() {
					c.Suite[k].Walk(func(n *model.Node, _ int) {
						if n.Event != nil && n.Event.Ch == ch && k == c.Suite.Keys()[0] && len(n.Next) == 1 && len(c.Suite[k].Tests) == 1 {
							n.Event.Val = v
						}
					})
				}
			}
		}
	}
	if model.Chance(t, "convs", 60) {
		c.Convs = GenConvs(t, types, 40)
	}
	if model.Chance(t, "rosConvs", 60) {
		c.RosCnvs = GenConvs(t, types, 30)
	}
	// Types, in animate, or message headers, in ROS, that only a system include brings in:
	for i := range c.Convs {
		c.Convs[i].Sys = (c.Convs[i].Typ == "nat" || c.Convs[i].Typ == "int") && model.Chance(t, "sys", 40)
	}
	for i := range c.RosCnvs {
		c.RosCnvs[i].Sys = model.Chance(t, "sys", 30)
	}
	c.Plain = model.Chance(t, "plain", 50)
	c.Absent = model.Chance(t, "absent", 30)
	for _, h := range []string{"vector", "map", "cstdio"} {
		if model.Chance(t, "systemInclude", 25) {
			c.Incs = append(c.Incs, Include{Src: h, System: true})
		}
	}
	if model.Chance(t, "localInclude", 30) {
		c.Incs = append(c.Incs, Include{Src: "verif_types.h"})
	}
	c.Package = &Package{Depends: []string{"verif_msgs"}}
	if model.Chance(t, "moreDepends", 30) {
		c.Package.Depends = append(c.Package.Depends, "verif_more")
	}
	if model.Chance(t, "packageName", 40) {
		s := model.Pick(t, "package", "my_${NAME}", "${NAME}_pkg", "same_name", "a-${NAME}.x")
		c.Package.Name = &s
	}
	if model.Chance(t, "description", 30) {
		s := model.Pick(t, "descriptionText", "Tests <${NAME}> & more", "plain", "${NAME} ${NAME}\nlines")
		c.Package.Description = &s
	}
	return c
}

func checkP05(c BuildCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	stms := mustOK(MakeStms(c.Suite.Bytes()), "making state machines").Stdout
	var cfg Config
	variant := func(name string, convs []Conv) Variant {
		v := Variant{Name: name, Includes: c.Incs}.WithConvs(convs)
		if c.Absent {
			v.Overrides = append(v.Overrides, Override{Ch: "absentChannel", Type: "no_such::Type"})
		}
		if len(convs) > 0 {
			code := ConvertCpp
			if c.Plain {
				code = PlainConvertCpp
			}
			mustWrite(filepath.Join(dir, "in", name, "src", "convert", "convert.cpp"), []byte(code(convs, name == "ros")))
		}
		return v
	}
	if c.Animate {
		v := variant("animate", c.Convs)
		v.Makefile = true
		cfg.Variants = append(cfg.Variants, v)
	}
	if c.Ros {
		v := variant("ros", c.RosCnvs)
		v.Catkin = c.Package
		cfg.Variants = append(cfg.Variants, v)
	}
	mustOK(GenFrom(dir, cfg.XML(), stms), "generating tests")

	// What local includes name is the user's to provide; here, beside the conversion header.
	for _, i := range c.Incs {
		if !i.System {
			for _, v := range cfg.Variants {
				mustWrite(filepath.Join(dir, "out", v.Name, "src", "convert", i.Src), []byte("#pragma once\nstruct verif_types {};\n"))
			}
		}
	}

	if c.Animate {
		root := filepath.Join(dir, "out", "animate")
		o := Run(Cmd{Path: "/usr/bin/make", Args: []string{"-C", root}, Dir: dir, CPU: 300})
		if o.Code != 0 {
			return fmt.Errorf("make fails: %s", o)
		}
		if err := exactly(filepath.Join(root, "bin"), c.Suite.Keys()); err != nil {
			return err
		}
		for _, t := range c.Suite.Keys() {
			o := Run(Cmd{Path: filepath.Join(root, "bin", t), Stdin: []byte("timeout\n"), Dir: dir})
			m := model.NewMachine(c.Suite[t])
			m.Timeout()
			if d := endDiff(parseEnd(o), m); d != "" {
				return fmt.Errorf("animate test %q built by make, given a timeout: %s\n%s", t, d, o)
			}
		}
		rec.Count("executables built by make", len(c.Suite))
	}
	if c.Ros {
		for _, t := range c.Suite.Keys() {
			if err := c.buildRos(dir, t); err != nil {
				return err
			}
		}
		rec.Count("executables built by cmake", len(c.Suite))
	}

	esc, none := false, false
	for _, e := range c.Suite.Events() {
		esc = esc || (e.Val != nil && strings.ContainsAny(*e.Val, "\"\\?\n\t\x01"))
		none = none || e.Val == nil
	}
	conv := c.Animate && len(c.Convs) > 0 || c.Ros && len(c.RosCnvs) > 0
	rec.NonTrivialIf(len(c.Suite) > 0 && (conv || esc || none))
	rec.LabelIf(c.Animate, "animate, make")
	rec.LabelIf(c.Ros, "ROS, cmake")
	rec.LabelIf(c.Animate && len(c.Convs) > 0, "animate with conversions")
	rec.LabelIf(c.Animate && len(c.Convs) == 0, "animate without conversions")
	rec.LabelIf(c.Ros && len(c.RosCnvs) > 0, "ROS with conversions")
	rec.LabelIf(c.Ros && len(c.RosCnvs) == 0, "ROS without conversions")
	for _, cv := range append(append([]Conv{}, c.Convs...), c.RosCnvs...) {
		if cv.Sys {
			rec.Label("types from system includes")
			break
		}
	}
	rec.LabelIf(c.Absent, "override for an absent channel")
	rec.LabelIf(esc, "values needing escapes")
	rec.LabelIf(none, "channels without values")
	rec.LabelIf(len(c.Suite) == 0, "no tests")
	return nil
}

// exactly checks that dir has just the files named.
func exactly(dir string, names []string) error {
	var got []string
	ents, err := os.ReadDir(dir)
	if err != nil {
		return fmt.Errorf("no executables: %v", err)
	}
	for _, e := range ents {
		got = append(got, e.Name())
	}
	if a, b := strings.Join(got, " "), strings.Join(sortedCopy(names), " "); a != b {
		return fmt.Errorf("make built %q, want %q", a, b)
	}
	return nil
}

func (c BuildCase) buildRos(dir, test string) error {
	stubs := env("VERIF_STUBS")
	src := filepath.Join(dir, "out", "ros", "src", test)
	build := filepath.Join(dir, "build", test)
	if err := os.MkdirAll(build, 0o755); err != nil {
		pbt.Infra("%v", err)
	}
	known := append([]string{"roscpp", "std_msgs"}, c.Package.Depends...)
	o := Run(Cmd{Path: "/usr/bin/cmake", Dir: build, CPU: 300, Args: []string{
		"-Dcatkin_DIR=" + filepath.Join(stubs, "catkin"), "-DVERIF_STUBS=" + stubs, "-DVERIF_ROS_KNOWN=" + strings.Join(known, ";"),
		"-DCMAKE_C_COMPILER_FORCED=1", "-DCMAKE_CXX_COMPILER_FORCED=1", "-Wno-dev", src,
	}})
	if o.Code != 0 {
		return fmt.Errorf("cmake fails for test %q: %s\n%s", test, o, clip(string(o.Stdout), 1000))
	}
	o = Run(Cmd{Path: "/usr/bin/make", Args: []string{"-s"}, Dir: build, CPU: 300})
	if o.Code != 0 {
		return fmt.Errorf("the ROS package of test %q doesn't build: %s\n%s", test, o, clip(string(o.Stdout), 1000))
	}
	exe := filepath.Join(build, "node")
	if _, err := os.Stat(exe); err != nil {
		return fmt.Errorf("the ROS package of test %q builds no executable named node: %v", test, err)
	}
	b := Built{exe: map[string]string{test: exe}, args: map[string][]string{}}
	if _, err := playRos(b, test, c.Suite[test], c.RosCnvs, model.Play{{Op: "ready"}, {Op: "timeout"}}); err != nil {
		return fmt.Errorf("built by cmake: %w", err)
	}
	if n := bytes.Count(mustRead(filepath.Join(build, "catkin_package.txt")), []byte("\n")); n != 1 {
		return fmt.Errorf("CMakeLists.txt of test %q calls catkin_package %d times", test, n)
	}
	return nil
}
