package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ConfCase is a suite and a configuration, and where everything is.
type ConfCase struct {
	Mode  string      `json:"mode"` // files, types (also checks the types that the header gives) or play (also runs the tests)
	Suite model.Suite `json:"suite"`
	Cfg   Config      `json:"cfg"`
	// CfgPath is the configuration's path and Dir its <directory>, relative to the current directory unless starting with CASE.
	CfgPath string            `json:"cfgPath"`
	Dir     string            `json:"dir,omitempty"`
	Source  map[string]string `json:"source"` // user conversion code of each variant
	Convs   map[string][]Conv `json:"convs,omitempty"`
	Widen   map[string]string `json:"widen,omitempty"`  // types given to numeric channels in the state machines, by hand
	Absent  []Override        `json:"absent,omitempty"` // overrides for channels that aren't in the suite, for all variants
}

func init() {
	pbt.Register("P15",
		"configurations of the animate and ROS variants (named in any letter case) with overrides for any channels, in the suite or not, includes of both sorts, a configured or default input directory and decoys of the conversion code elsewhere; the generated files are compared with those generated without includes, without absent overrides and for each variant alone; in some cases assertions about the types of values, messages and conversion functions are compiled against the generated header, or tests with conversions that aren't identities are compiled and played; non-trivial: some channel of the suite is overridden in one variant, and there is an include, another channel or another variant",
		genP15, checkP15)
}

// anyCase spells a variant's name in any letter case.
func anyCase(t *rapid.T, name string) string {
	switch rapid.Uniform(4).Draw(t, "variantCase") {
	case 0:
		return strings.ToUpper(name)
	case 1:
		return model.UpcaseFirst(name)
	case 2:
		bs := []byte(name)
		for i := range bs {
			if rapid.Bool().Draw(t, "upper") {
				bs[i] -= 'a' - 'A'
			}
		}
		return string(bs)
	default:
		return name
	}
}

var userTypes = map[string][]string{
	"animate": {"float", "my::Type", "std::map<int, int>", "unsigned long", "std::vector<my::Type>", "char", "my::Other", "std::string", "int", "unsigned int", "rtcg::Empty"},
	"ros":     {"verif_msgs::Natural", "verif_msgs::Whole", "verif_msgs::Text", "my::Msg", "my::Template<int, 3>", "std_msgs::Bool", "std_msgs::String", "std_msgs::Empty"},
}

const userTypesHeader = `#ifndef VERIF_TYPES_H
#define VERIF_TYPES_H
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace my {
struct Type { int x; };
struct Other { int y; };
struct Msg { typedef std::shared_ptr<const Msg> ConstPtr; };
template <typename T, int N> struct Template { typedef std::shared_ptr<const Template> ConstPtr; };
}
#endif
`

func genP15(t *rapid.T) ConfCase {
	c := ConfCase{Mode: model.Pick(t, "mode", "files", "files", "files", "files", "files", "types", "types", "play"), Source: map[string]string{}}
	var types map[string]string
	c.Suite, types = genRosSuite(t, 2, true, true)

	if c.Mode != "play" {
		// State machines may also be written by hand, with wider types than inferred.
		for _, ch := range keysOf(types) {
			if wider := map[string][]string{"nat": {"int", "real"}, "int": {"real"}}[types[ch]]; wider != nil && model.Chance(t, "widen", 25) {
				if c.Widen == nil {
					c.Widen = map[string]string{}
				}
				c.Widen[ch] = model.From(t, "wider", wider)
				types[ch] = c.Widen[ch]
			}
		}
	}

	variants := model.From(t, "variants", [][]string{{"animate"}, {"ros"}, {"animate", "ros"}, {"ros", "animate"}, {"animate", "ros"}})
	for _, name := range variants {
		v := Variant{Name: anyCase(t, name), Makefile: model.Chance(t, "makefile", 30)}
		if model.Chance(t, "catkin", 30) {
			p := genPackage(t)
			v.Catkin = &p
		}
		if c.Mode == "play" {
			cs := GenConvs(t, types, 50)
			for i := range cs {
				cs[i].Salt += len(name) // differs between variants
			}
			if c.Convs == nil {
				c.Convs = map[string][]Conv{}
			}
			c.Convs[name] = cs
			v = v.WithConvs(cs)
			c.Source[name] = ConvertCpp(cs, name == "ros")
			for i := model.Range(t, "includes", 0, 2); i > 0; i-- {
				v.Includes = append(v.Includes, Include{Src: model.Pick(t, "header", "vector", "map", "cstdio"), System: true})
			}
		} else {
			pct := model.Pick(t, "overridePct", 0, 20, 60)
			for _, ch := range keysOf(types) {
				if model.Chance(t, "override", pct) {
					v.Overrides = append(v.Overrides, Override{Ch: ch, Type: model.From(t, "type", userTypes[name])})
				}
			}
			v.Overrides = shuffled(t, v.Overrides)
			c.Source[name] = "// " + name + "\n" + model.Pick(t, "source", "", "x", "\r\n\r\n", "{{.Name}} ${NAME}\n", "\x00\xff\xfe", "é\n", strings.Repeat("0123456789abcdef\n", 5000), "#include \"convert.h\"\n")
			for i := model.Range(t, "includes", 0, 4); i > 0; i-- {
				inc := Include{System: model.Chance(t, "system", 50)}
				if c.Mode == "types" {
					inc.Src = model.Pick(t, "header", "vector", "map", "verif_types.h", "cstdio")
				} else {
					inc.Src = model.Pick(t, "src", "vector", "string", "sensor_msgs/BatteryState.h", "my types.h", "a&b.h", "b.hpp", "../x.h", "x-y/z+.h", "it's.h", "rtcg.h", "{{.}}.h", "a.h", "日本.h")
				}
				v.Includes = append(v.Includes, inc)
			}
			if c.Mode == "types" {
				v.Includes = append(v.Includes, Include{Src: "verif_types.h"})
			}
		}
		c.Cfg.Variants = append(c.Cfg.Variants, v)
	}

	c.Cfg.Style = genStyle(t)

	// Overrides for channels that aren't there, with names like those that are.
	for i := model.Range(t, "numAbsent", 0, 3); i > 0; i-- {
		ch := model.From(t, "like", keysOf(types))
		name := model.Pick(t, "absent", "absentChannel", ch+"2", ch+".in", strings.ToUpper(ch), strings.ToLower(ch), model.UpcaseFirst(ch), "_"+ch, ch[:len(ch)-1], ch+" ")
		if _, ok := types[name]; ok || name == "" {
			continue
		}
		c.Absent = append(c.Absent, Override{Ch: name, Type: "no_such::Type"})
	}

	c.CfgPath = model.Pick(t, "cfgPath", "gen.xml", "in/gen.xml", "CASE/conf/my gen.xml", "../conf/gen.xml", "./in/../in/gen.xml", "in/deep/gen.xml")
	c.Dir = model.Pick(t, "dir", "", "", "given", "CASE/given", "../given", ".", "given/../other", "in")
	return c
}

func shuffled[T any](t *rapid.T, xs []T) []T {
	if len(xs) == 0 {
		return xs
	}
	return rapid.Permutation(xs).Draw(t, "shuffled")
}

// retype changes types of channels in state machines.
func retype(stms []byte, widen map[string]string) []byte {
	if len(widen) == 0 {
		return stms
	}
	var doc map[string]any
	dec := json.NewDecoder(bytes.NewReader(stms))
	dec.UseNumber()
	if err := dec.Decode(&doc); err != nil {
		pbt.Infra("state machines: %v", err)
	}
	types, _ := doc["types"].(map[string]any)
	for ch, ty := range widen {
		if _, ok := types[ch]; !ok {
			pbt.Infra("state machines have no type for channel %q", ch)
		}
		types[ch] = ty
	}
	bs, err := json.Marshal(doc)
	if err != nil {
		pbt.Infra("state machines: %v", err)
	}
	return bs
}

var includeRE = regexp.MustCompile(`(?m)^[ \t]*#[ \t]*include[ \t]*(<[^>\n]*>|"[^"\n]*")`)

// includesOf gives what a file includes, in order.
func includesOf(text string) []string {
	var res []string
	for _, m := range includeRE.FindAllStringSubmatch(text, -1) {
		res = append(res, m[1])
	}
	return res
}

// includesDiff checks that a file includes what it does without configured includes, and those, in order.
func includesDiff(got, plain, conf []string) string {
	count := map[string]int{}
	for _, x := range got {
		count[x]++
	}
	for _, x := range append(append([]string{}, plain...), conf...) {
		count[x]--
	}
	for _, x := range append(append([]string{}, conf...), got...) {
		if count[x] != 0 {
			return fmt.Sprintf("%s is included %+d times more than configured", x, count[x])
		}
	}
	i := 0
	for _, x := range got {
		if i < len(conf) && x == conf[i] {
			i++
		}
	}
	if i < len(conf) {
		return "the configured order is lost"
	}
	return ""
}

func checkP15(c ConfCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	cwd := filepath.Join(dir, "cwd")
	abs := func(p string) string {
		if strings.HasPrefix(p, "CASE/") {
			return filepath.Join(dir, strings.TrimPrefix(p, "CASE/"))
		}
		return filepath.Join(cwd, p)
	}
	arg := func(p string) string {
		if strings.HasPrefix(p, "CASE/") {
			return dir + strings.TrimPrefix(p, "CASE")
		}
		return p
	}
	// The conversion code, and decoys.
	input := filepath.Dir(abs(c.CfgPath))
	if c.Dir != "" {
		input = abs(c.Dir)
	}
	for _, d := range []string{cwd, filepath.Dir(abs(c.CfgPath)), filepath.Join(dir, "given"), filepath.Join(cwd, "given"), filepath.Join(cwd, "in"), filepath.Join(filepath.Dir(abs(c.CfgPath)), "given")} {
		for v := range c.Source {
			mustWrite(filepath.Join(d, v, "src/convert/convert.cpp"), []byte("// not this one: "+v+"\n"))
			mustWrite(filepath.Join(d, v, "convert.cpp"), []byte("// nor this\n"))
		}
		mustWrite(filepath.Join(d, "src/convert/convert.cpp"), []byte("// nor this\n"))
		mustWrite(filepath.Join(d, "convert.cpp"), []byte("// nor this\n"))
	}
	for v, text := range c.Source {
		mustWrite(filepath.Join(input, v, "src/convert/convert.cpp"), []byte(text))
	}

	stms := retype(mustOK(MakeStms(c.Suite.Bytes()), "making state machines").Stdout, c.Widen)
	cfg := c.Cfg
	cfg.Directory = arg(c.Dir)
	rec.LabelIf(cfg.Style != 0, "another spelling of the XML")
	gens := 0
	gen := func(cfg Config) (Tree, string) {
		gens++
		out := filepath.Join(dir, fmt.Sprintf("out%d", gens))
		mustWrite(abs(c.CfgPath), []byte(cfg.XML()))
		mustOK(Gen(cwd, stms, "-output", out, arg(c.CfgPath), "-"), "generating tests")
		return snap(out), out
	}
	with := func(cfg Config, f func(v *Variant)) Config {
		vs := append([]Variant{}, cfg.Variants...)
		for i := range vs {
			f(&vs[i])
		}
		cfg.Variants = vs
		return cfg
	}
	full := with(cfg, func(v *Variant) {
		v.Overrides = append(append([]Override{}, v.Overrides...), c.Absent...)
	})
	tree, out := gen(full)

	types, _ := model.Types(c.Suite.Events())
	for ch, ty := range c.Widen {
		types[ch] = ty
		rec.Label("widened type")
	}
	files, dirs := cfg.outputs(c.Suite, types)
	if d := shapeDiff(tree, files, dirs); d != "" {
		return fmt.Errorf("%s", d)
	}

	norm := normFor(c.Suite)

	// Conversion code.
	for _, v := range cfg.Variants {
		name := strings.ToLower(v.Name)
		got, ok := tree[name+"/src/convert/convert.cpp"]
		if want := v.hasOverride(types); ok != want {
			return fmt.Errorf("%s: conversion code copied: %v, want %v", v.Name, ok, want)
		}
		if ok && got != "file "+c.Source[name] {
			return fmt.Errorf("%s: conversion code isn't the configured one: %s", v.Name, textDiff(strings.TrimPrefix(got, "file "), c.Source[name]))
		}
		if ok {
			rec.Label("conversion code, directory %q", c.Dir)
			rec.NonTrivialIf(len(v.Includes) > 0 || len(types) > 1 || len(cfg.Variants) > 1)
		}
		rec.LabelIf(name != v.Name, "variant in other case")
	}

	// Includes.
	plain, _ := gen(with(full, func(v *Variant) { v.Includes = nil }))
	for _, v := range cfg.Variants {
		src := strings.ToLower(v.Name) + "/src/"
		conf := []string{}
		for _, i := range v.Includes {
			if i.System {
				conf = append(conf, "<"+i.Src+">")
			} else {
				conf = append(conf, "\""+i.Src+"\"")
			}
		}
		paths := []string{src + "convert/convert.h"}
		for _, k := range c.Suite.Keys() {
			paths = append(paths, src+k+"/src/main.cpp")
		}
		for _, p := range paths {
			got, base := includesOf(tree[p]), includesOf(plain[p])
			if d := includesDiff(got, base, conf); d != "" {
				return fmt.Errorf("%s: %s (configured: %q; included: %q)", p, d, conf, got)
			}
		}
		rec.LabelIf(len(conf) > 1, "several includes")
	}

	// Absent channels.
	if len(c.Absent) > 0 {
		t, _ := gen(cfg)
		if d := treeDiff(tree, t, norm); d != "" {
			return fmt.Errorf("overrides %s for absent channels have an effect: %s", show(c.Absent), d)
		}
		rec.Label("absent overrides")
	}
	// Other variants.
	if len(cfg.Variants) > 1 {
		for _, v := range full.Variants {
			one := full
			one.Variants = []Variant{v}
			t, _ := gen(one)
			name := strings.ToLower(v.Name)
			if d := treeDiff(tree.sub(name), t.sub(name), norm); d != "" {
				return fmt.Errorf("%s: files depend on another variant's configuration: %s", v.Name, d)
			}
		}
		rec.Label("several variants")
	}

	rec.Label("mode %s", c.Mode)
	switch c.Mode {
	case "types":
		for _, v := range cfg.Variants {
			if err := c.checkTypes(filepath.Join(out, strings.ToLower(v.Name), "src"), v, types, rec); err != nil {
				return err
			}
		}
	case "play":
		for _, v := range cfg.Variants {
			if err := c.play(filepath.Join(out, strings.ToLower(v.Name), "src"), v, types, rec); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkTypes compiles assertions about the generated header.
func (c ConfCase) checkTypes(src string, v Variant, types map[string]string, rec *pbt.Rec) error {
	ros := strings.EqualFold(v.Name, "ros")
	over := map[string]string{}
	for _, o := range v.Overrides {
		over[o.Ch] = o.Type
	}
	pch := "std"
	if ros {
		pch = "ros"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "#include \"%s.h\"\n#include \"verif_types.h\"\n#include \"rtcg.h\"\n#include \"convert.h\"\n", pch)
	check := func(what, a, b2 string) {
		fmt.Fprintf(&b, "static_assert(std::is_same<%s, %s>::value, \"%s\");\n", a, b2, what)
	}
	for _, ch := range keysOf(types) {
		val, ok := over[ch]
		if !ok {
			val = base(types[ch])
			if ros {
				val = map[string]string{"enum": "std_msgs::String", "()": "std_msgs::Empty", "nat": "std_msgs::UInt32", "int": "std_msgs::Int32", "real": "std_msgs::Float64"}[types[ch]]
			}
		}
		msg := val
		if ros {
			msg = "const " + val + "::ConstPtr&"
		}
		up := model.UpcaseFirst(ch)
		check("value type of channel "+ch, up+"Val", val)
		check("conversion from channel "+ch, "decltype(&from"+up+")", fmt.Sprintf("%s (*)(%s)", base(types[ch]), msg))
		check("conversion to channel "+ch, "decltype(&to"+up+")", fmt.Sprintf("%s (*)(%s)", val, base(types[ch])))
		rec.Count("channel types checked", 1)
	}
	mustWrite(filepath.Join(src, "verif_types.h"), []byte(userTypesHeader))
	tu := filepath.Join(src, "verif_assert.cpp")
	mustWrite(tu, []byte(b.String()))
	stubs := env("VERIF_STUBS")
	o := compile([]string{"-std=c++11", "-fsyntax-only", "-w", "-I" + filepath.Join(stubs, "pch", pch+"_pch"), "-I" + filepath.Join(stubs, "pch"), "-I" + filepath.Join(stubs, "ros_include"),
		"-I" + src, "-I" + filepath.Join(src, "rtcg"), "-I" + filepath.Join(src, "convert"), tu})
	if o.Code != 0 {
		return fmt.Errorf("%s: types in the conversion header aren't those configured (%s): %s", v.Name, show(v.Overrides), o)
	}
	return nil
}

// play compiles and plays the tests.
func (c ConfCase) play(src string, v Variant, types map[string]string, rec *pbt.Rec) error {
	name := strings.ToLower(v.Name)
	ros := name == "ros"
	convs := c.Convs[name]
	b := buildTests(src, c.Suite.Keys(), ros, len(convs) > 0)
	for _, k := range c.Suite.Keys() {
		root := c.Suite[k]
		for _, p := range systematic(root, model.Stray(root, c.Suite.Events(), types, true), 12) {
			p = withoutJunk(p)
			var err error
			if ros {
				_, err = playRos(b, k, root, convs, p)
			} else {
				_, err = playSent(b, k, root, convs, p)
			}
			if err != nil {
				return fmt.Errorf("with conversions %s: %w", show(convs), err)
			}
			rec.Count("histories", 1)
		}
	}
	return nil
}
