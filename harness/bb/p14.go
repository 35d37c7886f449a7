package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// FsCase is a sequence of runs of rtcg-gen over one file tree.
type FsCase struct {
	Cfg  Config    `json:"cfg"`
	Proj string    `json:"proj"` // directory of the configuration and conversion code, relative to the current one
	Runs []FsRun   `json:"runs"`
	Pre  []PreFile `json:"pre"`
}

// FsRun is a run of rtcg-gen.
type FsRun struct {
	Suite  model.Suite `json:"suite"`
	Output string      `json:"output"` // argument of -output, where CASE is the case's directory; "" leaves it out
	Clean  bool        `json:"clean,omitempty"`
}

// PreFile is something that's there before a run.
type PreFile struct {
	Before int    `json:"before"`       // the run
	Path   string `json:"path"`         // relative to the case's directory
	Link   string `json:"to,omitempty"` // for symbolic links
	Dir    bool   `json:"dir,omitempty"`
	Text   string `json:"text"`
	Like   string `json:"like,omitempty"`  // for a generated file: how its text is made from what the run is to generate
	Ahead  bool   `json:"ahead,omitempty"` // whether the file is dated tomorrow
}

func init() {
	pbt.Register("P14",
		"sequences of one to three runs of rtcg-gen with suites of chains (some with names that lead outside), configurations with any features, output directories (default, nested, absolute, the current one, the input one, spelled oddly) with or without -clean, over a tree having other files, files left by earlier runs, longer files where generated ones go, and symbolic links; after each run the whole tree is compared with a model in which exactly the generated files are replaced by freshly generated ones; non-trivial: some run finds other or earlier files in its output directory, has a name that leads outside, or would clean the current directory",
		genP14, checkP14)
}

var hostileNames = []string{"../x", "..", ".", "", "a/b", "/x", "../../src/x", "x/..", "x/../../y", "./x", "../../../../up", "x/", "../convert", "rtcg/../../z"}

func genP14(t *rapid.T) FsCase {
	c := FsCase{Proj: model.Pick(t, "proj", "proj", "proj", ".", "some/proj")}
	chans := model.GenUniverse(t, model.UniOpts{Max: 3})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	names := []string{"t1", "T2", "rtcg", "convert", "src", "include", "..a", "a..b", "with space", "-x", "é", "main.cpp", "test0"}
	suite := func(hostile bool) model.Suite {
		s := model.Suite{}
		for i := model.Len(t, "numTests", 0, 4, 12); i > 0; i-- {
			evs := make([]model.Event, model.Len(t, "numEvents", 1, 3, 30))
			for j := range evs {
				evs[j] = model.From(t, "event", alpha)
			}
			n := model.From(t, "name", names)
			s[n] = model.Chain(n, evs)
		}
		if hostile {
			n := model.From(t, "hostile", hostileNames)
			s[n] = model.Chain(n, alpha[:1])
		}
		return s
	}
	all := model.Suite{"all": model.Chain("all", alpha)}
	types, _ := model.Types(all.Events())
	c.Cfg = genConfig(t, types)
	if len(c.Cfg.Variants) == 1 && model.Chance(t, "none", 5) {
		c.Cfg.Variants = nil
	}

	outs := []string{"", "out", "out", "./out/", "CASE/work/out", "x/../out", "a/b/c", "CASE/abs", "../beside", ".", c.Proj, "out/animate", c.Proj + "/gen"}
	fixed := model.From(t, "fixedOutput", outs)
	for i := 1 + model.Pick(t, "numRuns", 0, 1, 1, 2); i > 0; i-- {
		r := FsRun{Suite: suite(model.Chance(t, "hostile", 12)), Output: fixed, Clean: model.Chance(t, "clean", 40)}
		if model.Chance(t, "otherOutput", 25) {
			r.Output = model.From(t, "output", outs)
		}
		if r.Clean && model.Chance(t, "cleanCwd", 12) {
			r.Output = model.Pick(t, "cwd", ".", "./", "x/..", "CASE/work", "../work", "./.", "CASE/work/", "CASE/y/../work", "proj/..", "../work/.")
		}
		if r.Clean && c.holdsProj(r.Output) && !c.isCwd(r.Output) {
			r.Clean = false // this would delete the inputs
		}
		c.Runs = append(c.Runs, r)
	}

	// Other files.
	for i, r := range c.Runs {
		out := c.outDir(r.Output)
		files, _ := c.Cfg.outputs(r.Suite, types)
		for j := model.Range(t, "numPre", 0, 5); j > 0; j-- {
			f := PreFile{Before: i, Text: model.Pick(t, "preText", "x\n", "", strings.Repeat("left here\n", 3000))}
			switch model.Pick(t, "preKind", "generated", "generated", "beside", "unrelated", "dir", "link", "elsewhere") {
			case "generated":
				if len(files) == 0 {
					continue
				}
				f.Path = filepath.Join(out, model.From(t, "prePath", files))
				if model.Chance(t, "alike", 50) {
					f.Like = model.Pick(t, "like", "one byte off", "same size", "shorter", "longer")
				}
				f.Ahead = model.Chance(t, "ahead", 20)
			case "beside":
				f.Path = filepath.Join(out, model.Pick(t, "besidePath", "animate/src/rtcg/extra.h", "animate/src/old/src/main.cpp", "animate/notes.txt", "ros/src/t1/src/main.cpp~", "ros/src/t1/include/x.h",
					"animate/src/convert/mine.h", "animate/src/t1/package.xml.bak", "animate/src/convert/convert.hpp", "ros/Makefile.old", "animate/bin/t1", "animate/src/gone/package.xml", "qt/src/x"))
			case "unrelated":
				f.Path = filepath.Join(out, model.Pick(t, "unrelatedPath", "README", "deep/er/file", "Animate", "src", ".hidden", "tmp.x"))
			case "dir":
				f.Dir = true
				f.Path = filepath.Join(out, model.Pick(t, "dirPath", "empty", "animate/src/gone/include", "ros/empty", "deep/d"))
			case "link":
				f.Path = filepath.Join(out, model.Pick(t, "linkPath", "link", "animate/link", "deep/link"))
				f.Link = model.Pick(t, "target", "CASE/outside", "CASE/outside/keep.txt", "nowhere")
			default:
				f.Path = model.Pick(t, "elsewherePath", "work/file", "outside/other", "work/out.txt", "out/x", "x", "work/outer/y", "work/a/b/d", "work/a/x")
			}
			c.Pre = append(c.Pre, f)
		}
	}
	return c
}

// outDir gives the output directory for an argument, relative to the case's directory.
func (c FsCase) outDir(arg string) string {
	switch {
	case arg == "":
		arg = "out"
	case strings.HasPrefix(arg, "CASE"):
		return filepath.Clean(strings.TrimPrefix(arg, "CASE/"))
	}
	return filepath.Join("work", arg)
}

func (c FsCase) isCwd(arg string) bool { return c.outDir(arg) == "work" }

// holdsProj checks whether an output directory is or holds the inputs or the current directory.
func (c FsCase) holdsProj(arg string) bool {
	out := c.outDir(arg)
	return inside(filepath.Join("work", c.Proj), out) || inside("work", out)
}

func inside(path, dir string) bool {
	return path == dir || strings.HasPrefix(path, dir+"/")
}

func isHostile(name string) bool {
	return name == "" || name == "." || name == ".." || strings.Contains(name, "/")
}

func checkP14(c FsCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	work := filepath.Join(dir, "work")
	arg := func(s string) string {
		if s == "CASE" || strings.HasPrefix(s, "CASE/") {
			return dir + strings.TrimPrefix(s, "CASE")
		}
		return s
	}

	// The inputs.
	inputs := Tree{}
	put := func(p, text string) {
		mustWrite(filepath.Join(dir, p), []byte(text))
		inputs[p] = text
	}
	cfgPath := filepath.Join(c.Proj, "gen.xml")
	put(filepath.Join("work", cfgPath), c.Cfg.XML())
	for _, v := range c.Cfg.Variants {
		put(filepath.Join("work", c.Proj, v.Name, "src/convert/convert.cpp"), "// conversions for "+v.Name+"\n"+strings.Repeat("// more\n", 50))
	}
	put("outside/keep.txt", "keep\n")

	for i, r := range c.Runs {
		stms := mustOK(MakeStms(r.Suite.Bytes()), "making state machines").Stdout
		hostile := false
		for k := range r.Suite {
			hostile = hostile || isHostile(k)
		}
		out := c.outDir(r.Output)
		var fresh Tree // what is generated into a directory of its own
		if !hostile && !(r.Clean && c.isCwd(r.Output)) {
			fresh = c.fresh(stms)
		}
		what := fmt.Sprintf("run %d (output %q, clean %v, tests %q)", i+1, r.Output, r.Clean, r.Suite.Keys())
		for _, f := range c.Pre {
			if f.Before == i {
				if rel, err := filepath.Rel(out, f.Path); err == nil && f.Like != "" && strings.HasPrefix(fresh[rel], "file ") {
					f.Text = spoilt(strings.TrimPrefix(fresh[rel], "file "), f.Like)
					rec.Label("left file: %s", f.Like)
				}
				if !place1(dir, f, inputs, arg) {
					rec.Count("pre-existing files that don't fit", 1)
				}
			}
		}
		before := snap(dir)

		args := []string{cfgPath, "-"}
		if r.Output != "" {
			args = append([]string{"-output", arg(r.Output)}, args...)
		}
		if r.Clean {
			args = append([]string{"-clean"}, args...)
		}
		o := Gen(work, stms, args...)
		after := snap(dir)
		if why := o.Crashed(); why != "" {
			return fmt.Errorf("%s: %s: %s", what, why, o)
		}

		// What may be in the output directory.
		rest := func(t Tree) Tree {
			res := Tree{}
			for p, x := range t {
				if !inside(p, out) && !(inside(out, p) && x == "dir") {
					res[p] = x
				}
			}
			return res
		}
		switch {
		case r.Clean && c.isCwd(r.Output):
			rec.Label("clean of the current directory")
			rec.NonTrivial()
			if o.Code == 0 || isBlank(o.Stderr) {
				return fmt.Errorf("%s: cleaning the current directory isn't refused: %s", what, o)
			}
			if d := treeDiff(after, before, nil); d != "" {
				return fmt.Errorf("%s: cleaning the current directory is refused, but %s", what, d)
			}
			continue
		case hostile:
			rec.Label("hostile name")
			rec.NonTrivial()
			if d := treeDiff(rest(after), rest(before), nil); d != "" {
				return fmt.Errorf("%s: outside the output directory, %s; %s", what, d, o)
			}
			if o.Code == 0 || isBlank(o.Stderr) {
				return fmt.Errorf("%s: name leading outside the output directory isn't rejected: %s", what, o)
			}
			continue
		}

		// The same on its own.
		types, _ := model.Types(r.Suite.Events())
		files, dirs := c.Cfg.outputs(r.Suite, types)
		if d := shapeDiff(fresh, files, dirs); d != "" {
			return fmt.Errorf("%s: generating into a fresh directory, %s", what, d)
		}

		// What must be there.
		want := Tree{}
		found := false
		for p, x := range before {
			if inside(p, out) && p != out {
				found = true
				if r.Clean {
					continue
				}
			}
			want[p] = x
		}
		if len(fresh) > 0 || before[out] == "dir" && !r.Clean {
			for d := out; d != "."; d = filepath.Dir(d) {
				want[d] = "dir"
			}
		} else {
			delete(want, out)
			delete(after, out)
		}
		clash := ""
		for _, p := range fresh.paths() {
			full := filepath.Join(out, p)
			if x, ok := want[full]; ok && strings.HasPrefix(x, "file ") != strings.HasPrefix(fresh[p], "file ") {
				clash = full
			}
			for d := filepath.Dir(full); d != "."; d = filepath.Dir(d) {
				if x, ok := want[d]; ok && x != "dir" {
					clash = d
				}
			}
			if c.inPlace(full) {
				continue // the source is the copy
			}
			want[full] = fresh[p]
		}
		if clash != "" {
			// Something is in the way; see P23.
			rec.Label("in the way")
			if o.Code == 0 || isBlank(o.Stderr) {
				return fmt.Errorf("%s: %q is in the way, but generating succeeds: %s", what, clash, o)
			}
			if d := treeDiff(rest(after), rest(before), nil); d != "" {
				return fmt.Errorf("%s: outside the output directory, %s; %s", what, d, o)
			}
			continue
		}
		if o.Code != 0 {
			return fmt.Errorf("%s: generating fails: %s", what, o)
		}
		generated := map[string]bool{}
		for _, p := range fresh.paths() {
			generated[filepath.Join(out, p)] = true
		}
		if d := treeDiff(after, want, func(p, s string) string {
			if generated[p] {
				return undated(p, s)
			}
			return s
		}); d != "" {
			return fmt.Errorf("%s: %s; %s", what, d, o)
		}
		for p, text := range inputs {
			if x, ok := after[p]; ok && x != "file "+text && !generated[p] {
				return fmt.Errorf("%s: input %q has changed", what, p)
			}
		}
		rec.LabelIf(r.Clean, "clean")
		rec.LabelIf(found && r.Clean, "clean of earlier files")
		rec.LabelIf(found && !r.Clean, "over earlier files")
		rec.LabelIf(out == filepath.Join("work", c.Proj), "in place")
		rec.Label("output %s", r.Output)
		rec.NonTrivialIf(found)
		rec.Count("runs that generate", 1)
		rec.Count("files generated", len(fresh.files()))
	}
	return nil
}

// inPlace checks whether path is one of the sources that are copied.
func (c FsCase) inPlace(path string) bool {
	for _, v := range c.Cfg.Variants {
		if path == filepath.Join("work", c.Proj, v.Name, "src/convert/convert.cpp") {
			return true
		}
	}
	return false
}

// fresh generates into a directory of its own.
func (c FsCase) fresh(stms []byte) Tree {
	dir, done := CaseDir()
	defer done()
	mustWrite(filepath.Join(dir, "in", "gen.xml"), []byte(c.Cfg.XML()))
	for _, v := range c.Cfg.Variants {
		mustWrite(filepath.Join(dir, "in", v.Name, "src/convert/convert.cpp"), []byte("// conversions for "+v.Name+"\n"+strings.Repeat("// more\n", 50)))
	}
	mustOK(Gen(dir, stms, "-output", "fresh", "in/gen.xml", "-"), "generating into a fresh directory")
	return snap(filepath.Join(dir, "fresh"))
}

// shapeDiff compares which files and directories there are.
func shapeDiff(got Tree, files, dirs []string) string {
	want := Tree{}
	for _, d := range dirs {
		want[d] = "dir"
	}
	for _, f := range files {
		want[f] = "file "
	}
	return treeDiff(got, want, func(_, s string) string {
		if strings.HasPrefix(s, "file ") {
			return "file "
		}
		return s
	})
}

// place1 puts something in place, unless it wouldn't fit or would replace an input.
func place1(dir string, f PreFile, inputs Tree, arg func(string) string) bool {
	path := filepath.Join(dir, f.Path)
	if _, ok := inputs[f.Path]; ok {
		return false
	}
	if info, err := os.Lstat(path); err == nil && (!info.Mode().IsRegular() || f.Dir || f.Link != "") {
		return false
	}
	for d := filepath.Dir(path); len(d) > len(dir); d = filepath.Dir(d) {
		if info, err := os.Lstat(d); err == nil && !info.IsDir() {
			return false
		}
	}
	switch {
	case f.Dir:
		if err := os.MkdirAll(path, 0o755); err != nil {
			pbt.Infra("%v", err)
		}
	case f.Link != "":
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			pbt.Infra("%v", err)
		}
		if err := os.Symlink(arg(f.Link), path); err != nil {
			pbt.Infra("%v", err)
		}
	default:
		mustWrite(path, []byte(f.Text))
		if f.Ahead {
			soon := time.Now().Add(24 * time.Hour)
			if err := os.Chtimes(path, soon, soon); err != nil {
				pbt.Infra("%v", err)
			}
		}
	}
	return true
}

// spoilt makes a text that isn't quite the given one.
func spoilt(text, how string) string {
	swap := func(b byte) byte {
		switch {
		case b == 'z' || b == 'Z':
			return b - 25
		case b >= 'a' && b < 'z' || b >= 'A' && b < 'Z':
			return b + 1
		}
		return b
	}
	switch how {
	case "shorter":
		return text[:len(text)/2]
	case "longer":
		return text + "left here\n"
	}
	bs := []byte(text)
	for i := range bs {
		if how == "same size" || i == 2*len(bs)/3 {
			bs[i] = swap(bs[i])
		}
	}
	if how == "one byte off" && len(bs) > 0 {
		bs[len(bs)/2] = '#'
	}
	return string(bs)
}
