package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// FaultCase is a run of all tools, and faults to inject.
type FaultCase struct {
	Rows   []model.Trace     `json:"rows"`
	Trees  model.Suite       `json:"trees,omitempty"`
	Cfg    Config            `json:"cfg"`
	Source map[string]string `json:"source"` // user conversion code
	// Faults says which fault to inject for each output, in turn.
	Faults []int `json:"faults"`
	// Cut is after which row reading the traces fails.
	Cut int `json:"cut"`
	// Limits are file size limits, in blocks of 512 bytes, to run into.
	Limits []int `json:"limits,omitempty"`
}

func init() {
	pbt.Register("P23",
		"random suites and configurations (always with user conversion code) taken through the tools with one fault a run: each output file in turn is a directory, a link to a full device or to nowhere, read-only, or in a directory that can't be written; each output directory in turn is a file; conversion code, configuration or input is missing, unreadable, a directory, or fails when read (at once, after some whole rows, or in or right after a suite); standard output is full or not for writing; files are cut off at a size limit; success must come with complete output, and failure with a message; non-trivial: the tool noticed the fault in some run on an output file and some run on an input",
		genP23, checkP23)
}

func genP23(t *rapid.T) FaultCase {
	var c FaultCase
	chans := model.GenUniverse(t, model.UniOpts{Max: 3})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	for i := model.Range(t, "numRows", 1, 4); i > 0; i-- {
		var r model.Trace
		for j := model.Range(t, "numEvents", 1, 4); j > 0; j-- {
			r.Events = append(r.Events, model.From(t, "event", alpha))
		}
		c.Rows = append(c.Rows, r)
	}
	if model.Chance(t, "tree", 30) {
		c.Trees = model.Suite{"combined": model.GenTree(t, alpha, model.TreeOpts{Depth: 3, Width: 2})}
	}
	types, _ := model.Types(model.ToSuite(c.Rows).Events())
	c.Cfg = genConfig(t, types)
	c.Source = map[string]string{}
	for i := range c.Cfg.Variants {
		v := &c.Cfg.Variants[i]
		if !v.hasOverride(types) {
			v.Overrides = append(v.Overrides, Override{Ch: keysOf(types)[0], Type: "T"})
		}
		c.Source[v.Name] = model.Pick(t, "source", "x", "// code\n", strings.Repeat("// code\n", 20000))
	}
	c.Faults = rapid.SliceOfN(rapid.Uniform(60), 8, 40).Draw(t, "faults")
	c.Cut = model.Range(t, "cut", 0, len(c.Rows))
	for i := 4; i > 0; i-- {
		c.Limits = append(c.Limits, model.Range(t, "limit", 1, model.Pick(t, "limitUpTo", 4, 16, 64, 340)))
	}
	return c
}

// fileFaults put something where a file should go.
var fileFaults = []struct {
	name   string
	inject func(path string) error
}{
	{"a directory", func(p string) error { return os.MkdirAll(p, 0o755) }},
	{"a full device", func(p string) error { return os.Symlink("/dev/full", p) }},
	{"a link to nowhere", func(p string) error { return os.Symlink("/nonexistent/dir/file", p) }},
	{"a read-only file", func(p string) error { return os.WriteFile(p, []byte("old"), 0o444) }},
	{"in a directory that can't be written", func(p string) error { return os.Chmod(filepath.Dir(p), 0o555) }},
}

// shRun runs a tool with a redirection.
func shRun(redir string, stdin []byte, dir, path string, args ...string) Out {
	return Run(Cmd{Path: "/bin/sh", Args: append([]string{"-c", "exec \"$0\" \"$@\" " + redir, path}, args...), Stdin: stdin, Dir: dir})
}

func checkP23(c FaultCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()

	csv := []byte(model.CSV(c.Rows))
	tests := mustOK(ReadTraces(csv), "reading traces").Stdout
	full := model.ToSuite(c.Rows)
	for k, n := range c.Trees {
		full[k] = n
	}
	suite := full.Bytes()
	stms := mustOK(MakeStms(suite), "making state machines").Stdout
	norm := normFor(full)

	in := filepath.Join(dir, "in")
	cfgPath := filepath.Join(in, "gen.xml")
	setup := func() {
		removeAll(in)
		mustWrite(cfgPath, []byte(c.Cfg.XML()))
		for v, text := range c.Source {
			mustWrite(filepath.Join(in, v, "src/convert/convert.cpp"), []byte(text))
		}
	}
	setup()
	run := 0
	var out string
	newOut := func() {
		run++
		if out != "" {
			removeAll(out)
		}
		out = filepath.Join(dir, fmt.Sprintf("out%d", run))
	}
	newOut()
	mustOK(Gen(dir, stms, "-output", out, cfgPath, "-"), "generating tests")
	fresh := snap(out)

	// judge checks a run with a fault.
	judge := func(what string, o Out) error {
		if o.Runaway != "" {
			return fmt.Errorf("%s: %s", what, o)
		}
		if o.Code != 0 {
			if isBlank(o.Stderr) {
				return fmt.Errorf("%s: failure isn't explained: %s", what, o)
			}
			rec.Count("faults reported", 1)
			return nil
		}
		rec.Count("faults survived", 1)
		got := snap(out)
		for _, p := range fresh.paths() {
			x, ok := got[p]
			if !ok {
				return fmt.Errorf("%s: succeeds without %q", what, p)
			}
			if norm(p, x) != norm(p, fresh[p]) {
				return fmt.Errorf("%s: succeeds, but %q isn't complete: %s", what, p, textDiff(norm(p, x), norm(p, fresh[p])))
			}
		}
		return nil
	}
	gen := func(extra ...string) Out {
		return Gen(dir, stms, append(extra, "-output", out, cfgPath, "-")...)
	}

	// Output files and directories.
	turn := 0
	next := func(n int) int {
		turn++
		return c.Faults[turn%len(c.Faults)] % n
	}
	for _, p := range fresh.paths() {
		newOut()
		path := filepath.Join(out, p)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			pbt.Infra("%v", err)
		}
		var what string
		if fresh[p] == "dir" {
			what = fmt.Sprintf("directory %q is a file", p)
			mustWrite(path, []byte("in the way"))
			if next(2) == 0 {
				what = fmt.Sprintf("directory %q can't be created", p)
				_ = os.Remove(path)
				if err := os.Chmod(filepath.Dir(path), 0o555); err != nil {
					pbt.Infra("%v", err)
				}
			}
		} else {
			f := fileFaults[next(len(fileFaults))]
			what = fmt.Sprintf("output %q is %s", p, f.name)
			if err := f.inject(path); err != nil {
				pbt.Infra("%v", err)
			}
		}
		if err := judge(what, gen()); err != nil {
			return err
		}
	}
	noticedOut := turn > 0

	// The output directory as a whole.
	newOut()
	switch next(3) {
	case 0:
		mustWrite(out, []byte("in the way"))
	case 1:
		if err := os.Mkdir(out, 0o555); err != nil {
			pbt.Infra("%v", err)
		}
	default:
		out = filepath.Join("/dev/null", "out")
	}
	o := gen()
	err := judge("output directory is unusable", o)
	if strings.HasPrefix(out, "/dev") {
		out = ""
	}
	if err != nil {
		return err
	}

	// Cleaning fails.
	newOut()
	mustWrite(filepath.Join(out, "kept", "x"), []byte("x"))
	if err := os.Chmod(filepath.Join(out, "kept"), 0o555); err != nil {
		pbt.Infra("%v", err)
	}
	o = gen("-clean")
	if _, err := os.Stat(filepath.Join(out, "kept", "x")); err == nil && o.Code == 0 {
		return fmt.Errorf("-clean succeeds, but leaves files: %s", o)
	}
	if err := judge("cleaning fails", o); err != nil {
		return err
	}

	// Files are cut off.
	for _, n := range c.Limits {
		newOut()
		o := limited(n, "", stms, dir, tool("rtcg-gen"), "-output", out, cfgPath, "-")
		if err := judge(fmt.Sprintf("files are limited to %d blocks", n), o); err != nil {
			return err
		}
		for _, t := range []struct {
			tool       string
			good, want []byte
		}{{"rtcg-read-traces", csv, tests}, {"rtcg-make-stms", suite, stms}} {
			file := filepath.Join(dir, "limited")
			o := limited(n, file, t.good, dir, tool(t.tool), "-")
			got := mustRead(file)
			_ = os.Remove(file)
			if o.Code != 0 && isBlank(o.Stderr) || o.Runaway != "" {
				return fmt.Errorf("%s: failure with output limited to %d blocks isn't explained: %s", t.tool, n, o)
			}
			if o.Code == 0 && canonical(got) != canonical(t.want) {
				return fmt.Errorf("%s: succeeds with output limited to %d blocks, but only writes %d of %d bytes", t.tool, n, len(got), len(t.want))
			}
			rec.Count("size limits", 1)
		}
	}

	// Conversion code and configuration.
	noticedIn := false
	for _, v := range c.Cfg.Variants {
		src := filepath.Join(in, v.Name, "src/convert/convert.cpp")
		for _, how := range []string{"missing", "unreadable", "a directory", "failing", "in an unreadable directory"} {
			setup()
			newOut()
			var err error
			switch how {
			case "unreadable":
				err = os.Chmod(src, 0)
			case "in an unreadable directory":
				err = os.Chmod(filepath.Dir(src), 0)
			default:
				err = os.Remove(src)
			}
			if how == "a directory" {
				err = os.Mkdir(src, 0o755)
			}
			if how == "failing" {
				err = os.Symlink("/proc/self/mem", src)
			}
			if err != nil {
				pbt.Infra("%v", err)
			}
			o := gen()
			_ = os.Chmod(filepath.Dir(src), 0o755)
			if err := judge("conversion code is "+how, o); err != nil {
				return err
			}
			noticedIn = noticedIn || o.Code != 0
		}
	}
	setup()
	for _, path := range []string{"/proc/self/mem", dir, filepath.Join(dir, "nowhere")} {
		newOut()
		if err := judgeInput(Gen(dir, stms, "-output", out, path, "-"), "configuration is "+path); err != nil {
			return err
		}
	}

	// Inputs.
	for _, t := range []struct {
		tool string
		args []string
		good []byte
	}{
		{"rtcg-read-traces", nil, csv},
		{"rtcg-make-stms", nil, suite},
		{"rtcg-gen", []string{"-output", out, cfgPath}, stms},
	} {
		for _, path := range []string{"/proc/self/mem", dir, filepath.Join(dir, "nowhere")} {
			if err := judgeInput(Run(Cmd{Path: tool(t.tool), Args: append(t.args[:len(t.args):len(t.args)], path), Dir: dir}), t.tool+": input is "+path); err != nil {
				return err
			}
		}
		for _, redir := range []string{"0<" + dir, "0>>" + filepath.Join(dir, "writeonly")} {
			if err := judgeInput(shRun(redir, nil, dir, tool(t.tool), append(t.args[:len(t.args):len(t.args)], "-")...), t.tool+": standard input is "+redir); err != nil {
				return err
			}
		}
		rec.Count("input faults", 5)
		if t.tool == "rtcg-gen" {
			continue
		}
		// Output streams.
		for _, redir := range []string{">/dev/full", "1</dev/null"} {
			o := shRun(redir, t.good, dir, tool(t.tool), "-")
			if o.Runaway == "" && o.Code == 0 {
				return fmt.Errorf("%s: succeeds with standard output %s", t.tool, redir)
			}
			if isBlank(o.Stderr) || o.Runaway != "" {
				return fmt.Errorf("%s: failure with standard output %s isn't explained: %s", t.tool, redir, o)
			}
			rec.Count("output stream faults", 1)
		}
	}

	// Reading fails after some rows.
	lines := strings.SplitAfter(model.CSV(c.Rows[:c.Cut]), "\n")
	if o, ok := runWithFailingStdin(tool("rtcg-read-traces"), []byte(strings.Join(lines, "")), dir, "-"); ok {
		if err := judgeInput(o, fmt.Sprintf("rtcg-read-traces: reading fails after %d rows", c.Cut)); err != nil {
			return err
		}
		rec.Count("reads that fail after some rows", 1)
	}
	// Reading fails in the midst of a suite, or right after it.
	for _, t := range []struct {
		tool string
		args []string
		good []byte
	}{{"rtcg-make-stms", nil, compact(suite)}, {"rtcg-gen", []string{"-output", out, cfgPath}, compact(stms)}} {
		for _, data := range [][]byte{t.good, append(t.good[:len(t.good):len(t.good)], '\n'), t.good[:len(t.good)*c.Cut/(len(c.Rows)+1)]} {
			if o, ok := runWithFailingStdin(tool(t.tool), data, dir, append(t.args[:len(t.args):len(t.args)], "-")...); ok {
				if err := judgeInput(o, fmt.Sprintf("%s: reading fails after %d bytes of %d", t.tool, len(data), len(t.good))); err != nil {
					return err
				}
				rec.Count("reads that fail in or after a suite", 1)
			}
		}
	}
	rec.NonTrivialIf(noticedOut && noticedIn)
	return nil
}

// compact removes white space between the tokens of a JSON document.
func compact(bs []byte) []byte {
	var buf bytes.Buffer
	if err := json.Compact(&buf, bs); err != nil {
		pbt.Infra("%v", err)
	}
	return buf.Bytes()
}

// canonical renders a JSON document with lists of strings sorted, as their order may vary.
func canonical(bs []byte) string {
	x, err := decodeAny(bs)
	if err != nil {
		return "malformed: " + string(bs)
	}
	var sorted func(any)
	sorted = func(x any) {
		switch x := x.(type) {
		case map[string]any:
			for _, y := range x {
				sorted(y)
			}
		case []any:
			for _, y := range x {
				sorted(y)
			}
			sort.SliceStable(x, func(i, j int) bool {
				a, ok := x[i].(string)
				b, ok2 := x[j].(string)
				return ok && ok2 && a < b
			})
		}
	}
	sorted(x)
	return string(mustJSON(x))
}

// limited runs a tool with a limit on the size of files in blocks of 512 bytes, maybe with its output going to a file.
func limited(blocks int, stdout string, stdin []byte, dir, path string, args ...string) Out {
	redir := ""
	if stdout != "" {
		redir = ">'" + stdout + "'"
	}
	script := fmt.Sprintf(`ulimit -f %d; exec "$0" "$@" %s`, blocks, redir)
	return Run(Cmd{Path: "/bin/sh", Args: append([]string{"-c", script, path}, args...), Stdin: stdin, Dir: dir, FSize: fileLimit})
}

func judgeInput(o Out, what string) error {
	if o.Code == 0 {
		return fmt.Errorf("%s: succeeds: %s; stdout: %s", what, o, clip(string(o.Stdout), 300))
	}
	if isBlank(o.Stderr) || o.Runaway != "" {
		return fmt.Errorf("%s: failure isn't explained: %s", what, o)
	}
	return nil
}

// runWithFailingStdin runs a program on data followed by a read error; ok is false if that can't be arranged.
//
// The program reads the master side of a pseudoterminal, which fails once the other side is closed.
func runWithFailingStdin(path string, data []byte, dir string, args ...string) (o Out, ok bool) {
	if len(data) > 2000 {
		return o, false // what a terminal holds
	}
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return o, false
	}
	defer master.Close()
	ioctl := func(f *os.File, req uintptr, arg unsafe.Pointer) bool {
		_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg))
		return e == 0
	}
	var n, lock int32
	if !ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n)) || !ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&lock)) {
		return o, false
	}
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return o, false
	}
	var attr syscall.Termios
	if !ioctl(slave, syscall.TCGETS, unsafe.Pointer(&attr)) {
		slave.Close()
		return o, false
	}
	attr.Oflag = 0
	attr.Lflag = 0
	if !ioctl(slave, syscall.TCSETS, unsafe.Pointer(&attr)) {
		slave.Close()
		return o, false
	}
	if _, err := slave.Write(data); err != nil {
		slave.Close()
		return o, false
	}
	slave.Close()
	return Run(Cmd{Path: path, Args: args, Dir: dir, StdinFD: master}), true
}
