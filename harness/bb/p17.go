package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

// InputCase is an input for each tool, and ways of giving it.
type InputCase struct {
	Tool  string   `json:"tool"` // a tool, or rtcg.sh
	CSV   []byte   `json:"csv"`  // traces
	Cut   int      `json:"cut"`  // if positive, how much of the tool's input is kept, to make it malformed
	Name  string   `json:"name"` // file name of the input
	Cfg   Config   `json:"cfg"`
	Conf  string   `json:"conf,omitempty"`  // file name of the configuration, if odd
	Abuse string   `json:"abuse,omitempty"` // how the tool is misused, if at all
	Args  []string `json:"args,omitempty"`  // arguments for misuse; IN and CONFIG are replaced by the files
	Left  bool     `json:"left,omitempty"`  // whether there are other files about, also in the output directory
}

func init() {
	pbt.Register("P17",
		"traces in messy notation taken through the tools, each tool being given its (sometimes malformed) input as a file with an odd name, relative or absolute, as '-', and left out, from a pipe and from a file, sometimes among other files; and through rtcg.sh with and without a traces file; results are compared byte for byte, dates apart; or tools misused by a wrong number of arguments, missing, unreadable or directory inputs and unknown flags; non-trivial: the tool succeeds with some output, or is misused",
		genP17, checkP17)
}

var oddNames = []string{"in.csv", "-", "./-", "dir/-", "a b", "x'y", "é.json", "-x", "--", "$HOME", "*", "in\nput", "dir/deep/in", "a\"b", ";ls", "-clean", "#x", "~"}

var oddConfigs = []string{"a b/gen.xml", "gen x.xml", "*", "conf*/g?n.xml", "x'y/c\"d", "$HOME.xml", "é/é.xml", "$(ls)", "[a]/gen", "a\\b/c\\n.xml", "~/gen.xml", ";ls/gen.xml", "#x/-.xml", " ", "a  b /x", "in\nput.xml"}

func genP17(t *rapid.T) InputCase {
	c := InputCase{Tool: model.Pick(t, "tool", "rtcg-read-traces", "rtcg-make-stms", "rtcg-gen", "rtcg.sh", "rtcg.sh")}
	chans := model.GenUniverse(t, model.UniOpts{Max: 4})
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	rows := make([]model.Trace, model.Len(t, "numRows", 0, 3, 40))
	for i := range rows {
		if model.Chance(t, "named", 40) {
			rows[i].Name = model.Pick(t, "name", "a", "b", "Case", "test0", "x y")
		}
		for j := model.Len(t, "numEvents", 1, 5, 60); j > 0; j-- {
			rows[i].Events = append(rows[i].Events, model.From(t, "event", alpha))
		}
	}
	c.CSV = []byte(model.MessyCSV(t, rows))
	types, _ := model.Types(model.ToSuite(rows).Events())
	c.Cfg = genConfig(t, types)
	for {
		c.Name = model.From(t, "file", oddNames)
		if c.Name != "-" {
			break
		}
	}
	if model.Chance(t, "oddConfig", 50) {
		c.Conf = model.From(t, "config file", oddConfigs)
	}
	if model.Chance(t, "malformed", 12) {
		c.Cut = model.Range(t, "cut", 1, 40)
	}
	c.Left = model.Chance(t, "left", 50)
	if model.Chance(t, "abuse", 30) {
		genAbuse(t, &c)
	}
	return c
}

func genAbuse(t *rapid.T, c *InputCase) {
	takesConfig := c.Tool == "rtcg-gen" || c.Tool == "rtcg.sh"
	var pre []string
	if takesConfig {
		pre = []string{"CONFIG"}
	}
	c.Abuse = model.Pick(t, "abuseKind", "args", "missing", "directory", "unreadable", "flag", "config")
	if c.Abuse == "config" && !takesConfig {
		c.Abuse = "missing"
	}
	if c.Abuse == "flag" && c.Tool == "rtcg.sh" {
		c.Abuse = "args"
	}
	switch c.Abuse {
	case "args":
		n := model.Range(t, "extraArgs", 1, 4)
		c.Args = append(pre, "IN")
		for i := 0; i < n; i++ {
			c.Args = append(c.Args, model.Pick(t, "extra", "IN", "-", "x", "", "CONFIG"))
		}
		if takesConfig && model.Chance(t, "none", 35) {
			c.Args = nil
		}
	case "missing":
		c.Args = append(pre, model.Pick(t, "missing", "nowhere", "no/such", "IN/x", "", "-nofile"))
		if c.Tool == "rtcg-gen" && strings.HasPrefix(c.Args[0], "-") {
			c.Args[0] = "nowhere"
		}
	case "directory":
		c.Args = append(pre, model.Pick(t, "directory", ".", "..", "emptydir"))
	case "unreadable":
		c.Args = append(pre, "unreadable")
	case "config":
		c.Args = []string{model.Pick(t, "config", "nowhere.xml", "emptydir", ".", "unreadable", "IN/x", ""), "IN"}
	default:
		flags := []string{"-nosuchflag", "--nosuch", "-x=1", "--clean-all", "-outputs=x", "-"}
		f := model.From(t, "flag", flags[:5])
		if c.Tool == "rtcg-gen" {
			c.Args = []string{f, "CONFIG", "IN"}
		} else {
			c.Args = []string{f}
			if model.Chance(t, "withInput", 50) {
				c.Args = append(c.Args, "IN")
			}
		}
	}
}

// leave puts files into a directory to run a tool in, and its output directory.
func (c InputCase) leave(cwd string) {
	if !c.Left {
		return
	}
	mustWrite(filepath.Join(cwd, "out", "mine"), []byte("mine"))
	mustWrite(filepath.Join(cwd, "out", "animate", "src", "old", "src", "main.cpp"), []byte("// old"))
	mustWrite(filepath.Join(cwd, "out", "ros", "Makefile"), []byte("# old"))
	for _, f := range []string{"traces", "traces.csv", "tests.json", "stms.json", "stdin"} {
		if f != c.Name {
			mustWrite(filepath.Join(cwd, f), []byte("decoy: decoy.out\n"))
		}
	}
}

func checkP17(c InputCase, rec *pbt.Rec) error {
	dir, done := CaseDir()
	defer done()
	rec.Label("tool %s", c.Tool)

	// The tool's input.
	input := c.CSV
	if c.Tool == "rtcg-make-stms" || c.Tool == "rtcg-gen" {
		input = mustOK(ReadTraces(c.CSV), "reading traces").Stdout
	}
	if c.Tool == "rtcg-gen" {
		input = mustOK(MakeStms(input), "making state machines").Stdout
	}
	if c.Cut > 0 {
		if c.Cut < len(input) {
			input = input[:c.Cut]
		}
		rec.Label("truncated")
	}
	confName := "gen.xml"
	if c.Conf != "" {
		confName = c.Conf
		rec.Label("oddly named configuration")
	}
	config := filepath.Join(dir, "conf", confName)
	for _, v := range c.Cfg.Variants {
		mustWrite(filepath.Join(filepath.Dir(config), v.Name, "src/convert/convert.cpp"), []byte("// "+v.Name+"\n"))
	}
	mustWrite(config, []byte(c.Cfg.XML()))
	if c.Left {
		mustWrite(filepath.Join(filepath.Dir(config), "traces"), []byte("decoy: decoy.out\n"))
		rec.Label("other files about")
	}

	// The configuration's file name is relative to a tool's directory if it's odd.
	relConf := config
	if c.Conf != "" {
		relConf = filepath.Join("../conf", c.Conf)
	}

	runs := 0
	// start runs the tool in a directory of its own.
	start := func(stdin []byte, fromFile bool, args ...string) (Out, Tree) {
		runs++
		cwd := filepath.Join(dir, fmt.Sprintf("cwd%d", runs))
		c.leave(cwd)
		// A file - is always there, to be mistaken for stdin, and the input, when it's meant to be read from a file.
		mustWrite(filepath.Join(cwd, "-"), []byte("not the input"))
		mustWrite(filepath.Join(cwd, "emptydir", "x"), nil)
		mustWrite(filepath.Join(cwd, "unreadable"), input)
		if err := os.Chmod(filepath.Join(cwd, "unreadable"), 0); err != nil {
			pbt.Infra("%v", err)
		}
		if stdin == nil || c.Abuse != "" {
			mustWrite(filepath.Join(cwd, c.Name), input)
		}
		cmd := Cmd{Path: tool(c.Tool), Args: args, Dir: cwd, Stdin: stdin}
		if c.Tool == "rtcg.sh" {
			if err := os.Symlink(env("VERIF_BIN"), filepath.Join(cwd, "bin")); err != nil {
				pbt.Infra("%v", err)
			}
			cmd.Path, cmd.Args = "/bin/sh", append([]string{env("VERIF_RTCG_SH")}, args...)
		}
		if stdin != nil && fromFile {
			cmd.StdinFile = filepath.Join(dir, "stdin")
			mustWrite(cmd.StdinFile, stdin)
		}
		o := Run(cmd)
		return o, snap(filepath.Join(cwd, "out"))
	}
	real := func(args []string) []string {
		var res []string
		for _, a := range args {
			a = strings.Replace(a, "CONFIG", config, 1)
			if strings.HasPrefix(a, "IN") {
				a = filepath.Join(dir, fmt.Sprintf("cwd%d", runs+1), c.Name) + strings.TrimPrefix(a, "IN")
			}
			res = append(res, a)
		}
		return res
	}

	if c.Abuse != "" {
		o, out := start(input, false, real(c.Args)...)
		what := fmt.Sprintf("%s misused (%s, args %q)", c.Tool, c.Abuse, c.Args)
		if why := o.Crashed(); why != "" {
			return fmt.Errorf("%s: %s: %s", what, why, o)
		}
		if o.Code == 0 {
			return fmt.Errorf("%s succeeds: %s; stdout: %s", what, o, clip(string(o.Stdout), 500))
		}
		if isBlank(o.Stderr) {
			return fmt.Errorf("%s fails without a message: %s", what, o)
		}
		if !isBlank(o.Stdout) {
			return fmt.Errorf("%s fails, but prints to stdout: %s", what, clip(string(o.Stdout), 500))
		}
		left := filepath.Join(dir, "left")
		c.leave(left)
		if d := treeDiff(out, snap(filepath.Join(left, "out")), func(_, s string) string { return s }); d != "" {
			return fmt.Errorf("%s fails, but changes files: %s", what, d)
		}
		rec.Label("misuse: %s", c.Abuse)
		rec.NonTrivial()
		return nil
	}

	var pre []string
	if c.Tool == "rtcg-gen" || c.Tool == "rtcg.sh" {
		pre = []string{relConf}
	}
	type way struct {
		name     string
		stdin    []byte
		fromFile bool
		args     []string
	}
	in := input
	if in == nil {
		in = []byte{}
	}
	rel := c.Name
	ways := []way{
		{"absolute file name", nil, false, []string{"IN"}},
		{"file name", nil, false, []string{rel}},
		{"left out, piped", in, false, nil},
		{"left out, from a file", in, true, nil},
		{"-, piped", in, false, []string{"-"}},
		{"-, from a file", in, true, []string{"-"}},
	}
	norm := normFor(model.Suite{})

	var first Out
	var firstTree Tree
	if c.Tool == "rtcg.sh" {
		// By hand.
		a := ReadTraces(input)
		b := MakeStms(a.Stdout)
		cwd := filepath.Join(dir, "byhand")
		if err := os.MkdirAll(cwd, 0o755); err != nil {
			pbt.Infra("%v", err)
		}
		c.leave(cwd)
		first = Gen(cwd, b.Stdout, config, "-")
		firstTree = snap(filepath.Join(cwd, "out"))
	}
	for i, w := range ways {
		args := append(append([]string{}, pre...), w.args...)
		o, tree := start(w.stdin, w.fromFile, real(args)...)
		if why := o.Crashed(); why != "" {
			return fmt.Errorf("%s: input as %s (%q): %s: %s", c.Tool, w.name, c.Name, why, o)
		}
		if i == 0 && firstTree == nil {
			first, firstTree = o, tree
			if c.Cut == 0 {
				mustOK(o, "input given as "+w.name)
			}
		}
		if (o.Code == 0) != (first.Code == 0) {
			return fmt.Errorf("%s: input as %s (%q): exit code %d, but %d otherwise: %s", c.Tool, w.name, c.Name, o.Code, first.Code, o)
		}
		if d := textDiff(string(o.Stdout), string(first.Stdout)); d != "same" {
			return fmt.Errorf("%s: input as %s (%q) gives different output: %s", c.Tool, w.name, c.Name, d)
		}
		if d := treeDiff(tree, firstTree, norm); d != "" {
			return fmt.Errorf("%s: input as %s (%q) gives different files: %s", c.Tool, w.name, c.Name, d)
		}
		rec.Count("runs compared", 1)
	}
	rec.NonTrivialIf(first.Code == 0 && (len(first.Stdout) > 10 || len(firstTree) > 0))
	rec.LabelIf(first.Code != 0, "rejected")
	return nil
}
