package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verif/harness/pbt"
)

// Built is a set of compiled tests.
type Built struct {
	exe   map[string]string   // executable of each test
	args  map[string][]string // arguments selecting the test
	Whole bool                // whether all tests were built as one
}

// buildTests compiles the tests generated in dir (out/VARIANT/src).
//
// To save time, all are compiled as one program, each in its own namespace; if that fails, each is compiled by itself.
func buildTests(srcDir string, tests []string, ros, convert bool) Built {
	stubs := env("VERIF_STUBS")
	flags := []string{"-std=c++11", "-O0", "-w", "-static"}
	pch := "std"
	libs := []string{}
	if ros {
		pch = "ros"
		libs = []string{"-L" + filepath.Join(stubs, "ros_lib"), "-lverifros"}
	}
	flags = append(flags, "-I"+filepath.Join(stubs, "pch", pch+"_pch"), "-I"+filepath.Join(stubs, "pch"), "-I"+filepath.Join(stubs, "ros_include"),
		"-I"+srcDir, "-I"+filepath.Join(srcDir, "rtcg"), "-I"+filepath.Join(srcDir, "convert"))

	var w strings.Builder
	fmt.Fprintf(&w, "#include \"%s.h\"\n#include \"rtcg/rtcg.h\"\n#include \"convert/convert.h\"\n#include \"rtcg/rtcg.cpp\"\n", pch)
	if convert {
		w.WriteString("#include \"convert/convert.cpp\"\n")
	}
	w.WriteString("#define main verif_main\n")
	for i, t := range tests {
		fmt.Fprintf(&w, "namespace verif_t%d {\n#include \"%s/src/main.cpp\"\n}\n", i, t)
	}
	w.WriteString("#undef main\nstatic int verif_call(int (*f)(), int, char**) { return f(); }\n")
	w.WriteString("static int verif_call(int (*f)(int, char**), int c, char** v) { return f(c, v); }\n")
	w.WriteString("int main(int argc, char** argv) {\n  switch (atoi(argv[1])) {\n")
	for i := range tests {
		fmt.Fprintf(&w, "  case %d: return verif_call(verif_t%d::verif_main, argc - 1, argv + 1);\n", i, i)
	}
	w.WriteString("  }\n  return 99;\n}\n")
	wrap := filepath.Join(srcDir, "verif_wrap.cpp")
	mustWrite(wrap, []byte(w.String()))
	exe := filepath.Join(srcDir, "verif_all")

	b := Built{exe: map[string]string{}, args: map[string][]string{}}
	o := compile(append(append(append([]string{}, flags...), wrap, "-o", exe), libs...))
	if o.Code == 0 {
		b.Whole = true
		for i, t := range tests {
			b.exe[t] = exe
			b.args[t] = []string{fmt.Sprint(i)}
		}
		return b
	}

	for _, t := range tests {
		exe := filepath.Join(srcDir, "verif_one_"+t)
		args := append(append([]string{}, flags...), filepath.Join(srcDir, t, "src", "main.cpp"), filepath.Join(srcDir, "rtcg", "rtcg.cpp"), "-o", exe)
		if convert {
			args = append(args, filepath.Join(srcDir, "convert", "convert.cpp"))
		}
		if o := compile(append(args, libs...)); o.Code != 0 {
			pbt.Failf("generated test %q doesn't compile: %s", t, o)
		}
		b.exe[t] = exe
	}
	return b
}

func compile(args []string) Out {
	return Run(Cmd{Path: cxx(), Args: args, Dir: scratch(), CPU: 300})
}

func cxx() string { return "/usr/bin/g++" }

var (
	statusRE  = regexp.MustCompile(`(?m)^\[(?i:info)\] Test (\S+) finished: (.*)\.$`)
	verdictRE = regexp.MustCompile(`(?m)^\[(?i:info)\]\s+(\S+) = (unset|inconclusive|passed|failed)$`)
)

// Ended is how a test ended.
type Ended struct {
	Code    int
	Status  string
	Verdict map[string]string
}

// parseEnd reads how a test ended from its log.
func parseEnd(o Out) Ended {
	if o.Runaway != "" || o.Signal != "" {
		pbt.Failf("test program crashed: %s", o)
	}
	e := Ended{Code: o.Code, Verdict: map[string]string{}}
	all := statusRE.FindAllSubmatchIndex(o.Stderr, -1)
	if len(all) == 0 {
		pbt.Failf("test program didn't report its final status: %s", o)
	}
	m := all[len(all)-1]
	e.Status = string(o.Stderr[m[4]:m[5]])
	for _, v := range verdictRE.FindAllSubmatch(o.Stderr[m[1]:], -1) {
		e.Verdict[string(v[1])] = string(v[2])
	}
	return e
}

// animateRun plays words to an animate test.
func (b Built) animateRun(test string, words []string) Out {
	in := []byte(strings.Join(words, "\n") + "\n")
	return Run(Cmd{Path: b.exe[test], Args: b.args[test], Stdin: in, Dir: scratch()})
}

// RosRun is what a ROS test did.
type RosRun struct {
	Out
	Adv, Sub []string
	// Sent gives the publications made before the first callback and during each of them.
	Sent   [][]RosMsg
	Events []string // other events
}

// RosMsg is a message published.
type RosMsg struct {
	Topic, Payload string
}

// rosRun plays a script to a ROS test.
func (b Built) rosRun(test string, script []string) RosRun {
	base := filepath.Join(scratch(), "rosrun")
	mustWrite(base+".script", []byte(strings.Join(script, "\n")+"\n"))
	_ = os.Remove(base + ".log")
	r := RosRun{Sent: [][]RosMsg{nil}}
	r.Out = Run(Cmd{Path: b.exe[test], Args: b.args[test], Dir: scratch(), Env: []string{"VERIF_ROS_SCRIPT=" + base + ".script", "VERIF_ROS_LOG=" + base + ".log"}})
	log, err := os.ReadFile(base + ".log")
	if err != nil {
		pbt.Failf("test program used no ROS: %s", r.Out)
	}
	for _, line := range bytes.Split(log, []byte("\n")) {
		f := strings.Fields(string(line))
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "adv":
			r.Adv = append(r.Adv, f[1])
		case "sub":
			r.Sub = append(r.Sub, f[1])
		case ">":
			r.Sent = append(r.Sent, nil)
		case "pub", "badpub":
			topic := f[1]
			if f[0] == "badpub" {
				topic = "(unadvertised)"
			}
			last := len(r.Sent) - 1
			r.Sent[last] = append(r.Sent[last], RosMsg{Topic: topic, Payload: unhex(f[2])})
		default:
			r.Events = append(r.Events, string(line))
		}
	}
	return r
}

func unhex(s string) string {
	var b []byte
	for i := 1; i+1 < len(s); i += 2 {
		var c byte
		_, _ = fmt.Sscanf(s[i:i+2], "%02x", &c)
		b = append(b, c)
	}
	return string(b)
}

func hexed(s string) string { return fmt.Sprintf("x%x", s) }
