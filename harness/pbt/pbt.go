// Package pbt runs property checks: it drives a generator with rapid, records what was generated,
// keeps the smallest failing case as a JSON file, and replays such files.
package pbt

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec records what one case exercised.
type Rec struct {
	labels     map[string]bool
	counts     map[string]int
	nontrivial bool
}

// Label classifies the case.
func (r *Rec) Label(format string, args ...any) {
	r.labels[fmt.Sprintf(format, args...)] = true
}

// LabelIf classifies the case if cond holds.
func (r *Rec) LabelIf(cond bool, label string) {
	if cond {
		r.labels[label] = true
	}
}

// Count adds n to a named counter.
func (r *Rec) Count(name string, n int) { r.counts[name] += n }

// NonTrivial marks the case as non-trivial by the property's rule.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// NonTrivialIf marks the case as non-trivial if cond holds.
func (r *Rec) NonTrivialIf(cond bool) {
	if cond {
		r.nontrivial = true
	}
}

// Infra aborts the run because of a problem of the harness or machine, not of the code under test.
func Infra(format string, args ...any) {
	panic(infraError(fmt.Sprintf(format, args...)))
}

type infraError string

// Prop is a registered property.
type Prop struct {
	ID       string
	Rule     string
	generate func(t *rapid.T) any
	check    func(c any, rec *Rec) error
	decode   func(bs []byte) (any, error)
}

var props = map[string]*Prop{}

// Register registers a property over cases of type C.
//
// A case must be wholly described by its JSON form.
func Register[C any](id, rule string, gen func(t *rapid.T) C, check func(c C, rec *Rec) error) {
	props[id] = &Prop{
		ID:       id,
		Rule:     rule,
		generate: func(t *rapid.T) any { return gen(t) },
		check:    func(c any, rec *Rec) error { return check(c.(C), rec) },
		decode: func(bs []byte) (any, error) {
			var c C
			dec := json.NewDecoder(bytes.NewReader(bs))
			dec.DisallowUnknownFields()
			err := dec.Decode(&c)
			return c, err
		},
	}
}

// Result is what a shard reports.
type Result struct {
	Property    string         `json:"property"`
	Seed        uint64         `json:"seed"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  []string       `json:"nontrivial"` // hashes of distinct non-trivial cases
	Rule        string         `json:"rule"`
	Labels      map[string]int `json:"labels"`
	Counts      map[string]int `json:"counts"`
	Samples     []any          `json:"samples"`
	Failed      bool           `json:"failed"`
	Failure     string         `json:"failure,omitempty"`
	FailCase    any            `json:"failcase,omitempty"`
	FirstCase   any            `json:"firstcase,omitempty"` // first failing case, before shrinking
	Infra       string         `json:"infra,omitempty"`
	Stopped     bool           `json:"stopped,omitempty"`
}

const maxSamples = 3

type runner struct {
	prop  *Prop
	res   Result
	seen  map[string]bool
	out   string
	notes *os.File
	stop  string // stop is a file whose existence means that another shard has failed.
	// failed is set once a case has failed, so that shrinking attempts aren't counted.
	failed  bool
	stopped bool
	last    any
	lastMsg string
}

func newRec() *Rec { return &Rec{labels: map[string]bool{}, counts: map[string]int{}} }

// InProcess says that checks call the code under test directly: panics, and cases that don't end, are violations.
var InProcess bool

// caseLimit is how long an in-process case may take: normally they take milliseconds.
const caseLimit = 90 * time.Second

// runCase runs a check, turning panics of the check itself into infra errors.
func runCase(p *Prop, c any, rec *Rec) (err error, infra string) {
	defer func() {
		if r := recover(); r != nil {
			if ie, ok := r.(infraError); ok {
				infra = string(ie)
				return
			}
			if v, ok := r.(*Violation); ok {
				err = v
				return
			}
			if InProcess {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
				return
			}
			infra = fmt.Sprintf("check panicked: %v\n%s", r, debug.Stack())
		}
	}()
	err = p.check(c, rec)
	return err, ""
}

// Violation can be panicked with by helpers deep inside a check to report a violated property.
type Violation struct{ Msg string }

func (v *Violation) Error() string { return v.Msg }

// Failf reports a violated property from deep inside a check.
func Failf(format string, args ...any) {
	panic(&Violation{Msg: fmt.Sprintf(format, args...)})
}

func (r *runner) account(c any, rec *Rec) {
	r.res.Evaluations++
	for l := range rec.labels {
		r.res.Labels[l]++
	}
	for k, n := range rec.counts {
		r.res.Counts[k] += n
	}
	if !rec.nontrivial {
		return
	}
	bs, err := json.Marshal(c)
	if err != nil {
		Infra("case can't be marshalled: %v", err)
	}
	sum := sha256.Sum256(bs)
	h := hex.EncodeToString(sum[:8])
	if r.seen[h] {
		return
	}
	r.seen[h] = true
	if len(r.res.Samples) < maxSamples && len(bs) < 3000 {
		r.res.Samples = append(r.res.Samples, json.RawMessage(bs))
	}
}

func (r *runner) property(t *rapid.T) {
	c := r.prop.generate(t)
	if r.stopped || (!r.failed && r.stop != "" && exists(r.stop)) {
		r.stopped = true
		return
	}
	rec := newRec()
	err, infra := r.watched(c, rec)
	if infra != "" {
		panic(infraAbort{infra})
	}
	if !r.failed {
		r.account(c, rec)
	}
	if err == nil {
		return
	}
	if !r.failed {
		r.failed = true
		r.res.FirstCase = c
		if r.stop != "" {
			_ = os.WriteFile(r.stop, nil, 0o666)
		}
	}
	r.last, r.lastMsg = c, err.Error()
	t.Fatalf("property violated")
}

// watched runs a check; if it is in-process and doesn't end, the run ends with that as the violation.
func (r *runner) watched(c any, rec *Rec) (error, string) {
	if InProcess {
		r.note(c)
		timer := time.AfterFunc(caseLimit, func() {
			r.res.Failed, r.res.Failure, r.res.FailCase = true, fmt.Sprintf("no result after %v", caseLimit), c
			r.finish(r.out)
		})
		defer timer.Stop()
	}
	return runCase(r.prop, c, rec)
}

// note writes down a case before its check, in case that it brings the process down.
func (r *runner) note(c any) {
	if r.out == "" || r.failed {
		return // Cases tried while shrinking aren't worth it: there is a result already.
	}
	if r.notes == nil {
		f, err := os.Create(r.out + ".case")
		if err != nil {
			Infra("can't write down cases: %v", err)
		}
		r.notes = f
	}
	bs, err := json.Marshal(Replay{Property: r.prop.ID, Failure: "the process running the code crashes", Case: mustJSON(c)})
	if err == nil {
		err = r.notes.Truncate(0)
	}
	if err == nil {
		_, err = r.notes.WriteAt(bs, 0)
	}
	if err != nil {
		Infra("can't write down a case: %v", err)
	}
}

func mustJSON(c any) json.RawMessage {
	bs, err := json.Marshal(c)
	if err != nil {
		Infra("case can't be marshalled: %v", err)
	}
	return bs
}

type infraAbort struct{ msg string }

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// tb is a minimal TB for rapid.
type tb struct {
	failed bool
	abort  string
	log    []string
}

type tbStop struct{}

func (*tb) Helper()                     {}
func (*tb) Name() string                { return "prop" }
func (b *tb) Logf(f string, a ...any)   { b.log = append(b.log, fmt.Sprintf(f, a...)) }
func (b *tb) Log(a ...any)              { b.log = append(b.log, fmt.Sprint(a...)) }
func (b *tb) Skipf(string, ...any)      { panic("skip") }
func (b *tb) Skip(...any)               { panic("skip") }
func (b *tb) SkipNow()                  { panic("skip") }
func (b *tb) Errorf(f string, a ...any) { b.failed = true; b.Logf(f, a...) }
func (b *tb) Error(a ...any)            { b.failed = true; b.Log(a...) }
func (b *tb) Fatalf(f string, a ...any) { b.failed = true; b.Logf(f, a...); panic(tbStop{}) }
func (b *tb) Fatal(a ...any)            { b.failed = true; b.Log(a...); panic(tbStop{}) }
func (b *tb) FailNow()                  { b.failed = true; panic(tbStop{}) }
func (b *tb) Fail()                     { b.failed = true }
func (b *tb) Failed() bool              { return b.failed }

// Main is the entry point of a property binary.
//
//	prop -id P01 -out result.json -rapid.seed N -rapid.checks N
//	prop -id P01 -replay case.json -out result.json
func Main() {
	debug.SetMaxStack(256 << 20) // endless recursion should end soon
	// Die with the coordinator: nothing else would stop a runaway search.
	_, _, _ = syscall.RawSyscall(syscall.SYS_PRCTL, syscall.PR_SET_PDEATHSIG, uintptr(syscall.SIGKILL), 0)
	testing.Init()
	id := flag.String("id", "", "property to check")
	out := flag.String("out", "", "file to write the result to")
	replay := flag.String("replay", "", "case to replay")
	stop := flag.String("stop", "", "file that tells shards to stop")
	list := flag.Bool("list", false, "list properties")
	dump := flag.Int("dump", 0, "print this many generated cases and exit")
	flag.Parse()

	if *list {
		ids := make([]string, 0, len(props))
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}

	p := props[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}

	if *dump > 0 {
		g := rapid.Custom(func(t *rapid.T) any { return p.generate(t) })
		for i := 0; i < *dump; i++ {
			bs, _ := json.Marshal(g.Example(i))
			fmt.Println(string(bs))
		}
		return
	}

	r := &runner{prop: p, seen: map[string]bool{}, stop: *stop, out: *out}
	r.res = Result{Property: p.ID, Rule: p.Rule, Labels: map[string]int{}, Counts: map[string]int{}}
	if *replay != "" {
		r.replay(*replay)
	} else {
		r.explore()
	}
	r.finish(*out)
}

func (r *runner) replay(path string) {
	bs, err := os.ReadFile(path)
	if err != nil {
		r.res.Infra = err.Error()
		return
	}
	var env Replay
	if err := json.Unmarshal(bs, &env); err != nil || len(env.Case) == 0 {
		r.res.Infra = fmt.Sprintf("bad replay file %s: %v", path, err)
		return
	}
	c, err := r.prop.decode(env.Case)
	if err != nil {
		r.res.Infra = fmt.Sprintf("bad case in %s: %v", path, err)
		return
	}
	rec := newRec()
	cerr, infra := r.watched(c, rec)
	if infra != "" {
		r.res.Infra = infra
		return
	}
	r.account(c, rec)
	if cerr != nil {
		r.res.Failed, r.res.Failure, r.res.FailCase = true, cerr.Error(), c
	}
}

// Replay is the format of replay files.
type Replay struct {
	Property string          `json:"property"`
	Failure  string          `json:"failure,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func (r *runner) explore() {
	b := &tb{}
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil, tbStop:
			default:
				r.res.Infra = fmt.Sprintf("runner panicked: %v\n%s", x, debug.Stack())
			}
		}()
		rapid.Check(b, func(t *rapid.T) {
			defer func() {
				if x := recover(); x != nil {
					if ia, ok := x.(infraAbort); ok {
						b.abort = ia.msg
						r.stopped = true
						return
					}
					panic(x)
				}
			}()
			r.property(t)
		})
	}()
	if b.abort != "" {
		r.res.Infra = b.abort
	}
	r.res.Stopped = r.stopped && !r.failed
	if r.failed {
		r.res.Failed, r.res.Failure, r.res.FailCase = true, r.lastMsg, r.last
	} else if b.failed && r.res.Infra == "" {
		r.res.Infra = "rapid failed without a violation: " + strings.Join(b.log, "; ")
	}
}

func (r *runner) finish(out string) {
	for h := range r.seen {
		r.res.NonTrivial = append(r.res.NonTrivial, h)
	}
	sort.Strings(r.res.NonTrivial)
	bs, err := json.Marshal(r.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if out == "" {
		fmt.Println(string(bs))
	} else {
		tmp := out + ".tmp"
		_ = os.MkdirAll(filepath.Dir(out), 0o755)
		if err := os.WriteFile(tmp, bs, 0o644); err == nil {
			err = os.Rename(tmp, out)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	switch {
	case r.res.Failed:
		os.Exit(1)
	case r.res.Infra != "":
		os.Exit(2)
	}
}
