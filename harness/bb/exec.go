package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/pbt"
)

// Limits on the programs run.
const (
	cpuLimit  = 30        // seconds of CPU time; tools and tests normally need milliseconds
	outLimit  = 32 << 20  // bytes on stdout or stderr
	asLimit   = 4 << 30   // bytes of address space
	fileLimit = 256 << 20 // bytes per file
	wallLimit = 10 * time.Minute
)

// Out is what a program run did.
type Out struct {
	Args    []string
	Code    int    // exit code; -1 if killed by a signal
	Signal  string // signal that killed it, if any
	Runaway string // reason why the run was stopped, if it was
	Stdout  []byte
	Stderr  []byte
}

func (o Out) String() string {
	how := fmt.Sprintf("exit code %d", o.Code)
	if o.Signal != "" {
		how = "killed by signal " + o.Signal
	}
	if o.Runaway != "" {
		how = "stopped: " + o.Runaway
	}
	return fmt.Sprintf("%s: %s; stderr: %s", strings.Join(o.Args, " "), how, clip(string(o.Stderr), 1500))
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + " [...] " + s[len(s)-n/2:]
}

// Cmd describes a program run.
type Cmd struct {
	Path      string
	Args      []string
	Dir       string
	Stdin     []byte
	StdinFile string // file to use as stdin instead
	StdinFD   *os.File
	StdoutTo  string // file to use as stdout instead
	Env       []string
	FSize     uint64 // file size limit, if not the default
	CPU       uint64 // CPU time limit in seconds, if not the default
	AS        uint64 // address space limit, if not the default
}

// capped is a buffer that kills its process when it gets too much.
//
// It doesn't embed its buffer, whose ReadFrom would go around Write.
type capped struct {
	buf  bytes.Buffer
	over bool
	kill func()
}

func (c *capped) Write(p []byte) (int, error) {
	if c.buf.Len()+len(p) > outLimit {
		if !c.over {
			c.over = true
			c.kill()
		}
		return len(p), nil
	}
	return c.buf.Write(p)
}

const (
	rlimitCPU   = 0
	rlimitFSize = 1
	rlimitAS    = 9
	rlimitCore  = 4
)

func prlimit(pid, res int, val uint64) {
	lim := [2]uint64{val, val}
	_, _, _ = syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), uintptr(res), uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
}

func orDefault(x, def uint64) uint64 {
	if x == 0 {
		return def
	}
	return x
}

// Run runs a program.
func Run(c Cmd) Out {
	cmd := exec.Command(c.Path, c.Args...)
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8", "TMPDIR=" + scratch(), "GOTRACEBACK=single"}, c.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}

	if c.StdinFD != nil {
		cmd.Stdin = c.StdinFD
	} else if c.StdinFile != "" {
		f, err := os.Open(c.StdinFile)
		if err != nil {
			pbt.Infra("can't open stdin: %v", err)
		}
		defer f.Close()
		cmd.Stdin = f
	} else if c.Stdin != nil {
		cmd.Stdin = bytes.NewReader(c.Stdin)
	}

	kill := func() {
		if cmd.Process != nil {
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	stdout, stderr := &capped{kill: kill}, &capped{kill: kill}
	cmd.Stdout, cmd.Stderr = stdout, stderr
	if c.StdoutTo != "" {
		f, err := os.OpenFile(c.StdoutTo, os.O_WRONLY|os.O_CREATE, 0o644)
		if err != nil {
			pbt.Infra("can't open stdout: %v", err)
		}
		defer f.Close()
		cmd.Stdout = f
	}

	if err := cmd.Start(); err != nil {
		pbt.Infra("can't start %s: %v", c.Path, err)
	}
	pid := cmd.Process.Pid
	prlimit(pid, rlimitCPU, orDefault(c.CPU, cpuLimit))
	if c.FSize == 0 {
		prlimit(pid, rlimitFSize, fileLimit)
	}
	prlimit(pid, rlimitAS, orDefault(c.AS, asLimit))
	prlimit(pid, rlimitCore, 0)

	timedOut := false
	timer := time.AfterFunc(wallLimit, func() { timedOut = true; kill() })
	err := cmd.Wait()
	if !timer.Stop() && timedOut {
		pbt.Infra("%s took more than %v of wall time", c.Path, wallLimit)
	}

	var exit *exec.ExitError
	if err != nil && !errors.As(err, &exit) && !errors.Is(err, io.ErrShortWrite) && !errors.Is(err, syscall.EPIPE) {
		pbt.Infra("running %s: %v", c.Path, err)
	}

	o := Out{Args: append([]string{filepath.Base(c.Path)}, c.Args...), Stdout: stdout.buf.Bytes(), Stderr: stderr.buf.Bytes()}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	o.Code = ws.ExitStatus()
	if ws.Signaled() {
		o.Signal = ws.Signal().String()
		o.Code = -1
		if ws.Signal() == syscall.SIGXCPU || (ws.Signal() == syscall.SIGKILL && cmd.ProcessState.UserTime()+cmd.ProcessState.SystemTime() > time.Duration(orDefault(c.CPU, cpuLimit)-1)*time.Second) {
			o.Runaway = "did not terminate (CPU time limit)"
		}
	}
	if stdout.over || stderr.over {
		o.Runaway = "unbounded output"
	}
	if o.Signal == "killed" && o.Runaway == "" {
		pbt.Infra("%s was killed from outside", c.Path)
	}
	return o
}

func env(name string) string {
	v := os.Getenv(name)
	if v == "" {
		pbt.Infra("$%s isn't set", name)
	}
	return v
}

func scratch() string { return env("VERIF_SCRATCH") }

func tool(name string) string { return filepath.Join(env("VERIF_BIN"), name) }

var caseNum int

// CaseDir makes a fresh directory for a case, and a function that removes it.
func CaseDir() (string, func()) {
	caseNum++
	dir := filepath.Join(scratch(), fmt.Sprintf("c%d", caseNum))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		pbt.Infra("%v", err)
	}
	return dir, func() {
		if os.Getenv("VERIF_KEEP") == "" {
			removeAll(dir)
		}
	}
}

// removeAll removes dir, making directories in it writable as needed.
func removeAll(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	_ = os.RemoveAll(dir)
}

func mustWrite(path string, bs []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		pbt.Infra("%v", err)
	}
	if err := os.WriteFile(path, bs, 0o644); err != nil {
		pbt.Infra("%v", err)
	}
}

func mustRead(path string) []byte {
	bs, err := os.ReadFile(path)
	if err != nil {
		pbt.Failf("expected file can't be read: %v", err)
	}
	return bs
}
