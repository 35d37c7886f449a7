package main

import (
	"bytes"
	"encoding/json"
	"path/filepath"

	"verif/harness/pbt"
)

// Crashed explains how o is neither a success nor a clean error; it returns "" if it is one of them.
func (o Out) Crashed() string {
	switch {
	case o.Runaway != "":
		return o.Runaway
	case o.Signal != "":
		return "killed by " + o.Signal
	case bytes.Contains(o.Stderr, []byte("goroutine ")) && (bytes.Contains(o.Stderr, []byte("panic:")) || bytes.Contains(o.Stderr, []byte("fatal error:"))):
		return "crashed"
	case o.Code != 0 && o.Code != 1 && o.Code != 2:
		return "odd exit code"
	default:
		return ""
	}
}

// mustOK requires o to be a success.
func mustOK(o Out, what string) Out {
	if o.Code != 0 || o.Signal != "" || o.Runaway != "" {
		pbt.Failf("%s failed: %s", what, o)
	}
	return o
}

// ReadTraces runs rtcg-read-traces on csv on stdin.
func ReadTraces(csv []byte) Out {
	return Run(Cmd{Path: tool("rtcg-read-traces"), Args: []string{"-"}, Stdin: csv, Dir: scratch()})
}

// MakeStms runs rtcg-make-stms on a suite on stdin.
func MakeStms(suite []byte) Out {
	return Run(Cmd{Path: tool("rtcg-make-stms"), Args: []string{"-"}, Stdin: suite, Dir: scratch()})
}

// Gen runs rtcg-gen in dir.
func Gen(dir string, stms []byte, args ...string) Out {
	return Run(Cmd{Path: tool("rtcg-gen"), Args: args, Stdin: stms, Dir: dir})
}

// GenFrom writes config to dir/in/config.xml and generates into dir/out.
func GenFrom(dir, config string, stms []byte, extra ...string) Out {
	mustWrite(filepath.Join(dir, "in", "rtcg-gen.xml"), []byte(config))
	args := append(append([]string{}, extra...), "-output", "out", filepath.Join("in", "rtcg-gen.xml"), "-")
	return Gen(dir, stms, args...)
}

// decodeAny decodes JSON with numbers kept as they are.
func decodeAny(bs []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(bs))
	dec.UseNumber()
	var x any
	err := dec.Decode(&x)
	return x, err
}

func mustDecode(bs []byte, what string) any {
	x, err := decodeAny(bs)
	if err != nil {
		pbt.Failf("%s isn't JSON: %v: %s", what, err, clip(string(bs), 500))
	}
	return x
}

// show renders a value for messages.
func show(x any) string {
	bs, err := json.Marshal(x)
	if err != nil {
		return err.Error()
	}
	return clip(string(bs), 1500)
}
