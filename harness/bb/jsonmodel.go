package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"verif/harness/model"
	"verif/harness/pbt"
)

// jnode is a test node as written by the tools.
type jnode struct {
	ID      string   `json:"id"`
	Tests   []string `json:"tests"`
	Outcome string   `json:"outcome"`
	Event   *string  `json:"event"`
	Next    []*jnode `json:"next"`
}

// jsuite is a test suite as written by the tools.
type jsuite map[string]*jnode

// jstms is a state machine suite as written by the tools.
type jstms struct {
	Types map[string]string `json:"types"`
	Tests map[string]*jstm  `json:"tests"`
}

type jstm struct {
	States []jstate          `json:"states"`
	Types  map[string]string `json:"types"`
	Tests  []string          `json:"tests"`
}

type jstate struct {
	ID             string            `json:"id"`
	TransitionSets []jset            `json:"transitionSets"`
	Verdicts       map[string]string `json:"verdicts"`
}

type jset struct {
	Channel     string        `json:"channel"`
	Transitions []jtransition `json:"transitions"`
}

type jtransition struct {
	Value *string `json:"value"`
	Next  string  `json:"next"`
}

// parseInto decodes exactly one JSON document into x.
func parseInto(bs []byte, x any, what string) {
	if err := dupKeys(bs); err != nil {
		pbt.Failf("%s: %v", what, err)
	}
	if err := json.Unmarshal(bs, x); err != nil {
		pbt.Failf("%s doesn't parse: %v: %s", what, err, clip(string(bs), 600))
	}
}

// dupKeys reports duplicate keys in any object of a JSON document.
func dupKeys(bs []byte) error {
	dec := json.NewDecoder(bytes.NewReader(bs))
	dec.UseNumber()
	return dupKeysValue(dec)
}

func dupKeysValue(dec *json.Decoder) error {
	tok, err := dec.Token()
	if err != nil {
		return nil // reported elsewhere
	}
	switch tok {
	case json.Delim('{'):
		seen := map[string]bool{}
		for dec.More() {
			k, err := dec.Token()
			if err != nil {
				return nil
			}
			key, ok := k.(string)
			if !ok {
				return nil
			}
			if seen[key] {
				return fmt.Errorf("duplicate key %q in output", key)
			}
			seen[key] = true
			if err := dupKeysValue(dec); err != nil {
				return err
			}
		}
		_, _ = dec.Token()
	case json.Delim('['):
		for dec.More() {
			if err := dupKeysValue(dec); err != nil {
				return err
			}
		}
		_, _ = dec.Token()
	}
	return nil
}

// sameTree compares a tool's node with the expected one, returning a description of the first difference.
func sameTree(path string, got *jnode, want *model.Node) string {
	if got == nil {
		return path + ": node is null"
	}
	wantEv := ""
	if want.Event != nil {
		wantEv = want.Event.Text()
	}
	gotEv := ""
	if got.Event != nil {
		gotEv = *got.Event
	}
	switch {
	case got.ID != want.ID:
		return fmt.Sprintf("%s: id is %q, want %q", path, got.ID, want.ID)
	case fmt.Sprint(len(got.Tests), got.Tests) != fmt.Sprint(len(want.Tests), want.Tests):
		return fmt.Sprintf("%s: tests are %q, want %q", path, got.Tests, want.Tests)
	case got.Outcome != want.Outcome && !(want.Outcome == "" && got.Outcome == "unset"):
		return fmt.Sprintf("%s: outcome is %q, want %q", path, got.Outcome, want.Outcome)
	case gotEv != wantEv:
		return fmt.Sprintf("%s: event is %q, want %q", path, gotEv, wantEv)
	case len(got.Next) != len(want.Next):
		return fmt.Sprintf("%s: has %d next nodes, want %d", path, len(got.Next), len(want.Next))
	}
	for i, k := range got.Next {
		if d := sameTree(fmt.Sprintf("%s/%d", path, i), k, want.Next[i]); d != "" {
			return d
		}
	}
	return ""
}

// sameSuite compares a tool's suite with the expected one.
func sameSuite(got jsuite, want model.Suite) string {
	for _, k := range want.Keys() {
		if _, ok := got[k]; !ok {
			return fmt.Sprintf("test %q is missing; got %q", k, keysOf(got))
		}
	}
	for _, k := range keysOf(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected test %q; want %q", k, want.Keys())
		}
		if d := sameTree(k, got[k], want[k]); d != "" {
			return d
		}
	}
	return ""
}

func keysOf[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mustJSON(x any) []byte {
	bs, err := json.Marshal(x)
	if err != nil {
		pbt.Infra("%v", err)
	}
	return bs
}

func mustIndent(x any) []byte {
	bs, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		pbt.Infra("can't marshal: %v", err)
	}
	return bs
}
