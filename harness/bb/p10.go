package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/model"
	"verif/harness/pbt"
)

func init() {
	pbt.Register("P10",
		"suites of well-formed test trees (chains, deterministic factorised trees, arbitrary trees with repeated events and shared tests; some nodes with given identifiers) given to rtcg-make-stms, whose states are matched one to one with the tree's nodes; non-trivial: a test with at least four nodes and either a branch, a given identifier, or a repeated event",
		genP10, checkP10)

	pbt.Register("P11",
		"suites in which each channel carries values of random types over random tests, given to rtcg-make-stms and compared with the least types computed over all events; non-trivial: some channel carries values of two different types",
		genP11, checkP11)
}

// genAnyTree draws a tree in which a test has at most one outcome among the next nodes of each node.
func genAnyTree(t *rapid.T, alpha []model.Event, depth int) *model.Node {
	fresh := 0
	shared := []string{"a", "b", "c c", "x.y", "éé", "test0"}
	var build func(d int) *model.Node
	build = func(d int) *model.Node {
		e := model.From(t, "event", alpha)
		if d <= 0 || model.Chance(t, "leaf", 30) {
			var tests []string
			for i := model.Range(t, "leafTests", 1, 2); i > 0; i-- {
				fresh++
				tests = append(tests, fmt.Sprintf("leaf%d", fresh))
			}
			failTests := tests
			if model.Chance(t, "otherFailTests", 10) {
				failTests = shared[:model.Range(t, "failTests", 1, 2)]
			}
			return &model.Node{Tests: tests, Outcome: "pass", Event: &e, Next: []*model.Node{{Tests: failTests, Outcome: "fail"}}}
		}
		n := &model.Node{Outcome: "inc", Event: &e}
		n.Tests = append(n.Tests, shared[model.Range(t, "from", 0, 2):model.Range(t, "to", 3, len(shared))]...)
		for i := model.Range(t, "width", 1, 4); i > 0; i-- {
			n.Next = append(n.Next, build(d-1))
		}
		return n
	}
	root := &model.Node{Tests: []string{"root test"}}
	for i := model.Range(t, "rootWidth", 1, 3); i > 0; i-- {
		root.Next = append(root.Next, build(depth))
	}
	return root
}

func genP10(t *rapid.T) TreesCase {
	chans := model.FreeUniverse(t, 4)
	alpha := model.GenAlphabet(t, chans, model.ValOpts{})
	if model.Chance(t, "mixKinds", 40) {
		for i := range alpha {
			alpha[i].Kind = model.Pick(t, "kind", "in", "out", "call")
		}
	}
	c := TreesCase{Suite: model.Suite{}}
	n := model.Len(t, "numTests", 1, 3, 6)
	for i := 0; i < n; i++ {
		var root *model.Node
		switch model.Range(t, "shape", 0, 2) {
		case 0:
			evs := make([]model.Event, model.Len(t, "numEvents", 1, 6, 40))
			for j := range evs {
				evs[j] = model.From(t, "event", alpha)
			}
			root = model.Chain("chain", evs)
		case 1:
			root = model.GenTree(t, alpha, model.TreeOpts{Depth: 4, Width: 3})
		default:
			root = genAnyTree(t, alpha, model.Range(t, "depth", 0, 3))
		}
		if model.Chance(t, "givenIDs", 40) {
			giveIDs(t, root)
		}
		c.Suite[fmt.Sprintf("t%d", i)] = root
	}
	if model.Rarely(t, "big", 20) {
		enlarge(t, c.Suite, alpha)
	}
	if model.Chance(t, "repeatID", 6) {
		repeatID(t, c.Suite[model.From(t, "repeatIn", c.Suite.Keys())])
	}
	for _, k := range c.Suite.Keys() {
		if model.Chance(t, "rootID", 12) {
			// The first state's name is settled, so this one is lost.
			c.Suite[k].ID = model.Pick(t, "rootIDText", "initial", "x", "step0", "root", "step-1")
		}
	}
	return c
}

// repeatID gives a node the identifier of another, or the first state's.
func repeatID(t *rapid.T, root *model.Node) {
	var nodes []*model.Node
	root.Walk(func(n *model.Node, depth int) {
		if depth > 0 && n.Outcome != "fail" {
			nodes = append(nodes, n)
		}
	})
	i, j := model.Range(t, "repeatOne", 0, len(nodes)-1), model.Range(t, "repeatOther", 0, len(nodes)-1)
	if i == j {
		nodes[i].ID = "initial"
		return
	}
	if nodes[i].ID == "" {
		nodes[i].ID = model.Pick(t, "repeatText", "x", "step1", "a b")
	}
	nodes[j].ID = nodes[i].ID
}

// giveIDs gives some nodes of a tree distinct identifiers, often ones that would be synthesised otherwise.
func giveIDs(t *rapid.T, root *model.Node) {
	used := map[string]bool{"initial": true}
	root.Walk(func(n *model.Node, depth int) {
		if depth == 0 || !model.Chance(t, "giveID", 35) {
			return
		}
		id := ""
		switch model.Range(t, "idKind", 0, 3) {
		case 0:
			id = model.Pick(t, "id", "x", "Initial", "step", "initial ", "a b", "état", "step-1", "step00", "step01")
		default:
			id = fmt.Sprintf("step%d", model.Range(t, "stepID", 0, 12))
		}
		if n.Outcome == "fail" {
			n.ID = id // These don't become states, so they needn't be unique.
			return
		}
		if !used[id] {
			used[id] = true
			n.ID = id
		}
	})
}

// repeatedID finds an identifier that a test gives to two of its states, if there is one.
func repeatedID(s model.Suite) (test, id string, ok bool) {
	for _, k := range s.Keys() {
		seen := map[string]bool{"initial": true}
		s[k].Walk(func(n *model.Node, depth int) {
			if depth > 0 && n.ID != "" && n.Outcome != "fail" {
				if seen[n.ID] {
					test, id, ok = k, n.ID, true
				}
				seen[n.ID] = true
			}
		})
	}
	return test, id, ok
}

func checkP10(c TreesCase, rec *pbt.Rec) error {
	if test, id, ok := repeatedID(c.Suite); ok {
		rec.Label("an identifier given twice")
		o := MakeStms(c.Suite.Bytes())
		if o.Code == 0 || len(o.Stdout) > 0 {
			return fmt.Errorf("test %q gives the identifier %q twice, but rtcg-make-stms: exit code %d; stdout: %s", test, id, o.Code, clip(string(o.Stdout), 1000))
		}
		return nil
	}
	out := mustOK(MakeStms(c.Suite.Bytes()), "making state machines of well-formed trees")
	var s jstms
	parseInto(out.Stdout, &s, "output of rtcg-make-stms")
	if strings.Join(keysOf(s.Tests), "\n") != strings.Join(c.Suite.Keys(), "\n") {
		return fmt.Errorf("state machines for %q, want %q", keysOf(s.Tests), c.Suite.Keys())
	}
	for _, k := range c.Suite.Keys() {
		if err := sameMachine(s.Tests[k], c.Suite[k]); err != nil {
			return fmt.Errorf("state machine of test %q: %w", k, err)
		}
		nodes, branch, given, repeated := 0, false, false, false
		c.Suite[k].Walk(func(n *model.Node, _ int) {
			nodes++
			branch = branch || len(n.Next) > 1
			given = given || n.ID != ""
			evs := map[string]bool{}
			for _, k := range n.Next {
				if k.Event != nil {
					repeated = repeated || evs[k.Event.Text()]
					evs[k.Event.Text()] = true
				}
			}
		})
		rec.NonTrivialIf(nodes >= 4 && (branch || given || repeated))
		rec.LabelIf(branch, "branching")
		rec.LabelIf(given, "given identifiers")
		rec.LabelIf(repeated, "siblings with the same event")
		rec.LabelIf(nodes > 20, "over 20 nodes")
		rec.LabelIf(nodes > 100, "over 100 nodes")
		rec.Count("nodes", nodes)
	}
	return nil
}

// sameMachine matches the states of a machine with the nodes of its tree.
func sameMachine(got *jstm, root *model.Node) error {
	if got == nil || len(got.States) == 0 {
		return fmt.Errorf("no states")
	}
	if got.States[0].ID != "initial" {
		return fmt.Errorf("first state is %q", got.States[0].ID)
	}
	byID := map[string]*jstate{}
	for i := range got.States {
		st := &got.States[i]
		if st.ID == "" {
			return fmt.Errorf("state %d has no identifier", i)
		}
		if byID[st.ID] != nil {
			return fmt.Errorf("two states are called %q", st.ID)
		}
		byID[st.ID] = st
	}

	matched := map[string]bool{}
	var match func(id string, n *model.Node) error
	match = func(id string, n *model.Node) error {
		st := byID[id]
		if st == nil {
			return fmt.Errorf("no state %q", id)
		}
		if matched[id] {
			return fmt.Errorf("state %q stands for two nodes", id)
		}
		matched[id] = true
		if n.ID != "" && n.ID != id {
			return fmt.Errorf("node %q became state %q", n.ID, id)
		}

		verdicts := map[string]string{}
		wantTrans := map[string][]*model.Node{}
		total := 0
		for _, k := range n.Next {
			for _, t := range k.Tests {
				verdicts[t] = k.Outcome
			}
			if k.Outcome == "fail" {
				continue
			}
			ch := k.Event.Ch + "." + k.Event.Kind
			wantTrans[ch] = append(wantTrans[ch], k)
			total++
		}
		if a, b := show(st.Verdicts), show(verdicts); a != b && !(len(verdicts) == 0 && len(st.Verdicts) == 0) {
			return fmt.Errorf("state %q has verdicts %s, want %s", id, a, b)
		}

		gotTrans := map[string][]jtransition{}
		n2 := 0
		for _, set := range st.TransitionSets {
			if gotTrans[set.Channel] != nil {
				return fmt.Errorf("state %q has two transition sets for %q: %s", id, set.Channel, show(st.TransitionSets))
			}
			gotTrans[set.Channel] = append(gotTrans[set.Channel], set.Transitions...)
			n2 += len(set.Transitions)
		}
		if n2 != total {
			return fmt.Errorf("state %q has %d transitions, want %d: %s", id, n2, total, show(st.TransitionSets))
		}
		for ch, kids := range wantTrans {
			trs := gotTrans[ch]
			if len(trs) != len(kids) {
				return fmt.Errorf("state %q has %d transitions on %q, want %d", id, len(trs), ch, len(kids))
			}
			for i, k := range kids {
				if !sameOptional(trs[i].Value, k.Event.Val) {
					return fmt.Errorf("state %q: transition %d on %q has value %s, want event %q", id, i, ch, show(trs[i].Value), k.Event.Text())
				}
				if err := match(trs[i].Next, k); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if err := match("initial", &model.Node{Tests: root.Tests, Next: root.Next}); err != nil {
		return err
	}
	if len(matched) != len(got.States) {
		return fmt.Errorf("%d states for %d non-failing nodes", len(got.States), len(matched))
	}
	if a, b := strings.Join(sortedCopy(got.Tests), "\n"), strings.Join(root.Members(), "\n"); a != b {
		return fmt.Errorf("tests are %q, want %q", sortedCopy(got.Tests), root.Members())
	}
	return nil
}

func sameOptional(a, b *string) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func genP11(t *rapid.T) TreesCase {
	chans := model.FreeUniverse(t, 5)
	loose := model.Chance(t, "loose", 30)     // channels may get any type of value, mostly conflicting
	perTest := model.Chance(t, "perTest", 30) // types may differ between tests
	genAlpha := func() []model.Event {
		var alpha []model.Event
		for _, ch := range chans {
			if perTest && model.Chance(t, "typeOfTest", 15) {
				ch.Type = model.Pick(t, "type", "nat", "int", "enum", "()")
			}
			for i := 1 + rapid.Uniform(4).Draw(t, "numVals"); i > 0; i-- {
				typ := ch.Type
				switch {
				case loose && model.Chance(t, "otherType", 25):
					typ = model.Pick(t, "type", "nat", "int", "enum", "()")
				case typ == "nat" && model.Chance(t, "negative", 30):
					typ = "int"
				}
				kind := ch.Kind
				if model.Chance(t, "otherKind", 20) {
					kind = model.Pick(t, "kind", "in", "out", "call")
				}
				alpha = append(alpha, model.Event{Ch: ch.Name, Kind: kind, Val: model.GenVal(t, typ, model.ValOpts{})})
			}
		}
		return alpha
	}
	alpha := genAlpha()
	c := TreesCase{Suite: model.Suite{}}
	n := model.Len(t, "numTests", 1, 4, 10)
	for i := 0; i < n; i++ {
		if perTest {
			alpha = genAlpha()
		}
		if model.Chance(t, "tree", 30) {
			c.Suite[fmt.Sprintf("t%d", i)] = genAnyTree(t, alpha, 2)
			continue
		}
		evs := make([]model.Event, model.Len(t, "numEvents", 1, 5, 20))
		for j := range evs {
			evs[j] = model.From(t, "event", alpha)
		}
		c.Suite[fmt.Sprintf("t%d", i)] = model.Chain("m", evs)
	}
	if model.Rarely(t, "big", 20) {
		enlarge(t, c.Suite, alpha)
	}
	return c
}

func checkP11(c TreesCase, rec *pbt.Rec) error {
	out := MakeStms(c.Suite.Bytes())
	perTest := map[string]map[string]string{}
	within := false
	var all []model.Event
	for _, k := range c.Suite.Keys() {
		evs := c.Suite[k].Events()
		all = append(all, evs...)
		ts, ok := model.Types(evs)
		within = within || !ok
		perTest[k] = ts
	}
	want, ok := model.Types(all)

	raw := map[string]map[string]bool{}
	for _, e := range all {
		if raw[e.Ch] == nil {
			raw[e.Ch] = map[string]bool{}
		}
		raw[e.Ch][e.Type()] = true
	}
	for _, ts := range raw {
		rec.NonTrivialIf(len(ts) > 1)
	}

	if !ok {
		rec.LabelIf(within, "conflict within a test")
		rec.LabelIf(!within, "conflict across tests only")
		return mustReject(out, "a suite with a channel of conflicting types")
	}
	mustOK(out, "making state machines of suite without type conflicts")
	var s jstms
	parseInto(out.Stdout, &s, "output of rtcg-make-stms")
	if a, b := show(s.Types), show(want); a != b {
		return fmt.Errorf("types of the suite are %s, want %s", a, b)
	}
	widened := false
	for _, k := range c.Suite.Keys() {
		if s.Tests[k] == nil {
			return fmt.Errorf("no state machine for %q", k)
		}
		if a, b := show(s.Tests[k].Types), show(perTest[k]); a != b {
			return fmt.Errorf("types of test %q are %s, want %s", k, a, b)
		}
		for ch, ty := range perTest[k] {
			widened = widened || want[ch] != ty
		}
	}
	rec.Label("accepted")
	rec.LabelIf(widened, "channel is wider in the suite than in a test")
	return nil
}
