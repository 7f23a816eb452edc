package main

import (
	"fmt"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
)

// Output helpers on writers that fail (C07). A run is a history of writes of values that come from a few
// trees. Each write is tried with many faults and then with a healthy writer. At the end, trees are as
// in a process that wrote nothing.

func init() {
	registry["C07"] = regEntry("exploration", []string{"sim"}, runWrites, againWrites)
	assumptions["C07"] = []string{
		"what the complete text is comes from encoding/json and fmt in the same process",
		"the error counts as reported if the helper panics with it, with an error that wraps it, or with an error whose message contains its message",
		"Println is driven through simulated results of the system calls on its file descriptor",
	}
}

var writeValues = []string{"data", "wrapped", "text", "issues", "buffer", "pn", "scalar", "large"}
var writeFaults = []string{"call", "callpart", "callfull", "byte", "bytepart", "blip", "panic", "exit"}

func genWrites(r *gen.Rand) []scen.Op {
	var o []scen.Op
	g := newHistGroup(r, r.P(2))
	trees := 1 + r.Intn(3)
	for i := 0; i < trees; i++ {
		o = append(o, g.newParser(r, i), g.parse(r, "parseonly", i, i))
	}
	for n := 2 + r.Intn(10); n > 0; n-- {
		op := scen.Op{K: "write", R: r.Intn(trees), Val: r.Pick("json", "json", "json", "fprintf", "fprintln", "println"), File: r.Pick(writeValues...), How: r.Pick(writeFaults...), N: r.Intn(100)}
		if op.File == "large" && r.P(2) {
			op.File = "data"
		}
		op.At, op.Len = r.Intn(50), 1+r.Intn(12)
		op.I = 1 + r.Intn(40)
		switch {
		case op.File == "large":
			op.At, op.I = r.Intn(90000), 1+r.Intn(20000)
		case r.P(3):
			// Every byte of the output (or many of them)
			op.At, op.I, op.Len = 0, 1, 250
		case r.P(3):
			op.At, op.I = r.Intn(2000), 1+r.Intn(500)
		}
		if op.Val == "println" && op.Len > 12 {
			op.Len = 12
		}
		o = append(o, op)
		if r.P(4) {
			o = append(o, scen.Op{K: "redump", R: r.Intn(trees)})
		}
		if r.P(8) {
			o = append(o, g.parse(r, "parseonly", r.Intn(trees), trees))
		}
	}
	for i := 0; i < trees; i++ {
		o = append(o, scen.Op{K: "redump", R: i})
	}
	return sanitize(o)
}

func writeClass(op *scen.Op, out *scen.Out) string {
	switch {
	case out.C == "violation":
		t := out.T
		if i := strings.Index(t, "VIOLATION "); i >= 0 {
			t = t[i:]
		}
		for _, k := range []string{"nothing was reported", "instead of the error of the writer", "is not a prefix", "though the writer did not fail", "instead of"} {
			if strings.Contains(t, k) {
				return op.Val + ": " + k
			}
		}
		return op.Val
	}
	return op.K + " " + op.Val + " gives " + out.C
}

// evalWrites runs a history of writes
func (c *check) evalWrites(sc *scen.Scenario, full bool) (*violation, *result) {
	s := *sc
	s.Full = full
	res := c.w.run(&s)
	if res.crash != nil {
		return &violation{Class: res.crash.class, Text: res.crash.text}, res
	}
	y := newSymbolic()
	for i, op := range sc.Setup {
		out := &res.rep.Setup[i]
		ref, ok := y.next(op, out.C)
		switch op.K {
		case "write":
			// Whatever ended otherwise is trouble of the tree, not of the writer
			if out.C == "violation" {
				if !full {
					return c.evalWrites(sc, true)
				}
				t := out.T
				if k := strings.Index(t, "VIOLATION "); k >= 0 {
					t = t[k+10:]
				}
				return &violation{Class: writeClass(&op, out), Text: fmt.Sprintf("operation %d: %s\n%s", i+1, opText(op), clip(t, 1500)), Run: i}, res
			}
		case "redump":
			if ok && ref != nil {
				if want := c.reference(ref); want.C != "crash" && want.D != out.D {
					return &violation{Class: "a write changed the tree", Text: fmt.Sprintf("operation %d: %s", i+1, opText(op)), Run: i}, res
				}
			}
		}
	}
	return nil, res
}

func runWrites(c *check) *violation {
	c.cov["rule"] = "a run is a history of writes of values to writers that fail at chosen calls and bytes, and to healthy writers in between; it is non-trivial if at least one fault hit, and distinct by the digest of its operations"
	tries := 0
	v := c.search(c.n(4000, 160000), func(i int) *violation {
		if i%500 == 0 {
			c.refs.forget()
		}
		sc := &scen.Scenario{Mode: "history", Setup: genWrites(gen.Derive(c.seed, "C07", uint64(i))), Budget: opBudget}
		v, res := c.evalWrites(sc, false)
		if res.rep != nil {
			c.mu.Lock()
			c.steps += res.rep.Steps
			hit := false
			for k, op := range sc.Setup {
				if op.K == "write" && res.rep.Setup[k].C != "notree" {
					tries += op.Len + 2
					c.faults["writer fails: "+op.How] += op.Len
					c.faults["value "+op.File]++
					c.faults["helper "+op.Val]++
					hit = true
				}
			}
			if hit {
				c.distinct[digest(sc.Setup)] = true
				if len(c.samples) < 2 && len(sc.Setup) < 9 {
					var s []string
					for _, op := range sc.Setup {
						s = append(s, clip(opText(op), 200))
					}
					c.samples = append(c.samples, s)
				}
			}
			c.mu.Unlock()
		}
		if v != nil {
			v.Rep = &replay{Kind: "writes", Scenario: sc, Before: fmt.Sprintf("%d operations", len(sc.Setup))}
		}
		return v
	})
	c.cov["writes"] = tries
	c.cov["components"] = map[string]string{
		"real code": "json.ToJson, pn.Fprintf, pn.Fprintln, pn.Println, PN conversion, lexer, parser, validator",
		"simulated": "the writers and the system calls on the descriptor of standard output, runtime random numbers",
	}
	if v != nil {
		c.confirmWrites(v)
	}
	return v
}

func (c *check) confirmWrites(v *violation) {
	same := func(o []scen.Op) *violation {
		w, _ := c.evalWrites(&scen.Scenario{Mode: "history", Setup: sanitize(o), Budget: opBudget}, true)
		if w != nil && w.Class == v.Class {
			return w
		}
		return nil
	}
	ok := func(o []scen.Op) bool { return same(o) != nil }
	o := v.Rep.Scenario.Setup
	if !again(func() bool { return ok(o) }) {
		trouble("run %d (%s) does not reproduce: %s", v.Run, v.Class, v.Text)
	}
	o = sanitize(minimizeList(o, 200, ok))
	for i := range o {
		for o[i].K == "write" && o[i].Len > 1 {
			// The first or the last of the faults is enough
			a, b := ops(o), ops(o)
			h := o[i].Len / 2
			a[i].Len = h
			b[i].Sev, b[i].Len = o[i].Sev+h, o[i].Len-h
			if ok(a) {
				o = a
			} else if ok(b) {
				o = b
			} else {
				break
			}
		}
	}
	o = shrinkSources(o, 200, ok)
	var w *violation
	if !again(func() bool { w = same(o); return w != nil }) {
		trouble("minimised run %d does not reproduce", v.Run)
	}
	v.Text, v.Rep.Scenario, v.Rep.Sources = w.Text, &scen.Scenario{Mode: "history", Setup: o, Budget: opBudget}, sources(o)
	v.Text += "\nhistory:"
	for i, op := range o {
		v.Text += fmt.Sprintf("\n  %d. %s", i+1, opText(op))
	}
}

func againWrites(c *check, r *replay) *violation {
	v, _ := c.evalWrites(r.Scenario, true)
	return v
}
