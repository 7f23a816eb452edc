package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
)

// What finished calls leave behind (C22). A run repeats a short history of operations, with other names and
// texts in the sources each time, forgets all results, and takes stock of the heap, the goroutines and the open
// files after phases of growing length. What grows with the number of repetitions is retained.

func init() {
	registry["C22"] = regEntry("exploration", []string{"sim"}, runRetain, againRetain)
	assumptions["C22"] = []string{
		"what is retained is what the garbage collector finds reachable when all results and (unless they are reused) all instances are dropped",
		"a store with a bound is not distinguished from an unbounded one before its bound is reached; growth is followed over more than 100000 calls",
	}
}

var shortPhases = []int{40, 120, 240}
var mediumPhases = []int{40, 120, 240, 1600}
var longPhases = []int{40, 120, 240, 1000, 4000, 12000, 24000, 48000}

// bigPhases are for sources of many kilobytes
var bigPhases = [][]int{{10, 20, 40}, {10, 20, 40, 80}, {10, 20, 40, 80, 160, 320}}

// longSteps are the most steps a long run may take
const longSteps = 3e8

// grows tells what grew in each of the phases. The caches that the runtime keeps at type assertions fill up
// slowly and at random, they take a few objects, and less than 40000 bytes.
func grows(l []scen.Level, big bool) string {
	if len(l) < 2 {
		return ""
	}
	kinds := []struct {
		name string
		f    func(scen.Level) int64
		per  float64
		min  int64
	}{
		{"goroutines", func(l scen.Level) int64 { return int64(l.Goroutines) }, 0.1, 8},
		{"open files", func(l scen.Level) int64 { return int64(l.Files) }, 0.1, 8},
		{"objects", func(l scen.Level) int64 { return l.Objects }, 0.2, 24},
		{"memory", func(l scen.Level) int64 { return l.Bytes }, 40, 10000},
	}
	for _, k := range kinds {
		if big && k.name == "objects" {
			k.per = 20
		}
		if big && k.name == "memory" {
			k.per, k.min = 1000, 40000
		}
		ok := true
		for i := 1; i < len(l); i++ {
			g, n := k.f(l[i])-k.f(l[i-1]), l[i].N-l[i-1].N
			if g < k.min || float64(g) < k.per*float64(n) {
				ok = false
			}
		}
		if ok {
			return k.name
		}
	}
	return ""
}

func levelsText(l []scen.Level) (s string) {
	for _, x := range l {
		s += fmt.Sprintf("\n  after %d repetitions: %d objects, %d bytes, %d goroutines, %d files", x.N, x.Objects, x.Bytes, x.Goroutines, x.Files)
	}
	return
}

// evalRetain repeats a history
func (c *check) evalRetain(sc *scen.Scenario) (*violation, *result) {
	res := c.w.run(sc)
	if res.crash != nil {
		return &violation{Class: res.crash.class, Text: res.crash.text}, res
	}
	l := res.rep.Levels
	if len(l) > 4 {
		l = l[len(l)-4:]
	}
	if k := grows(l, isBig(sc)); k != "" {
		return &violation{Class: k + " grow with the number of calls", Text: levelsText(res.rep.Levels)}, res
	}
	return nil, res
}

// short keeps sources that are short enough to be repeated very often
func short(o []scen.Op, max int) []scen.Op {
	var r []scen.Op
	n := 0
	for _, op := range o {
		if n += len(op.Src); len(op.Src) > 900 || n > max {
			n -= len(op.Src)
			continue
		}
		if op.K == "write" && op.Len > 3 {
			op.Len = 3
		}
		if op.K == "write" && op.File == "large" {
			op.File = "data"
		}
		r = append(r, op)
	}
	return sanitize(r)
}

func (c *check) retainJobs() (jobs []*scen.Scenario) {
	add := func(o []scen.Op, reuse bool) {
		if len(o) > 0 {
			jobs = append(jobs, &scen.Scenario{Mode: "retain", Setup: o, Reuse: reuse, Phases: shortPhases, Budget: opBudget})
		}
	}
	// Every known source, that is: every way to fail, all issues, the sources of the tests
	r := gen.Derive(c.seed, "retain sweep", 0)
	for _, s := range gen.Sweep(r) {
		kd, st := anyKind(r)
		var o []scen.Op
		reuse := r.P(2)
		if r.P(3) {
			o = []scen.Op{{K: "newpv", Opts: s.Opts, Val: kd, Strict: st}, {K: "pvparse", Src: s.Text, File: s.File}}
		} else {
			o = []scen.Op{{K: "newparser", Opts: s.Opts}, {K: "newval", Val: kd, Strict: st}, {K: "parse", Src: s.Text, File: s.File}, {K: "validate"}, readOp(r, false)}
			if r.P(3) {
				o = append(o, scen.Op{K: "lex", Src: s.Text, N: 60})
			}
		}
		add(short(o, 1500), reuse)
	}
	// Sources of many kilobytes
	for i := c.n(24, 1000); i > 0; i-- {
		r := gen.Derive(c.seed, "retain big", uint64(i))
		s := gen.Big(r, 4000+r.Intn(30000)).Source
		if r.P(4) {
			// Something is wrong at the end
			s.Text = append(s.Text, r.Pick("\n}", "\n$x = 'abc", "\n\xff", "\n$x = @(END)\nabc\n", "\n/* abc")...)
		}
		if r.P(4) {
			s.Text = bytes.ReplaceAll(s.Text, []byte("\n"), []byte(" "))
		}
		kd, st := anyKind(r)
		o := []scen.Op{{K: "newparser", Opts: s.Opts}, {K: "newval", Val: kd, Strict: st}, {K: "parse", Src: s.Text, File: s.File}, {K: "validate"}, readOp(r, false)}
		if r.P(3) {
			o = []scen.Op{{K: "newpv", Opts: s.Opts, Val: kd, Strict: st}, {K: "pvparse", Src: s.Text, File: s.File}}
		}
		jobs = append(jobs, &scen.Scenario{Mode: "retain", Setup: sanitize(o), Reuse: r.P(2), Phases: bigPhases[0], Budget: opBudget})
	}
	for i := c.n(700, 40000); i > 0; i-- {
		r := gen.Derive(c.seed, "retain", uint64(i))
		g := newHistGroup(r, r.P(2))
		var o []scen.Op
		switch r.Intn(6) {
		case 0:
			o = c.genParserHistory(g, r)
		case 1:
			o = c.genValidatorHistory(g, r)
		case 2:
			o = genWrites(r)
		default:
			o = genTask(g, r)
		}
		o = short(o, 1500)
		if len(o) > 12 {
			o = o[:12]
		}
		add(sanitize(o), r.P(2))
	}
	return
}

func isBig(sc *scen.Scenario) bool { return sc.Phases[0] < shortPhases[0] }

func runRetain(c *check) *violation {
	c.cov["rule"] = "a run repeats a short history 400 times on instances of its own or on the same instances; it is non-trivial if at least one of its operations ends, and distinct by the digest of its operations"
	jobs := c.retainJobs()
	const most = 6 // this many times growth may turn out to be bounded
	skip := map[int]bool{}
	ended := 0
	var v *violation
	for {
		v = c.search(len(jobs), func(i int) *violation {
			c.mu.Lock()
			s := skip[i]
			c.mu.Unlock()
			if s {
				return nil
			}
			v, res := c.evalRetain(jobs[i])
			c.accountRetain(jobs[i], res)
			if v != nil && res.rep != nil {
				// Only the beginning?
				sc := *jobs[i]
				sc.Phases = mediumPhases
				if isBig(jobs[i]) {
					sc.Phases = bigPhases[1]
				}
				if w, _ := c.evalRetain(&sc); w == nil {
					v = nil
				}
			}
			c.mu.Lock()
			if ended >= most && v != nil && (strings.HasPrefix(v.Class, "objects") || strings.HasPrefix(v.Class, "memory")) {
				// There are stores with a bound, and they hide what else may be there
				v = nil
			}
			skip[i] = v == nil
			c.mu.Unlock()
			if v != nil {
				v.Rep = &replay{Kind: "retain", Scenario: jobs[i]}
			}
			return v
		})
		if v == nil || c.confirmRetain(v) {
			break
		}
		ended++
		c.cov["growth_that_ended"] = ended
		skip[v.Run] = true
		v = nil
	}
	c.cov["components"] = map[string]string{
		"real code": "lexer, parser, factory, AST, PN, JSON, literals, labels, locator, validators, issue package, garbage collector",
		"simulated": "callers, visitors and validators that abort or end their goroutine, writers that fail, step budgets",
	}
	return v
}

func (c *check) accountRetain(sc *scen.Scenario, res *result) {
	if res.rep == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.steps += res.rep.Steps
	n := 0
	for _, l := range res.rep.Levels {
		n = l.N
	}
	k, _ := c.cov["repetitions"].(int)
	c.cov["repetitions"] = k + n
	k, _ = c.cov["evaluations"].(int)
	c.cov["evaluations"] = k + n*len(sc.Setup)
	for i, op := range sc.Setup {
		out := res.rep.Setup[i].C
		switch {
		case op.K == "write":
			c.faults["writer fails: "+op.How] += n
		case op.How == "panic" || op.How == "late" || op.How == "goexit":
			c.faults["abort: "+op.How] += n
		case out != "ok" && out != "notree":
			c.faults["call ends with "+out] += n
		}
	}
	if sc.Reuse {
		k, _ = c.cov["runs_with_reused_instances"].(int)
		c.cov["runs_with_reused_instances"] = k + 1
	}
	c.distinct[digest(sc.Setup)] = true
	if len(c.samples) < 2 && len(sc.Setup) < 6 {
		var s []string
		for _, op := range sc.Setup {
			s = append(s, clip(opText(op), 200))
		}
		c.samples = append(c.samples, strings.Join(s, "; "))
	}
}

// confirmRetain minimises the history and finds out if the growth ever ends
func (c *check) confirmRetain(v *violation) bool {
	steps := int64(0)
	with := func(o []scen.Op, ph []int) *violation {
		sc := *v.Rep.Scenario
		sc.Setup, sc.Phases = sanitize(o), ph
		w, res := c.evalRetain(&sc)
		if res.rep != nil {
			steps = res.rep.Steps
		}
		return w
	}
	ok := func(o []scen.Op) bool {
		w := with(o, v.Rep.Scenario.Phases)
		return w != nil && w.Class == v.Class
	}
	o := v.Rep.Scenario.Setup
	if !again(func() bool { return ok(o) }) {
		return false
	}
	n := len(o)
	o = sanitize(minimizeList(o, 60, ok))
	o = shrinkSources(o, 120, ok)
	// Histories that take many steps are followed for less long
	ok(o)
	phases, left := longPhases, int64(longSteps)
	for i, p := range longPhases {
		if left -= int64(p) * steps / 400; left < 0 {
			phases = longPhases[:max(i, 5)]
			break
		}
	}
	if isBig(v.Rep.Scenario) {
		phases = bigPhases[2]
	}
	w := with(o, phases)
	if w == nil {
		return false
	}
	sc := *v.Rep.Scenario
	sc.Setup, sc.Phases = o, phases
	v.Class, v.Text = w.Class, w.Text+"\nhistory that is repeated with other names"
	if sc.Reuse {
		v.Text += " on the same instances"
	}
	v.Text += ":"
	for i, op := range o {
		v.Text += fmt.Sprintf("\n  %d. %s", i+1, opText(op))
	}
	v.Rep.Scenario, v.Rep.Sources, v.Rep.Before = &sc, sources(o), fmt.Sprintf("%d operations", n)
	return true
}

func againRetain(c *check, r *replay) *violation {
	v, _ := c.evalRetain(r.Scenario)
	return v
}
