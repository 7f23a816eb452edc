package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
	"verif.local/sim/yield"
)

// Tasks that run under the simulated scheduler (C02, C03). Every interleaving is decided by the
// scheduler. The reference for a task of C02 is the task alone in a process of its own. The reference
// for an operation of C03 is that operation as the sole reader of a fresh tree.

func init() {
	registry["C02"] = regEntry("exploration", []string{"race", "sim"}, runConc, againConc)
	registry["C03"] = registry["C02"]
	assumptions["C02"] = []string{
		"statements are atomic steps of the scheduler; what happens inside of one statement is covered by the data race detector, which knows only the synchronisation that the code under test does itself",
		"the reference process runs the same code, so a wrong answer that a task gives when it is alone is not a violation of this property",
		"package initialisation happens before all tasks, as in every Go program",
	}
	assumptions["C03"] = []string{
		"statements are atomic steps of the scheduler; what happens inside of one statement is covered by the data race detector, which knows only the synchronisation that the code under test does itself",
		"readers use the exported interface of the packages; nothing is claimed about callers that write to slices that accessors return",
	}
}

type concGroup struct {
	c     *check
	setup []scen.Op   // C03: how the shared trees are made
	menu  [][]scen.Op // C02: tasks. C03: operations (one in each)
	final []scen.Op
	info  []*solo
	fin   []*solo
	hot   []uint32 // sites that at least two entries of the menu reach
}

// solo is what an entry of the menu does when it is alone
type solo struct {
	outs  []scen.Out
	steps int64
	cover []byte
	dead  *crash
}

func (c *check) solo(setup, task []scen.Op) *solo {
	return c.refs.get(digest([]interface{}{setup, task}), func() interface{} {
		sc := &scen.Scenario{Mode: "history", Setup: setup, Tasks: [][]scen.Op{task}, Plan: yield.Plan{Strategy: "serial", Budget: opBudget}, Budget: opBudget, Cover: len(c.w.sites)}
		r := c.w.run(sc)
		if r.crash != nil {
			return &solo{dead: r.crash}
		}
		return &solo{outs: r.rep.Tasks[0], steps: r.rep.Outcome.Steps, cover: r.rep.Cover}
	}).(*solo)
}

func (s *solo) usable() bool {
	if s.dead != nil {
		return false
	}
	for _, o := range s.outs {
		if o.C == "limit" {
			return false
		}
	}
	return true
}

// lean chooses a source that is not too long
func lean(r *gen.Rand, f func() gen.Source) gen.Source {
	s := f()
	for k := 0; k < 4 && len(s.Text) > 700; k++ {
		s = f()
	}
	if len(s.Text) > 2000 {
		s.Text = s.Text[:2000]
	}
	return s
}

func anyKind(r *gen.Rand) (string, int) {
	switch r.Intn(4) {
	case 0:
		return "tasks", 0
	case 1:
		if r.P(3) {
			return "custom", 0
		}
		return "workflow", 0
	}
	return "puppet", 1 + r.Intn(4)
}

// genTask makes a task that works on instances of its own
func genTask(g *histGroup, r *gen.Rand) (o []scen.Op) {
	o = append(o, g.newParser(r, 0))
	add := func(op scen.Op) { o = append(o, op) }
	n := 1 + r.Intn(5)
	for k := 0; k < n; k++ {
		kd, st := anyKind(r)
		switch r.Intn(12) {
		case 0:
			add(scen.Op{K: "lex", Src: g.srcs[r.Intn(len(g.srcs))].Text, N: 60})
		case 1:
			add(g.newParser(r, 1))
			add(g.parse(r, "parse", 1, 1))
		case 2, 3:
			add(g.parse(r, "parseonly", 0, 0))
			if !r.P(3) {
				add(scen.Op{K: "newvalidate", R: 0, Val: kd, Strict: st})
			} else {
				add(scen.Op{K: "newval", I: 0, Val: kd, Strict: st})
				add(scen.Op{K: "demote", I: 0, Code: demotable[r.Intn(len(demotable))], Sev: 1 + r.Intn(4)})
				add(scen.Op{K: "validate", I: 0, R: 0})
			}
		case 4:
			add(scen.Op{K: "newpv", I: 2, Val: kd, Strict: st, Opts: g.opts[r.Intn(len(g.opts))]})
			add(g.parse(r, "pvparse", 2, 2))
		case 5:
			add(g.parse(r, "parseonly", 0, 0))
			add(scen.Op{K: "newval", I: 0, Val: kd, Strict: st})
			add(scen.Op{K: "faultvalidate", I: 0, R: 0, At: r.Intn(10), How: r.Pick("panic", "late", "goexit")})
			add(scen.Op{K: "validate", I: 0, R: 0, N: 1})
		case 6, 7:
			add(g.parse(r, "parseonly", 0, 0))
			add(readOp(r, false))
		case 8:
			add(g.parse(r, "parseonly", 0, 0))
			add(writeOp(r))
		default:
			add(g.parse(r, "parse", 0, 0))
		}
	}
	return sanitize(o)
}

func writeOp(r *gen.Rand) scen.Op {
	return scen.Op{K: "write", Val: r.Pick("json", "json", "fprintf", "fprintln"), File: r.Pick("data", "text", "issues", "buffer", "wrapped"),
		How: r.Pick("call", "callpart", "byte", "bytepart", "blip", "panic", "exit"), At: r.Intn(60), Len: r.Intn(3), N: r.Intn(100)}
}

var readKinds = []string{"dump", "tree", "pn", "pns", "data", "pnmisc", "json", "labels", "pos", "pos", "strings", "accessors", "literal", "contents", "methods", "walk", "walk", "abortval", "validate"}

// readOp reads the tree in register 0
func readOp(r *gen.Rand, shared bool) scen.Op {
	op := scen.Op{K: "read", Shared: shared, Val: readKinds[r.Intn(len(readKinds))]}
	if r.P(3) {
		op.N = 1 + r.Intn(12)
	}
	switch op.Val {
	case "walk":
		op.At = r.Intn(12)
		op.How = r.Pick("", "panic", "goexit", "reenter", "revalidate", "repn")
	case "abortval":
		op.File, op.Strict = anyKind(r)
		op.At = r.Intn(12)
		op.How = r.Pick("panic", "late", "goexit")
	case "validate":
		op.File, op.Strict = anyKind(r)
	}
	return op
}

// twins are tasks with the same source, which must not learn from each other: options, name and kind of
// validation are their own
func twins(r *gen.Rand) (menu [][]scen.Op) {
	s := lean(r, func() gen.Source {
		for {
			s := gen.Mixed(r)
			if len(s.Opts) > 0 || r.P(6) {
				return s
			}
		}
	})
	sets := [][]int{nil, s.Opts, s.Opts, {3}, {4}, {3, 4}, {5}, {1 + r.Intn(2)}}
	files := []string{s.File, s.File, s.File, gen.FileName(r, s.File)}
	for k := 0; k < 8; k++ {
		t := []scen.Op{{K: "newparser", Opts: sets[r.Intn(len(sets))]},
			{K: "parseonly", Src: s.Text, File: files[r.Intn(len(files))], Single: r.P(5)}}
		for n := r.Intn(3); n > 0; n-- {
			if kd, st := anyKind(r); r.P(2) {
				t = append(t, scen.Op{K: "newvalidate", Val: kd, Strict: st})
			} else {
				t = append(t, readOp(r, false))
			}
		}
		if len(t) == 2 {
			t[1].K = "parse"
		}
		menu = append(menu, sanitize(t))
	}
	return
}

func (c *check) newConcGroup(n uint64) *concGroup {
	r := gen.Derive(c.seed, c.id+"group", n)
	g := &concGroup{c: c}
	if c.id == "C02" {
		h := &histGroup{files: []string{"", "/src/x.pp"}}
		for k := 2 + r.Intn(3); k > 0; k-- {
			s := lean(r, func() gen.Source {
				if r.P(3) {
					return gen.Issues(r)
				}
				return gen.Mixed(r)
			})
			h.srcs = append(h.srcs, s)
			if r.P(2) {
				h.srcs = append(h.srcs, lean(r, func() gen.Source { return gen.Variant(r, s) }))
			}
		}
		h.opts = [][]int{nil, h.srcs[0].Opts, h.srcs[len(h.srcs)-1].Opts, {1 + r.Intn(5)}}
		for k := 0; k < 7; k++ {
			g.menu = append(g.menu, genTask(h, r))
		}
		if n%3 == 1 {
			g.menu = twins(r)
		}
		// Tasks that do little but fail
		for k := 0; k < 5; k++ {
			var t []scen.Op
			for n := 1 + r.Intn(2); n > 0; n-- {
				s := gen.Broken(r)
				if r.P(5) {
					s = gen.Tiny(r)
				}
				t = append(t, scen.Op{K: "newparser", Opts: s.Opts}, scen.Op{K: "parse", Src: s.Text, File: s.File})
			}
			g.menu = append(g.menu, t)
		}
		g.final = probe
	} else {
		trees := 1
		if r.P(4) {
			trees = 2
		}
		for t := 0; t < trees; t++ {
			var s gen.Source
			for {
				file := gen.FileName(r, "")
				s = lean(r, func() gen.Source {
					switch r.Intn(6) {
					case 0:
						return gen.Issues(r)
					case 1:
						return gen.Workflow(r)
					}
					return gen.Any(r)
				})
				if n%12 == 5 && t == 0 {
					s = gen.Big(r, 2000+r.Intn(8000)).Source
				}
				if file != "" {
					s.File = file
				}
				out := c.reference([]scen.Op{{K: "newparser", Opts: s.Opts}, {K: "parse", Src: s.Text, File: s.File}})
				if out.C == "ok" {
					break
				}
			}
			g.setup = append(g.setup, scen.Op{K: "newparser", I: t, Opts: s.Opts}, scen.Op{K: "parseonly", I: t, R: t, Src: s.Text, File: s.File})
			g.final = append(g.final, scen.Op{K: "redump", R: t})
		}
		for k := 0; k < 11; k++ {
			op := readOp(r, true)
			if r.P(8) {
				op = writeOp(r)
				op.Shared = true
			}
			op.R = r.Intn(trees)
			g.menu = append(g.menu, []scen.Op{op})
		}
	}
	var cnt []int
	for i, m := range g.menu {
		s := c.solo(g.setup, m)
		if s.dead == nil && !s.usable() {
			// Only what comes before the operation that does not end
			for k, o := range s.outs {
				if o.C == "limit" {
					if k > 0 {
						g.menu[i] = m[:k]
						s = c.solo(g.setup, m[:k])
					}
					break
				}
			}
		}
		g.info = append(g.info, s)
		for i, x := range s.cover {
			if cnt == nil {
				cnt = make([]int, len(s.cover))
			}
			cnt[i] += int(x)
		}
	}
	for i, x := range cnt {
		if x > 1 {
			g.hot = append(g.hot, uint32(i))
		}
	}
	return g
}

// probe is what happens in the first goroutine when all tasks of C02 have ended
var probe = func() (o []scen.Op) {
	for k, s := range []gen.Source{
		{File: "/src/p.pp", Text: []byte("class a::b(String[1] $x = 'a\\'b', $y = \"b ${c} \\u0041\") inherits d {\n  notice(@(E/t))\n    text\n    | E\n  file { \"x${y}\": a => 1.5, * => { b => 0x1F } }\n  if $x =~ /ab/ { [1, 2].each |$z| { } } else { $a = $b ? { default => undef } }\n  File <| t == 1 |>\n}\nnode 'n' { $x::y = @(\"F\")\n  ${a} é\n  |- F\n}\ntype A = B[1]\nfunction f() >> A { /* c */ 1 }\n")},
		{File: "/src/p.epp", Opts: []int{5}, Text: []byte("a <%- | $b | -%>\n <%= $b %> <%# c %> <% if $b { %> d\n <% } -%>\n")},
		{File: "/src/p.pp", Opts: []int{4}, Text: []byte("workflow w { parameters => ($a), returns => ($c) } {\n  resource r { type => Foo } each($y) |$x| { a => $a }\n}\n")},
		{File: "/src/p.pp", Text: []byte("class a { class a { } } \n $x = [1, , 2]")},
	} {
		o = append(o, scen.Op{K: "newparser", I: 9, Opts: s.Opts}, scen.Op{K: "parse", I: 9, R: 9, Src: s.Text, File: s.File})
		if k < 3 {
			o = append(o, scen.Op{K: "newvalidate", R: 9, Val: []string{"puppet", "puppet", "workflow"}[k], Strict: 3}, scen.Op{K: "read", R: 9, Val: "json"}, scen.Op{K: "read", R: 9, Val: "literal"})
		}
	}
	return
}()

// plan chooses a scheduling strategy
func (g *concGroup) plan(r *gen.Rand, steps int64) yield.Plan {
	p := yield.Plan{Seed: r.Uint64(), Budget: 20*steps + 200000}
	switch x := r.Intn(12); {
	case x == 0:
		p.Strategy = "serial"
	case x < 5:
		p.Strategy = "random"
		p.Gap = []int64{1, 1, 2, 3, 5, 10, 30, 100, 1000}[r.Intn(9)]
	case x < 9:
		p.Strategy = "pct"
		p.Horizon = steps + 1
		p.Depth = 1 + r.Intn(8)
	default:
		p.Strategy = "hot"
		p.Gap = steps + 1
		if r.P(2) {
			p.Gap = 1 + steps/int64(2+r.Intn(8))
		}
		if len(g.hot) > 0 {
			s := g.hot[r.Intn(len(g.hot))]
			w := uint32(r.Intn(8))
			p.HotLo, p.HotHi = s, s+w
			if s >= w/2 {
				p.HotLo = s - w/2
			}
		}
	}
	return p
}

func (g *concGroup) scenario(r *gen.Rand) *scen.Scenario {
	sc := &scen.Scenario{Mode: "history", Setup: g.setup, Final: g.final, Budget: opBudget}
	n := 2 + r.Intn(4)
	if r.P(10) {
		n = 6 + r.Intn(6)
	}
	var steps int64
	for t := 0; t < n; t++ {
		var task []scen.Op
		k := 1
		if g.c.id == "C03" {
			k = 1 + r.Intn(4)
		} else if r.P(4) {
			k = 2
		}
		for ; k > 0; k-- {
			m := r.Intn(len(g.menu))
			if !g.info[m].usable() {
				continue
			}
			if g.c.id == "C02" && len(task) > 0 {
				continue
			}
			task = append(task, g.menu[m]...)
			steps += g.info[m].steps
		}
		if len(task) > 0 {
			sc.Tasks = append(sc.Tasks, task)
		}
	}
	sc.Plan = g.plan(r, steps)
	return sc
}

// evalConc runs a schedule in a fresh process and judges it
func (c *check) evalConc(sc *scen.Scenario, w *worker) (*violation, *result) {
	// References first: a task that fails alone is not a matter of concurrency
	refs := make([][]*solo, len(sc.Tasks))
	for i, t := range sc.Tasks {
		if c.id == "C02" {
			refs[i] = []*solo{c.solo(nil, once(t))}
		} else {
			for k := range t {
				refs[i] = append(refs[i], c.solo(sc.Setup, once(t[k:k+1])))
			}
		}
		for _, s := range refs[i] {
			if !s.usable() {
				return nil, nil
			}
		}
	}
	res := w.run(sc)
	if len(res.races) > 0 {
		r := res.races[0]
		if r.funcs[0] == "" && r.funcs[1] == "" {
			trouble("data race outside of the code under test:\n%s", r.text)
		}
		f := []string{r.funcs[0], r.funcs[1]}
		sort.Strings(f)
		return &violation{Class: fmt.Sprintf("data race between %s and %s", f[0], f[1]), Text: r.text}, res
	}
	if res.crash != nil {
		return &violation{Class: res.crash.class, Text: res.crash.text}, res
	}
	if res.rep.Outcome.Deadlock {
		return &violation{Class: "deadlock", Text: "tasks wait for each other forever"}, res
	}
	for i, t := range sc.Tasks {
		for k := range t {
			got := res.rep.Tasks[i][k]
			var want scen.Out
			if c.id == "C02" {
				want = refs[i][0].outs[k]
			} else {
				want = refs[i][k].outs[0]
			}
			if got.D == want.D {
				continue
			}
			if got.C == "limit" {
				return &violation{Class: "no progress", Text: fmt.Sprintf("task %d does not end: %s", i+1, opText(t[k]))}, res
			}
			class := fmt.Sprintf("result of %s differs", opName(t[k]))
			if got.C != want.C {
				class = fmt.Sprintf("%s gives %s instead of %s", opName(t[k]), got.C, want.C)
			}
			return &violation{Class: class, Text: fmt.Sprintf("task %d, operation %d: %s", i+1, k+1, opText(t[k])), Run: i*1000 + k}, res
		}
	}
	if c.id == "C02" {
		y := newSymbolic()
		for k, op := range sc.Final {
			got := res.rep.Final[k]
			if ref, ok := y.next(op, got.C); ok && ref != nil {
				if want := c.reference(ref); want.D != got.D {
					return &violation{Class: fmt.Sprintf("result of %s after all tasks differs", opName(op)), Text: fmt.Sprintf("when all tasks have ended, in the first goroutine: %s", opText(op)), Run: -1 - k}, res
				}
			}
		}
		return nil, res
	}
	for k, op := range sc.Final {
		if want := c.reference(c.finalRef(sc, op)); want.D != res.rep.Final[k].D {
			return &violation{Class: "tree changed", Text: fmt.Sprintf("tree %d is not what it was", op.R+1), Run: -1 - k}, res
		}
	}
	return nil, res
}

// finalRef is how a fresh tree is made
func (c *check) finalRef(sc *scen.Scenario, op scen.Op) []scen.Op {
	var o []scen.Op
	for _, s := range sc.Setup {
		if s.K == "newparser" && s.I == op.R {
			o = append(o, norm(s))
		}
		if s.K == "parseonly" && s.R == op.R {
			s = norm(s)
			s.K = "parse"
			o = append(o, s)
		}
	}
	return o
}

func opName(op scen.Op) string {
	if op.K == "read" || op.K == "write" {
		return op.K + " " + op.Val
	}
	return op.K
}

const perConcGroup = 64

func runConc(c *check) *violation {
	groups := c.n(100, 6000)
	c.cov["rule"] = "a run is a set of tasks under one schedule in a process of its own; it is non-trivial if the scheduler moved between tasks while at least two were unfinished, and distinct by the digest of its tasks and of the sequence of (site, task) at which it moved"
	var found *violation
	switches := 0
	strategies := map[string]int{}
	several := make([]bool, len(c.w.sites))
	judge := func(sc *scen.Scenario, w *worker) *violation {
		v, res := c.evalConc(sc, w)
		if res != nil && res.rep != nil && res.rep.Outcome != nil {
			oc := res.rep.Outcome
			shared := c.reachedBySeveral(sc)
			c.mu.Lock()
			for _, x := range shared {
				several[x] = several[x] || w.race
			}
			c.steps += oc.Steps
			switches += len(oc.Trace)
			strategies[sc.Plan.Strategy]++
			if w.race {
				strategies["under race detector"]++
			}
			if len(oc.Trace) > len(sc.Tasks) {
				c.distinct[fmt.Sprintf("%s %x", digest(sc.Tasks), oc.Digest)] = true
			}
			for ti, t := range sc.Tasks {
				for oi, op := range t {
					c.faults["operation "+opName(op)] += op.Rep + 1
					if op.How == "panic" || op.How == "late" || op.How == "goexit" || op.How == "exit" {
						c.faults["task interrupted by "+op.How] += op.Rep + 1
					}
					if res.rep.Tasks[ti][oi].C == "error" {
						c.faults["source error in a task"]++
					}
					if op.K == "write" && op.Len > 0 {
						c.faults["failing writer"] += op.Len
					}
				}
			}
			c.faults["task switch"] += len(oc.Trace)
			if len(c.samples) < 2 && len(oc.Trace) > len(sc.Tasks) && len(sc.Tasks) == 2 {
				var s []string
				for ti, t := range sc.Tasks {
					for _, op := range t {
						s = append(s, fmt.Sprintf("task %d: %s", ti+1, clip(opText(op), 120)))
					}
				}
				s = append(s, fmt.Sprintf("strategy %s, %d steps, %d switches", sc.Plan.Strategy, oc.Steps, len(oc.Trace)))
				c.samples = append(c.samples, s)
			}
			c.mu.Unlock()
		}
		if v != nil {
			v.Rep = &replay{Kind: "schedule", Scenario: sc, Race: w.race}
		}
		return v
	}
	if c.id == "C02" {
		found = c.sweepConc(judge)
	} else {
		found = c.sweepReaders(judge)
	}
	for g0 := 0; g0 < groups && found == nil; g0 += 16 {
		n := groups - g0
		if n > 16 {
			n = 16
		}
		c.refs.forget()
		gs := make([]*concGroup, n)
		runs := c.runs
		c.search(n, func(i int) *violation {
			gs[i] = c.newConcGroup(uint64(g0 + i))
			return nil
		})
		c.runs = runs
		for _, g := range gs {
			if g == nil {
				return nil // out of time
			}
		}
		found = c.search(n*perConcGroup, func(i int) *violation {
			gi, k := i%n, i/n
			r := gen.Derive(c.seed, c.id+"run", uint64((g0+gi)*perConcGroup+k))
			sc := gs[gi].scenario(r)
			if len(sc.Tasks) < 2 {
				return nil
			}
			w := c.w
			if k%2 == 0 {
				w = c.race
			}
			return judge(sc, w)
		})
	}
	n := 0
	for i, x := range several {
		if x {
			n++
		} else if s := c.w.sites[i]; os.Getenv("VERIF_SITES") != "" {
			fmt.Println("not reached by several tasks:", s.File, s.Line, s.Func)
		}
	}
	c.cov["statements_that_several_tasks_of_a_run_reach_under_the_race_detector"] = fmt.Sprintf("%d of %d", n, len(several))
	c.cov["strategies"] = strategies
	c.cov["task_switches"] = switches
	c.cov["scheduling_points_in_code"] = len(c.w.sites)
	c.cov["reference_processes"] = c.refs.n
	c.cov["components"] = map[string]string{
		"real code": "lexer, parser, factory, AST, PN, JSON, literals, validators (instrumented copies with a scheduling point before every statement, see DESIGN.md), issue package and standard library as they are",
		"simulated": "scheduler, mutexes and other primitives of package sync, recycling of pools, interruption of tasks, writers, runtime random numbers",
	}
	if found != nil {
		c.confirmConc(found)
	}
	return found
}

// once is what the operations are when they are not repeated
func once(o []scen.Op) []scen.Op {
	o = ops(o)
	for i := range o {
		o[i].Rep = 0
	}
	return o
}

// reachedBySeveral lists the sites that at least two tasks reach
func (c *check) reachedBySeveral(sc *scen.Scenario) (r []int) {
	cnt := make([]byte, len(c.w.sites))
	for i, t := range sc.Tasks {
		l := []*solo{}
		if c.id == "C02" {
			l = append(l, c.solo(nil, once(t)))
		} else {
			for k := range t {
				l = append(l, c.solo(sc.Setup, once(t[k:k+1])))
			}
		}
		for _, s := range l {
			for x, b := range s.cover {
				if b != 0 {
					if cnt[x] == 0 {
						cnt[x] = byte(i + 1)
					} else if cnt[x] != byte(i+1) {
						cnt[x] = 255
					}
				}
			}
		}
	}
	for x, b := range cnt {
		if b == 255 {
			r = append(r, x)
		}
	}
	return
}

// sweepConc makes sure that no source that is known to fail in a way of its own is left out
func (c *check) sweepConc(judge func(*scen.Scenario, *worker) *violation) *violation {
	const perTask, tasks = 8, 4
	type job struct {
		sc *scen.Scenario
		w  *worker
	}
	var jobs []job
	for n := c.n(2, 20); n > 0; n-- {
		r := gen.Derive(c.seed, c.id+"sweep", uint64(n))
		sc := &scen.Scenario{}
		var task []scen.Op
		l := gen.Sweep(r)
		for i, s := range l {
			task = append(task, scen.Op{K: "newparser", Opts: s.Opts}, scen.Op{K: "parse", Src: s.Text, File: s.File})
			if (i+1)%perTask == 0 || i == len(l)-1 {
				sc.Tasks = append(sc.Tasks, task)
				task = nil
			}
			if len(sc.Tasks) == tasks || i == len(l)-1 {
				for _, w := range []*worker{c.race, c.w} {
					x := &scen.Scenario{Mode: "history", Tasks: sc.Tasks, Final: probe, Budget: opBudget}
					x.Plan = yield.Plan{Seed: r.Uint64(), Strategy: "random", Gap: []int64{3, 10, 30, 100}[r.Intn(4)], Budget: 20000000}
					jobs = append(jobs, job{x, w})
				}
				sc = &scen.Scenario{}
			}
		}
		// Tasks that do the same in another order
		for i := 0; i < len(l); i += perTask {
			x := &scen.Scenario{Mode: "history", Final: probe, Budget: opBudget}
			for t := 0; t < 2; t++ {
				var task []scen.Op
				for k := range perTask {
					s := l[(i+(k+3*t)%perTask)%len(l)]
					kd, st := anyKind(r)
					if r.P(2) {
						kd = "puppet"
					}
					task = append(task, scen.Op{K: "newparser", Opts: s.Opts}, scen.Op{K: "parseonly", Src: s.Text, File: s.File},
						scen.Op{K: "newvalidate", Val: kd, Strict: st}, readOp(r, false), scen.Op{K: "read", Val: r.Pick("data", "pn", "json", "literal", "literal")})
				}
				x.Tasks = append(x.Tasks, sanitize(task))
			}
			x.Plan = yield.Plan{Seed: r.Uint64(), Strategy: "random", Gap: []int64{3, 10, 30, 100}[r.Intn(4)], Budget: 20000000}
			jobs = append(jobs, job{x, []*worker{c.race, c.race, c.w}[r.Intn(3)]})
		}
		// Large sources
		for k := 0; k < 4; k++ {
			x := &scen.Scenario{Mode: "history", Final: probe, Budget: opBudget}
			for t := 2 + r.Intn(2); t > 0; t-- {
				s := gen.Big(r, 2000+r.Intn(8000))
				kd, st := anyKind(r)
				x.Tasks = append(x.Tasks, []scen.Op{{K: "newparser", Opts: s.Opts}, {K: "parse", Src: s.Text, File: s.File}, {K: "newvalidate", R: 0, Val: kd, Strict: st}})
			}
			x.Plan = yield.Plan{Seed: r.Uint64(), Strategy: "random", Gap: []int64{30, 100, 1000}[r.Intn(3)], Budget: 200000000}
			jobs = append(jobs, job{x, []*worker{c.race, c.w}[k&1]})
		}
	}
	return c.search(len(jobs), func(i int) *violation { return judge(jobs[i].sc, jobs[i].w) })
}

// sweepReaders reads the trees of all known sources that have one
func (c *check) sweepReaders(judge func(*scen.Scenario, *worker) *violation) *violation {
	const trees = 6
	var l []gen.Source
	for n := c.n(1, 12); n > 0; n-- {
		l = append(l, gen.Sweep(gen.Derive(c.seed, c.id+"sweep", uint64(n)))...)
	}
	worn := c.n(24, 400)
	return c.search(len(l)/trees+worn, func(i int) *violation {
		r := gen.Derive(c.seed, c.id+"sweeprun", uint64(i))
		if i < worn {
			return judge(c.wornTree(r), c.w)
		}
		i -= worn
		x := &scen.Scenario{Mode: "history", Budget: opBudget}
		var ops []scen.Op
		for _, s := range l[i*trees : i*trees+trees] {
			o := []scen.Op{{K: "newparser", I: len(ops), Opts: s.Opts}, {K: "parse", I: len(ops), R: len(x.Final), Src: s.Text, File: s.File}}
			if c.reference(o).C != "ok" {
				continue
			}
			t := len(x.Final)
			o[0].I, o[1].I, o[1].K = t, t, "parseonly"
			x.Setup = append(x.Setup, o...)
			x.Final = append(x.Final, scen.Op{K: "redump", R: t})
			a, b := readOp(r, true), readOp(r, true)
			v := scen.Op{K: "read", Shared: true, Val: "validate"}
			if v.File, v.Strict = anyKind(r); r.P(2) {
				v.File = "puppet"
			}
			for _, op := range []scen.Op{v, a, b, {K: "read", Shared: true, Val: r.Pick("data", "pn", "literal", "walk", "accessors")}} {
				op.R = t
				ops = append(ops, op)
			}
		}
		if len(ops) == 0 {
			return nil
		}
		for t := 0; t < 2; t++ {
			var task []scen.Op
			for k := range ops {
				task = append(task, ops[(k+t*len(ops)/3)%len(ops)])
			}
			x.Tasks = append(x.Tasks, task)
		}
		x.Plan = yield.Plan{Seed: r.Uint64(), Strategy: "random", Gap: []int64{3, 10, 30, 100}[r.Intn(4)], Budget: 20000000}
		return judge(x, []*worker{c.race, c.race, c.w}[r.Intn(3)])
	})
}

// wornTree is a small tree that two tasks read very often, whereby most calls are aborted
func (c *check) wornTree(r *gen.Rand) *scen.Scenario {
	s := gen.Source{File: "/src/x.pp", Text: []byte(r.Pick("$a = [1, [2, [3]]]", "if $x { f($y) }", "class a($b) { $c }", "file { 'a': b => c }", "type A = B[1]",
		"\"a${b}c\"", "$a ? { 1 => 2 }", "workflow w { resource r { type => Foo } { a => $b } }"))}
	if bytes.HasPrefix(s.Text, []byte("workflow")) {
		s.Opts = []int{4}
	}
	x := &scen.Scenario{Mode: "history", Setup: []scen.Op{{K: "newparser", Opts: s.Opts}, {K: "parseonly", Src: s.Text, File: s.File}}, Final: []scen.Op{{K: "redump"}}, Budget: opBudget}
	calls := 130000
	for t := 0; t < 2; t++ {
		op := readOp(r, true)
		if !r.P(4) {
			op = scen.Op{K: "read", Shared: true, Val: "walk", At: r.Intn(4), How: "panic"}
			if r.P(3) {
				op.Val, op.File = "abortval", "puppet"
				op.Strict = 1 + r.Intn(4)
			}
		}
		op.Rep = calls / 2
		switch op.Val {
		case "walk", "abortval", "strings", "pos":
		default:
			op.Rep = calls / 40
		}
		if op.How == "goexit" {
			op.Rep = calls / 20
		}
		x.Tasks = append(x.Tasks, []scen.Op{op, {K: "read", Shared: true, Val: "walk"}, {K: "read", Shared: true, Val: "validate", File: "puppet", Strict: 3}, readOp(r, true)})
	}
	x.Plan = yield.Plan{Seed: r.Uint64(), Strategy: "random", Gap: []int64{100, 1000}[r.Intn(2)], Budget: 1000000000}
	return x
}

func (c *check) worker(r *replay) *worker {
	if r.Race {
		return c.race
	}
	return c.w
}

// sameRace tells if classes are the same kind of violation. Which of two racing accesses is reported
// may change when a scenario is minimised.
func sameClass(a, b string) bool {
	const dr = "data race"
	return a == b || strings.HasPrefix(a, dr) && strings.HasPrefix(b, dr)
}

func copyScen(sc *scen.Scenario) *scen.Scenario {
	s := *sc
	return &s
}

func (c *check) confirmConc(v *violation) {
	w := c.worker(v.Rep)
	run := v.Run
	sc := v.Rep.Scenario
	eval := func(sc *scen.Scenario) *violation {
		x, _ := c.evalConc(sc, w)
		if x != nil && sameClass(x.Class, v.Class) {
			return x
		}
		return nil
	}
	if !again(func() bool { return eval(sc) != nil }) {
		trouble("run %d (%s) does not reproduce: %s", run, v.Class, v.Text)
	}
	total := 0
	for _, t := range sc.Tasks {
		total += len(t)
	}
	before := fmt.Sprintf("%d tasks, %d operations", len(sc.Tasks), total)
	// Smaller tasks need other schedules: each candidate gets some
	try := func(s *scen.Scenario) *scen.Scenario {
		if len(s.Tasks) == 0 {
			return nil
		}
		if eval(s) != nil {
			return s
		}
		for k := uint64(1); k <= 5; k++ {
			t := copyScen(s)
			t.Plan.Seed = sc.Plan.Seed + k*7919
			if k > 3 {
				t.Plan.Strategy, t.Plan.Gap = "random", int64(k)-3
			}
			if eval(t) != nil {
				return t
			}
		}
		return nil
	}
	cur := sc
	type ref struct{ t, k int }
	build := func(base *scen.Scenario, l []ref) *scen.Scenario {
		s := copyScen(base)
		s.Tasks = nil
		last := -1
		for _, x := range l {
			if x.t != last {
				s.Tasks = append(s.Tasks, nil)
				last = x.t
			}
			n := len(s.Tasks) - 1
			s.Tasks[n] = append(s.Tasks[n], base.Tasks[x.t][x.k])
		}
		if c.id == "C02" {
			var ts [][]scen.Op
			for _, t := range s.Tasks {
				if t = sanitize(t); len(t) > 0 {
					ts = append(ts, t)
				}
			}
			s.Tasks = ts
		}
		return s
	}
	var all []ref
	for t := range sc.Tasks {
		for k := range sc.Tasks[t] {
			all = append(all, ref{t, k})
		}
	}
	base := cur
	minimizeList(all, 120, func(l []ref) bool {
		if s := try(build(base, l)); s != nil {
			cur = s
			return true
		}
		return false
	})
	// Smaller sources
	var flat []scen.Op
	flatten := func(s *scen.Scenario) (o []scen.Op) {
		o = append(o, s.Setup...)
		for _, t := range s.Tasks {
			o = append(o, t...)
		}
		return
	}
	unflatten := func(s *scen.Scenario, o []scen.Op) *scen.Scenario {
		n := copyScen(s)
		n.Setup = append([]scen.Op(nil), o[:len(s.Setup)]...)
		o = o[len(s.Setup):]
		n.Tasks = nil
		for _, t := range s.Tasks {
			n.Tasks = append(n.Tasks, append([]scen.Op(nil), o[:len(t)]...))
			o = o[len(t):]
		}
		return n
	}
	flat = flatten(cur)
	shape := cur
	flat = lessWear(flat, func(o []scen.Op) bool {
		if s := try(unflatten(shape, o)); s != nil {
			cur = s
			return true
		}
		return false
	})
	shrinkSources(flat, 150, func(o []scen.Op) bool {
		if s := try(unflatten(shape, o)); s != nil {
			cur = s
			return true
		}
		return false
	})
	// Explicit schedule
	var x *violation
	var res *result
	if !again(func() bool { x, res = c.evalConc(cur, w); return x != nil && sameClass(x.Class, v.Class) }) {
		trouble("minimised run %d does not reproduce", run)
	}
	if res.rep != nil && res.rep.Outcome != nil {
		e := copyScen(cur)
		e.Plan = yield.Plan{Strategy: "explicit", Switches: res.rep.Outcome.Trace, Budget: cur.Plan.Budget}
		if y, r2 := c.evalConc(e, w); y != nil && sameClass(y.Class, v.Class) {
			if r2.rep != nil && r2.rep.Outcome != nil && r2.rep.Outcome.Digest != res.rep.Outcome.Digest {
				trouble("the explicit schedule of run %d is another one", run)
			}
			n := len(e.Plan.Switches)
			sw := minimizeList(e.Plan.Switches, 200, func(l []yield.Switch) bool {
				t := copyScen(e)
				t.Plan.Switches = l
				return eval(t) != nil
			})
			e.Plan.Switches = sw
			cur = e
			before += fmt.Sprintf(", %d task switches in the schedule", n)
		}
	}
	if !again(func() bool { x, _ = c.evalConc(cur, w); return x != nil }) {
		trouble("minimised schedule of run %d does not reproduce", run)
	}
	c.describeConc(x, cur, w)
	v.Class, v.Text = x.Class, x.Text
	v.Rep.Scenario, v.Rep.Before, v.Rep.Sources = cur, before, sources(flatten(cur))
}

func (c *check) describeConc(v *violation, sc *scen.Scenario, w *worker) {
	s := copyScen(sc)
	s.Full = true
	res := w.run(s)
	if res.rep != nil && v.Run >= 0 && (strings.Contains(v.Class, "differs") || strings.Contains(v.Class, "instead of")) {
		i, k := v.Run/1000, v.Run%1000
		t := sc.Tasks[i]
		at := k
		if c.id == "C03" {
			t = t[k : k+1]
			at = 0
		}
		ref := &scen.Scenario{Mode: "history", Setup: s.Setup, Tasks: [][]scen.Op{once(t)}, Plan: yield.Plan{Strategy: "serial", Budget: opBudget}, Budget: opBudget, Full: true}
		if r := c.w.run(ref); r.rep != nil {
			v.Text += "\n" + diff(res.rep.Tasks[i][k].T, r.rep.Tasks[0][at].T)
		}
	}
	if v.Class == "tree changed" && res.rep != nil {
		k := -1 - v.Run
		v.Text += "\n" + diff(res.rep.Final[k].T, c.referenceText(c.finalRef(sc, sc.Final[k])))
	}
	if c.id == "C02" && v.Run < 0 && res.rep != nil {
		y := newSymbolic()
		for k, op := range sc.Final {
			if ref, ok := y.next(op, res.rep.Final[k].C); ok && ref != nil && k == -1-v.Run {
				v.Text += "\n" + diff(res.rep.Final[k].T, c.referenceText(ref))
			}
		}
	}
	for _, op := range sc.Setup {
		v.Text += "\nbefore: " + opText(op)
	}
	for i, t := range sc.Tasks {
		for _, op := range t {
			v.Text += fmt.Sprintf("\ntask %d: %s", i, opText(op))
		}
	}
	v.Text += fmt.Sprintf("\nschedule: %s", sc.Plan.Strategy)
	if sc.Plan.Strategy == "explicit" {
		for i, x := range sc.Plan.Switches {
			if i == 40 {
				v.Text += " ..."
				break
			}
			v.Text += fmt.Sprintf(" %d:->%d", x.Step, x.To)
		}
	}
}

func againConc(c *check, r *replay) *violation {
	w := c.worker(r)
	v, _ := c.evalConc(r.Scenario, w)
	if v != nil {
		c.describeConc(v, r.Scenario, w)
	}
	return v
}
