package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
)

// Histories of operations on instances that are used again and again (C01, C04). The reference for
// each operation is the same operation in a process of its own on an instance that is fresh.

func init() {
	registry["C01"] = regEntry("exploration", []string{"sim"}, runHist, againHist)
	registry["C04"] = registry["C01"]
	assumptions["C01"] = []string{
		"the reference process runs the same code on a fresh parser, so a wrong answer that a fresh parser gives too is not a violation of this property",
		"trees are compared by everything that the exported interface shows: nodes, accessors, paths, positions, text, PN and data",
	}
	assumptions["C04"] = []string{
		"the reference process runs the same code on a fresh parser and a fresh validator with the same strictness and demotions",
		"nothing is claimed about the issues of the validation that is aborted itself",
	}
}

func regEntry(level string, kinds []string, run func(*check) *violation, again func(*check, *replay) *violation) struct {
	level string
	kinds []string
	run   func(*check) *violation
	again func(*check, *replay) *violation
} {
	return struct {
		level string
		kinds []string
		run   func(*check) *violation
		again func(*check, *replay) *violation
	}{level, kinds, run, again}
}

const opBudget = 40000000

// symbolic state of the instances and registers of a history
type symbolic struct {
	parser map[int]scen.Op
	val    map[int][]scen.Op // creation and demotions
	pv     map[int][]scen.Op
	ast    map[int][]scen.Op // how to get the tree with instance 0 in register 0
	pvres  map[int][]scen.Op
	iss    map[int][]scen.Op
}

func newSymbolic() *symbolic {
	return &symbolic{map[int]scen.Op{}, map[int][]scen.Op{}, map[int][]scen.Op{}, map[int][]scen.Op{}, map[int][]scen.Op{}, map[int][]scen.Op{}}
}

func ops(a []scen.Op, b ...scen.Op) []scen.Op {
	return append(append(make([]scen.Op, 0, len(a)+len(b)), a...), b...)
}

// norm returns the operation as it is in a reference run
func norm(op scen.Op) scen.Op {
	op.I, op.R, op.Rep = 0, 0, 0
	switch op.K {
	case "validate", "newvalidate", "reissues":
		op.N = 0
	}
	return op
}

// next returns the reference for the operation, if it has one, and if the operation makes sense at all.
// class is the outcome of the operation. What did not end normally leaves the registers as they were
func (y *symbolic) next(op scen.Op, class string) (ref []scen.Op, valid bool) {
	done := class == "ok" || class == "error"
	switch op.K {
	case "newparser", "pspec":
		y.parser[op.I] = norm(op)
		delete(y.pv, op.I)
		return nil, true
	case "parse", "parseonly":
		p, ok := y.parser[op.I]
		if !ok {
			return nil, false
		}
		n := norm(op)
		n.K = "parse"
		t := []scen.Op{p, n}
		if done {
			y.ast[op.R] = t
			delete(y.pvres, op.R)
		}
		if op.K == "parse" {
			return t, true
		}
		return nil, true
	case "redump":
		return y.ast[op.R], y.ast[op.R] != nil && y.pvres[op.R] == nil
	case "newval":
		y.val[op.I] = []scen.Op{norm(op)}
		delete(y.pv, op.I)
		return nil, true
	case "demote":
		if y.val[op.I] == nil {
			return nil, false
		}
		y.val[op.I] = ops(y.val[op.I], norm(op))
		if y.pv[op.I] != nil {
			y.pv[op.I] = ops(y.pv[op.I], norm(op))
		}
		return nil, true
	case "validate":
		if y.val[op.I] == nil || y.ast[op.R] == nil {
			return nil, false
		}
		t := ops(y.ast[op.R])
		t[len(t)-1].K = "parseonly"
		t = ops(ops(t, y.val[op.I]...), norm(op))
		if done {
			y.iss[op.N] = t
		}
		return t, true
	case "newvalidate":
		if y.ast[op.R] == nil {
			return nil, false
		}
		t := ops(y.ast[op.R])
		t[len(t)-1].K = "parseonly"
		t = ops(t, norm(op))
		if done {
			y.iss[op.N] = t
		}
		return t, true
	case "faultvalidate":
		return nil, y.val[op.I] != nil && y.ast[op.R] != nil
	case "reissues":
		return y.iss[op.N], y.iss[op.N] != nil
	case "newpv":
		n := norm(op)
		n.How = ""
		n.At = 0
		y.pv[op.I] = []scen.Op{n}
		y.parser[op.I] = scen.Op{K: "newparser", Opts: op.Opts}
		y.val[op.I] = []scen.Op{{K: "newval", Val: op.Val, Strict: op.Strict}}
		return nil, true
	case "pvparse":
		if y.pv[op.I] == nil {
			return nil, false
		}
		if class == "aborted" {
			return nil, true
		}
		if !done {
			return ops(y.pv[op.I], norm(op)), true
		}
		y.pvres[op.R] = ops(y.pv[op.I], norm(op))
		p := scen.Op{K: "parse", File: op.File, Src: op.Src}
		y.ast[op.R] = []scen.Op{{K: "newparser", Opts: y.pv[op.I][0].Opts}, p}
		return y.pvres[op.R], true
	case "pvredump":
		return y.pvres[op.R], y.pvres[op.R] != nil
	case "lex":
		return []scen.Op{norm(op)}, true
	case "read", "write":
		if y.ast[op.R] == nil {
			return nil, false
		}
		t := ops(y.ast[op.R])
		t[len(t)-1].K = "parseonly"
		return ops(t, norm(op)), true
	}
	trouble("unknown operation %s", op.K)
	return nil, false
}

// A tree that the parser validator rejected is not there, but a parser returns it
func (y *symbolic) treeKnown(r int) bool { return y.ast[r] != nil && y.pvres[r] == nil }

// reference runs the operations in a fresh process and returns the outcome of the last one
func (c *check) reference(o []scen.Op) scen.Out {
	return c.refs.get(digest(o), func() interface{} {
		r := c.w.run(&scen.Scenario{Mode: "history", Setup: o, Budget: opBudget})
		if r.crash != nil {
			return scen.Out{D: r.crash.class, C: "crash", T: r.crash.text}
		}
		return r.rep.Setup[len(o)-1]
	}).(scen.Out)
}

func (c *check) referenceText(o []scen.Op) string {
	r := c.w.run(&scen.Scenario{Mode: "history", Setup: o, Budget: opBudget, Full: true})
	if r.crash != nil {
		return r.crash.text
	}
	return r.rep.Setup[len(o)-1].T
}

// evalHist runs a history in a fresh process and compares it with references
func (c *check) evalHist(sc *scen.Scenario) (*violation, *result) {
	res := c.w.run(sc)
	if res.crash != nil {
		// Somebody else's problem if a reference dies too
		y := newSymbolic()
		for i := range sc.Setup {
			ref, ok := y.next(sc.Setup[i], "ok")
			if ok && ref != nil && c.reference(ref).C == "crash" {
				return nil, res
			}
		}
		return &violation{Class: res.crash.class, Text: "the process of the history dies: " + res.crash.text}, res
	}
	y := newSymbolic()
	for i := range sc.Setup {
		op := sc.Setup[i]
		out := res.rep.Setup[i]
		ref, ok := y.next(op, out.C)
		if !ok {
			continue
		}
		if ref == nil {
			continue
		}
		want := c.reference(ref)
		if want.C == "crash" || want.C == "limit" {
			continue
		}
		if want.D != out.D {
			class := "result of " + op.K + " differs"
			switch {
			case op.K == "redump" || op.K == "reissues" || op.K == "pvredump":
				class = "earlier result changed (" + op.K + ")"
			case out.C != want.C:
				class = fmt.Sprintf("%s gives %s instead of %s", op.K, out.C, want.C)
			}
			return &violation{Class: class, Text: fmt.Sprintf("operation %d: %s", i+1, opText(op)), Run: i}, res
		}
	}
	return nil, res
}

func opText(op scen.Op) string {
	s := op.K
	if op.K != "demote" && op.K != "newval" || true {
		s += fmt.Sprintf(" instance=%d register=%d", op.I, op.R)
	}
	if op.Src != nil {
		s += fmt.Sprintf(" file=%q source=%q", op.File, clip(string(op.Src), 400))
	}
	if op.K == "write" {
		s += fmt.Sprintf(" value=%s faults=%d from=%d stride=%d", op.File, op.Len, op.Sev, op.I)
	}
	if op.Single {
		s += " single"
	}
	if op.Opts != nil {
		s += fmt.Sprintf(" options=%v", op.Opts)
	}
	if op.Val != "" {
		s += fmt.Sprintf(" kind=%s strict=%d", op.Val, op.Strict)
	}
	if op.Code != "" {
		s += fmt.Sprintf(" code=%s severity=%d", op.Code, op.Sev)
	}
	if op.How != "" {
		s += fmt.Sprintf(" fault=%s at=%d", op.How, op.At)
	}
	if op.N != 0 {
		s += fmt.Sprintf(" n=%d", op.N)
	}
	if op.Rep != 0 {
		s += fmt.Sprintf(" (%d times before this)", op.Rep)
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a := i - 60
	if a < 0 {
		a = 0
	}
	f := func(s string) string {
		if a > len(s) {
			return ""
		}
		return clip(s[a:], 200)
	}
	return fmt.Sprintf("  got:  ...%q\n  want: ...%q", f(got), f(want))
}

// describe adds the difference to the text of a violation
func (c *check) describeHist(v *violation, sc *scen.Scenario) {
	s := *sc
	s.Full = true
	res := c.w.run(&s)
	if res.crash != nil || v.Run >= len(sc.Setup) {
		return
	}
	y := newSymbolic()
	for i := range sc.Setup {
		ref, ok := y.next(sc.Setup[i], res.rep.Setup[i].C)
		if i == v.Run && ok && ref != nil {
			v.Text += "\n" + diff(res.rep.Setup[i].T, c.referenceText(ref))
			break
		}
	}
	v.Text += "\nhistory:"
	for i, op := range sc.Setup {
		v.Text += fmt.Sprintf("\n  %d. %s", i+1, opText(op))
	}
}

// sanitize drops operations that make no sense since what they need is gone
func sanitize(o []scen.Op) []scen.Op {
	y := newSymbolic()
	var r []scen.Op
	for _, op := range o {
		if _, ok := y.next(op, "ok"); ok {
			r = append(r, op)
		}
	}
	return r
}

type histGroup struct {
	srcs  []gen.Source
	files []string
	opts  [][]int
}

func newHistGroup(r *gen.Rand, issues bool) *histGroup {
	g := &histGroup{}
	theme := r.Intn(8)
	if r.P(12) {
		// More than buffers and tables of usual sizes hold
		p := gen.Big(r, 2000+r.Intn(12000))
		g.srcs = append(g.srcs, p.Source)
		if r.P(2) {
			g.srcs = append(g.srcs, gen.Variant(r, p.Source))
		}
	}
	for n := 3 + r.Intn(4); n > 0; n-- {
		var s gen.Source
		if theme < 2 {
			s = gen.Tiny(r)
		} else if theme == 2 && r.P(2) {
			s = gen.Broken(r)
		} else if issues && r.P(2) {
			s = gen.Issues(r)
		} else {
			s = gen.Mixed(r)
		}
		g.srcs = append(g.srcs, s)
		for r.P(2) {
			g.srcs = append(g.srcs, gen.Variant(r, s))
		}
	}
	g.files = []string{"", "/src/x.pp", "/src/y.epp"}
	g.opts = [][]int{nil, g.srcs[0].Opts, g.srcs[len(g.srcs)-1].Opts}
	for n := 1 + r.Intn(2); n > 0; n-- {
		var o []int
		for k := 1; k <= 5; k++ {
			if r.P(3) {
				o = append(o, k)
			}
		}
		g.opts = append(g.opts, o)
	}
	return g
}

func (g *histGroup) parse(r *gen.Rand, k string, i, reg int) scen.Op {
	s := g.srcs[r.Intn(len(g.srcs))]
	f := gen.FileName(r, s.File)
	if r.P(4) {
		f = g.files[r.Intn(len(g.files))]
	}
	return scen.Op{K: k, I: i, R: reg, Src: s.Text, File: f, Single: k != "pvparse" && r.P(6)}
}

func (g *histGroup) newParser(r *gen.Rand, i int) scen.Op {
	if r.P(10) {
		return scen.Op{K: "pspec", I: i}
	}
	return scen.Op{K: "newparser", I: i, Opts: g.opts[r.Intn(len(g.opts))]}
}

const regs = 48

func (c *check) genParserHistory(g *histGroup, r *gen.Rand) []scen.Op {
	var o []scen.Op
	inst := 1 + r.Intn(4)
	if r.P(3) {
		inst = 1
	}
	for i := 0; i < inst; i++ {
		o = append(o, g.newParser(r, i))
	}
	n := 2 + r.Intn(16)
	if r.P(25) {
		n = 100 + r.Intn(300)
	}
	reg := 0
	used := 0
	for k := 0; k < n; k++ {
		switch x := r.Intn(16); {
		case x == 0:
			o = append(o, g.newParser(r, r.Intn(inst)))
		case x < 4 && used > 0:
			o = append(o, scen.Op{K: "redump", R: r.Intn(used)})
		case x < 9:
			o = append(o, g.parse(r, "parseonly", r.Intn(inst), reg))
			reg++
		default:
			o = append(o, g.parse(r, "parse", r.Intn(inst), reg))
			reg++
		}
		if reg > used {
			used = reg
		}
		reg %= regs
	}
	for i := 0; i < used; i++ {
		o = append(o, scen.Op{K: "redump", R: i})
	}
	return o
}

var demotable = []string{"VALIDATE_DUPLICATE_KEY", "VALIDATE_FUTURE_RESERVED_WORD", "VALIDATE_IDEM_EXPRESSION_NOT_LAST", "VALIDATE_NOT_TOP_LEVEL"}

func (c *check) genValidatorHistory(g *histGroup, r *gen.Rand) []scen.Op {
	var o []scen.Op
	kind := func() (string, int) {
		switch r.Intn(5) {
		case 0:
			return "tasks", 0
		case 1:
			return "workflow", 0
		case 2:
			if r.P(2) {
				return "custom", 0
			}
		}
		return "puppet", 1 + r.Intn(4)
	}
	severities := []int{1, 2, 3, 4}
	// Trees
	trees := 1 + r.Intn(4)
	for i := 0; i < trees; i++ {
		o = append(o, g.newParser(r, 8+i%2))
		p := g.parse(r, "parseonly", 8+i%2, i)
		o = append(o, p)
	}
	inst := 1 + r.Intn(4)
	pv := make([]bool, inst)
	create := func(i int) {
		k, s := kind()
		if pv[i] = r.P(2); pv[i] {
			op := scen.Op{K: "newpv", I: i, Val: k, Strict: s, Opts: g.opts[r.Intn(len(g.opts))]}
			if r.P(3) {
				op.How, op.At = "fault", r.Intn(12)
				if r.P(4) {
					op.At = r.Intn(80)
				}
			}
			o = append(o, op)
		} else {
			o = append(o, scen.Op{K: "newval", I: i, Val: k, Strict: s})
		}
	}
	for i := range pv {
		create(i)
	}
	iss, usedIss, res, usedRes := 0, 0, trees, trees
	n := 3 + r.Intn(16)
	if r.P(25) {
		n = 80 + r.Intn(200)
	}
	for k := 0; k < n; k++ {
		i := r.Intn(inst)
		switch x := r.Intn(20); {
		case x == 0:
			create(i)
		case x == 1:
			o = append(o, scen.Op{K: "demote", I: i, Code: demotable[r.Intn(len(demotable))], Sev: severities[r.Intn(4)]})
		case x == 2 && usedIss > 0:
			o = append(o, scen.Op{K: "reissues", N: r.Intn(usedIss)})
		case x == 3 && usedRes > trees:
			o = append(o, scen.Op{K: "pvredump", R: trees + r.Intn(usedRes-trees)})
		case x == 4:
			kd, s := kind()
			o = append(o, scen.Op{K: "newvalidate", R: r.Intn(trees), N: iss, Val: kd, Strict: s})
			iss++
		case x == 5 || x == 6:
			at := r.Intn(12)
			if r.P(4) {
				at = r.Intn(100)
			}
			o = append(o, scen.Op{K: "faultvalidate", I: i, R: r.Intn(trees), At: at, How: r.Pick("panic", "late", "goexit")})
		case x == 7:
			t := r.Intn(trees)
			o = append(o, g.parse(r, "parseonly", 8, t))
		case pv[i]:
			o = append(o, g.parse(r, "pvparse", i, res))
			res++
		default:
			o = append(o, scen.Op{K: "validate", I: i, R: r.Intn(trees), N: iss})
			iss++
		}
		if iss > usedIss {
			usedIss = iss
		}
		iss %= regs
		if res > usedRes {
			usedRes = res
		}
		if res >= 60 {
			res = trees
		}
	}
	for i := 0; i < usedIss; i++ {
		o = append(o, scen.Op{K: "reissues", N: i})
	}
	for i := trees; i < usedRes; i++ {
		o = append(o, scen.Op{K: "pvredump", R: i})
	}
	return o
}

// wear lets one of the operations happen very often
func wear(o []scen.Op, r *gen.Rand) {
	size := map[int]int{}
	var cand []int
	var lens []int
	for i, op := range o {
		if op.Src != nil {
			size[op.R] = len(op.Src)
		}
		n := size[op.R]
		switch op.K {
		case "newparser", "newval":
			n = 0
		case "parse", "parseonly", "pvparse", "validate", "newvalidate", "faultvalidate":
		default:
			continue
		}
		if n < 400 {
			cand, lens = append(cand, i), append(lens, n)
		}
	}
	if len(cand) == 0 {
		return
	}
	k := r.Intn(len(cand))
	for n := 0; n < 6 && o[cand[k]].K != "faultvalidate"; n++ {
		// What is aborted leaves most
		k = r.Intn(len(cand))
	}
	o[cand[k]].Rep = wearReps(r, lens[k])
}

// wearReps is how often a source with n bytes is processed. Counters of 8 and 16 bits overflow, and usual
// bounds are exceeded
func wearReps(r *gen.Rand, n int) int {
	l := []int{70, 300, 1100, 4200, 17000, 66000}
	k := r.Intn(len(l))
	for k > 0 && l[k]*(n+30) > 2000000 {
		k--
	}
	return l[k]
}

// lessWear finds smaller numbers of repetitions
func lessWear(o []scen.Op, ok func([]scen.Op) bool) []scen.Op {
	for i := range o {
		with := func(n int) []scen.Op {
			p := ops(o)
			p[i].Rep = n
			return p
		}
		if o[i].Rep == 0 {
			continue
		}
		if ok(with(0)) {
			o = with(0)
			continue
		}
		lo, hi := 0, o[i].Rep
		for k := 0; k < 20 && hi-lo > 1 && time.Now().Before(minimizeUntil); k++ {
			if m := (lo + hi) / 2; ok(with(m)) {
				hi = m
			} else {
				lo = m
			}
		}
		o = with(hi)
	}
	return o
}

const perGroup = 40

func runHist(c *check) *violation {
	groups := c.n(250, 12000)
	if c.id == "C04" {
		groups = c.n(200, 9000)
	}
	c.cov["rule"] = "a run is a history of operations on long lived instances in a process of its own, made from a group of related sources (versions of a file, cut and damaged files); it is non-trivial if at least one operation follows a call that failed or was aborted, or follows a call with another source on the same instance, and distinct by the digest of its operations"
	judge := func(o []scen.Op) *violation {
		o = sanitize(o)
		sc := &scen.Scenario{Mode: "history", Setup: o, Budget: opBudget}
		v, res := c.evalHist(sc)
		c.account(sc, res)
		if v != nil {
			v.Rep = &replay{Kind: "history", Scenario: sc, Before: fmt.Sprintf("%d operations", len(o))}
		}
		return v
	}
	all := c.sweepHist(judge)
	for g0 := 0; g0 < groups && all == nil; g0 += 16 {
		n := groups - g0
		if n > 16 {
			n = 16
		}
		gs := make([]*histGroup, n)
		for i := range gs {
			gs[i] = newHistGroup(gen.Derive(c.seed, c.id+"group", uint64(g0+i)), c.id == "C04")
		}
		c.refs.forget()
		all = c.search(n*perGroup, func(i int) *violation {
			// Neighbours work on different groups, so that they do not wait for the same references
			gi, k := i%n, i/n
			run := (g0+gi)*perGroup + k
			r := gen.Derive(c.seed, c.id+"run", uint64(run))
			var o []scen.Op
			if c.id == "C01" {
				o = c.genParserHistory(gs[gi], r)
			} else {
				o = c.genValidatorHistory(gs[gi], r)
			}
			if r.P(40) {
				wear(o, r)
			}
			return judge(o)
		})
	}
	c.cov["reference_processes"] = c.refs.n
	if all != nil {
		c.confirmHist(all)
	}
	c.cov["components"] = map[string]string{
		"real code": "lexer, parser, factory, AST, PN, validators, issue package (instrumented copies, see DESIGN.md)",
		"simulated": "callers and their histories, aborts inside validations, sources as a damaged disk returns them, runtime random numbers",
	}
	return all
}

// sweepHist makes sure that no source that is known to fail in a way of its own is left out. Each of them
// comes before sources that use much of the language, on the same parser or parsing validator.
func (c *check) sweepHist(judge func([]scen.Op) *violation) *violation {
	var jobs [][]scen.Op
	for n := c.n(2, 30); n > 0; n-- {
		r := gen.Derive(c.seed, c.id+"sweep", uint64(n))
		byOpts := map[string][]gen.Source{}
		var keys []string
		for _, s := range gen.Sweep(r) {
			k := fmt.Sprint(s.Opts)
			if byOpts[k] == nil {
				keys = append(keys, k)
			}
			byOpts[k] = append(byOpts[k], s)
		}
		for _, k := range keys {
			var after []scen.Op
			l := byOpts[k]
			for _, p := range probe {
				// Sources that make sense for these options first
				if p.K == "parse" && (p.File == "/src/p.epp") == (k == "[5]") {
					after = append(after, p)
				}
			}
			for len(l) > 0 {
				m := 10
				if m > len(l) {
					m = len(l)
				}
				var o []scen.Op
				kind, strict := anyKind(r)
				if c.id == "C01" {
					o = append(o, scen.Op{K: "newparser", Opts: l[0].Opts})
				} else {
					o = append(o, scen.Op{K: "newpv", Opts: l[0].Opts, Val: kind, Strict: strict})
				}
				reg := 0
				parse := func(s gen.Source) {
					k := "pvparse"
					if c.id == "C01" {
						k = r.Pick("parse", "parse", "parse", "parseonly")
					}
					o = append(o, scen.Op{K: k, R: reg, Src: s.Text, File: s.File})
					reg++
				}
				for _, s := range l[:m] {
					parse(s)
					if len(s.Text) < 400 && r.P(4) {
						o[len(o)-1].Rep = wearReps(r, len(s.Text))
					}
					p := after[r.Intn(len(after))]
					parse(gen.Source{Text: p.Src, File: p.File})
				}
				for i := 0; i < reg; i++ {
					if c.id == "C01" {
						o = append(o, scen.Op{K: "redump", R: i})
					} else {
						o = append(o, scen.Op{K: "pvredump", R: i})
					}
				}
				jobs = append(jobs, o)
				l = l[m:]
			}
		}
	}
	if c.id == "C04" {
		for n := c.n(32, 600); n > 0; n-- {
			jobs = append(jobs, wornValidator(gen.Derive(c.seed, c.id+"worn", uint64(n))))
		}
	}
	return c.search(len(jobs), func(i int) *violation { return judge(jobs[i]) })
}

// wornValidator is a history where very many validations are aborted
func wornValidator(r *gen.Rand) []scen.Op {
	kind, strict := anyKind(r)
	if r.P(2) {
		kind, strict = "puppet", 3
	}
	src := r.Pick("$a = [1, [2, [3]]]", "if $x { f($y) }", "class a($b) { $c }", "file { 'a': b => c }", "type A = B[1]", "\"a${b}c\"", "$a ? { 1 => 2 }", "1\n2\n{1 => 2, 1 => 3}")
	rich := "if true {\n  class a { 1\n 2 }\n  $x = { 1 => 2, 1 => 3 }\n  'a' = 1\n}\n"
	o := []scen.Op{{K: "newparser"}, {K: "parseonly", Src: []byte(src), File: "/src/a.pp"}, {K: "parseonly", R: 1, Src: []byte(rich), File: "/src/b.pp"},
		{K: "newval", Val: kind, Strict: strict}, {K: "newpv", I: 1, Val: kind, Strict: strict}, {K: "validate", R: 1}, {K: "validate", R: 0, N: 1}}
	f := scen.Op{K: "faultvalidate", At: r.Intn(4), How: r.Pick("panic", "panic", "late", "goexit"), Rep: []int{300, 4200, 70000}[r.Intn(3)]}
	if r.P(3) {
		f.R = 1
	}
	o = append(o, f)
	if r.P(3) {
		o = append(o, scen.Op{K: "pvparse", I: 1, R: 2, Src: []byte(r.Pick("}", "1\n2", "$x = 1", "a b c(")), File: "/src/c.pp", Rep: 4200})
	}
	return append(o, scen.Op{K: "validate", R: 1, N: 2}, scen.Op{K: "newvalidate", R: 1, N: 3, Val: "puppet", Strict: 3}, scen.Op{K: "pvparse", I: 1, R: 3, Src: []byte(rich), File: "/src/d.pp"},
		scen.Op{K: "validate", N: 4}, scen.Op{K: "reissues"}, scen.Op{K: "reissues", N: 1}, scen.Op{K: "redump", R: 1})
}

// account collects what a run covered
func (c *check) account(sc *scen.Scenario, res *result) {
	if res.rep == nil {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.steps += res.rep.Steps
	failed, nontrivial := 0, false
	per := map[int]int{}
	kinds := map[string]bool{}
	for i, op := range sc.Setup {
		out := res.rep.Setup[i]
		c.faults["operation "+op.K] += op.Rep + 1
		switch out.C {
		case "error":
			c.faults["parse aborted by a source error"]++
		case "aborted":
			c.faults["validation aborted by an injected panic"]++
		}
		if op.K == "faultvalidate" && op.How == "goexit" {
			c.faults["validation aborted by Goexit (if the node exists)"]++
		}
		switch op.K {
		case "parse", "parseonly", "pvparse", "validate":
			if failed > 0 || per[op.I] > 0 {
				nontrivial = true
			}
			per[op.I]++
			kinds[op.K] = true
		}
		if out.C != "ok" || op.K == "faultvalidate" {
			failed++
		}
	}
	if nontrivial {
		c.distinct[digest(sc.Setup)] = true
	}
	if len(c.samples) < 2 && nontrivial && len(sc.Setup) < 12 {
		var s []string
		for _, op := range sc.Setup {
			s = append(s, clip(opText(op), 160))
		}
		c.samples = append(c.samples, s)
	}
}

// confirmHist repeats the run, minimises it and describes it
func (c *check) confirmHist(v *violation) {
	sc := v.Rep.Scenario
	run := v.Run
	same := func(o []scen.Op) *violation {
		s := &scen.Scenario{Mode: "history", Setup: sanitize(o), Budget: opBudget}
		w, _ := c.evalHist(s)
		if w != nil && w.Class == v.Class {
			return w
		}
		return nil
	}
	var w *violation
	if !again(func() bool { w = same(sc.Setup); return w != nil }) {
		trouble("run %d (%s) does not reproduce: %s", run, v.Class, v.Text)
	}
	o := minimizeList(sc.Setup, 250, func(o []scen.Op) bool { return same(o) != nil })
	o = sanitize(o)
	o = lessWear(o, func(o []scen.Op) bool { return same(o) != nil })
	o = shrinkSources(o, 300, func(o []scen.Op) bool { return same(o) != nil })
	sc2 := &scen.Scenario{Mode: "history", Setup: o, Budget: opBudget}
	if !again(func() bool { w = same(o); return w != nil }) {
		trouble("minimised run %d does not reproduce", run)
	}
	c.describeHist(w, sc2)
	v.Text, v.Rep.Scenario, v.Rep.Sources = w.Text, sc2, sources(o)
}

func sources(os ...[]scen.Op) (s []string) {
	m := map[string]bool{}
	for _, o := range os {
		for _, op := range o {
			if op.Src != nil && !m[string(op.Src)] {
				m[string(op.Src)] = true
				s = append(s, string(op.Src))
			}
		}
	}
	sort.Strings(s)
	return
}

func againHist(c *check, r *replay) *violation {
	v, _ := c.evalHist(r.Scenario)
	if v != nil {
		c.describeHist(v, r.Scenario)
	}
	return v
}

// again tries several times. Everything that is simulated happens again at once; what the code under
// test may depend on in addition (addresses, for one) is not simulated.
func again(f func() bool) bool {
	for i := 0; i < 6; i++ {
		if f() {
			return true
		}
	}
	return false
}

// minimizing ends when this time is over
var minimizeUntil time.Time

// minimizeList drops elements as long as ok holds
func minimizeList[T any](l []T, tries int, ok func([]T) bool) []T {
	if minimizeUntil.IsZero() {
		minimizeUntil = time.Now().Add(150 * time.Second)
	}
	for sz := len(l) / 2; sz >= 1 && time.Now().Before(minimizeUntil); {
		any := false
		for i := 0; i+sz <= len(l) && tries > 0 && time.Now().Before(minimizeUntil); {
			t := append(append(make([]T, 0, len(l)), l[:i]...), l[i+sz:]...)
			tries--
			if len(t) > 0 && ok(t) {
				l = t
				any = true
			} else {
				i += sz
			}
		}
		if sz == 1 && !any || tries <= 0 {
			break
		}
		if sz > 1 {
			sz /= 2
		}
	}
	return l
}

// shrinkSources makes the sources in the operations smaller. Equal sources stay equal
func shrinkSources(o []scen.Op, tries int, ok func([]scen.Op) bool) []scen.Op {
	srcs := sources(o)
	sort.Slice(srcs, func(i, j int) bool { return len(srcs[i]) > len(srcs[j]) })
	for _, s := range srcs {
		with := func(t []byte) []scen.Op {
			n := ops(o)
			for i := range n {
				if n[i].Src != nil && string(n[i].Src) == s {
					n[i].Src = t
				}
			}
			return n
		}
		b := minimizeList([]byte(s), tries/len(srcs)+20, func(t []byte) bool { return ok(with(ops2(t))) })
		o = with(ops2(b))
	}
	return o
}

func ops2(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

var _ = strings.Join
