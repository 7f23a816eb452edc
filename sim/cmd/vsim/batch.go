package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
	"verif.local/sim/yield"
)

// Sources as a damaged disk returns them (C05) and as an interrupted write leaves them (C09). Small runs
// that are independent of each other share a process. One that fails is repeated in a process of its
// own.

func init() {
	registry["C05"] = regEntry("exploration", []string{"sim"}, runDamage, againItem)
	registry["C09"] = regEntry("fault_enumeration", []string{"sim"}, runCuts, againItem)
	assumptions["C05"] = []string{
		"a run has a budget of 20000+2000n+2n² steps (statements of the code under test) for a source of n bytes, and ten or twenty times that for consumers of the tree",
		"damaged sources have at most 6000 bytes, those of a stuck disk 17000",
		"the rendering of issues is checked through the message of the issue package",
	}
	assumptions["C09"] = []string{
		"the generator knows which construct is open at each offset of the programs that it writes; these use the part of the grammar that it knows",
		"lengths of nodes are not compared, since the length of an expression includes white space that follows it",
	}
}

var numRe = regexp.MustCompile(`[0-9]+`)
var quoteRe = regexp.MustCompile("(?s)'[^']*'|\"[^\"]*\"")

func failureClass(f *scen.Failure) string {
	t := f.Text
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	t = numRe.ReplaceAllString(quoteRe.ReplaceAllString(t, "'..'"), "N")
	return clip(f.Kind+": "+t, 200)
}

// itemRun runs one source in a process of its own
func (c *check) itemRun(mode string, it *scen.Item) *violation {
	r := c.w.run(&scen.Scenario{Mode: mode, Batch: &scen.Batch{Items: []scen.Item{*it}}})
	if r.crash != nil {
		return &violation{Class: r.crash.class, Text: r.crash.text}
	}
	if len(r.rep.Failures) > 0 {
		f := &r.rep.Failures[0]
		return &violation{Class: failureClass(f), Text: f.Text}
	}
	if r.rep.Counts["outcome too deep for JSON"] > 0 {
		return &violation{Class: tooDeepJSON, Text: "ToJson panics: exceeded max depth"}
	}
	return nil
}

const tooDeepJSON = "a tree whose data is nested deeper than encoding/json permits"

// merge adds the report of a batch to what is covered
func (c *check) merge(rep *scen.Report) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.steps += rep.Steps
	for _, p := range rep.Profiles {
		c.distinct[fmt.Sprintf("%x", p)] = true
	}
	oc, _ := c.cov["outcomes"].(map[string]int)
	if oc == nil {
		oc = map[string]int{}
		c.cov["outcomes"] = oc
	}
	for k, n := range rep.Counts {
		switch {
		case strings.HasPrefix(k, "fault "):
			c.faults[k[6:]] += n
		case k == "runs":
		default:
			oc[strings.TrimPrefix(k, "outcome ")] += n
		}
	}
	for i, x := range rep.Cover {
		if x != 0 && i < len(c.sites) {
			c.sites[i] = true
		}
	}
	for _, s := range rep.Samples {
		if len(c.samples) < 3 && !strings.HasPrefix(s, "unusable") {
			c.samples = append(c.samples, clip(s, 500))
		}
	}
}

// batch runs one batch. A batch that dies is divided until the source that kills the process is found
func (c *check) batch(mode string, b *scen.Batch) (*scen.Report, *violation) {
	r := c.w.run(&scen.Scenario{Mode: mode, Batch: b, Cover: len(c.w.sites)})
	if r.crash == nil {
		c.merge(r.rep)
		if len(r.rep.Failures) > 0 {
			f := r.rep.Failures[0]
			it := f.Item
			return r.rep, &violation{Class: failureClass(&f), Text: f.Text, Rep: &replay{Kind: mode, Item: &it, Faults: f.Log, Batch: &scen.Batch{Seed: b.Seed, From: b.From, Count: int(f.N-b.From) + 1, Max: b.Max, Gap: b.Gap, Pool: b.Pool}}}
		}
		return r.rep, nil
	}
	lo, hi := b.From, b.From+uint64(b.Count) // the first source that kills the process is in [lo, hi)
	for hi-lo > 1 {
		m := (lo + hi) / 2
		x := *b
		x.From, x.Count = lo, int(m-lo)
		if c.w.run(&scen.Scenario{Mode: mode, Batch: &x}).crash != nil {
			hi = m
		} else {
			lo = m
		}
	}
	x := *b
	x.From, x.Count, x.Guide, x.Known = lo, 1, false, nil
	if y := c.w.run(&scen.Scenario{Mode: mode, Batch: &x}); y.crash != nil {
		v := &violation{Class: y.crash.class, Text: y.crash.text, Rep: &replay{Kind: mode, Batch: &x}}
		if it := c.itemOf(mode, &x); it != nil {
			v.Rep.Item = it
		}
		return nil, v
	}
	return nil, &violation{Class: r.crash.class, Text: r.crash.text, Rep: &replay{Kind: mode, Batch: b}}
}

// itemOf asks which source is the only run of a batch
func (c *check) itemOf(mode string, b *scen.Batch) *scen.Item {
	x := *b
	r := c.w.run(&scen.Scenario{Mode: mode + "-items", Batch: &x})
	if r.crash == nil && len(r.rep.Fresh) == 1 {
		return &r.rep.Fresh[0]
	}
	return nil
}

func runDamage(c *check) *violation {
	c.cov["rule"] = "a run is one source that the simulated disk damaged and everything that is done with it; it is non-trivial if it takes a path through the code under test (the set of statements executed) that no other run takes, and that is what distinct counts"
	c.sites = make([]bool, len(c.w.sites))
	evals := 0
	// Every cut, lost byte, and changed byte of the sources of the tests
	nc := len(gen.Known())
	const per = 12
	v := c.search((nc+per-1)/per, func(i int) *violation {
		_, v := c.batch("sweep", &scen.Batch{Seed: c.seed, From: uint64(i * per), Count: per, Keep: 1})
		return v
	})
	for _, k := range c.faults {
		evals += k
	}
	// Rounds of seeded search. What a round found out is known to the next one
	const shards = 16
	rounds, size := c.n(10, 260), 400
	known := make([]byte, yield.EdgeCount)
	var pool []scen.Item
	for _, s := range gen.Known() {
		pool = append(pool, scen.Item{Src: s.Text, Opts: s.Opts, File: s.File})
	}
	fresh := 0
	for round := 0; round < rounds && v == nil; round++ {
		reps := make([]*scen.Report, shards)
		p := pool
		if len(p) > 900 {
			p = p[len(p)-900:]
		}
		v = c.search(shards, func(i int) *violation {
			b := &scen.Batch{Seed: c.seed, From: uint64((round*shards + i) * size), Count: size, Max: 1 + (round+i)%4, Keep: 1, Known: known, Guide: true}
			if round > 0 {
				b.Pool = p
			}
			rep, v := c.batch("damage", b)
			reps[i] = rep
			return v
		})
		for _, rep := range reps {
			if rep == nil {
				continue
			}
			evals += rep.Counts["runs"]
			for i, e := range rep.Edges {
				if e != 0 && known[i] == 0 {
					known[i] = 1
					fresh++
				}
			}
			pool = append(pool, rep.Fresh...)
		}
	}
	// A stuck disk returns the same block very often
	if v == nil {
		type job struct {
			n     gen.Nest
			opts  []int
			depth int
			torn  bool
		}
		var jobs []job
		for _, d := range []int{300, 1200} {
			for _, t := range []bool{false, true} {
				for _, x := range gen.Nests {
					jobs = append(jobs, job{x, nil, d, t})
				}
				for _, x := range gen.EppNests {
					jobs = append(jobs, job{x, []int{5}, d, t})
				}
				for _, x := range gen.WorkflowNests {
					jobs = append(jobs, job{x, []int{4}, d, t})
				}
			}
		}
		v = c.search(len(jobs)+c.n(400, 20000), func(i int) *violation {
			it := scen.Item{File: "/src/stuck.pp"}
			if i < len(jobs) {
				j := jobs[i]
				it.Opts, it.Src = j.opts, j.n.Source(j.depth, j.torn)
			} else {
				s := gen.Stuck(gen.Derive(c.seed, "stuck", uint64(i)))
				it.Src, it.Opts, it.File = s.Text, s.Opts, s.File
			}
			_, v := c.batch("deep", &scen.Batch{Items: []scen.Item{it}, Keep: 1})
			if v != nil && v.Rep.Item == nil {
				v.Rep.Item = &it
			}
			return v
		})
		evals += len(jobs)
		// Two constructs that contain each other, not that often
		var all []scen.Item
		for k, l := range [][]gen.Nest{gen.Nests, gen.EppNests, gen.WorkflowNests} {
			for _, a := range l {
				for _, b := range append(gen.Nests[:len(gen.Nests):len(gen.Nests)], l...) {
					x := gen.Nest{Pre: a.Pre, Open: a.Open + b.Open, Mid: b.Mid, Close: b.Close + a.Close, Post: a.Post}
					for _, t := range []bool{false, true} {
						it := scen.Item{File: "/src/stuck.pp", Src: x.Source(24, t)}
						if k > 0 {
							it.Opts = []int{6 - k}
						}
						all = append(all, it)
					}
				}
			}
		}
		// More of them
		for i := c.n(4000, 100000); i > 0; i-- {
			r := gen.Derive(c.seed, "nests", uint64(i))
			l := gen.Nests
			it := scen.Item{File: "/src/stuck.pp"}
			switch r.Intn(5) {
			case 0:
				l, it.Opts = append(l[:len(l):len(l)], gen.EppNests...), []int{5}
			case 1:
				l, it.Opts = append(l[:len(l):len(l)], gen.WorkflowNests...), []int{4}
			}
			x := l[r.Intn(len(l))]
			for k := 1 + r.Intn(4); k > 0; k-- {
				y := l[r.Intn(len(l))]
				x.Open, x.Mid, x.Close = x.Open+y.Open, y.Mid, y.Close+x.Close
				if r.P(4) {
					x.Open += y.Pre
				}
			}
			it.Src = x.Source(4+r.Intn(20), r.P(2))
			if r.P(3) {
				it.Src, _ = gen.Damage(r, it.Src, func() []byte { return nil }, 1)
			}
			all = append(all, it)
		}
		// Large files
		for i := c.n(160, 5000); i > 0; i-- {
			r := gen.Derive(c.seed, "big", uint64(i))
			s := gen.Big(r, 5000+r.Intn(30000)).Source
			it := scen.Item{File: s.File, Opts: s.Opts, Src: s.Text}
			it.Src, _ = gen.Damage(r, s.Text, func() []byte { return gen.Big(r, 4000).Text }, r.Intn(3))
			all = append(all, it)
		}
		if v == nil {
			const per = 100
			v = c.search((len(all)+per-1)/per, func(i int) *violation {
				l := all[i*per:]
				if len(l) > per {
					l = l[:per]
				}
				_, v := c.batch("deep", &scen.Batch{Items: l, Keep: 1})
				return v
			})
			evals += len(all)
		}
		if v == nil {
			v = c.tooDeep()
		}
	}
	n := 0
	for i, x := range c.sites {
		if x {
			n++
		} else if s := c.w.sites[i]; os.Getenv("VERIF_SITES") != "" {
			fmt.Println("not reached:", s.File, s.Line, s.Func)
		}
	}
	c.cov["evaluations"] = evals
	c.cov["statements_reached"] = fmt.Sprintf("%d of %d", n, len(c.sites))
	c.cov["pairs_of_statements_reached"] = fresh
	c.cov["corpus"] = len(pool)
	c.cov["components"] = map[string]string{
		"real code": "lexer, parser, factory, AST, PN, JSON, literals, labels, locator, validators, issue package",
		"simulated": "the disk that holds the sources, runtime random numbers, step budgets",
	}
	if v != nil {
		c.confirmItem(v)
	}
	return v
}

// tooDeep looks at what happens when the nesting exceeds what a process or a library can hold
func (c *check) tooDeep() *violation {
	oc := c.cov["outcomes"].(map[string]int)
	list := &scen.Item{File: "/src/stuck.pp", Src: gen.Nest{Pre: "$x = ", Open: "[", Mid: "1", Close: "]"}.Source(12000, false)}
	paren := &scen.Item{File: "/src/stuck.pp", Src: gen.Nest{Pre: "$x = ", Open: "("}.Source(600000, true)}
	known := c.knownFindings()
	for _, x := range []struct {
		it    *scen.Item
		class string
	}{
		{list, tooDeepJSON},
		{paren, "a source that is nested deeper than the stack of a goroutine permits"},
	} {
		var text string
		r := c.w.run(&scen.Scenario{Mode: "deep", Batch: &scen.Batch{Items: []scen.Item{*x.it}}})
		switch {
		case r.crash != nil && r.crash.class != "crash: stack overflow" || r.crash != nil && x.it == list:
			return &violation{Class: r.crash.class, Text: r.crash.text, Rep: &replay{Kind: "deep", Item: x.it}}
		case r.crash != nil:
			text = r.crash.class
		case len(r.rep.Failures) > 0:
			f := &r.rep.Failures[0]
			return &violation{Class: failureClass(f), Text: f.Text, Rep: &replay{Kind: "deep", Item: x.it}}
		case r.rep.Counts["outcome too deep for JSON"] > 0:
			text = "ToJson panics"
			oc["too deep for JSON"]++
		default:
			continue
		}
		if known[x.class] == "" {
			return &violation{Class: x.class, Text: x.class + ": " + text, Rep: &replay{Kind: "deep", Item: x.it}}
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, known[x.class])
	}
	return nil
}

func runCuts(c *check) *violation {
	c.cov["rule"] = "a run is one source that ends at one offset (or has a tail of NUL from there); all offsets of each program are tried; it is non-trivial if the program is accepted when it is complete, and distinct counts the sets of statements executed for the cuts of a program"
	c.sites = make([]bool, len(c.w.sites))
	const size = 32
	v := c.search(c.n(190, 9000), func(i int) *violation {
		_, v := c.batch("cuts", &scen.Batch{Seed: c.seed, From: uint64(i * size), Count: size, Keep: 1})
		return v
	})
	oc := c.cov["outcomes"].(map[string]int)
	c.cov["evaluations"] = oc["cuts"] + oc["zero tails"]
	c.cov["programs"] = oc["programs"]
	c.faults["file ends early"] = oc["cuts"]
	c.faults["tail of NUL"] = oc["zero tails"]
	c.cov["components"] = map[string]string{
		"real code": "lexer, parser, factory, AST",
		"simulated": "the disk that holds the sources",
	}
	if oc["programs"] > 50 && oc["programs not usable"]*4 > oc["programs"] && v == nil {
		// Not a matter of this property, but nothing is known either
		c.cov["warning"] = "many programs are rejected when they are complete"
	}
	if v != nil {
		c.confirmItem(v)
	}
	return v
}

func (c *check) confirmItem(v *violation) {
	mode := v.Rep.Kind
	if mode == "sweep" {
		mode = "damage"
	}
	if v.Rep.Item != nil {
		if w := c.itemRun(mode, v.Rep.Item); w != nil {
			kind := func(s string) string { return strings.SplitN(s, ":", 2)[0] }
			same := func(it *scen.Item) bool {
				x := c.itemRun(mode, it)
				return x != nil && (x.Class == w.Class || kind(x.Class) == kind(w.Class) && kind(w.Class) != "panic" && kind(w.Class) != "crash")
			}
			it := *v.Rep.Item
			n := len(it.Src)
			if mode == "damage" {
				t := it
				if len(it.Opts) > 0 {
					if t.Opts = nil; same(&t) {
						it = t
					}
				}
				t = it
				b := minimizeList(it.Src, 600, func(b []byte) bool { t.Src = ops2(b); return same(&t) })
				it.Src = ops2(b)
			} else {
				it = c.dropStatements(it, same)
			}
			if x := c.itemRun(mode, &it); x != nil {
				v.Class, v.Text = x.Class, x.Text
			} else {
				trouble("a minimised source does not reproduce")
			}
			v.Rep.Kind, v.Rep.Item, v.Rep.Batch = mode, &it, nil
			v.Rep.Before = fmt.Sprintf("%d bytes", n)
			v.Rep.Sources = []string{string(it.Src)}
			v.Text += "\n" + itemText(&it)
			return
		}
	}
	// It takes what came before it in the same process
	if !again(func() bool { return c.batchAgain(v.Rep) != nil }) {
		trouble("batch does not reproduce: %s", v.Text)
	}
	v.Rep.Item = nil
	b := v.Rep.Batch
	for b.Count > 1 {
		x := *b
		x.From, x.Count = b.From+uint64(b.Count+1)/2, b.Count/2
		r := *v.Rep
		r.Batch = &x
		if c.batchAgain(&r) == nil {
			break
		}
		b = &x
	}
	v.Rep.Batch = b
	v.Text += fmt.Sprintf("\nin run %d, after the runs from %d in the same process", b.From+uint64(b.Count)-1, b.From)
}

func itemText(it *scen.Item) string {
	s := fmt.Sprintf("source (%d bytes, options %v): %q", len(it.Src), it.Opts, clip(string(it.Src), 1500))
	if it.Base != nil {
		s += fmt.Sprintf("\ncomplete source: %q\nstatements that are complete: %d", clip(string(it.Base), 3000), it.Stmts)
	}
	return s
}

// dropStatements removes statements that are complete in a source that is cut
func (c *check) dropStatements(it scen.Item, same func(*scen.Item) bool) scen.Item {
	for i := 0; i+1 < len(it.Spans); {
		a, b := it.Spans[i], it.Spans[i+1]
		if b > len(it.Src) {
			break
		}
		t := it
		cutOut := func(s []byte) []byte {
			return append(append([]byte{}, s[:a]...), s[b:]...)
		}
		t.Src, t.Stmts, t.Spans = cutOut(it.Src), it.Stmts-1, nil
		if it.Base != nil {
			t.Base = cutOut(it.Base)
		}
		t.Spans = append(t.Spans, it.Spans[:i]...)
		for _, x := range it.Spans[i+1:] {
			t.Spans = append(t.Spans, x-(b-a))
		}
		if same(&t) {
			it = t
		} else {
			i++
		}
	}
	return it
}

func (c *check) batchAgain(r *replay) *violation {
	b := *r.Batch
	b.Keep = 0
	res := c.w.run(&scen.Scenario{Mode: r.Kind, Batch: &b})
	if res.crash != nil {
		return &violation{Class: res.crash.class, Text: res.crash.text}
	}
	for i := range res.rep.Failures {
		if f := &res.rep.Failures[i]; f.N == b.From+uint64(b.Count)-1 {
			return &violation{Class: failureClass(f), Text: f.Text + "\n" + itemText(&f.Item)}
		}
	}
	return nil
}

func againItem(c *check, r *replay) *violation {
	if r.Item == nil {
		return c.batchAgain(r)
	}
	v := c.itemRun(r.Kind, r.Item)
	if v != nil {
		v.Text += "\n" + itemText(r.Item)
	}
	return v
}

var _ = sort.Strings
