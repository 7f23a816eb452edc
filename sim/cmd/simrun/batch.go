package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	ppjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"

	"verif.local/sim/gen"
	"verif.local/sim/obs"
	"verif.local/sim/scen"
	"verif.local/sim/yield"
)

// failed is what ends the simulation of a source with a violation
type failed struct{ kind, text string }

func fail(kind, text string, a ...interface{}) { panic(failed{kind, fmt.Sprintf(text, a...)}) }

// guard runs f within a step budget and turns panics into failures
func guard(what string, budget int64, f func()) (steps int64) {
	yield.StartCount(budget)
	defer func() {
		steps = yield.StopCount()
		if x := recover(); x != nil {
			switch x := x.(type) {
			case failed:
				panic(x)
			case yield.StepLimit:
				panic(failed{"hang", fmt.Sprintf("%s does not end within %d steps", what, budget)})
			default:
				m := ""
				switch y := x.(type) {
				case issue.Reported:
					m = y.Error()
				case error:
					m = y.Error()
				default:
					m = fmt.Sprint(x)
				}
				if len(m) > 300 {
					m = m[:300]
				}
				panic(failed{"panic", fmt.Sprintf("%s panics: %s at %s", what, m, frames())})
			}
		}
		if yield.Exceeded() {
			panic(failed{"hang", fmt.Sprintf("%s does not end within %d steps", what, budget)})
		}
	}()
	f()
	return
}

func budgetFor(n int) int64 { return 20000 + 2000*int64(n) + 2*int64(n)*int64(n) }

func checkNode(x parser.Expression, n int) {
	if x.ByteOffset() < 0 || x.ByteLength() < 0 || x.ByteOffset()+x.ByteLength() > n {
		fail("position", "%s at offset %d with length %d is outside of the source of length %d", x.Label(), x.ByteOffset(), x.ByteLength(), n)
	}
}

// checkLocation checks that a reported location lies inside of the text
func checkLocation(what string, l issue.Location, file string, src []byte) {
	if l == nil {
		return
	}
	lines := bytes.Split(src, []byte("\n"))
	if l.Line() < 1 || l.Line() > len(lines) {
		fail("position", "%s at line %d, but the source has %d lines", what, l.Line(), len(lines))
	}
	// The position counts characters, or bytes in lines that are not valid text
	if ln := lines[l.Line()-1]; l.Pos() < 1 || l.Pos() > utf8.RuneCount(ln)+1 && l.Pos() > len(ln)+1 {
		fail("position", "%s at line %d position %d, but that line has %d characters", what, l.Line(), l.Pos(), utf8.RuneCount(ln))
	}
	if l.File() != file {
		fail("position", "%s is in file %q instead of %q", what, l.File(), file)
	}
}

func checkIssue(r issue.Reported, file string, src []byte) {
	m := r.Error()
	if strings.Contains(m, "PANIC=") && !bytes.Contains(src, []byte("PANIC=")) {
		fail("issue", "issue %s cannot be rendered: %s", r.Code(), m)
	}
	_ = r.String()
	pn.ReportedToPN(r).ToData()
	checkLocation("issue "+string(r.Code()), r.Location(), file, src)
}

// consume parses a source and lets all consumers work on the result. It returns a class
func consume(it *scen.Item, w *obs.W) (class string, steps int64) {
	src := string(it.Src)
	budget := budgetFor(len(src))
	var x parser.Expression
	var err error
	opts := options(it.Opts)
	steps = guard("Parse", budget, func() {
		x, err = parser.CreateParser(opts...).Parse(it.File, src, it.One)
	})
	class = "accepted"
	if err != nil {
		class = "rejected"
		if x != nil {
			fail("both", "Parse returns both a tree and the error %s", err.Error())
		}
		guard("rendering the error", budget, func() {
			w.Error(err)
			if r, ok := err.(issue.Reported); ok {
				class = string(r.Code())
				if r.Location() == nil {
					fail("position", "the error has no location: %s", err.Error())
				}
				checkIssue(r, it.File, it.Src)
			} else {
				class = "invalid text"
				var o interface{ Offset() int }
				if errors.As(err, &o) && (o.Offset() < 0 || o.Offset() > len(src)) {
					fail("position", "error at offset %d of %d: %s", o.Offset(), len(src), err.Error())
				}
			}
		})
	} else {
		if x == nil {
			fail("neither", "Parse returns neither a tree nor an error")
		}
		if !utf8.ValidString(src) {
			fail("invalid", "a source that is not valid UTF-8 is accepted")
		}
		if strings.IndexByte(src, 0) >= 0 {
			fail("invalid", "a source that contains NUL is accepted")
		}
		consumers(it, x, w, budget)
	}
	// The parser validator sees the same source
	for _, kind := range []string{"puppet", "tasks", "workflow"} {
		if it.One || kind == "tasks" && len(it.Opts) > 0 && it.Opts[0] != 3 || kind == "workflow" && len(it.Opts) > 0 && it.Opts[0] != 4 {
			continue
		}
		guard("ParserValidator.Parse ("+kind+")", 10*budget, func() {
			e, res := validator.NewParserValidator(parser.CreateParser(opts...), newValidator(kind, int(validator.StrictWarning))).Parse(it.File, src)
			if e == nil && (res == nil || !res.Error()) {
				fail("neither", "ParserValidator.Parse returns neither a tree nor an error")
			}
			if err != nil && e != nil {
				fail("both", "ParserValidator.Parse accepts a source that Parse rejects")
			}
			if res != nil {
				for _, r := range res.Issues() {
					checkIssue(r, it.File, it.Src)
				}
				w.Issues(res.Issues())
			}
		})
	}
	return
}

func consumers(it *scen.Item, x parser.Expression, w *obs.W, budget int64) {
	n := len(it.Src)
	budget *= 20
	guard("traversal", budget, func() {
		checkNode(x, n)
		x.AllContents(nil, func(_ []parser.Expression, c parser.Expression) {
			checkNode(c, n)
			checkLocation("node", c, it.File, it.Src)
		})
	})
	guard("definitions", budget, func() {
		p, ok := x.(*parser.Program)
		if !ok {
			return
		}
		nodes := map[parser.Expression]int{}
		x.AllContents(nil, func(_ []parser.Expression, c parser.Expression) {
			if _, ok := c.(interface{ ToDefinition() parser.Definition }); ok {
				nodes[c] = 1
			}
		})
		for _, d := range p.Definitions() {
			switch nodes[d] {
			case 0:
				fail("definitions", "the definition %q is not in the tree", d.String())
			case 2:
				fail("definitions", "the definition %q is listed twice", d.String())
			}
			nodes[d] = 2
		}
		for d, k := range nodes {
			if k == 1 && d.Label() != "Step" {
				fail("definitions", "the definition %q (%s) is not listed", d.String(), d.Label())
			}
		}
	})
	guard("dumping the tree", budget, func() { w.Dump(x) })
	guard("ToPN of nodes", budget, func() {
		x.AllContents(nil, func(_ []parser.Expression, c parser.Expression) { c.ToPN() })
	})
	guard("ToJson", budget, func() {
		b := &bytes.Buffer{}
		ppjson.ToJson(x.ToPN().ToData(), b)
		if b.Len() == 0 {
			fail("json", "no JSON output")
		}
		w.B = append(w.B, b.Bytes()...)
	})
	guard("labels", budget, func() {
		x.AllContents(nil, func(_ []parser.Expression, c parser.Expression) {
			w.S(issue.AnOrA(c)).S(issue.Label(c)).S(c.Label())
		})
	})
	guard("literal extraction", budget, func() {
		v, ok := literal.ToLiteral(x)
		w.Value(ok)
		w.Value(v)
		x.AllContents(nil, func(_ []parser.Expression, c parser.Expression) {
			v, ok := literal.ToLiteral(c)
			w.Value(ok)
			w.Value(v)
		})
	})
	for _, st := range []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError} {
		guard("ValidatePuppet", budget, func() {
			is := validator.ValidatePuppet(x, st).Issues()
			for _, r := range is {
				checkIssue(r, it.File, it.Src)
			}
			w.Issues(is)
		})
	}
	guard("ValidateTasks", budget, func() {
		is := validator.ValidateTasks(x).Issues()
		for _, r := range is {
			checkIssue(r, it.File, it.Src)
		}
		w.Issues(is)
	})
	guard("ValidateWorkflow", budget, func() {
		is := validator.ValidateWorkflow(x).Issues()
		for _, r := range is {
			checkIssue(r, it.File, it.Src)
		}
		w.Issues(is)
	})
}

func attempt(f func()) (fl *failed) {
	defer func() {
		if x := recover(); x != nil {
			if y, ok := x.(failed); ok {
				fl = &y
				return
			}
			panic(x)
		}
	}()
	f()
	return nil
}

// damaged makes run n of a batch
func damaged(b *scen.Batch, n uint64) (it scen.Item, faults []string) {
	r := gen.Derive(b.Seed, "damage", n)
	s := gen.Any(r)
	if len(b.Pool) > 0 && !r.P(3) {
		x := b.Pool[r.Intn(len(b.Pool))]
		s = gen.Source{Text: x.Src, Opts: x.Opts, File: x.File}
	}
	it.File, it.Opts = gen.FileName(r, s.File), s.Opts
	var fs []string
	it.Src, fs = gen.Damage(r, s.Text, func() []byte {
		if len(b.Pool) > 0 && r.P(2) {
			return b.Pool[r.Intn(len(b.Pool))].Src
		}
		return gen.Any(r).Text
	}, b.Max)
	if len(it.Src) > 6000 {
		it.Src = it.Src[:6000]
	}
	if r.P(4) {
		it.Opts = nil
		for k := 1; k <= 5; k++ {
			if r.P(3) {
				it.Opts = append(it.Opts, k)
			}
		}
	}
	it.One = r.P(8)
	return it, fs
}

type batchState struct {
	rep   *scen.Report
	sum   *obs.W
	b     *scen.Batch
	n     uint64
	stop  time.Time
	cover []uint64
}

func (s *batchState) count(k string) { s.rep.Counts[k]++ }

func (s *batchState) item(it *scen.Item, faults []string, f func(w *obs.W)) bool {
	w := &obs.W{}
	t := time.Now()
	fl := attempt(func() { f(w) })
	d := time.Since(t).Seconds()
	if d > s.rep.Slowest {
		s.rep.Slowest = d
		c := *it
		s.rep.SlowItem = &c
	}
	if fl != nil {
		w.S(fl.kind).S(fl.text)
		s.rep.Failures = append(s.rep.Failures, scen.Failure{N: s.n, Kind: fl.kind, Text: fl.text, Item: *it, Log: faults})
	}
	s.sum.S(obs.Digest(w.B))
	if len(s.sum.B) > 4096 {
		s.sum.B = []byte(obs.Digest(s.sum.B))
	}
	return fl == nil
}

func (s *batchState) over() bool {
	if s.b.Keep > 0 && len(s.rep.Failures) >= s.b.Keep {
		return true
	}
	return s.b.WallS > 0 && time.Now().After(s.stop)
}

func runBatch(sc *scen.Scenario, rep *scen.Report) {
	b := sc.Batch
	rep.Counts = make(map[string]int)
	s := &batchState{rep: rep, sum: &obs.W{}, b: b, stop: time.Now().Add(time.Duration(b.WallS) * time.Second)}
	profiles := make(map[uint64]bool)
	profile := func() {
		c := yield.Cover()
		h := uint64(14695981039346656037)
		for i, x := range c {
			if x != 0 {
				h = (h ^ uint64(i)) * 1099511628211
				rep.Cover[i] = 1
				c[i] = 0
			}
		}
		if !profiles[h] {
			profiles[h] = true
			s.cover = append(s.cover, h)
		}
	}
	switch sc.Mode {
	case "damage":
		do := func(it *scen.Item, fs []string) {
			var class string
			var steps int64
			if s.item(it, fs, func(w *obs.W) { class, steps = consume(it, w) }) {
				rep.Steps += steps
				s.count("outcome " + class)
				if q := float64(steps) / float64(budgetFor(len(it.Src))); q > 0.25 {
					s.count("steps above a quarter of budget")
				}
			}
			for _, f := range fs {
				s.count("fault " + f)
			}
			if len(fs) == 0 {
				s.count("fault-free")
			}
			if len(rep.Samples) < 2 && len(it.Src) < 200 && class != "accepted" && len(fs) > 0 {
				rep.Samples = append(rep.Samples, fmt.Sprintf("n=%d faults=%v opts=%v %q: %s", s.n, fs, it.Opts, it.Src, class))
			}
			profile()
			if b.Guide && yield.Fresh() > 0 && len(it.Src) < 1500 {
				rep.Fresh = append(rep.Fresh, *it)
			}
		}
		if b.Guide {
			yield.SetEdges(b.Known)
		}
		for i := range b.Items {
			s.n = uint64(i)
			do(&b.Items[i], nil)
		}
		for i := 0; i < b.Count && !s.over(); i++ {
			s.n = b.From + uint64(i)
			it, fs := damaged(b, s.n)
			do(&it, fs)
			s.count("runs")
		}
	case "deep":
		for i := range b.Items {
			s.n = uint64(i)
			it := &b.Items[i]
			var class string
			if s.item(it, []string{"stuck"}, func(w *obs.W) {
				var n int64
				class, n = deep(it, w)
				rep.Steps += n
			}) {
				s.count("outcome " + class)
			}
			s.count("fault stuck")
			s.count("runs")
			profile()
			if s.over() {
				break
			}
		}
	case "damage-items":
		it, _ := damaged(b, b.From)
		rep.Fresh = append(rep.Fresh, it)
	case "sweep":
		c := gen.Known()
		for i := 0; i < b.Count && int(b.From)+i < len(c) && !s.over(); i++ {
			s.n = b.From + uint64(i)
			sweep(s, b, c[s.n], profile)
			s.count("runs")
		}
	case "cuts":
		for i := range b.Items {
			s.n = uint64(i)
			it := &b.Items[i]
			s.item(it, nil, func(w *obs.W) { cut(it, nil, w) })
		}
		for i := 0; i < b.Count && !s.over(); i++ {
			s.n = b.From + uint64(i)
			cuts(s, b)
			profile()
		}
		rep.Steps = cutSteps
	case "digest":
		for i := range b.Items {
			it := &b.Items[i]
			w := &obs.W{}
			var fl *failed
			if sc.Sched {
				// The code under test has goroutines of its own
				oc := yield.Run(sc.Plan, []func(){func() { fl = attempt(func() { consume(it, w) }) }})
				if oc.Deadlock {
					fl = &failed{"hang", "deadlock"}
				}
			} else {
				fl = attempt(func() { consume(it, w) })
			}
			if fl != nil {
				w.S(fl.kind).S(fl.text)
			}
			rep.Digests = append(rep.Digests, obs.Digest(w.B))
			if sc.Full {
				rep.Samples = append(rep.Samples, string(w.B))
			}
		}
	}
	rep.Sum = obs.Digest(s.sum.B)
	rep.Edges = yield.Edges()
	if len(s.cover) > 0 {
		rep.Profiles = s.cover
	}
}

// statements returns the top level statements of a tree
func statements(x parser.Expression) []parser.Expression {
	if p, ok := x.(*parser.Program); ok {
		x = p.Body()
	}
	if b, ok := x.(*parser.BlockExpression); ok {
		return b.Statements()
	}
	if x == nil || x.IsNop() {
		return nil
	}
	return []parser.Expression{x}
}

var cutSteps int64

func stmtDumps(src []byte, it *scen.Item) (ds []string, err error) {
	cutSteps += guard("Parse", budgetFor(len(src)), func() {
		var x parser.Expression
		if x, err = parser.CreateParser(options(it.Opts)...).Parse(it.File, string(src), false); err == nil {
			for _, s := range statements(x) {
				// The length of an expression depends on what follows it
				w := &obs.W{NoLen: true}
				w.Subtree(s)
				ds = append(ds, string(w.B))
			}
		}
	})
	return
}

// cut checks what the parser makes of a source that is cut
func cut(it *scen.Item, full []string, w *obs.W) (class string) {
	ds, err := stmtDumps(it.Src, it)
	if err != nil {
		w.Error(err)
	}
	for _, d := range ds {
		w.S(d)
	}
	valid := utf8.Valid(it.Src)
	switch {
	case it.Zero:
		if err == nil {
			fail("accepted", "a source with a tail of NUL bytes is accepted")
		}
		return "zero tail rejected"
	case it.Open != "" && it.Open != "?":
		if err == nil {
			fail("accepted", "a source that ends inside of a %s is accepted as complete", it.Open)
		}
		return "open " + it.Open + " rejected"
	case !valid:
		if err == nil {
			fail("accepted", "a source that ends inside of a character is accepted")
		}
		return "torn character rejected"
	}
	if it.Base == nil {
		return "nothing expected"
	}
	if full == nil {
		var ferr error
		full, ferr = stmtDumps(it.Base, it)
		if ferr != nil || len(full) < it.Stmts {
			if it.Exact && it.Open == "" && bytes.Equal(it.Src, it.Base) {
				whole(it, ds, err)
			}
			return "base rejected"
		}
	}
	if it.Exact && it.Open == "" {
		if err != nil {
			fail("rejected", "a source that ends after statement %d of %d is rejected: %s", it.Stmts, len(full), err.Error())
		}
		if len(ds) != it.Stmts {
			fail("statements", "a source that ends after statement %d of %d yields %d statements", it.Stmts, len(full), len(ds))
		}
	}
	if err != nil {
		return "other rejected"
	}
	if len(ds) < it.Stmts {
		fail("statements", "a source cut after %d complete statements yields %d statements", it.Stmts, len(ds))
	}
	for i := 0; i < it.Stmts; i++ {
		if ds[i] != full[i] {
			fail("changed", "statement %d of a source that is cut behind it differs:\n  complete: %s\n  cut: %s", i+1, full[i], ds[i])
		}
	}
	if it.Exact && it.Open == "" {
		return "exact prefix"
	}
	return "other accepted"
}

// whole checks that a source of complete statements is what the parser takes it for
func whole(it *scen.Item, ds []string, err error) {
	if err != nil {
		fail("rejected", "a source of %d complete statements is rejected: %s", it.Stmts, err.Error())
	}
	if len(ds) != it.Stmts {
		fail("statements", "a source of %d complete statements yields %d", it.Stmts, len(ds))
	}
}

// unusable reports the smallest number of complete statements that the parser does not accept as such
func unusable(s *batchState, p *gen.Program) {
	for k := 1; k <= len(p.Stmts); k++ {
		c := len(p.Text)
		if k < len(p.Stmts) {
			c = p.Stmts[k].Start
		}
		it := scen.Item{Src: p.Text[:c], Base: p.Text[:c], Opts: p.Opts, File: p.File, Stmts: k, Exact: true}
		for i := 0; i < k; i++ {
			it.Spans = append(it.Spans, p.Stmts[i].Start)
		}
		if !s.item(&it, []string{"cut"}, func(w *obs.W) { cut(&it, nil, w) }) {
			return
		}
	}
}

// program makes the source of run n
func program(b *scen.Batch, n uint64) (*gen.Program, *gen.Rand) {
	r := gen.Derive(b.Seed, "cuts", n)
	if r.P(4) {
		return gen.Epp(r), r
	}
	if r.P(60) {
		return gen.Big(r, 3000+r.Intn(6000)), r
	}
	return gen.Puppet(r), r
}

func cuts(s *batchState, b *scen.Batch) {
	p, r := program(b, s.n)
	base := &scen.Item{Src: p.Text, Opts: p.Opts, File: p.File}
	var full []string
	var err error
	if !s.item(base, nil, func(w *obs.W) { full, err = stmtDumps(p.Text, base) }) {
		return
	}
	s.count("programs")
	if err != nil || p.Stmts != nil && len(full) != len(p.Stmts) {
		s.count("programs not usable")
		if p.Stmts != nil {
			unusable(s, p)
		}
		if len(s.rep.Samples) < 30 {
			s.rep.Samples = append(s.rep.Samples, fmt.Sprintf("unusable n=%d opts=%v err=%v stmts=%d/%d\n%s", s.n, p.Opts, err, len(full), len(p.Stmts), p.Text))
		}
		return
	}
	big := 0
	if len(p.Text) > 3000 {
		big = len(p.Text) / 60
	}
	for c := 0; c < len(p.Text); c++ {
		if big > 0 && !r.P(big) {
			continue
		}
		if b.Gap > 1 && !r.P(b.Gap) {
			continue
		}
		it := scen.Item{Src: p.Text[:c], Opts: p.Opts, File: p.File, Open: p.OpenAt(c)}
		if p.Stmts != nil {
			it.Base = p.Text
			it.Stmts, it.Exact = p.Complete(c)
			for k := 0; k <= it.Stmts && k < len(p.Stmts); k++ {
				it.Spans = append(it.Spans, p.Stmts[k].Start)
			}
		}
		var class string
		if s.item(&it, []string{"cut"}, func(w *obs.W) { class = cut(&it, full, w) }) {
			s.count(class)
		}
		s.count("cuts")
		if r.P(12) {
			z := scen.Item{Src: append(append([]byte{}, p.Text[:c]...), make([]byte, len(p.Text)-c)...), Opts: p.Opts, File: p.File, Zero: true}
			if s.item(&z, []string{"zero tail"}, func(w *obs.W) { class = cut(&z, nil, w) }) {
				s.count(class)
			}
			s.count("zero tails")
		}
		if s.over() {
			break
		}
	}
	if len(s.rep.Samples) < 1 && len(p.Text) < 250 && len(p.Stmts) > 1 {
		s.rep.Samples = append(s.rep.Samples, fmt.Sprintf("n=%d cut at all of %d offsets: %q", s.n, len(p.Text), p.Text))
	}
}

// sweep lets the disk cut a source at each byte, lose each byte, and change each byte
func sweep(s *batchState, b *scen.Batch, c gen.Source, profile func()) {
	r := gen.Derive(b.Seed, "sweep", s.n)
	one := func(f string, src []byte) {
		if s.over() {
			return
		}
		it := scen.Item{Src: src, Opts: c.Opts, File: c.File}
		var class string
		if s.item(&it, []string{f}, func(w *obs.W) { class, _ = consume(&it, w) }) {
			s.count("outcome " + class)
		}
		s.count("fault " + f)
		profile()
	}
	one("none", c.Text)
	for i := range c.Text {
		t := c.Text
		one("truncate", t[:i])
		one("lose", append(append([]byte{}, t[:i]...), t[i+1:]...))
		x := append([]byte{}, t...)
		x[i] ^= 1 << uint(r.Intn(8))
		one("bitflip", x)
		x = append([]byte{}, t...)
		x[i] = "\x00\xff\"'{}()[]|<>/\\$@#%,;:=-~ \nab0x"[r.Intn(30)]
		one("overwritten", x)
		if r.P(4) {
			one("zerotail", append(append([]byte{}, t[:i]...), make([]byte, len(t)-i)...))
			one("dup", append(append([]byte{}, t[:i]...), t[i/2:]...))
		}
	}
}
