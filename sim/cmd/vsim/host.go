package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
	"verif.local/sim/yield"
)

// The same sources on many simulated hosts (C08). A host is a process with its own hash seed, clock,
// environment, name, process id, heap layout, collector, number of processors and directory.

func init() {
	registry["C08"] = regEntry("exploration", []string{"sim"}, runHosts, againHosts)
	assumptions["C08"] = []string{
		"random numbers of the runtime (hash seeds, start of map iterations, select), the clock, the environment, the host name and the process id are simulated by patches of the standard library in the simulated machine",
		"addresses are varied by allocations before the run and by the address space randomisation of the kernel, which the simulation does not control",
	}
}

type hostCase struct {
	Items []scen.Item `json:"items"`
	Order []int       `json:"order,omitempty"` // in which the second host works on them
	Env   []string    `json:"env"`             // of the second host
	Dir   bool        `json:"dir,omitempty"`   // the second host works in another directory
	Index int         `json:"index"`           // item that differs
}

const refHost = "VERIF_TIME=1000000000"

// dims of a host, made by name so that they can be removed one by one
func hostEnv(r *gen.Rand) []string {
	e := []string{fmt.Sprintf("VERIF_RTSEED=%d", 2+r.Intn(1000000000))}
	add := func(n int, s string) {
		if r.P(n) {
			e = append(e, s)
		}
	}
	if r.P(2) {
		e = append(e, fmt.Sprintf("VERIF_TIME=%d", r.Intn(4000000000)), fmt.Sprintf("VERIF_TICK=%d", []int{0, 1, 1000003, 3600000000000}[r.Intn(4)]))
	}
	add(2, fmt.Sprintf("VERIF_ENV=%d", 1+r.Intn(1000000)))
	add(2, "VERIF_HOST=host"+fmt.Sprint(r.Intn(100)))
	add(2, fmt.Sprintf("VERIF_PID=%d", 2+r.Intn(4000000)))
	add(3, fmt.Sprintf("VERIF_UID=%d", r.Intn(3)*500))
	add(2, fmt.Sprintf("VERIF_FS=%d", 1+r.Intn(1000000)))
	add(2, "VERIF_CWD="+r.Pick("/", "/", "/src", "/src", "/etc/puppetlabs/code", "/tmp", "/root", ""))
	add(3, "VERIF_TIMERS=1")
	add(2, fmt.Sprintf("VERIF_BALLAST=%d", 1+r.Intn(4000)))
	add(2, "GOGC="+r.Pick("off", "1", "20", "800"))
	add(2, "GOMAXPROCS="+r.Pick("1", "2", "3", "8", "16"))
	add(2, "VERIF_NCPU="+r.Pick("1", "2", "3", "6", "32", "256"))
	add(1, fmt.Sprintf("VERIF_SCHED=%d", 1+r.Intn(1000000000)))
	add(3, "LANG="+r.Pick("de_DE.UTF-8", "tr_TR.UTF-8", "C", ""))
	add(4, "LC_ALL="+r.Pick("tr_TR.UTF-8", "POSIX"))
	add(3, "TZ="+r.Pick("Asia/Tokyo", "UTC", "America/New_York", ":bad"))
	add(3, "HOME="+r.Pick("/root", "/", ""))
	add(4, "USER="+r.Pick("root", "x"))
	add(4, "GODEBUG="+r.Pick("", "madvdontneed=1", "gcstoptheworld=1", "clobberfree=1"))
	add(4, "DEBUG=1")
	add(4, "VERBOSE=1")
	return e
}

func hostItems(r *gen.Rand, n int) (l []scen.Item) {
	for len(l) < n {
		var s gen.Source
		switch r.Intn(8) {
		case 0, 1, 2:
			s = gen.Issues(r)
		case 3:
			s = gen.Workflow(r)
		case 4:
			s = gen.Any(r)
		case 5:
			s = gen.Mixed(r)
		case 6:
			s = gen.Any(r)
			s.Text, _ = gen.Damage(r, s.Text, func() []byte { return gen.Any(r).Text }, 3)
		default:
			c := gen.Corpus()
			s = c[r.Intn(len(c))]
		}
		if len(l) == n-1 && r.P(3) {
			s = gen.Big(r, 5000+r.Intn(20000)).Source
		} else if len(s.Text) > 4000 {
			s.Text = s.Text[:4000]
		}
		l = append(l, scen.Item{Src: s.Text, Opts: s.Opts, File: gen.FileName(r, s.File), One: r.P(10)})
	}
	return
}

func permute(items []scen.Item, order []int) []scen.Item {
	if order == nil {
		return items
	}
	l := make([]scen.Item, len(items))
	for i, k := range order {
		l[i] = items[k]
	}
	return l
}

func (c *check) hostRun(h *hostCase, second, full bool) *result {
	sc := &scen.Scenario{Mode: "digest", Full: full, Batch: &scen.Batch{Items: h.Items}}
	if c.w.goStmts > 0 {
		sc.Sched = true
		sc.Plan = yield.Plan{Strategy: "serial", Budget: 400000000}
	}
	if !second {
		return c.w.run(sc, refHost)
	}
	sc.Batch.Items = permute(h.Items, h.Order)
	for _, e := range h.Env {
		if n, _ := strconv.ParseUint(strings.TrimPrefix(e, "VERIF_SCHED="), 10, 64); n > 0 && sc.Sched {
			sc.Plan.Strategy, sc.Plan.Seed, sc.Plan.Gap = "random", n, []int64{1, 5, 40, 400}[n%4]
		}
	}
	file := filepath.Join(c.w.tmp, "some file")
	if err := os.WriteFile(file, []byte("# a file\n$x: y\n"), 0644); err != nil {
		trouble("%v", err)
	}
	dir := ""
	if h.Dir {
		dir = filepath.Join(c.w.tmp, "another directory")
		if err := os.MkdirAll(dir, 0755); err != nil {
			trouble("%v", err)
		}
	}
	return c.w.runIn(dir, sc, append([]string{refHost, "VERIF_FSFILE=" + file}, h.Env...)...)
}

// compareHosts returns the first item whose result differs, or -1
func compareHosts(h *hostCase, a, b *result) (int, int) {
	for i := range h.Items {
		k := i
		if h.Order != nil {
			for j, x := range h.Order {
				if x == i {
					k = j
				}
			}
		}
		if a.rep.Digests[i] != b.rep.Digests[k] {
			return i, k
		}
	}
	return -1, -1
}

func (c *check) evalHosts(h *hostCase, ref *result) (*violation, *result) {
	if ref == nil {
		ref = c.hostRun(h, false, false)
	}
	if ref.crash != nil {
		return nil, nil
	}
	b := c.hostRun(h, true, false)
	if b.crash != nil {
		// Nothing but the host differs, unless memory runs out without a collector
		for _, e := range h.Env {
			if e == "GOGC=off" {
				return nil, b
			}
		}
		return &violation{Class: b.crash.class, Text: "the process dies on one host only: " + b.crash.text}, b
	}
	if i, _ := compareHosts(h, ref, b); i >= 0 {
		h.Index = i
		return &violation{Class: "result differs between hosts", Text: fmt.Sprintf("source %d has another result on the second host", i)}, b
	}
	return nil, b
}

func runHosts(c *check) *violation {
	const size, hosts = 40, 6
	c.cov["rule"] = "a run is a batch of 40 sources on a reference host and one other host; it is non-trivial if the sources are not all rejected, and distinct by the digest of sources, order and host"
	evals := 0
	v := c.search(c.n(260, 11000), func(i int) *violation {
		r := gen.Derive(c.seed, "C08", uint64(i))
		items := hostItems(r, size)
		h0 := &hostCase{Items: items}
		ref := c.hostRun(h0, false, false)
		if ref.crash != nil {
			c.fault("reference host died", 1)
			return nil
		}
		for k := 0; k < hosts; k++ {
			h := &hostCase{Items: items, Env: hostEnv(r), Dir: r.P(2)}
			if r.P(2) {
				for n := range items {
					h.Order = append(h.Order, n)
				}
				for n := len(h.Order) - 1; n > 0; n-- {
					m := r.Intn(n + 1)
					h.Order[n], h.Order[m] = h.Order[m], h.Order[n]
				}
			}
			v, res := c.evalHosts(h, ref)
			c.mu.Lock()
			evals++
			for _, e := range h.Env {
				c.faults["other "+strings.SplitN(e, "=", 2)[0]]++
			}
			if h.Dir {
				c.faults["other directory"]++
			}
			if h.Order != nil {
				c.faults["other order"]++
			}
			c.distinct[digest(h)] = true
			if res != nil && res.rep != nil {
				c.steps += int64(len(items))
			}
			if len(c.samples) < 2 {
				c.samples = append(c.samples, map[string]interface{}{"host": h.Env, "first source": clip(string(items[0].Src), 200)})
			}
			c.mu.Unlock()
			if v != nil {
				v.Rep = &replay{Kind: "hosts", Hosts: h, Before: fmt.Sprintf("%d sources", len(items))}
				return v
			}
		}
		return nil
	})
	c.cov["evaluations"] = evals
	c.cov["sources_compared"] = c.steps
	c.cov["components"] = map[string]string{
		"real code": "lexer, parser, factory, AST, PN, JSON, literals, labels, validators, issue package",
		"simulated": "random numbers of the runtime, clock, environment, host name, process id, heap layout, collector pace, order of sources",
	}
	if v != nil {
		c.confirmHosts(v)
	}
	return v
}

func (c *check) confirmHosts(v *violation) {
	same := func(h *hostCase) *violation {
		w, _ := c.evalHosts(h, nil)
		if w != nil && w.Class == v.Class {
			return w
		}
		return nil
	}
	h := v.Rep.Hosts
	if !again(func() bool { return same(h) != nil }) {
		trouble("run %d (%s) does not reproduce: %s", v.Run, v.Class, v.Text)
	}
	try := func(x hostCase) bool {
		if same(&x) != nil {
			*h = x
			return true
		}
		return false
	}
	// The source alone, if that is enough
	x := *h
	x.Items, x.Order = []scen.Item{h.Items[h.Index]}, nil
	if !try(x) {
		x = *h
		x.Order = nil
		if try(x) {
			minimizeList(h.Items, 100, func(l []scen.Item) bool { y := *h; y.Items = l; return try(y) })
		}
	}
	x = *h
	x.Dir = false
	try(x)
	minimizeList(append([]string{}, h.Env...), 60, func(e []string) bool { y := *h; y.Env = append([]string{}, e...); return try(y) })
	if len(h.Items) == 1 {
		it := h.Items[0]
		minimizeList(it.Src, 400, func(b []byte) bool {
			y, i := *h, it
			i.Src = ops2(b)
			y.Items = []scen.Item{i}
			return try(y)
		})
	}
	var w *violation
	if !again(func() bool { w = same(h); return w != nil }) {
		trouble("minimised run %d does not reproduce", v.Run)
	}
	v.Text = w.Text + c.describeHosts(h)
	for _, it := range h.Items {
		v.Rep.Sources = append(v.Rep.Sources, string(it.Src))
	}
}

func (c *check) describeHosts(h *hostCase) string {
	s := fmt.Sprintf("\nhost: %v", h.Env)
	if h.Dir {
		s += " in another directory"
	}
	s += fmt.Sprintf("\nsource: %q options %v", clip(string(h.Items[h.Index].Src), 600), h.Items[h.Index].Opts)
	a, b := c.hostRun(h, false, true), c.hostRun(h, true, true)
	if a.crash == nil && b.crash == nil {
		if i, k := compareHosts(h, a, b); i >= 0 {
			s += "\n" + diff(b.rep.Samples[k], a.rep.Samples[i])
		}
	}
	return s
}

func againHosts(c *check, r *replay) *violation {
	v, _ := c.evalHosts(r.Hosts, nil)
	if v != nil {
		v.Text += c.describeHosts(r.Hosts)
	}
	return v
}
