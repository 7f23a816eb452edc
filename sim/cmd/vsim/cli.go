package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
)

// The parse command on simulated system calls (C06). A plan decides the results of open, fstat, read,
// write and close on the source and on the standard descriptors.

func init() {
	registry["C06"] = regEntry("fault_enumeration", []string{"sim", "cli"}, runCli, againCli)
	assumptions["C06"] = []string{
		"system calls are simulated where the syscall package makes them; the file itself is a real file in a directory of its own",
		"what the command should print without faults is what the library gives for the same options; with options -t and -w that is a parser with tasks and workflows enabled",
		"an error of fstat or close, and an error of a write to standard error, may change the outcome as long as no partial result is presented as success",
	}
}

type cliCase struct {
	Src  []byte   `json:"src"`
	File string   `json:"file"`
	Args []string `json:"args"`
	Plan string   `json:"plan"`
}

type cliOut struct {
	exit   int
	stdout string
	stderr string
	log    []string
	hung   bool
}

func (o *cliOut) String() string {
	if o.hung {
		return "does not end"
	}
	return fmt.Sprintf("status %d, %d bytes of output, stderr %q", o.exit, len(o.stdout), clip(o.stderr, 200))
}

// exec runs the command in a directory of its own
func (c *check) cliExec(k *cliCase, src []byte, plan string, limit time.Duration) *cliOut {
	dir, err := os.MkdirTemp(c.cli.tmp, "cli")
	if err != nil {
		trouble("%v", err)
	}
	defer func() { _ = os.RemoveAll(dir) }()
	if err = os.WriteFile(filepath.Join(dir, k.File), src, 0644); err != nil {
		trouble("%v", err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		trouble("%v", err)
	}
	logs := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(r)
		_ = r.Close()
		logs <- b
	}()
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	x := exec.CommandContext(ctx, c.cli.bin, append(append([]string{}, k.Args...), k.File)...)
	x.Dir = dir
	var so, se bytes.Buffer
	x.Stdout, x.Stderr = &so, &se
	x.ExtraFiles = []*os.File{w}
	x.Env = append(append([]string{}, baseEnv...), "GOTRACEBACK=none", "VERIF_IOPLAN="+plan, "VERIF_IOSRC="+k.File, "VERIF_IOLOG=3")
	x.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	err = x.Run()
	_ = w.Close()
	o := &cliOut{stdout: so.String(), stderr: hexRe.ReplaceAllString(se.String(), "0x..")}
	lb := <-logs
	if ctx.Err() != nil {
		o.hung = true
		return o
	}
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		trouble("cannot run the command: %v", err)
	}
	if xe != nil {
		if o.exit = xe.ExitCode(); o.exit < 0 {
			ws, _ := xe.Sys().(syscall.WaitStatus)
			if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
				trouble("the command was killed")
			}
			o.exit = 128 + int(ws.Signal())
		}
	}
	o.log = strings.Split(strings.TrimSpace(string(lb)), "\n")
	return o
}

const cliLimit = 60 * time.Second

// free returns the fault free run on the given content
func (c *check) cliFree(k *cliCase, src []byte) *cliOut {
	return c.refs.get(digest([]interface{}{src, k.File, k.Args}), func() interface{} {
		return c.cliExec(k, src, "", cliLimit)
	}).(*cliOut)
}

func cliJob(k *cliCase) (j scen.CliJob, ok bool) {
	j = scen.CliJob{Src: k.Src, File: k.File, Strict: "off"}
	for i := 0; i < len(k.Args); i++ {
		switch a := k.Args[i]; {
		case a == "-j":
			j.Json = true
		case a == "-v":
			j.Only = true
		case a == "-s" && i+1 < len(k.Args):
			i++
			j.Strict = k.Args[i]
		case strings.HasPrefix(a, "-s="):
			j.Strict = a[3:]
		case a == "-t":
			j.Tasks = true
		case a == "-w":
			j.Workflow = true
		default:
			return j, false
		}
	}
	switch strings.ToLower(j.Strict) {
	case "off", "warning", "error":
	default:
		return j, false
	}
	return j, true
}

// cliBase compares the fault free run with what the library gives
func (c *check) cliBase(k *cliCase) *violation {
	o := c.cliFree(k, k.Src)
	if o.hung {
		return &violation{Class: "hang", Text: "the command does not end without any fault"}
	}
	j, ok := cliJob(k)
	if !ok {
		for i, a := range k.Args {
			if a == "-s" && i+1 < len(k.Args) && !strings.Contains("offwarningerror", strings.ToLower(k.Args[i+1])) && (o.exit == 0 || o.stdout != "") {
				return &violation{Class: "bad option accepted", Text: fmt.Sprintf("with arguments %v the command ends with %s", k.Args, o)}
			}
		}
		return nil
	}
	res := c.w.run(&scen.Scenario{Mode: "cli", Cli: []scen.CliJob{j}})
	if res.crash != nil {
		// The library dies with this source, which is a matter of another property
		if o.exit == 0 {
			return &violation{Class: "fault free: status", Text: "the library dies with this source, but the command succeeds: " + res.crash.text}
		}
		return nil
	}
	m := &res.rep.Cli[0]
	if m.Exit != o.exit {
		return &violation{Class: "fault free: status", Text: fmt.Sprintf("without faults the status is %d instead of %d (%s)", o.exit, m.Exit, o)}
	}
	if j.Json {
		var a, b interface{}
		if err := unmarshal(m.Stdout, &a); err != nil {
			trouble("%v", err)
		}
		if err := unmarshal(o.stdout, &b); err != nil {
			return &violation{Class: "fault free: output", Text: fmt.Sprintf("without faults the output is not JSON (%v): %q", err, clip(o.stdout, 300))}
		}
		if !reflect.DeepEqual(a, b) {
			return &violation{Class: "fault free: output", Text: "without faults the output is not what the library gives\n" + diff(o.stdout, m.Stdout)}
		}
	} else if strings.TrimRight(o.stdout, "\n") != m.Stdout {
		return &violation{Class: "fault free: output", Text: "without faults the output is not what the library gives\n" + diff(o.stdout, m.Stdout)}
	}
	rest := o.stderr
	for _, s := range m.Stderr {
		s = hexRe.ReplaceAllString(s, "0x..")
		i := strings.Index(rest, s)
		if i < 0 {
			return &violation{Class: "fault free: issues", Text: fmt.Sprintf("without faults %q is missing in the standard error %q", s, clip(o.stderr, 500))}
		}
		rest = rest[i+len(s):]
	}
	return nil
}

func unmarshal(s string, v interface{}) error {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(v); err != nil {
		return err
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("something follows the document")
	}
	return nil
}

type ioEntry struct {
	op, target, action string
	index, arg         int
}

func parsePlan(s string) (l []ioEntry) {
	for _, e := range strings.Split(s, ";") {
		if f := strings.Split(e, ":"); len(f) == 5 {
			i, _ := strconv.Atoi(f[2])
			a, _ := strconv.Atoi(f[4])
			l = append(l, ioEntry{f[0], f[1], f[3], i, a})
		}
	}
	return
}

func planText(l []ioEntry) string {
	var s []string
	for _, e := range l {
		s = append(s, fmt.Sprintf("%s:%s:%d:%s:%d", e.op, e.target, e.index, e.action, e.arg))
	}
	return strings.Join(s, ";")
}

// benign faults are those that a working system shows
func (e ioEntry) benign() bool {
	return e.action == "short" || e.action == "errno" && e.arg == int(syscall.EINTR) && e.op != "close"
}

// evalCli runs the command with the plan and judges the outcome
func (c *check) evalCli(k *cliCase) (*violation, *cliOut) {
	plan := parsePlan(k.Plan)
	o := c.cliExec(k, k.Src, k.Plan, cliLimit)
	if o.hung {
		if o = c.cliExec(k, k.Src, k.Plan, 2*cliLimit); o.hung {
			return &violation{Class: "hang", Text: "the command does not end"}, o
		}
	}
	base := c.cliFree(k, k.Src)
	if base.hung {
		return nil, o
	}
	// What has it read?
	delivered, eof, failed, opens := 0, false, false, 0
	for _, l := range o.log {
		f := strings.Fields(l)
		switch {
		case l == "open src ok":
			delivered, eof, failed = 0, false, false
			opens++
		case len(f) >= 3 && f[0] == "read" && f[1] == "src":
			switch f[2] {
			case "0":
				eof = true
			case "errno":
				if f[3] != strconv.Itoa(int(syscall.EINTR)) {
					failed = true
				}
			case "error", "short":
			default:
				n, err := strconv.Atoi(f[2])
				if err != nil {
					trouble("bad log %q", l)
				}
				delivered += n
			}
		}
	}
	all := true
	for _, e := range plan {
		all = all && e.benign()
	}
	if opens > 1 {
		// Several passes over the file. Whatever they saw, success is about all of it
		eof, delivered = eof && all, len(k.Src)
		if !all {
			if o.exit == 0 && (base.exit != 0 || o.stdout != base.stdout) {
				return &violation{Class: "partial result presented as success", Text: fmt.Sprintf("status 0, but the output differs from the fault free one (%s)\n%s", base, diff(o.stdout, base.stdout))}, o
			}
			return nil, o
		}
	}
	if delivered > len(k.Src) {
		delivered = len(k.Src)
	}
	if all {
		if o.exit != base.exit || o.stdout != base.stdout || o.stderr != base.stderr {
			return &violation{Class: "harmless fault changes the outcome", Text: fmt.Sprintf("with short and interrupted transfers only: %s, without: %s\n%s", o, base, diff(o.stdout, base.stdout))}, o
		}
	}
	if o.exit == 0 {
		if opens == 0 {
			return &violation{Class: "success without source", Text: "status 0, but the source was never opened"}, o
		}
		if failed && !eof && delivered < len(k.Src) || !eof && delivered < len(k.Src) {
			return &violation{Class: "success without the whole source", Text: fmt.Sprintf("status 0, but only %d of %d bytes of the source have been read", delivered, len(k.Src))}, o
		}
		want := c.cliFree(k, k.Src[:delivered])
		if want.exit != 0 {
			return &violation{Class: "success instead of failure", Text: fmt.Sprintf("status 0, but for these %d bytes the status is %d without faults", delivered, want.exit)}, o
		}
		if o.stdout != want.stdout {
			return &violation{Class: "partial result presented as success", Text: fmt.Sprintf("status 0, but the output is not complete (%d of %d bytes)\n%s", len(o.stdout), len(want.stdout), diff(o.stdout, want.stdout))}, o
		}
		return nil, o
	}
	want := base
	if eof && delivered < len(k.Src) {
		want = c.cliFree(k, k.Src[:delivered])
	}
	if !strings.HasPrefix(want.stdout, o.stdout) {
		return &violation{Class: "wrong output before the failure", Text: fmt.Sprintf("status %d, but what is on standard output is not a prefix of the fault free output\n%s", o.exit, diff(o.stdout, want.stdout))}, o
	}
	return nil, o
}

var readErrs = []syscall.Errno{syscall.EIO, syscall.EAGAIN, syscall.EISDIR, syscall.ENOMEM, syscall.ESTALE, syscall.EBADF, syscall.ETIMEDOUT, syscall.EINVAL}
var writeErrs = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EPIPE, syscall.EFBIG, syscall.EDQUOT, syscall.EAGAIN, syscall.EBADF, syscall.EINVAL}
var openErrs = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.ELOOP, syscall.ENOMEM, syscall.EINTR, syscall.EISDIR}

// singles are all single faults, and short transfers that are followed by an error
func singles(n, out int) (l []string) {
	add := func(es ...ioEntry) { l = append(l, planText(es)) }
	eintr := int(syscall.EINTR)
	for _, e := range openErrs {
		add(ioEntry{"open", "src", "errno", 0, int(e)})
	}
	for i := 0; i < 3; i++ {
		for _, e := range readErrs {
			add(ioEntry{"read", "src", "errno", i, int(e)})
		}
		add(ioEntry{"read", "src", "errno", i, eintr})
		add(ioEntry{"read", "src", "eof", i, 0})
		add(ioEntry{"read", "src", "kill", i, 0})
		add(ioEntry{"write", "1", "kill", i, 0})
		add(ioEntry{"write", "1", "eof", i, 0})
		add(ioEntry{"write", "1", "errno", i, eintr})
		add(ioEntry{"write", "2", "errno", i, int(syscall.EIO)})
		add(ioEntry{"write", "2", "errno", i, eintr})
		add(ioEntry{"write", "2", "short", i, 3})
		for _, e := range writeErrs {
			add(ioEntry{"write", "1", "errno", i, int(e)})
		}
	}
	for _, e := range []int{0, 1, n / 2, n - 1, n + 1, 10 * n, 1 << 20} {
		if e >= 0 {
			add(ioEntry{"fstat", "src", "size", 0, e})
		}
	}
	add(ioEntry{"fstat", "src", "errno", 0, int(syscall.EIO)})
	add(ioEntry{"close", "src", "errno", 0, int(syscall.EIO)})
	points := func(n int) (p []int) {
		for _, x := range []int{1, 2, n / 4, n / 2, n - 2, n - 1, 512, 511, 4096} {
			if x > 0 && x < n {
				p = append(p, x)
			}
		}
		return
	}
	for _, x := range points(n) {
		s := ioEntry{"read", "src", "short", 0, x}
		add(s)
		for _, e := range []syscall.Errno{syscall.EIO, syscall.EAGAIN, syscall.EINTR} {
			add(s, ioEntry{"read", "src", "errno", 1, int(e)})
		}
		add(s, ioEntry{"read", "src", "eof", 1, 0})
		add(s, ioEntry{"fstat", "src", "size", 0, x})
	}
	for _, x := range points(out) {
		s := ioEntry{"write", "1", "short", 0, x}
		add(s)
		for _, e := range []syscall.Errno{syscall.ENOSPC, syscall.EPIPE, syscall.EIO, syscall.EINTR} {
			add(s, ioEntry{"write", "1", "errno", 1, int(e)})
		}
		add(s, ioEntry{"write", "1", "eof", 1, 0})
	}
	return
}

func randomPlan(r *gen.Rand, n, out int) string {
	var l []ioEntry
	xfer := func(op, target string, n int, errs []syscall.Errno) {
		steps := 1 + r.Intn(6)
		for i := 0; i < steps; i++ {
			switch r.Intn(6) {
			case 0, 1:
				l = append(l, ioEntry{op, target, "short", i, 1 + r.Intn(n/2+2)})
			case 2:
				l = append(l, ioEntry{op, target, "short", i, 1 + r.Intn(16)})
			case 3, 4:
				l = append(l, ioEntry{op, target, "errno", i, int(syscall.EINTR)})
			}
		}
		switch r.Intn(4) {
		case 0:
			l = append(l, ioEntry{op, target, "errno", steps, int(errs[r.Intn(len(errs))])})
		case 1:
			l = append(l, ioEntry{op, target, r.Pick("eof", "eof", "kill"), steps, 0})
		}
	}
	if r.P(4) {
		l = append(l, ioEntry{"open", "src", "errno", 0, int(syscall.EINTR)})
	}
	if !r.P(3) {
		xfer("read", "src", n, readErrs)
	}
	if !r.P(3) {
		xfer("write", "1", out, writeErrs)
	}
	if r.P(4) {
		xfer("write", "2", 100, writeErrs)
	}
	if r.P(5) {
		l = append(l, ioEntry{"fstat", "src", "size", r.Intn(2), r.Intn(2 * (n + 1))})
	}
	if r.P(8) {
		l = append(l, ioEntry{r.Pick("fstat", "close"), "src", "errno", 0, int(readErrs[r.Intn(len(readErrs))])})
	}
	return planText(l)
}

func genCli(r *gen.Rand) *cliCase {
	var s gen.Source
	switch r.Intn(7) {
	case 0:
		s = gen.Issues(r)
	case 1, 2:
		c := gen.Corpus()
		s = c[r.Intn(len(c))]
	case 3:
		s = gen.Any(r)
		s.Text, _ = gen.Damage(r, s.Text, func() []byte { return gen.Any(r).Text }, 2)
	default:
		s = gen.Any(r)
	}
	k := &cliCase{Src: s.Text, File: "source.pp"}
	if strings.HasSuffix(s.File, ".epp") {
		k.File = "source.epp"
	}
	if r.P(6) {
		k.File = r.Pick("a b.pp", "x", "source.epp", "ü.pp", "y.pp.txt")
	}
	if r.P(3) {
		// Larger than one page, so that several reads and writes are needed
		var b []byte
		for len(b) < 3000+r.Intn(90000) {
			if k.File == "source.epp" || r.P(2) {
				b = append(b, s.Text...)
			} else {
				b = append(b, gen.Puppet(r).Text...)
			}
			b = append(b, '\n')
			if len(b) < 60 {
				b = append(b, "# comment\n"...)
			}
		}
		k.Src = b
	}
	if r.P(25) {
		k.Src = huge(r, k.Src)
	}
	if r.P(2) {
		k.Args = append(k.Args, "-j")
	}
	if r.P(4) {
		k.Args = append(k.Args, "-v")
	}
	if r.P(2) {
		k.Args = append(k.Args, "-s", r.Pick("off", "warning", "error", "Warning", "ERROR"))
	}
	has := func(n int) bool {
		for _, o := range s.Opts {
			if o == n {
				return true
			}
		}
		return false
	}
	if has(3) && !r.P(8) || r.P(12) {
		k.Args = append(k.Args, "-t")
	}
	if has(4) && !r.P(8) || r.P(12) {
		k.Args = append(k.Args, "-w")
	}
	if r.P(24) {
		k.Args = append(k.Args, "-s", "bogus")
	}
	return k
}

// huge yields sources that no buffer of a usual size holds: one long line, or more than a megabyte of lines
// before the last statement
func huge(r *gen.Rand, src []byte) []byte {
	var b bytes.Buffer
	switch r.Intn(3) {
	case 0:
		b.WriteString("$long = 'x")
		b.WriteString(strings.Repeat("y z", 22000+r.Intn(30000)))
		b.WriteString("'\n")
		b.Write(src)
	case 1:
		b.Write(src)
		b.WriteString("\n#")
		b.WriteString(strings.Repeat("=", 65000+r.Intn(70000)))
		b.WriteString("\nnotice('the end')\n")
	default:
		b.Write(src)
		b.WriteByte('\n')
		for n, i := 1<<20+r.Intn(3<<18), 0; b.Len() < n; i++ {
			fmt.Fprintf(&b, "# line %d of a long comment .................................................................\n", i)
		}
		b.WriteString("notice('the end')\n")
	}
	return b.Bytes()
}

// pickCli prefers a source that the command accepts
func (c *check) pickCli(r *gen.Rand) *cliCase {
	var ks []*cliCase
	sc := &scen.Scenario{Mode: "cli"}
	for len(ks) < 10 {
		k := genCli(r)
		ks = append(ks, k)
		j, ok := cliJob(k)
		if !ok {
			j.Strict = "off"
		}
		sc.Cli = append(sc.Cli, j)
	}
	if r.P(4) {
		return ks[0]
	}
	if res := c.w.run(sc); res.crash == nil {
		for i, k := range ks {
			if m := &res.rep.Cli[i]; m.Exit == 0 && (m.Stdout != "" || r.P(8)) {
				return k
			}
		}
	}
	return ks[0]
}

func runCli(c *check) *violation {
	c.cov["rule"] = "a run is one execution of the command with a plan of faults; all single faults are tried for each source, then seeded sequences; it is non-trivial if a fault was injected or a transfer took several calls, and distinct by the sequence of results that its system calls had, its arguments and its status"
	const random = 60
	evals := 0
	v := c.search(c.n(280, 9000), func(i int) *violation {
		r := gen.Derive(c.seed, "C06", uint64(i))
		k := c.pickCli(r)
		rp := func(v *violation, k *cliCase) *violation {
			x := *k
			v.Rep = &replay{Kind: "cli", Cli: &x, Before: fmt.Sprintf("%d bytes, plan %s", len(k.Src), k.Plan)}
			return v
		}
		if v := c.cliBase(k); v != nil {
			return rp(v, k)
		}
		base := c.cliFree(k, k.Src)
		if base.hung {
			return nil
		}
		plans := singles(len(k.Src), len(base.stdout))
		for n := 0; n < random; n++ {
			plans = append(plans, randomPlan(r, len(k.Src), len(base.stdout)))
		}
		if i%4 != 0 {
			// Not all of the single faults for each source
			for n := len(plans) - 1; n > 0; n-- {
				m := r.Intn(n + 1)
				plans[n], plans[m] = plans[m], plans[n]
			}
			plans = plans[:90]
		}
		for _, p := range plans {
			x := *k
			x.Plan = p
			v, o := c.evalCli(&x)
			c.accountCli(&x, o, &evals)
			if v != nil {
				return rp(v, &x)
			}
		}
		return nil
	})
	c.cov["evaluations"] = evals
	c.cov["reference_processes"] = c.refs.n
	c.cov["components"] = map[string]string{
		"real code": "the parse command with parser, validator, PN, JSON, os and fmt packages; kernel file system",
		"simulated": "results of open, fstat, read, write and close on the source and the standard descriptors; death of the process at any of them",
	}
	if v != nil {
		c.confirmCli(v)
	}
	return v
}

func (c *check) accountCli(k *cliCase, o *cliOut, evals *int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	*evals++
	n := 0
	for _, l := range o.log {
		if strings.HasSuffix(l, "injected") || l == "killed" {
			n++
			f := strings.Fields(l)
			if f[0] == "killed" {
				c.faults["process killed"]++
				continue
			}
			if f[2] == "errno" {
				i, _ := strconv.Atoi(f[3])
				f[2] = syscall.Errno(i).Error()
			}
			c.faults[f[0]+" "+f[1]+": "+f[2]]++
		}
	}
	c.steps += int64(len(o.log))
	oc, _ := c.cov["outcomes"].(map[string]int)
	if oc == nil {
		oc = map[string]int{}
		c.cov["outcomes"] = oc
	}
	oc[fmt.Sprintf("status %d", o.exit)]++
	if n > 0 || len(o.log) > 6 {
		c.distinct[digest([]interface{}{o.log, k.Args, o.exit})] = true
	}
	if len(c.samples) < 3 && n > 1 {
		c.samples = append(c.samples, map[string]interface{}{"arguments": k.Args, "bytes": len(k.Src), "plan": k.Plan, "calls": o.log, "status": o.exit})
	}
}

func (c *check) cliJudge(k *cliCase) *violation {
	if k.Plan == "" {
		return c.cliBase(k)
	}
	v, _ := c.evalCli(k)
	return v
}

func (c *check) confirmCli(v *violation) {
	k := v.Rep.Cli
	same := func(x *cliCase) *violation {
		w := c.cliJudge(x)
		if w != nil && w.Class == v.Class {
			return w
		}
		return nil
	}
	if !again(func() bool { return same(k) != nil }) {
		trouble("run %d (%s) does not reproduce: plan %q", v.Run, v.Class, k.Plan)
	}
	if l := parsePlan(k.Plan); len(l) > 1 {
		l = minimizeList(l, 100, func(l []ioEntry) bool { x := *k; x.Plan = planText(l); return same(&x) != nil })
		k.Plan = planText(l)
	}
	for len(k.Args) > 0 {
		x := *k
		x.Args = k.Args[:len(k.Args)-1]
		if same(&x) == nil {
			break
		}
		*k = x
	}
	if len(k.Src) > 1 {
		k.Src = ops2(minimizeList(k.Src, 250, func(b []byte) bool { x := *k; x.Src = ops2(b); return same(&x) != nil }))
	}
	var w *violation
	if !again(func() bool { w = same(k); return w != nil }) {
		trouble("minimised run %d does not reproduce", v.Run)
	}
	v.Text = w.Text + cliText(k)
	v.Rep.Sources = []string{string(k.Src)}
}

func cliText(k *cliCase) string {
	return fmt.Sprintf("\narguments %v %q, source of %d bytes: %q\nfaults: %s", k.Args, k.File, len(k.Src), clip(string(k.Src), 300), k.Plan)
}

func againCli(c *check, r *replay) *violation {
	v := c.cliJudge(r.Cli)
	if v != nil {
		v.Text += cliText(r.Cli)
	}
	return v
}
