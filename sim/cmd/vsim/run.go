package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/instr"
	"verif.local/sim/scen"
)

// infra is trouble of the check itself. It is never reported as a violation
type infra struct{ err error }

func trouble(f string, a ...interface{}) { panic(infra{fmt.Errorf(f, a...)}) }

const repo = "/repo"

// worker is a simulated machine that can be started
type worker struct {
	bin     string
	race    bool
	sites   []instr.Site
	goStmts int
	tmp     string
}

func goCmd(dir string, args ...string) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED="+map[bool]string{true: "1", false: "0"}[strings.Contains(strings.Join(args, " "), " -race ")])
	out, err := c.CombinedOutput()
	if err != nil {
		trouble("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
}

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		trouble("go env: %v", err)
	}
	return strings.TrimSpace(string(out))
}

// build makes a worker out of the current tree. The kind is sim, race or cli
func build(root, dir, kind string) *worker {
	ov := filepath.Join(dir, "overlay-"+kind)
	if err := os.RemoveAll(ov); err != nil {
		trouble("%v", err)
	}
	w := &worker{bin: filepath.Join(dir, "bin-"+kind), race: kind == "race", tmp: filepath.Join(dir, "tmp")}
	for _, d := range []string{ov, w.tmp} {
		if err := os.MkdirAll(d, 0755); err != nil {
			trouble("%v", err)
		}
	}
	o := make(map[string]string)
	var err error
	if kind != "cli" {
		o, w.sites, err = instr.Repo(repo, ov)
		w.goStmts = instr.GoStmts
		if err != nil {
			trouble("cannot instrument: %v", err)
		}
	}
	so, err := instr.Std(goroot(), ov)
	if err != nil {
		trouble("%v", err)
	}
	for k, v := range so {
		o[k] = v
	}
	gid := filepath.Join(ov, "gid.go")
	if err = os.WriteFile(gid, []byte(instr.Gid), 0644); err != nil {
		trouble("%v", err)
	}
	o[filepath.Join(root, "sim", "yield", "gid.go")] = gid
	f := filepath.Join(ov, "overlay.json")
	if err = instr.WriteOverlay(f, o); err != nil {
		trouble("%v", err)
	}
	args := []string{"build", "-overlay", f, "-o", w.bin}
	if w.race {
		args = append(args, "-race")
	}
	pkg := "./cmd/simrun"
	if kind == "cli" {
		pkg = "github.com/lyraproj/puppet-parser/parse"
	}
	goCmd(filepath.Join(root, "sim"), append(args, pkg)...)
	return w
}

// crash is the death of a simulated machine
type crash struct {
	class string
	text  string
}

var baseEnv = []string{"PATH=/usr/bin:/bin", "LANG=C", "VERIF_RTSEED=1", "GOMAXPROCS=2", "GOTRACEBACK=all", "GORACE=atexit_sleep_ms=0 halt_on_error=0 history_size=3", "HOME=/nonexistent"}

// result of a simulated run
type result struct {
	rep    *scen.Report
	crash  *crash
	races  []race
	stderr string
}

type race struct {
	funcs [2]string // functions of the code under test that make the accesses
	text  string
}

const watchdog = 240 * time.Second

// run starts a fresh process that simulates the scenario
func (w *worker) run(sc *scen.Scenario, env ...string) *result {
	return w.runIn("", sc, env...)
}

func (w *worker) runIn(dir string, sc *scen.Scenario, env ...string) *result {
	in, err := json.Marshal(sc)
	if err != nil {
		trouble("%v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), watchdog)
	defer cancel()
	c := exec.CommandContext(ctx, w.bin)
	c.Dir = dir
	c.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	c.Env = append(append([]string{"TMPDIR=" + w.tmp}, baseEnv...), env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	err = c.Run()
	r := &result{stderr: se.String()}
	if ctx.Err() != nil {
		f, _ := os.CreateTemp(w.tmp, "watchdog")
		if f != nil {
			_, _ = f.Write(in)
			_ = f.Close()
			trouble("a simulated run did not end within %v, scenario in %s", watchdog, f.Name())
		}
		trouble("a simulated run did not end within %v", watchdog)
	}
	rep := &scen.Report{}
	if jerr := json.Unmarshal(so.Bytes(), rep); jerr == nil && rep.Done {
		r.rep = rep
	}
	r.races = races(r.stderr)
	if r.rep == nil {
		r.crash = classify(err, r.stderr)
	}
	return r
}

var hexRe = regexp.MustCompile(`0x[0-9a-f]+`)

func classify(err error, stderr string) *crash {
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		trouble("cannot run worker: %v", err)
	}
	if xe != nil && xe.ExitCode() == 3 {
		trouble("worker: %s", stderr)
	}
	c := &crash{}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "SIGSEGV") {
			c.class = "crash: " + hexRe.ReplaceAllString(l, "0x..")
			if strings.Contains(l, "deadlock!") {
				c.class = "deadlock"
			}
			if strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
				c.class = "crash: stack overflow"
			}
			break
		}
	}
	if c.class == "" {
		ws, ok := syscall.WaitStatus(0), false
		if xe != nil {
			ws, ok = xe.Sys().(syscall.WaitStatus)
		}
		switch {
		case ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL:
			trouble("worker was killed (out of memory?): %.2000s", stderr)
		case ok && ws.Signaled():
			c.class = "crash: signal " + ws.Signal().String()
		case ok:
			c.class = fmt.Sprintf("crash: process ended with status %d", ws.ExitStatus())
		default:
			c.class = "crash: process ended"
		}
	}
	c.text = c.class
	fr := frames(stderr)
	if len(fr) > 0 {
		c.text += " at " + strings.Join(fr, " < ")
	}
	return c
}

// frames returns the functions of the code under test in a stack trace
func frames(s string) (fr []string) {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/lyraproj/") {
			f := strings.TrimPrefix(l, "github.com/lyraproj/")
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			if len(fr) < 6 {
				fr = append(fr, f)
			}
		}
	}
	return
}

// races finds the reports of the race detector
func races(s string) (rs []race) {
	const sep = "=================="
	for _, blk := range strings.Split(s, sep) {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		var r race
		r.text = strings.TrimSpace(blk)
		k := -1
		for _, l := range strings.Split(blk, "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Previous"):
				k++
			case strings.HasPrefix(t, "Goroutine"):
				k = 2
			case k >= 0 && k < 2 && r.funcs[k] == "" && strings.HasPrefix(t, "github.com/lyraproj/"):
				f := strings.TrimPrefix(t, "github.com/lyraproj/")
				if i := strings.LastIndex(f, "("); i > 0 {
					f = f[:i]
				}
				r.funcs[k] = f
			}
		}
		rs = append(rs, r)
	}
	return
}

func digest(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		trouble("%v", err)
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:12])
}

// memo remembers outcomes of reference runs. Each of them is a process of its own
type memo struct {
	m  sync.Mutex
	e  map[string]*memoEntry
	n  int
	ok int
}

type memoEntry struct {
	once sync.Once
	v    interface{}
	p    interface{}
}

func (m *memo) get(key string, f func() interface{}) interface{} {
	m.m.Lock()
	if m.e == nil {
		m.e = make(map[string]*memoEntry)
	}
	e := m.e[key]
	if e == nil {
		e = &memoEntry{}
		m.e[key] = e
		m.n++
	}
	m.m.Unlock()
	e.once.Do(func() {
		defer func() { e.p = recover() }()
		e.v = f()
	})
	if e.p != nil {
		panic(e.p)
	}
	return e.v
}

// forget drops everything that is remembered
func (m *memo) forget() {
	m.m.Lock()
	m.e = nil
	m.m.Unlock()
}
