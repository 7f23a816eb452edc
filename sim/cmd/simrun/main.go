// Command simrun is the worker: one process is one simulated run (or one batch of independent runs).
// It reads a scenario from standard input and writes a report to standard output.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"

	"verif.local/sim/scen"
	"verif.local/sim/yield"
)

func main() {
	debug.SetMaxStack(256 << 20)
	if !yield.RaceBuild {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30})
	}
	ballast()
	report := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	var sc scen.Scenario
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		fmt.Fprintln(os.Stderr, "bad scenario:", err)
		os.Exit(3)
	}
	rep := &scen.Report{}
	if sc.Cover > 0 {
		yield.SetCover(sc.Cover)
		rep.Cover = make([]byte, sc.Cover)
	}
	syscall.VerifFS()
	if sc.Mode == "history" {
		history(&sc, rep)
	} else if sc.Mode == "retain" {
		retain(&sc, rep)
	} else if sc.Mode == "cli" {
		for i := range sc.Cli {
			rep.Cli = append(rep.Cli, cliModel(&sc.Cli[i]))
		}
	} else {
		runBatch(&sc, rep)
	}
	if c := yield.Cover(); c != nil {
		for i, x := range c {
			if x != 0 {
				rep.Cover[i] = 1
			}
		}
	}
	rep.Done = true
	if err := json.NewEncoder(report).Encode(rep); err != nil {
		os.Exit(3)
	}
}

func history(sc *scen.Scenario, rep *scen.Report) {
	if yield.RaceBuild {
		go watch()
	}
	main := &env{full: sc.Full, budget: sc.Budget}
	main.shared = main
	for i := range sc.Setup {
		rep.Setup = append(rep.Setup, main.do(&sc.Setup[i]))
	}
	if len(sc.Tasks) > 0 {
		before := yield.RaceErrors()
		fs := make([]func(), len(sc.Tasks))
		outs := make([][]scen.Out, len(sc.Tasks))
		for i := range sc.Tasks {
			i := i
			ops := sc.Tasks[i]
			outs[i] = make([]scen.Out, len(ops))
			e := &env{full: sc.Full, shared: main, inTask: true}
			fs[i] = func() {
				for k := range ops {
					outs[i][k] = e.do(&ops[k])
				}
			}
		}
		runtime.GC()
		debug.SetGCPercent(-1)
		debug.SetMemoryLimit(2 << 30)
		if sc.Cover > 0 {
			yield.SetCover(sc.Cover) // only what the tasks reach counts
		}
		oc := yield.Run(sc.Plan, fs)
		debug.SetGCPercent(100)
		rep.Outcome = &oc
		rep.Tasks = outs
		rep.Races = yield.RaceErrors() - before
		rep.Steps = oc.Steps
	}
	if rep.Outcome != nil && rep.Outcome.Deadlock {
		return
	}
	for i := range sc.Final {
		rep.Final = append(rep.Final, main.do(&sc.Final[i]))
	}
	for _, o := range rep.Setup {
		rep.Steps += o.S
	}
}

var keep [][]byte

// ballast moves the addresses of everything that is allocated later
func ballast() {
	n, err := strconv.Atoi(os.Getenv("VERIF_BALLAST"))
	if err != nil {
		return
	}
	x := uint64(n)
	for i := 0; i < n%4096; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		keep = append(keep, make([]byte, 1+(x>>33)%512))
	}
}

// watch ends a process whose only goroutine waits forever. The runtime does not find that out when cgo is
// in use
func watch() {
	same := 0
	last := int64(-1)
	for {
		time.Sleep(time.Second)
		n, on := yield.Progress()
		if !on || n != last {
			same, last = 0, n
			continue
		}
		if same++; same == 10 {
			fmt.Fprintln(os.Stderr, "fatal error: all goroutines are asleep - deadlock!")
			os.Exit(2)
		}
	}
}
