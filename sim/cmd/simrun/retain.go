package main

import (
	"os"
	"path"
	"runtime"
	"strconv"
	"time"

	"verif.local/sim/gen"
	"verif.local/sim/scen"
)

// creates tells if an operation makes an instance
func creates(k string) bool {
	switch k {
	case "newparser", "pspec", "newval", "newpv", "demote":
		return true
	}
	return false
}

// retain performs the operations again and again, with other names, texts and numbers in the sources each
// time, forgets the results, and takes stock after each phase
func retain(sc *scen.Scenario, rep *scen.Report) {
	var e *env
	n := 0
	runtime.GOMAXPROCS(1)
	start := level(0, -1)
	for _, p := range sc.Phases {
		for i := 0; i < p; i++ {
			if e == nil || !sc.Reuse {
				e = &env{budget: sc.Budget}
				e.shared = e
			}
			for k := range sc.Setup {
				op := sc.Setup[k]
				if sc.Reuse && n > 0 && creates(op.K) {
					continue
				}
				if op.Src != nil {
					op.Src = gen.Renumber(op.Src, n)
				}
				if op.File != "" && op.K != "read" && op.K != "write" {
					op.File = path.Join(path.Dir(op.File), strconv.Itoa(n)+path.Base(op.File))
				}
				o := e.do(&op)
				rep.Steps += o.S
				if n == 0 {
					rep.Setup = append(rep.Setup, o)
				}
			}
			n++
		}
		if !sc.Reuse {
			e = nil
		}
		l := level(n, start.Goroutines)
		rep.Levels = append(rep.Levels, l)
		if l.Bytes-start.Bytes > 600<<20 {
			break
		}
	}
	runtime.KeepAlive(e)
}

// level counts what is alive
func level(n, goroutines int) scen.Level {
	for i := 0; i < 100 && goroutines >= 0 && runtime.NumGoroutine() > goroutines; i++ {
		// Those that are about to end may do so
		runtime.Gosched()
		if i > 20 {
			time.Sleep(time.Millisecond)
		}
	}
	l := scen.Level{N: n, Goroutines: runtime.NumGoroutine()}
	if d, err := os.ReadDir("/proc/self/fd"); err == nil {
		l.Files = len(d)
	}
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	l.Objects, l.Bytes = int64(m.HeapObjects), int64(m.HeapAlloc)
	return l
}
