// Package yield is the simulator's cooperative scheduler. Instrumented code calls P before every
// statement; P is the only place where the simulated machine can move from one task to another.
// Exactly one task runs at a time, every switch is decided by the scheduler (from a seeded PRNG or
// from an explicit list when a run is replayed) and every switch that happens is recorded.
//
// In a race build the hand-over between tasks is hidden from the race detector (RaceDisable), so
// that the only happens-before edges the detector knows about are the ones that the code under
// test creates itself. All scheduler functions are therefore exempt from race instrumentation.
package yield

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"
)

// StepLimit is the panic value used to end a run that exceeds its step budget.
type StepLimit struct{ Steps int64 }

func (s StepLimit) Error() string { return fmt.Sprintf("step budget of %d exceeded", s.Steps) }

// Switch says that just before the given scheduler step, the machine moves to the given task.
type Switch struct {
	Step int64 `json:"step"`
	To   int   `json:"to"`
	Wait bool  `json:"wait,omitempty"` // since the task ended or had to wait, after the step
}

// Plan decides a schedule.
type Plan struct {
	Strategy string   `json:"strategy"` // "random", "pct", "hot", "serial" or "explicit"
	Seed     uint64   `json:"seed"`
	Gap      int64    `json:"gap"`     // mean number of steps between switches (random, hot)
	Horizon  int64    `json:"horizon"` // estimated number of steps (pct)
	Depth    int      `json:"depth"`   // number of priority change points (pct)
	HotLo    uint32   `json:"hotLo"`   // sites that are switched at eagerly (hot)
	HotHi    uint32   `json:"hotHi"`
	Switches []Switch `json:"switches,omitempty"` // explicit
	Budget   int64    `json:"budget"`
}

type task struct {
	id       int
	ch       chan struct{}
	done     bool
	external bool
	gid      int64
	prio     uint64
	given    bool // not started by the code under test
	left     bool // left the schedule for good
}

type sched struct {
	plan     Plan
	rng      uint64
	tasks    []*task
	cur      *task
	step     int64
	next     int64 // step of next planned switch
	nextIdx  int
	changes  []int64
	low      uint64
	trace    []Switch
	blocked  int
	deadlock bool
	all      chan struct{}
	ended    bool          // all is closed
	over     chan struct{} // closed when the schedule is no longer active
	external int
	waited   int // for goroutines outside of the schedule, in milliseconds
	lock     atomic.Int32
	waiters  []*waiter
	timers   bool // the code under test waits for timers
	reason   string
	hist     uint64 // order sensitive digest of (site, task) at each switch
	sites    uint64
}

// foreign is the number of goroutines that the code under test has started outside of a schedule
var foreign atomic.Int32

var (
	active bool
	s      *sched

	// Counting mode is used when no schedule is simulated: P only counts and enforces a budget.
	counting bool
	count    int64
	budget   int64
	exceeded bool

	cover []uint8 // sites that have been hit
	edges []uint8 // pairs of consecutive sites that have been hit
	prev  uint32
	fresh int // pairs that were hit for the first time
)

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SetCover enables recording of sites
//
//go:norace
func SetCover(n int) { cover = make([]uint8, n) }

//go:norace
func Cover() []uint8 { return cover }

// EdgeCount is the number of pairs of sites that are distinguished
const EdgeCount = 1 << 16

// SetEdges enables recording of pairs of sites
//
//go:norace
func SetEdges(known []uint8) {
	edges = make([]uint8, EdgeCount)
	copy(edges, known)
}

//go:norace
func Edges() []uint8 { return edges }

// Fresh returns the number of pairs that were hit for the first time since the last call
//
//go:norace
func Fresh() int { n := fresh; fresh, prev = 0, 0; return n }

// StartCount puts the package in counting mode with the given budget (0 = unlimited)
//
//go:norace
func StartCount(b int64) { counting, count, budget, exceeded = true, 0, b, false }

// StopCount ends the counting mode and returns the number of steps
//
//go:norace
func StopCount() int64 { counting = false; return count }

// Progress changes as long as steps are counted
//
//go:norace
func Progress() (n int64, on bool) {
	if active {
		return s.step, true
	}
	return count, counting
}

// Exceeded tells if the budget was exceeded since StartCount
//
//go:norace
func Exceeded() bool { return exceeded }

// P is called before each statement
//
//go:norace
func P(site uint32) {
	if cover != nil && int(site) < len(cover) {
		cover[site] = 1
	}
	if edges != nil {
		h := (prev*0x9e37 ^ site) & (EdgeCount - 1)
		prev = site
		if edges[h] == 0 {
			edges[h] = 1
			fresh++
		}
	}
	if !active {
		if counting {
			count++
			if budget > 0 && count > budget {
				counting, exceeded = false, true
				panic(StepLimit{budget})
			}
		}
		return
	}
	s.point(site)
}

// enter and exit protect what a goroutine that is not the current task (since it comes back from an operation
// that the scheduler does not control) shares with the one that is. They are called with RaceDisable in effect
//
//go:norace
func (s *sched) enter() {
	for !s.lock.CompareAndSwap(0, 1) {
		runtime.Gosched()
	}
}

//go:norace
func (s *sched) exit() { s.lock.Store(0) }

// end ends the schedule
//
//go:norace
func (s *sched) end() {
	if !s.ended {
		s.ended = true
		close(s.all)
	}
}

//go:norace
func (s *sched) self() *task {
	if s.external == 0 && foreign.Load() == 0 {
		return s.cur
	}
	g := gid()
	for _, t := range s.tasks {
		if t.gid == g {
			return t
		}
	}
	return nil
}

//go:norace
func (s *sched) point(site uint32) {
	me := s.self()
	if me == nil {
		return
	}
	if me.external && !s.rejoin(me) {
		return
	}
	s.step++
	s.blocked = 0
	if s.plan.Budget > 0 && s.step > s.plan.Budget {
		s.plan.Budget += s.plan.Budget / 4 // lets deferred functions run
		s.reason = "step budget exceeded"
		panic(StepLimit{s.step})
	}
	if len(s.tasks) < 2 {
		return
	}
	var to *task
	switch s.plan.Strategy {
	case "explicit":
		for s.nextIdx < len(s.plan.Switches) && s.plan.Switches[s.nextIdx].Step < s.step {
			s.nextIdx++
		}
		if s.nextIdx < len(s.plan.Switches) && s.plan.Switches[s.nextIdx].Step == s.step && !s.plan.Switches[s.nextIdx].Wait {
			to = s.byID(s.plan.Switches[s.nextIdx].To)
			s.nextIdx++
		}
	case "random":
		if s.step >= s.next {
			s.next = s.step + s.gap(s.plan.Gap)
			to = s.other(me)
		}
	case "hot":
		if site >= s.plan.HotLo && site <= s.plan.HotHi {
			if splitmix(&s.rng)&1 == 0 {
				to = s.other(me)
			}
		} else if s.step >= s.next {
			s.next = s.step + s.gap(s.plan.Gap)
			to = s.other(me)
		}
	case "pct":
		for s.nextIdx < len(s.changes) && s.changes[s.nextIdx] <= s.step {
			s.nextIdx++
			s.low--
			me.prio = s.low
		}
		to = s.highest()
	}
	if to != nil && to != me && !to.done && !to.external {
		s.record(to, site)
		s.transfer(me, to)
	}
}

//go:norace
func (s *sched) record(to *task, site uint32) {
	s.trace = append(s.trace, Switch{s.step, to.id, site >= 0xfffff0})
	h := s.hist ^ (uint64(site)<<8 | uint64(to.id+1))
	s.hist = splitmix(&h)
}

//go:norace
func (s *sched) gap(mean int64) int64 {
	if mean <= 1 {
		return 1
	}
	return 1 + int64(splitmix(&s.rng)%uint64(2*mean-1))
}

//go:norace
func (s *sched) byID(id int) *task {
	if id >= 0 && id < len(s.tasks) {
		return s.tasks[id]
	}
	return nil
}

//go:norace
func (s *sched) runnable(except *task) []*task {
	r := make([]*task, 0, len(s.tasks))
	for _, t := range s.tasks {
		if t != except && !t.done && !t.external {
			r = append(r, t)
		}
	}
	return r
}

//go:norace
func (s *sched) other(me *task) *task {
	r := s.runnable(me)
	if len(r) == 0 {
		return nil
	}
	return r[splitmix(&s.rng)%uint64(len(r))]
}

//go:norace
func (s *sched) highest() *task {
	var best *task
	for _, t := range s.tasks {
		if !t.done && !t.external && (best == nil || t.prio > best.prio) {
			best = t
		}
	}
	return best
}

// pick chooses the task to run when the current task cannot continue
//
//go:norace
func (s *sched) pick(me *task) *task {
	r := s.runnable(me)
	if len(r) == 0 {
		return nil
	}
	switch s.plan.Strategy {
	case "explicit":
		// Use the recorded decision when there is one for this step
		for i := s.nextIdx; i < len(s.plan.Switches) && s.plan.Switches[i].Step <= s.step; i++ {
			if s.plan.Switches[i].Step == s.step && s.plan.Switches[i].Wait {
				s.nextIdx = i + 1
				if t := s.byID(s.plan.Switches[i].To); t != nil && t != me && !t.done && !t.external {
					return t
				}
			}
		}
		return after(r, me)
	case "pct":
		best := r[0]
		for _, t := range r {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "serial":
		return after(r, me)
	}
	return r[splitmix(&s.rng)%uint64(len(r))]
}

// after gives every task its turn, so that no task is passed over while others wait for it
//
//go:norace
func after(r []*task, me *task) *task {
	if me != nil {
		for _, t := range r {
			if t.id > me.id {
				return t
			}
		}
	}
	return r[0]
}

//go:norace
func (s *sched) transfer(me, to *task) {
	raceDisable()
	s.cur = to
	to.ch <- struct{}{}
	<-me.ch
	raceEnable()
}

// Blocked is called by a task that cannot make progress until some other task does
//
//go:norace
func Blocked() {
	if !active {
		runtime.Gosched()
		return
	}
	me := s.self()
	if me == nil {
		runtime.Gosched()
		return
	}
	if me.external && !s.rejoin(me) {
		return
	}
	if s.givenDone() {
		s.leave(me)
		return
	}
	s.blocked++
	if s.blocked > 50*(len(s.tasks)+1) && s.external == 0 && s.patience() {
		s.deadlock = true
		s.reason = "deadlock"
		panic(StepLimit{s.step})
	}
	if s.plan.Strategy == "pct" {
		s.low--
		me.prio = s.low
	}
	if to := s.pick(me); to != nil {
		s.record(to, 0xffffff)
		s.transfer(me, to)
	} else if s.external > 0 {
		runtime.Gosched()
	}
}

// patience tells if goroutines that are not scheduled have had the time to do what the tasks wait for
//
//go:norace
func (s *sched) patience() bool {
	if foreign.Load() == 0 && !s.timers {
		return true
	}
	time.Sleep(time.Millisecond)
	s.waited++
	return s.waited > 3000
}

// Active tells if a schedule is being simulated
//
//go:norace
func Active() bool { return active }

// Block is called before an operation that may block outside of the scheduler's control (channel
// operations). The task gives up its turn and takes it back in the next call to P.
//
//go:norace
func Block() {
	if !active {
		return
	}
	me := s.self()
	if me == nil || me.external {
		return
	}
	raceDisable()
	for _, t := range s.tasks {
		for t.gid == 0 {
			runtime.Gosched() // about to start
		}
	}
	s.enter()
	me.external = true
	s.external++
	if to := s.pick(me); to != nil {
		s.record(to, 0xfffffe)
		s.cur = to
		to.ch <- struct{}{}
	} else {
		s.cur = nil
		if s.givenDone() {
			s.end()
		}
	}
	s.exit()
	raceEnable()
}

// rejoin tells if the task takes part in the schedule again
//
//go:norace
func (s *sched) rejoin(me *task) bool {
	raceDisable()
	s.enter()
	if me.left {
		s.exit()
		raceEnable()
		return false
	}
	me.external = false
	s.external--
	s.blocked, s.waited = 0, 0
	wait := s.cur != nil
	if !wait {
		s.cur = me
	}
	s.exit()
	if wait {
		select {
		case <-me.ch:
		case <-s.over:
			me.left = true
			foreign.Add(1)
		}
	}
	raceEnable()
	return !me.left
}

// Go starts a new task. Used in place of the go statement in instrumented code
//
//go:norace
func Go(f func()) {
	if !active || s.self() == nil {
		foreign.Add(1)
		go func() {
			defer foreign.Add(-1)
			f()
		}()
		return
	}
	t := s.newTask()
	go s.run(t, f)
}

//go:norace
func (s *sched) newTask() *task {
	t := &task{id: len(s.tasks), ch: make(chan struct{}, 1)}
	t.prio = splitmix(&s.rng)>>1 | 1<<62
	s.tasks = append(s.tasks, t)
	return t
}

//go:norace
func (s *sched) run(t *task, f func()) {
	raceDisable()
	t.gid = gid()
	<-t.ch
	raceEnable()
	defer s.finish(t)
	f()
}

//go:norace
func (s *sched) finish(t *task) {
	if t.external {
		s.rejoin(t)
	}
	if t.left {
		foreign.Add(-1)
		return
	}
	raceDisable()
	s.enter()
	t.done = true
	if to := s.pick(t); to != nil {
		s.record(to, 0xfffffd)
		s.cur = to
		to.ch <- struct{}{}
	} else if s.external > 0 && !s.givenDone() {
		s.cur = nil
	} else {
		s.end()
	}
	s.exit()
	raceEnable()
}

// givenDone tells if all tasks have ended that were not started by the code under test
//
//go:norace
func (s *sched) givenDone() bool {
	for _, t := range s.tasks {
		if t.given && !t.done {
			return false
		}
	}
	return true
}

// leave is called by a task that waits for something that will not happen before all others have ended. It
// goes on outside of the schedule, in the meantime it is only in the way
//
//go:norace
func (s *sched) leave(me *task) {
	raceDisable()
	s.enter()
	me.done, me.left = true, true
	if to := s.pick(me); to != nil {
		s.record(to, 0xfffffb)
		s.cur = to
		to.ch <- struct{}{}
	} else {
		s.end()
	}
	s.exit()
	foreign.Add(1)
	<-s.over
	raceEnable()
}

// Outcome of a simulated schedule
type Outcome struct {
	Steps    int64
	Trace    []Switch
	Digest   uint64
	Reason   string
	Deadlock bool
}

// Run runs the given tasks under the given plan. The functions must not panic.
//
//go:norace
func Run(plan Plan, fs []func()) Outcome {
	s = &sched{plan: plan, rng: plan.Seed ^ 0x5bd1e995, all: make(chan struct{}), over: make(chan struct{}), low: 1 << 40}
	if plan.Strategy == "pct" && plan.Horizon > 0 {
		for i := 0; i < plan.Depth; i++ {
			s.changes = append(s.changes, int64(splitmix(&s.rng)%uint64(plan.Horizon)))
		}
		for i := range s.changes {
			for j := i + 1; j < len(s.changes); j++ {
				if s.changes[j] < s.changes[i] {
					s.changes[i], s.changes[j] = s.changes[j], s.changes[i]
				}
			}
		}
	}
	s.next = s.gap(plan.Gap)
	done := make(chan struct{}, len(fs))
	for _, f := range fs {
		f := f
		t := s.newTask()
		t.given = true
		go s.run(t, func() { defer func() { done <- struct{}{} }(); f() })
	}
	active = true
	first := s.pick(nil)
	s.record(first, 0xfffffc)
	raceDisable()
	s.cur = first
	first.ch <- struct{}{}
	raceEnable()
	<-s.all
	raceDisable()
	s.enter()
	active = false
	for _, t := range s.tasks {
		if t.external && !t.done {
			t.left = true
			foreign.Add(1)
		}
	}
	close(s.over)
	s.exit()
	raceEnable()
	for range fs {
		<-done
	}
	return Outcome{s.step, s.trace, s.hist, s.reason, s.deadlock}
}
