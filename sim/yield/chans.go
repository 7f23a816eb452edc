package yield

import (
	"reflect"
	"runtime"
	"sync"
	"time"
)

// Channel operations of a scheduled task never block: it is a matter of the scheduler when a buffer has room or
// when a sender and a receiver meet. They can still meet goroutines that are not scheduled.

// Case is one of the operations of a select statement
type Case interface {
	id() uintptr
	size() int
	sends() bool
	get() any
	put(v any)
	try() bool // performs the operation if it is possible right now, ignoring what is waiting in the schedule
	native() reflect.SelectCase
	done(v reflect.Value, ok bool)
	timer() bool
}

// SendCase is a send operation
type SendCase[T any] struct {
	C chan<- T
	V T
}

// RecvCase is a receive operation and, later, what it received
type RecvCase[T any] struct {
	C  <-chan T
	V  T
	OK bool
}

// CaseSend evaluates the operands of a send operation
func CaseSend[T any](c chan<- T) func(v T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{C: c, V: v} }
}

// CaseRecv evaluates the operand of a receive operation
func CaseRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{C: c} }

func (x *SendCase[T]) id() uintptr { return reflect.ValueOf(x.C).Pointer() }
func (x *SendCase[T]) size() int   { return cap(x.C) }
func (x *SendCase[T]) sends() bool { return true }
func (x *SendCase[T]) get() any    { return x.V }
func (x *SendCase[T]) put(any)     {}
func (x *SendCase[T]) timer() bool { return false }
func (x *SendCase[T]) try() bool {
	select {
	case x.C <- x.V:
		return true
	default:
	}
	return false
}
func (x *SendCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(x.C), Send: reflect.ValueOf(&x.V).Elem()}
}
func (x *SendCase[T]) done(reflect.Value, bool) {}

func (x *RecvCase[T]) id() uintptr { return reflect.ValueOf(x.C).Pointer() }
func (x *RecvCase[T]) size() int   { return cap(x.C) }
func (x *RecvCase[T]) sends() bool { return false }
func (x *RecvCase[T]) get() any    { return nil }
func (x *RecvCase[T]) put(v any)   { x.V, _ = v.(T); x.OK = true }
func (x *RecvCase[T]) timer() bool {
	_, ok := any(&x.V).(*time.Time)
	return ok
}
func (x *RecvCase[T]) try() bool {
	select {
	case v, ok := <-x.C:
		x.V, x.OK = v, ok
		return true
	default:
	}
	return false
}
func (x *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(x.C)}
}
func (x *RecvCase[T]) done(v reflect.Value, ok bool) {
	if v.IsValid() && v.CanInterface() {
		x.V, _ = v.Interface().(T)
	}
	x.OK = ok
}

// waiter is a task that waits for another one to come to one of the channels without a buffer
type waiter struct {
	ids   []uintptr // 0 unless the channel has no buffer
	cases []Case
	met   int // index of the case, -1 = none yet
	v     any
	m     *sync.Mutex // what happens before either side comes happens before what either does next
}

//go:norace
func (s *sched) wait(cs []Case) *waiter {
	w := &waiter{cases: cs, met: -1, m: new(sync.Mutex)}
	for _, x := range cs {
		id := uintptr(0)
		if x.size() == 0 {
			id = x.id()
		}
		w.ids = append(w.ids, id)
	}
	s.waiters = append(s.waiters, w)
	return w
}

//go:norace
func (s *sched) unwait(w *waiter) {
	for i, x := range s.waiters {
		if x == w {
			// The race detector sees what copy and append do
			for ; i+1 < len(s.waiters); i++ {
				s.waiters[i] = s.waiters[i+1]
			}
			s.waiters = s.waiters[:i]
			return
		}
	}
}

// meet looks for a task that waits for the other side of the operation
//
//go:norace
func (s *sched) meet(me *waiter, id uintptr, send bool) (*waiter, int) {
	for _, w := range s.waiters {
		if w == me {
			continue
		}
		for i := range w.ids {
			if w.ids[i] == id && w.cases[i].sends() != send {
				s.unwait(w)
				return w, i
			}
		}
	}
	return nil, 0
}

//go:norace
func (w *waiter) give(i int, v any) { w.met, w.v = i, v }

//go:norace
func (w *waiter) result() (int, any) { return w.met, w.v }

//go:norace
func (w *waiter) mutex() *sync.Mutex { return w.m }

// scheduled tells if the current goroutine is a task of the schedule
//
//go:norace
func scheduled() bool { return active && s.self() != nil }

//go:norace
func start(n int) int {
	if n < 2 {
		return 0
	}
	return int(splitmix(&s.rng) % uint64(n))
}

//go:norace
func (s *sched) timing() { s.timers = true }

func poll(me *waiter, cs []Case, from int) int {
	for k := range cs {
		i := (from + k) % len(cs)
		x := cs[i]
		if x.size() == 0 {
			if id := x.id(); id != 0 {
				if w, j := s.meet(me, id, x.sends()); w != nil {
					m := w.mutex()
					m.Lock()
					if x.sends() {
						w.give(j, x.get())
					} else {
						x.put(w.cases[j].get())
						w.give(j, nil)
					}
					m.Unlock()
					return i
				}
			}
		}
		if x.try() {
			return i
		}
	}
	return -1
}

// Select performs one of the operations and returns its index. It returns -1 when there is a default case
// and none of the operations is possible
func Select(def bool, cs ...Case) int {
	if !scheduled() {
		return native(def, cs)
	}
	for _, x := range cs {
		if x.timer() {
			s.timing()
		}
	}
	from := start(len(cs))
	if i := poll(nil, cs, from); i >= 0 || def {
		return i
	}
	// Gives a goroutine that is not scheduled the time to get to its side of an operation
	for i := 0; i < 200 && foreign.Load() > 0; i++ {
		runtime.Gosched()
		if i := poll(nil, cs, from); i >= 0 {
			return i
		}
	}
	w := s.wait(cs)
	m := w.mutex()
	m.Lock()
	m.Unlock()
	for {
		Blocked()
		if i, v := w.result(); i >= 0 {
			m.Lock()
			m.Unlock()
			cs[i].put(v)
			return i
		}
		if !scheduled() {
			break
		}
		if i := poll(w, cs, from); i >= 0 {
			s.unwait(w)
			return i
		}
	}
	return native(def, cs)
}

func native(def bool, cs []Case) int {
	var l []reflect.SelectCase
	for _, x := range cs {
		l = append(l, x.native())
	}
	if def {
		l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(l)
	if i == len(cs) {
		return -1
	}
	cs[i].done(v, ok)
	return i
}

// Sender performs a send operation
func Sender[T any](c chan<- T) func(T) {
	return func(v T) {
		if !scheduled() {
			c <- v
			return
		}
		Select(false, &SendCase[T]{C: c, V: v})
	}
}

// Recv performs a receive operation
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 performs a receive operation that tells if the channel is closed
func Recv2[T any](c <-chan T) (T, bool) {
	if !scheduled() {
		v, ok := <-c
		return v, ok
	}
	x := &RecvCase[T]{C: c}
	Select(false, x)
	return x.V, x.OK
}
