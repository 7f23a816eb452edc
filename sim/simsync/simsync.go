// Package simsync replaces the sync package in instrumented code. The types use the real
// primitives (so that the race detector sees the real happens-before edges) but a task that must
// wait does so in the cooperative scheduler.
package simsync

import (
	"sync"

	"verif.local/sim/yield"
)

type Locker = sync.Locker
type Map = sync.Map

// Pool hands out what was put in last: any result of Get that the real pool can have is a legal one, and
// this is the one that shows an object that is still in use after it was put back, or that was not
// reset. As in the real pool, Put happens before the Get that returns the same object.
type Pool struct {
	New   func() any
	items []*pooled
}

type pooled struct {
	x any
	m sync.Mutex
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	it := &pooled{x: x}
	it.m.Lock()
	it.m.Unlock()
	p.push(it)
}

//go:norace
func (p *Pool) push(it *pooled) {
	if len(p.items) < 64 {
		p.items = append(p.items, it)
	}
}

//go:norace
func (p *Pool) pop() *pooled {
	n := len(p.items)
	if n == 0 {
		return nil
	}
	it := p.items[n-1]
	p.items = p.items[:n-1]
	return it
}

func (p *Pool) Get() any {
	if it := p.pop(); it != nil {
		it.m.Lock()
		it.m.Unlock()
		return it.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !yield.Active() {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		yield.Blocked()
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

// RWMutex lets no more readers in while a writer waits, like the real one
type RWMutex struct {
	m       sync.RWMutex
	waiting int
}

//go:norace
func (m *RWMutex) wait(n int) { m.waiting += n }

//go:norace
func (m *RWMutex) writers() bool { return m.waiting > 0 }

func (m *RWMutex) Lock() {
	if !yield.Active() {
		m.m.Lock()
		return
	}
	if m.m.TryLock() {
		return
	}
	m.wait(1)
	defer m.wait(-1)
	for !m.m.TryLock() {
		yield.Blocked()
	}
}
func (m *RWMutex) RLock() {
	if !yield.Active() {
		m.m.RLock()
		return
	}
	for m.writers() || !m.m.TryRLock() {
		yield.Blocked()
	}
}
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool  { return !m.writers() && m.m.TryRLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	m    Mutex
	rw   sync.RWMutex
	done bool
}

func (o *Once) Do(f func()) {
	o.rw.RLock()
	d := o.done
	o.rw.RUnlock()
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.rw.Lock()
			o.done = true
			o.rw.Unlock()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	wg sync.WaitGroup
	m  sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	w.m.Unlock()
	w.wg.Add(d)
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if yield.Active() {
		for {
			w.m.Lock()
			n := w.n
			w.m.Unlock()
			if n == 0 {
				break
			}
			yield.Blocked()
		}
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	yield.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L Locker
	m sync.Mutex
	n uint64 // generation
	w int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.m.Lock()
	g := c.n
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		n := c.n
		c.m.Unlock()
		if n != g {
			break
		}
		yield.Blocked()
	}
	c.L.Lock()
}
func (c *Cond) Signal()    { c.Broadcast() }
func (c *Cond) Broadcast() { c.m.Lock(); c.n++; c.m.Unlock() }
