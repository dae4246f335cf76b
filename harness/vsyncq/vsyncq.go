// Package sync mirrors the standard sync package on top of the controlled
// scheduler; cmd/instr points the code under test at it.
package sync

import (
	"mcverif/vs"
	"sync"
)

const quiet = true

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex mirrors sync.Mutex.
type Mutex struct{ l vs.RW }

// Lock locks m.
func (m *Mutex) Lock() { m.l.Lock(quiet) }

// Unlock unlocks m.
func (m *Mutex) Unlock() { m.l.Unlock() }

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool { return m.l.TryLock(quiet) }

// RWMutex mirrors sync.RWMutex.
type RWMutex struct{ l vs.RW }

// Lock locks m for writing.
func (m *RWMutex) Lock() { m.l.Lock(quiet) }

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() { m.l.Unlock() }

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool { return m.l.TryLock(quiet) }

// RLock locks m for reading.
func (m *RWMutex) RLock() { m.l.RLock(quiet) }

// RUnlock undoes a RLock.
func (m *RWMutex) RUnlock() { m.l.RUnlock() }

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool { return m.l.TryRLock(quiet) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	n    int
	b    byte
	real sync.WaitGroup
}

// Add adds delta.
func (w *WaitGroup) Add(d int) {
	if !vs.Active() {
		w.real.Add(d)
		return
	}
	if d < 0 {
		vs.Release(&w.b)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Wait waits for zero.
func (w *WaitGroup) Wait() {
	if !vs.Active() {
		w.real.Wait()
		return
	}
	vs.Soft()
	if w.n > 0 {
		vs.Block(func() bool { return w.n == 0 })
	}
	vs.Acquire(&w.b)
}

// Go runs f in a new goroutine counted by w.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() { defer w.Done(); f() })
}

// Cond mirrors sync.Cond.
type Cond struct {
	L    Locker
	wait []*bool
	b    byte
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	woken := new(bool)
	c.wait = append(c.wait, woken)
	c.L.Unlock()
	vs.Block(func() bool { return *woken })
	vs.Acquire(&c.b)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	vs.Release(&c.b)
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	vs.Release(&c.b)
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
}

// Pool mirrors sync.Pool (last in, first out, never drops).
type Pool struct {
	New func() any
	m   sync.Mutex
	s   []any
}

// Get takes an item.
func (p *Pool) Get() any {
	vs.Soft()
	p.m.Lock()
	defer p.m.Unlock()
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v any) {
	vs.Soft()
	p.m.Lock()
	defer p.m.Unlock()
	p.s = append(p.s, v)
}

// Map mirrors sync.Map; every operation is a scheduling point.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vs.Soft(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vs.Soft(); m.m.Store(k, v) }
func (m *Map) Clear()                           { vs.Soft(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vs.Soft(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vs.Soft(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vs.Soft(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vs.Soft(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vs.Soft(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vs.Soft(); return m.m.CompareAndDelete(k, o) }

// Range goes through the keys in the order of their text.
func (m *Map) Range(f func(k, v any) bool) {
	vs.Soft()
	all := map[any]struct{}{}
	m.m.Range(func(k, _ any) bool {
		all[k] = struct{}{}
		return true
	})
	for it := vs.MapIter(all); it.Next(); {
		if v, ok := m.m.Load(it.Key()); ok && !f(it.Key(), v) {
			return
		}
	}
}
