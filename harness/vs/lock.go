package vs

import (
	"sync"
)

// RW is a reader/writer lock with the semantics of sync.RWMutex (a waiting
// writer blocks new readers; readers waiting at unlock time go first).
type RW struct {
	real  sync.RWMutex
	w     bool
	r     int
	wWait int
	rWait int
	admit int
	a, b  byte // race annotation addresses
	Quiet bool // no scheduling point when uncontended
}

// Lock acquires the lock for writing.
func (l *RW) Lock(quiet bool) {
	s := active
	if s == nil {
		l.real.Lock()
		return
	}
	if !quiet || s.aborting {
		Point()
	}
	if l.w || l.r > 0 {
		l.wWait++
		s.block(func() bool { return !l.w && l.r == 0 })
		l.wWait--
	}
	l.w = true
	raceAcquire(ptr(&l.a))
	raceAcquire(ptr(&l.b))
}

// TryLock tries to acquire the lock for writing.
func (l *RW) TryLock(quiet bool) bool {
	s := active
	if s == nil {
		return l.real.TryLock()
	}
	if !quiet || s.aborting {
		Point()
	}
	if l.w || l.r > 0 {
		return false
	}
	l.w = true
	raceAcquire(ptr(&l.a))
	raceAcquire(ptr(&l.b))
	return true
}

// Unlock releases the write lock.
func (l *RW) Unlock() {
	s := active
	if s == nil {
		l.real.Unlock()
		return
	}
	if s.aborting {
		return
	}
	if !l.w {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceReleaseReplace(ptr(&l.a))
	l.w = false
	// readers that were already waiting are admitted before the next writer
	l.admit = l.rWait
	l.r += l.rWait
}

// RLock acquires the lock for reading.
func (l *RW) RLock(quiet bool) {
	s := active
	if s == nil {
		l.real.RLock()
		return
	}
	if !quiet || s.aborting {
		Point()
	}
	if l.w || l.wWait > 0 {
		l.rWait++
		s.block(func() bool { return l.admit > 0 })
		l.rWait--
		l.admit--
	} else {
		l.r++
	}
	raceAcquire(ptr(&l.a))
}

// TryRLock tries to acquire the lock for reading.
func (l *RW) TryRLock(quiet bool) bool {
	s := active
	if s == nil {
		return l.real.TryRLock()
	}
	if !quiet || s.aborting {
		Point()
	}
	if l.w || l.wWait > 0 {
		return false
	}
	l.r++
	raceAcquire(ptr(&l.a))
	return true
}

// RUnlock releases a read lock.
func (l *RW) RUnlock() {
	s := active
	if s == nil {
		l.real.RUnlock()
		return
	}
	if s.aborting {
		return
	}
	if l.r <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(ptr(&l.b))
	l.r--
}

// Block parks the running thread until enabled() holds (for the shims).
func Block(enabled func() bool) {
	if s := active; s != nil {
		s.block(enabled)
	}
}

// Acquire and Release add a happens-before edge through p.
func Acquire(p *byte) { raceAcquire(ptr(p)) }

// Release adds a happens-before edge through p.
func Release(p *byte) { raceRelease(ptr(p)) }
