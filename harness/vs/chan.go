package vs

import (
	"runtime"
	"unsafe"
)

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

// hchan mirrors the head of the runtime's channel header (go1.2x).
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

// Case is one channel operation. It is deliberately not generic: generic code
// is compiled (and race-instrumented) in the package that instantiates it.
type Case struct {
	h    *hchan
	send bool
	val  any  // value of a send; value handed over by a rendezvous
	self byte // release address of the waiting side
	peer byte // release address of the completing side
	op   chanOp
}

// chanOp is the typed half of a Case.
type chanOp interface {
	exec()       // perform the (ready) native operation
	accept(any)  // store a value handed over by a rendezvous
	base() *Case // the untyped half
}

func newCase(h unsafe.Pointer, send bool, val any, op chanOp) *Case {
	return &Case{h: (*hchan)(h), send: send, val: val, op: op}
}

// RecvC is a receive operation or select case.
type RecvC[T any] struct {
	ch <-chan T
	v  T
	ok bool
	b  *Case
}

// SendC is a send operation or select case.
type SendC[T any] struct {
	ch chan<- T
	v  T
	b  *Case
}

func (c *RecvC[T]) base() *Case { return c.b }
func (c *RecvC[T]) exec()       { c.v, c.ok = <-c.ch }
func (c *RecvC[T]) accept(v any) {
	if v != nil {
		c.v = v.(T)
	}
	c.ok = true
}

// Val returns the received value.
func (c *RecvC[T]) Val() T { return c.v }

// Val2 returns the received value and whether the channel was open.
func (c *RecvC[T]) Val2() (T, bool) { return c.v, c.ok }

func (c *SendC[T]) base() *Case { return c.b }
func (c *SendC[T]) exec()       { c.ch <- c.v }
func (c *SendC[T]) accept(any)  {}

// RecvCase builds a receive case.
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	c := &RecvC[T]{ch: ch}
	c.b = newCase(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), false, nil, c)
	return c
}

// SendCase builds a send case (curried so that the value converts to T).
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] {
		c := &SendC[T]{ch: ch, v: v}
		c.b = newCase(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), true, v, c)
		return c
	}
}

// partner finds another parked thread waiting for the complementary operation
// on unbuffered channel h.
func (s *Sched) partner(me *Thread, h *hchan, wantSend bool) (*Thread, int) {
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t == me || t.state != tsParked || t.completed || t.cases == nil {
			continue
		}
		for j, c := range t.cases {
			if c.h == h && c.send == wantSend {
				return t, j
			}
		}
	}
	return nil, 0
}

func (s *Sched) ready(me *Thread, c *Case) bool {
	h := c.h
	if h == nil {
		return false
	}
	if h.closed != 0 {
		return true
	}
	if h.dataqsiz == 0 {
		p, _ := s.partner(me, h, !c.send)
		return p != nil
	}
	if c.send {
		return h.qcount < h.dataqsiz
	}
	return h.qcount > 0
}

// Select performs a select statement and returns the index of the chosen
// case, or -1 for default.
func Select(hasDefault bool, ops ...chanOp) int {
	s := active
	if s == nil {
		return nativeSelect(hasDefault, ops)
	}
	if s.aborting {
		runtime.Goexit()
	}
	cases := make([]*Case, len(ops))
	for i, op := range ops {
		cases[i] = op.base()
		raceRelease(ptr(&cases[i].self))
	}
	raceDisable()
	t := s.cur
	t.clear()
	if hasDefault {
		if s.explore {
			t.always = true
			s.yield(t)
		}
	} else {
		t.cases = cases
		s.yield(t)
	}
	if s.aborting {
		raceEnable()
		runtime.Goexit()
	}
	if t.completed {
		i := t.compIdx
		t.clear()
		raceEnable()
		raceAcquire(ptr(&cases[i].peer))
		if !cases[i].send {
			ops[i].accept(cases[i].val)
		}
		return i
	}
	t.clear()
	var rd [32]int
	n := 0
	for i, c := range cases {
		if s.ready(t, c) && n < len(rd) {
			rd[n] = i
			n++
		}
	}
	if n == 0 {
		raceEnable()
		if !hasDefault {
			panic("vs: scheduled a select with no ready case")
		}
		return -1
	}
	k := 0
	if n > 1 && s.explore {
		k = s.ch.Choose(KSelect, n, 1)
	}
	i := rd[k]
	c := cases[i]
	if c.h.closed == 0 && c.h.dataqsiz == 0 {
		p, j := s.partner(t, c.h, !c.send)
		pc := p.cases[j]
		p.completed = true
		p.compIdx = j
		if c.send {
			pc.val = c.val
		}
		v := pc.val
		raceEnable()
		raceAcquire(ptr(&pc.self))
		raceRelease(ptr(&pc.peer))
		if !c.send {
			ops[i].accept(v)
		}
		return i
	}
	raceEnable()
	ops[i].exec()
	return i
}

// nativeSelect serves calls outside any execution: only an operation that can
// proceed at once makes sense there.
func nativeSelect(hasDefault bool, ops []chanOp) int {
	for i, op := range ops {
		c := op.base()
		h := c.h
		if h == nil {
			continue
		}
		if h.closed != 0 || (c.send && h.qcount < h.dataqsiz) || (!c.send && h.qcount > 0) {
			op.exec()
			return i
		}
	}
	if hasDefault {
		return -1
	}
	panic("vs: blocking channel operation outside an execution")
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := RecvCase(ch)
	Select(false, c)
	return c.v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Select(false, c)
	return c.v, c.ok
}

// SendTo is ch <- v, curried.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(ch)(v)) }
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Point()
	close(ch)
}
