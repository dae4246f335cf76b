// Package vs is a controlled scheduler: it runs the goroutines of one
// execution one at a time and turns every synchronisation step into a
// scheduling point whose outcome is decided by a Chooser.  It is the run-time
// half of the explorer; the compile-time half is cmd/instr, which rewrites the
// code under test so that its locks, channels, goroutines, clock and map
// iteration go through this package.
//
// In race-detector builds this package is compiled without race
// instrumentation and its hand-offs run with race synchronisation disabled, so
// the detector sees exactly the happens-before edges of the program under test
// and none of the scheduler's.  It therefore must not use maps.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"time"
)

// Choice kinds.
const (
	KSched  = 1 // which thread runs next
	KSelect = 2 // which ready select case fires
	KMap    = 3 // map iteration order
	KEnv    = 4 // environment answer chosen by the harness
)

// Chooser decides a choice point with n>=2 options. Option 0 is the default.
// cost is the number of deviations any non-zero option costs.
type Chooser interface {
	Choose(kind, n, cost int) int
}

const (
	MaxThreads = 128
	Horizon    = 200000
)

type threadState uint8

const (
	tsParked threadState = iota
	tsRunning
	tsDone
)

// Thread is one controlled goroutine.
type Thread struct {
	ID     int
	Name   string
	FG     bool // foreground: the execution waits for it
	own    bool // started by the initialisation of a package
	state  threadState
	resume chan struct{}

	// pending operation
	always    bool // enabled unconditionally
	enabledFn func() bool
	cases     []*Case
	quiesce   bool
	completed bool // a partner finished our channel operation
	compIdx   int
	wakeAt    int64 // sleeping until (0: not sleeping)
	goid      int64

	fn func()
}

// Sched is the state of one execution.
type Sched struct {
	ch       Chooser
	threads  [MaxThreads]*Thread
	n        int
	made     int // threads started so far
	cur      *Thread
	explore  bool
	aborting bool
	finished chan struct{}
	over     bool

	Points   int
	rested   int // Points when the program last came to rest
	Switches int

	now     int64
	timers  []*timerRec
	stamp   int
	TimePts bool // reading the clock is a scheduling point

	Deadlock string
	Overrun  bool
	Panics   []PanicInfo
	fault    string
	auto     int
	patience int
}

// PanicInfo records a panic of a controlled goroutine.
type PanicInfo struct {
	Thread string
	FG     bool
	Value  string
	Stack  string
}

var active *Sched

// Active reports whether an execution is in progress.
func Active() bool { return active != nil }

// Epoch is virtual time zero.
var Epoch = time.Unix(1600000000, 0)

func (s *Sched) newThread(name string, fg bool, fn func()) *Thread {
	if s.n >= MaxThreads {
		// those that are done make room
		k := 0
		for i := 0; i < s.n; i++ {
			if s.threads[i].state != tsDone {
				s.threads[k] = s.threads[i]
				k++
			}
		}
		for i := k; i < s.n; i++ {
			s.threads[i] = nil
		}
		s.n = k
	}
	if s.n >= MaxThreads {
		panic("vs: too many threads")
	}
	s.made++
	t := &Thread{ID: s.made - 1, Name: name, FG: fg, resume: make(chan struct{}, 1), fn: fn, always: true}
	s.threads[s.n] = t
	s.n++
	return t
}

// Run executes main as the root thread under the chooser and returns when
// every foreground thread has finished (or the execution is stuck).
func Run(ch Chooser, main func()) *Sched {
	if active != nil {
		panic("vs: nested Run")
	}
	s := &Sched{ch: ch, finished: make(chan struct{}, 1)}
	active = s
	raceDisable()
	t := s.newThread("main", true, func() {
		// what a program starts before main runs is not an operation's doing
		resetAll()
		Quiesce()
		for i := 0; i < s.n; i++ {
			s.threads[i].own = s.threads[i] != s.cur
		}
		main()
	})
	raceEnable()
	go t.body(s)
	raceDisable()
	s.cur = t
	t.state = tsRunning
	t.resume <- struct{}{}
	<-s.finished
	// tear down what is left
	s.aborting = true
	for i := 0; i < s.n; i++ {
		x := s.threads[i]
		if x.state == tsDone {
			continue
		}
		s.cur = x
		x.state = tsRunning
		x.resume <- struct{}{}
		<-s.finished
	}
	raceEnable()
	active = nil
	raceAcquire(ptr(s))
	return s
}

func (t *Thread) body(s *Sched) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer t.exit(s)
	if s.aborting {
		return
	}
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			if s.aborting {
				return
			}
			raceDisable()
			s.Panics = append(s.Panics, PanicInfo{Thread: t.Name, FG: t.FG, Value: fmt.Sprint(r), Stack: string(debug.Stack())})
			raceEnable()
		}
	}()
	t.fn()
}

func (t *Thread) exit(s *Sched) {
	raceRelease(ptr(s))
	raceRelease(ptr(t))
	raceDisable()
	t.state = tsDone
	if s.aborting {
		s.finished <- struct{}{}
		raceEnable()
		return
	}
	if len(s.Panics) > 0 {
		// a panic ends the execution
		s.finish()
		raceEnable()
		return
	}
	s.cur = nil
	next := s.pick(nil)
	if next == nil {
		s.finish()
	} else {
		s.handTo(next)
	}
	raceEnable()
}

func (s *Sched) finish() {
	if !s.over {
		s.over = true
		s.finished <- struct{}{}
	}
}

func (s *Sched) handTo(t *Thread) {
	s.cur = t
	t.state = tsRunning
	s.Switches++
	t.resume <- struct{}{}
}

func (t *Thread) isEnabled(s *Sched) bool {
	if t.completed || t.always {
		return true
	}
	if t.quiesce {
		return false
	}
	if t.wakeAt != 0 {
		return s.now >= t.wakeAt
	}
	if t.cases != nil {
		for _, c := range t.cases {
			if s.ready(t, c) {
				return true
			}
		}
		return false
	}
	if t.enabledFn != nil {
		return t.enabledFn()
	}
	return false
}

// pick chooses the next thread to run; me is the parked current thread or nil.
func (s *Sched) pick(me *Thread) *Thread {
	for {
		var en [MaxThreads]*Thread
		n := 0
		cont := false
		if me != nil && me.state != tsDone && me.isEnabled(s) {
			en[0] = me
			n = 1
			cont = true
		}
		fgLeft := false
		var quiet *Thread
		for i := 0; i < s.n; i++ {
			t := s.threads[i]
			if t.state == tsDone {
				continue
			}
			if t.FG {
				fgLeft = true
			}
			if t == me && cont {
				continue
			}
			if t.quiesce && !t.completed {
				if quiet == nil {
					quiet = t
				}
				continue
			}
			if t.isEnabled(s) {
				en[n] = t
				n++
			}
		}
		if !fgLeft {
			return nil
		}
		if n == 0 {
			if quiet != nil {
				quiet.completed = true
				return quiet
			}
			// a blocked foreground thread may be waiting for virtual time
			if s.autoAdvance() {
				continue
			}
			s.Deadlock = s.describe()
			return nil
		}
		if n == 1 || !s.explore {
			return en[0]
		}
		for i := 0; i < n; i++ {
			if en[i].own {
				// background of the program's own defaults: not interleaved
				return en[i]
			}
		}
		cost := 0
		if cont {
			cost = 1
		}
		k := s.ch.Choose(KSched, n, cost)
		return en[k]
	}
}

func (s *Sched) describe() string {
	str := "no thread can run:"
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == tsDone {
			continue
		}
		kind := "waiting"
		switch {
		case t.cases != nil:
			kind = "blocked on a channel"
		case t.wakeAt != 0:
			kind = "sleeping"
		case t.enabledFn != nil:
			kind = "blocked on a lock"
		}
		fg := "background"
		if t.FG {
			fg = "foreground"
		}
		str += fmt.Sprintf(" [%s %s: %s]", fg, t.Name, kind)
	}
	return str
}

// yield parks the running thread (whose pending operation is already
// described) and returns when it is scheduled again.
func (s *Sched) yield(t *Thread) {
	s.Points++
	if s.Points-s.rested > Horizon {
		s.Overrun = true
		t.state = tsParked
		s.finish()
		<-t.resume
		return
	}
	t.state = tsParked
	next := s.pick(t)
	if next == t {
		t.state = tsRunning
		s.cur = t
		return
	}
	if next == nil {
		s.finish()
	} else {
		s.handTo(next)
	}
	<-t.resume
}

func (t *Thread) clear() {
	t.always = false
	t.enabledFn = nil
	t.cases = nil
	t.quiesce = false
	t.completed = false
	t.wakeAt = 0
}

// Point is a scheduling point at which the running thread stays enabled.
func Point() {
	s := active
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if !s.explore {
		return
	}
	raceDisable()
	t := s.cur
	t.clear()
	t.always = true
	s.yield(t)
	t.clear()
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}

// PointSoft is Point for goroutines the scheduler did not start (library
// goroutines acting on behalf of the running thread). It reports whether the
// execution is being torn down instead of ending the goroutine.
func PointSoft() (aborted bool) {
	s := active
	if s == nil || s.aborting {
		return true
	}
	if !s.explore {
		return false
	}
	raceDisable()
	t := s.cur
	t.clear()
	t.always = true
	s.yield(t)
	t.clear()
	raceEnable()
	return s.aborting
}

// Await parks the running thread until enabled() holds. It reports whether the
// execution is being torn down, so it may be used like PointSoft.
func Await(enabled func() bool) (aborted bool) {
	s := active
	if s == nil || s.aborting {
		return true
	}
	raceDisable()
	t := s.cur
	t.clear()
	t.enabledFn = enabled
	s.yield(t)
	t.clear()
	raceEnable()
	return s.aborting
}

// Running is the name of the running thread.
func Running() string {
	if s := active; s != nil && s.cur != nil {
		return s.cur.Name
	}
	return ""
}

// block parks the running thread until enabled() holds.
func (s *Sched) block(enabled func() bool) {
	if s.aborting {
		runtime.Goexit()
	}
	raceDisable()
	t := s.cur
	t.clear()
	t.enabledFn = enabled
	s.yield(t)
	t.clear()
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}

// Go starts a controlled background goroutine (used by instrumented go
// statements). Goroutines started outside any execution (by package
// initialisers) are not run at all: they would be outside the scheduler's
// control.
func Go(fn func()) {
	s := active
	if s == nil {
		return
	}
	if s.aborting {
		return
	}
	raceDisable()
	t := s.newThread("bg"+strconv.Itoa(s.made), false, fn)
	raceEnable()
	go t.body(s)
}

// Handle is a foreground thread started by the harness.
type Handle struct{ t *Thread }

// Spawn starts a foreground thread.
func Spawn(name string, fn func()) *Handle {
	s := active
	raceDisable()
	t := s.newThread(name, true, fn)
	raceEnable()
	go t.body(s)
	return &Handle{t}
}

// Join waits for foreground threads.
func Join(hs ...*Handle) {
	s := active
	for _, h := range hs {
		t := h.t
		if t.state != tsDone {
			s.block(func() bool { return t.state == tsDone })
		}
		raceAcquire(ptr(t))
	}
}

// Rested says that one step of a long sequential history has ended: the horizon
// counts from here.
func Rested() {
	if s := active; s != nil {
		s.rested = s.Points
	}
}

// Quiesce lets every other thread run until nothing else can.
func Quiesce() {
	s := active
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	raceDisable()
	t := s.cur
	t.clear()
	t.quiesce = true
	s.yield(t)
	t.clear()
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}

// Explore switches the recording of choices on or off.
func Explore(on bool) {
	if s := active; s != nil {
		s.explore = on
	}
}

// Exploring reports whether choices are being recorded.
func Exploring() bool { s := active; return s != nil && s.explore }

// Choose lets the harness ask for an environment answer in [0,n).
func Choose(n, cost int) int {
	s := active
	if s == nil || n < 2 || s.aborting {
		return 0
	}
	return s.ch.Choose(KEnv, n, cost)
}

// Stamp returns the next logical time stamp of the execution.
func Stamp() int {
	s := active
	if s == nil {
		return 0
	}
	s.stamp++
	return s.stamp
}

// LiveBackground counts background threads that have not finished.
func LiveBackground() int {
	s := active
	k := 0
	for i := 0; i < s.n; i++ {
		if !s.threads[i].FG && !s.threads[i].own && s.threads[i].state != tsDone {
			k++
		}
	}
	return k
}

// InBackground reports whether the running thread is one that the program
// started itself.
func InBackground() bool { s := active; return s != nil && s.cur != nil && !s.cur.FG }

// Aborting reports whether the execution is being torn down.
func Aborting() bool { s := active; return s != nil && s.aborting }

// SetTimePoints makes clock reads scheduling points.
func SetTimePoints(on bool) { active.TimePts = on }

// Soft is where a quiet shim would have a scheduling point.
func Soft() {}
