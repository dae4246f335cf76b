package vs

import (
	"runtime"
	"time"
)

type timerRec struct {
	at     int64
	period int64
	ch     chan time.Time
	fn     func()
	on     bool
}

const maxAuto = 64

// NowNS is the virtual clock in nanoseconds since Epoch.
func NowNS() int64 {
	if s := active; s != nil {
		return s.now
	}
	return 0
}

// Now is the virtual time (the real time outside an execution).
func Now() time.Time {
	s := active
	if s == nil {
		return time.Now()
	}
	if s.TimePts {
		Point()
	}
	return Epoch.Add(time.Duration(s.now))
}

// AddTimer registers a timer and returns it.
func AddTimer(d, period time.Duration, ch chan time.Time, fn func()) *TimerHandle {
	s := active
	t := &timerRec{period: int64(period), ch: ch, fn: fn, on: true}
	if s != nil {
		t.at = s.now + int64(d)
		s.timers = append(s.timers, t)
	}
	return &TimerHandle{t, s}
}

// TimerHandle controls a timer.
type TimerHandle struct {
	t *timerRec
	s *Sched
}

// Stop disarms the timer; a tick already delivered stays in the channel, as
// for modules before go 1.23.
func (h *TimerHandle) Stop() bool {
	was := h.t.on
	h.t.on = false
	return was
}

// Reset re-arms the timer.
func (h *TimerHandle) Reset(d time.Duration, periodic bool) bool {
	was := h.Stop()
	h.t.on = true
	if s := active; s != nil {
		h.t.at = s.now + int64(d)
	}
	if periodic {
		h.t.period = int64(d)
	}
	return was
}

func (s *Sched) nextDue() int64 {
	best := int64(-1)
	for _, t := range s.timers {
		if t.on && (best < 0 || t.at < best) {
			best = t.at
		}
	}
	return best
}

func (s *Sched) fireDue() {
	for _, t := range s.timers {
		for t.on && t.at <= s.now {
			if t.ch != nil {
				select {
				case t.ch <- Epoch.Add(time.Duration(t.at)):
				default:
				}
			}
			if t.fn != nil {
				fn := t.fn
				th := s.newThread("timer", false, fn)
				go th.body(s)
			}
			if t.period > 0 {
				t.at += t.period
			} else {
				t.on = false
			}
		}
	}
}

// Patience lets the clock move on its own n more times in this execution.
func Patience(n int) {
	if s := active; s != nil {
		s.patience += n
	}
}

func (s *Sched) autoAdvance() bool {
	s.fault = ""
	if s.auto >= maxAuto+s.patience {
		return false
	}
	best := s.nextDue()
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == tsParked && t.wakeAt != 0 && (best < 0 || t.wakeAt < best) {
			best = t.wakeAt
		}
	}
	if best < 0 {
		return false
	}
	s.auto++
	if best > s.now {
		s.now = best
	}
	s.fireDue()
	return true
}

// Advance moves the virtual clock; due timers fire, nothing else runs.
func Advance(d time.Duration) {
	s := active
	Point()
	raceDisable()
	s.now += int64(d)
	s.fireDue()
	raceEnable()
}

// AdvanceQuiet moves the virtual clock from timer to timer and lets the
// background run to quiescence at each.
func AdvanceQuiet(d time.Duration) {
	s := active
	end := s.now + int64(d)
	last := s.now
	for n := 0; ; n++ {
		due := s.nextDue()
		if due < 0 || due > end {
			break
		}
		if n == 500 {
			// enough: the tickers drop ticks up to the last one
			for _, t := range s.timers {
				if t.on && t.period > 0 && t.at < end {
					t.at += (end - t.at) / t.period * t.period
				}
			}
			continue
		}
		raceDisable()
		// timers that are armed again and again: after a while they fire late,
		// as on a machine that was suspended, once shortly before the end
		if n == 501 && due < end-20*(due-last) {
			due = end - 20*(due-last)
		} else if n > 1000 {
			due = end
		}
		last = due
		if due > s.now {
			s.now = due
		}
		s.fireDue()
		raceEnable()
		Quiesce()
	}
	s.now = end
	Quiesce()
}

// Sleep parks the running thread until the virtual clock has advanced by d.
func Sleep(d time.Duration) {
	s := active
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if d <= 0 {
		Point()
		return
	}
	raceDisable()
	t := s.cur
	t.clear()
	t.wakeAt = s.now + int64(d)
	s.yield(t)
	t.clear()
	raceEnable()
	if s.aborting {
		runtime.Goexit()
	}
}
