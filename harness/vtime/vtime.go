// Package time mirrors the standard time package on the scheduler's virtual
// clock.
package time

import (
	"mcverif/vs"
	"time"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Unix(sec, nsec int64) Time                   { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                     { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                     { return time.UnixMicro(us) }
func Parse(layout, v string) (Time, error)        { return time.Parse(layout, v) }
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, off int) *Location    { return time.FixedZone(name, off) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, ns, l)
}
func ParseInLocation(layout, v string, l *Location) (Time, error) {
	return time.ParseInLocation(layout, v, l)
}

// Now is the virtual time.
func Now() Time { return vs.Now() }

// Since is the virtual time elapsed since t.
func Since(t Time) Duration { return vs.Now().Sub(t) }

// Until is the virtual time left until t.
func Until(t Time) Duration { return t.Sub(vs.Now()) }

// Sleep waits on the virtual clock.
func Sleep(d Duration) { vs.Sleep(d) }

// Ticker mirrors time.Ticker.
type Ticker struct {
	C <-chan Time
	h *vs.TimerHandle
}

// NewTicker returns a virtual ticker.
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan Time, 1)
	return &Ticker{C: ch, h: vs.AddTimer(d, d, ch, nil)}
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.h.Stop() }

// Reset changes the period.
func (t *Ticker) Reset(d Duration) { t.h.Reset(d, true) }

// Tick is NewTicker(d).C.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Timer mirrors time.Timer.
type Timer struct {
	C <-chan Time
	h *vs.TimerHandle
}

// NewTimer returns a virtual timer.
func NewTimer(d Duration) *Timer {
	ch := make(chan Time, 1)
	return &Timer{C: ch, h: vs.AddTimer(d, 0, ch, nil)}
}

// AfterFunc runs f after d of virtual time.
func AfterFunc(d Duration, f func()) *Timer { return &Timer{h: vs.AddTimer(d, 0, nil, f)} }

// After is NewTimer(d).C.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool { return t.h.Stop() }

// Reset re-arms the timer.
func (t *Timer) Reset(d Duration) bool { return t.h.Reset(d, false) }
