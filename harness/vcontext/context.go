// Package context mirrors the standard context package with deadlines on the
// scheduler's virtual clock.
package context

import (
	"context"
	"mcverif/vs"
	"sync/atomic"
	"time"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                                { return context.Background() }
func TODO() Context                                      { return context.TODO() }
func WithValue(parent Context, k, v any) Context         { return context.WithValue(parent, k, v) }
func WithCancel(parent Context) (Context, CancelFunc)    { return context.WithCancel(parent) }
func WithoutCancel(parent Context) Context               { return context.WithoutCancel(parent) }
func Cause(c Context) error                              { return context.Cause(c) }
func AfterFunc(ctx Context, f func()) (stop func() bool) { return context.AfterFunc(ctx, f) }
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	return context.WithCancelCause(parent)
}

// WithTimeout is WithDeadline from now on.
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vs.Now().Add(d), nil)
}

// WithTimeoutCause is WithDeadlineCause from now on.
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, vs.Now().Add(d), cause)
}

// WithDeadline ends the context at d.
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause ends the context at d for a reason.
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return context.WithCancel(parent)
	}
	inner, cancel := context.WithCancelCause(parent)
	c := &deadline{Context: inner, at: d}
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	fire := func() {
		if inner.Err() == nil {
			atomic.StoreInt32(&c.late, 1)
			cancel(cause)
		}
	}
	left := d.Sub(vs.Now())
	if left <= 0 {
		fire()
		return c, func() {}
	}
	h := vs.AddTimer(left, 0, nil, fire)
	return c, func() {
		h.Stop()
		cancel(nil)
	}
}

type deadline struct {
	context.Context
	at   time.Time
	late int32
}

func (c *deadline) Deadline() (time.Time, bool) { return c.at, true }

func (c *deadline) Err() error {
	err := c.Context.Err()
	if err != nil && atomic.LoadInt32(&c.late) != 0 {
		return context.DeadlineExceeded
	}
	return err
}
