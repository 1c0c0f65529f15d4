// Package context is the standard package with deadlines on simulated time.
package context

import (
	"context"
	"time"

	"trcsim/rt"
	simtime "trcsim/time"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func Cause(c Context) error                 { return context.Cause(c) }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func WithoutCancel(p Context) Context       { return context.WithoutCancel(p) }

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() {
		rt.SyncPoint(50)
		cancel()
		rt.Wake()
		rt.SyncPoint(51)
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	return ctx, func(err error) {
		rt.SyncPoint(50)
		cancel(err)
		rt.Wake()
		rt.SyncPoint(51)
	}
}

type deadlineCtx struct {
	Context
	at      time.Time
	expired *bool
}

func (c *deadlineCtx) Deadline() (time.Time, bool) { return c.at, true }
func (c *deadlineCtx) Err() error {
	err := c.Context.Err()
	if err != nil && *c.expired {
		return context.DeadlineExceeded
	}
	return err
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	inner, cancel := context.WithCancelCause(parent)
	expired := false
	if cause == nil {
		cause = context.DeadlineExceeded
	}
	c := &deadlineCtx{inner, d, &expired}
	left := d.Sub(simtime.Peek())
	fire := func() {
		if inner.Err() == nil {
			expired = true
			cancel(cause)
			rt.Wake()
		}
	}
	if left <= 0 {
		fire()
		return c, func() {}
	}
	t := rt.AddTimer(int64(left), fire)
	return c, func() {
		rt.SyncPoint(50)
		t.Stop()
		cancel(context.Canceled)
		rt.Wake()
		rt.SyncPoint(51)
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Peek().Add(d), nil)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simtime.Peek().Add(d), cause)
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	started, stopped := false, false
	rt.Spawn("ctx-afterfunc", true, func() {
		c := rt.CaseRecv(ctx.Done())
		rt.Select(false, c)
		if stopped {
			return
		}
		started = true
		f()
	})
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}
