// Package vctx mirrors package context; deadlines use the virtual clock.
package vctx

import (
	"context"
	"time"
	"unsafe"

	"github.com/hyp3rd/hypercache/internal/zzverif/vsched"
	"github.com/hyp3rd/hypercache/internal/zzverif/vtime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

var (
	Background    = context.Background
	TODO          = context.TODO
	WithValue     = context.WithValue
	WithoutCancel = context.WithoutCancel
	Cause         = context.Cause
)

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() {
		if vsched.Killed() {
			return
		}
		vsched.PointIfActive()
		cancel()
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	return ctx, func(err error) {
		if vsched.Killed() {
			return
		}
		vsched.PointIfActive()
		cancel(err)
	}
}

type timeoutCtx struct {
	Context
	when time.Time
}

func (c *timeoutCtx) Deadline() (time.Time, bool) {
	if d, ok := c.Context.Deadline(); ok && d.Before(c.when) {
		return d, true
	}
	return c.when, true
}

func (c *timeoutCtx) Err() error {
	err := c.Context.Err()
	if err != nil && context.Cause(c.Context) == DeadlineExceeded {
		return DeadlineExceeded
	}
	return err
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithTimeout(parent, d)
	}
	ctx, cancel := context.WithCancelCause(parent)
	if d <= 0 {
		cancel(DeadlineExceeded)
	}
	id := -1
	if d > 0 {
		hb := new(int64) // starting a timer happens before its function
		vsched.RaceRelease(unsafe.Pointer(hb))
		id = vsched.AddTimer(d, 0, func() {
			vsched.RaceOn(func() {
				vsched.RaceAcquire(unsafe.Pointer(hb))
				cancel(DeadlineExceeded)
			})
		})
	}
	return &timeoutCtx{ctx, vtime.Now().Add(d)}, func() {
		if vsched.Killed() {
			return
		}
		vsched.PointIfActive()
		if id >= 0 {
			vsched.StopTimer(id)
		}
		cancel(Canceled)
	}
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	if !vsched.Active() {
		return context.WithDeadline(parent, t)
	}
	return WithTimeout(parent, vtime.Until(t))
}

func WithTimeoutCause(parent Context, d time.Duration, _ error) (Context, CancelFunc) {
	return WithTimeout(parent, d)
}

func WithDeadlineCause(parent Context, t time.Time, _ error) (Context, CancelFunc) {
	return WithDeadline(parent, t)
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	if !vsched.Active() {
		return context.AfterFunc(ctx, f)
	}
	stopped, started := false, false
	stopCh := make(chan struct{})
	vsched.Go(func() {
		a, b := vsched.RecvCase(ctx.Done()), vsched.RecvCase((<-chan struct{})(stopCh))
		if vsched.Select(false, a, b) == 0 && !stopped {
			started = true
			f()
		}
	})
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		vsched.Close(stopCh)
		return true
	}
}
