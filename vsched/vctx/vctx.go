// Package vctx is a drop-in for context whose deadlines run on the virtual clock.
package vctx

import (
	"context"
	"errors"
	"time"

	"vsched"
	"vsched/vtime"
)

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children map[*cancelCtx]struct{}
	order    []*cancelCtx
	up       *cancelCtx
	deadline time.Time
	hasDL    bool
	timer    *vsched.Timer
	ep       uint64
	after    func()
}

type keyT struct{}

var key keyT

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error            { return c.err }
func (c *cancelCtx) Value(k any) any {
	if k == key {
		return c
	}
	return c.parent.Value(k)
}
func (c *cancelCtx) String() string { return "vctx" }

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if vsched.Active() && !vsched.Aborting() {
		vsched.CloseNoPoint(c.done)
	} else {
		close(c.done)
	}
	if c.timer != nil && c.ep == vsched.Epoch() {
		vsched.DelTimer(c.timer)
		c.timer = nil
	}
	kids := c.order
	c.order, c.children = nil, nil
	for _, k := range kids {
		if !k.detached() {
			k.cancel(err, cause)
		}
	}
	if c.after != nil && vsched.Active() && !vsched.Aborting() {
		vsched.SpawnFromTimer("ctx.AfterFunc", c.after)
	}
}

func (c *cancelCtx) detached() bool { return c.err != nil }

func newCancel(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key).(*cancelCtx); ok && p != nil && parent.Done() == (<-chan struct{})(p.done) {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			c.up = p
			p.order = append(p.order, c)
		}
		return c
	}
	if d := parent.Done(); d != nil {
		select {
		case <-d:
			c.cancel(parent.Err(), context.Cause(parent))
		default:
			if vsched.Active() {
				vsched.GoNamed("ctx", func() {
					vsched.Daemon()
					vsched.Select(false, vsched.CRecv(d), vsched.CRecv((<-chan struct{})(c.done)))
					c.cancel(parent.Err(), nil)
				})
			}
		}
	}
	return c
}

func (c *cancelCtx) remove() {
	if p := c.up; p != nil {
		for i, x := range p.order {
			if x == c {
				p.order = append(p.order[:i:i], p.order[i+1:]...)
				break
			}
		}
		c.up = nil
	}
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() { c.userCancel(nil) }
}

// WithCancelCause is context.WithCancelCause.
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(cause error) { c.userCancel(cause) }
}

func (c *cancelCtx) userCancel(cause error) {
	if vsched.Aborting() {
		return
	}
	vsched.Point("cancel")
	c.remove()
	c.cancel(context.Canceled, cause)
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

// WithDeadlineCause is context.WithDeadlineCause.
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline, c.hasDL = d, true
	dur := vtime.Until(d)
	if c.err == nil {
		if dur <= 0 {
			c.remove()
			c.cancel(context.DeadlineExceeded, cause)
		} else if vsched.Active() {
			c.ep = vsched.Epoch()
			c.timer = vsched.AddTimer(int64(dur), func() {
				c.timer = nil
				c.remove()
				c.cancel(context.DeadlineExceeded, cause)
			})
		}
	}
	return c, func() { c.userCancel(nil) }
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, vtime.Now().Add(d))
}

// WithTimeoutCause is context.WithTimeoutCause.
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, vtime.Now().Add(d), cause)
}

// Cause is context.Cause.
func Cause(c context.Context) error {
	if p, ok := c.Value(key).(*cancelCtx); ok && p != nil {
		return p.cause
	}
	return context.Cause(c)
}

// AfterFunc is context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	c := newCancel(ctx)
	if c.err != nil {
		if vsched.Active() {
			vsched.Go(f)
		}
		return func() bool { return false }
	}
	c.after = f
	return func() bool {
		if c.err != nil || c.after == nil {
			return false
		}
		c.after = nil
		c.remove()
		c.cancel(errStopped, nil)
		return true
	}
}

var errStopped = errors.New("stopped")
