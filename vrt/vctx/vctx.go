// Package vctx stands in for package context in instrumented code.
package vctx

import (
	"context"
	"fmt"
	"time"

	"verif.local/vrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func WithValue(parent Context, key, val any) Context { return &valueCtx{parent, key, val} }

type valueCtx struct {
	Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

type cancelCtx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	after    []func()
	deadline time.Time
	timer    *vrt.TimerCh
	o        vrt.Obj
}

type keyT struct{}

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if !c.deadline.IsZero() {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { return c.done }
func (c *cancelCtx) Err() error {
	vrt.Touch("ctx err", &c.o, false)
	return c.err
}

// RawErr is Err without a scheduling point, for fakes.
func (c *cancelCtx) RawErr() error { return c.err }
func (c *cancelCtx) Value(key any) any {
	if _, ok := key.(keyT); ok {
		return c
	}
	return c.parent.Value(key)
}
func (c *cancelCtx) String() string { return "vctx" }

// RawErr returns ctx's error without a scheduling point.
func RawErr(ctx Context) error {
	if c, ok := ctx.Value(keyT{}).(*cancelCtx); ok && c != nil {
		return c.err
	}
	return ctx.Err()
}

// Obj returns the object whose writes tell about cancellation, if any.
func Obj(ctx Context) *vrt.Obj {
	if c, ok := ctx.Value(keyT{}).(*cancelCtx); ok && c != nil {
		return &c.o
	}
	return nil
}

func (c *cancelCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	vrt.Mark(&c.o, true, 0xca)
	vrt.CloseNow(c.done)
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	c.children = nil
	for _, f := range c.after {
		vrt.GoNamed("context.AfterFunc", f)
	}
	c.after = nil
}

func newCancel(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: vrt.Made(make(chan struct{}))}
	if p, ok := parent.Value(keyT{}).(*cancelCtx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if parent.Done() != nil {
		if err := parent.Err(); err != nil {
			c.cancel(err, context.Cause(parent))
		}
	}
	return c
}

func (c *cancelCtx) cancelFunc(err error) func(cause error) {
	return func(cause error) {
		if vrt.Exiting() {
			return
		}
		vrt.Touch("ctx cancel", &c.o, true)
		if c.timer != nil {
			c.timer.Stop()
		}
		if p, ok := c.parent.Value(keyT{}).(*cancelCtx); ok && p != nil {
			for i, k := range p.children {
				if k == c {
					p.children = append(p.children[:i:i], p.children[i+1:]...)
					break
				}
			}
		}
		c.cancel(err, cause)
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCancel(parent)
	f := c.cancelFunc(Canceled)
	return c, func() { f(nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCancel(parent)
	return c, c.cancelFunc(Canceled)
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCancel(parent)
	c.deadline = d
	if c.err == nil {
		dur := d.UnixNano() - vrt.NowNano()
		if dur <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.timer = vrt.NewHook(dur, func() { c.cancel(DeadlineExceeded, cause) })
		}
	}
	f := c.cancelFunc(Canceled)
	return c, func() { f(nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Unix(0, vrt.NowNano()).Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, vrt.NowNano()).Add(d), cause)
}

type withoutCancel struct{ c Context }

func (withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (withoutCancel) Done() <-chan struct{}            { return nil }
func (withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(key any) any {
	if _, ok := key.(keyT); ok {
		return (*cancelCtx)(nil)
	}
	return w.c.Value(key)
}

func WithoutCancel(parent Context) Context { return withoutCancel{parent} }

func Cause(c Context) error {
	if p, ok := c.Value(keyT{}).(*cancelCtx); ok && p != nil {
		return p.cause
	}
	return context.Cause(c)
}

func AfterFunc(ctx Context, f func()) (stop func() bool) {
	c, ok := ctx.Value(keyT{}).(*cancelCtx)
	if !ok || c == nil {
		return func() bool { return true }
	}
	if c.err != nil {
		vrt.GoNamed("context.AfterFunc", f)
		return func() bool { return false }
	}
	ran := false
	c.after = append(c.after, func() { ran = true; f() })
	i := len(c.after) - 1
	return func() bool {
		if ran || c.err != nil || i >= len(c.after) {
			return false
		}
		c.after[i] = func() {}
		return true
	}
}

var _ = fmt.Sprint
