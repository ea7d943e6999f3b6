package vsim

import (
	"context"
	"time"
)

// Contexts whose cancellation the scheduler sees.
type simCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*simCtx
	after    []func()
}

func (c *simCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error            { yieldKind(opAtomic); return c.err }
func (c *simCtx) Value(k interface{}) interface{} {
	if k == ctxKey {
		return c
	}
	return c.parent.Value(k)
}

type ctxKeyT struct{}

var ctxKey = ctxKeyT{}

func (c *simCtx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	Close(c.done)
	for _, k := range kids {
		k.cancel(err, cause)
	}
	for _, f := range c.after {
		Go(f)
	}
}

func newCtx(parent context.Context) *simCtx {
	c := &simCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey).(*simCtx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { yieldKind(opAtomic); c.cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, func(error)) {
	c := newCtx(parent)
	return c, func(e error) { yieldKind(opAtomic); c.cancel(context.Canceled, e) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	if p, ok := parent.Deadline(); !ok || d.Before(p) {
		c.deadline, c.hasDL = d, true
		t := AfterFunc(Until(d), func() { c.cancel(context.DeadlineExceeded, nil) })
		return c, func() { t.Stop(); yieldKind(opAtomic); c.cancel(context.Canceled, nil) }
	}
	return c, func() { yieldKind(opAtomic); c.cancel(context.Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, Now().Add(d))
}

func CtxCause(c context.Context) error {
	if p, ok := c.Value(ctxKey).(*simCtx); ok && p.err != nil {
		return p.cause
	}
	return c.Err()
}

func CtxAfterFunc(parent context.Context, f func()) func() bool {
	c := newCtx(parent)
	if c.err != nil {
		Go(f)
		return func() bool { return false }
	}
	c.after = append(c.after, f)
	return func() bool {
		if c.err != nil {
			return false
		}
		c.after = nil
		c.cancel(context.Canceled, nil)
		return true
	}
}
