// Package simcontext stands in for package context under the simulated
// scheduler and clock.
package simcontext

import (
	"context"
	"time"

	"github.com/go-air/dupi/zz/rt"
	"github.com/go-air/dupi/zz/simtime"
)

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	deadline time.Time
	hasDl    bool
	kids     []*ctx
	k, v     interface{}
	isValue  bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return time.Time{}, false
}

func (c *ctx) Done() <-chan struct{} {
	if c.isValue {
		return c.parent.Done()
	}
	return c.done
}

func (c *ctx) Err() error {
	if c.isValue {
		return c.parent.Err()
	}
	if rt.W != nil {
		rt.Yield()
	}
	return c.err
}

func (c *ctx) Value(k interface{}) interface{} {
	if c.isValue && c.k == k {
		return c.v
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	rt.CloseQuiet(c.done)
	for _, k := range c.kids {
		k.cancel(err)
	}
}

func Background() context.Context { return &ctx{} }
func TODO() context.Context       { return &ctx{} }

func WithValue(parent context.Context, k, v interface{}) context.Context {
	return &ctx{parent: parent, k: k, v: v, isValue: true}
}

func real(p context.Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if !c.isValue {
			return c
		}
		p = c.parent
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p := real(parent); p != nil {
		if p.err != nil {
			c.cancel(p.err)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c, func() { rt.Yield(); c.cancel(context.Canceled) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	x, f := WithCancel(parent)
	c := x.(*ctx)
	c.deadline, c.hasDl = d, true
	rt.W.After(int64(d.Sub(simtime.Now())), func() { c.cancel(context.DeadlineExceeded) })
	return c, f
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, simtime.Now().Add(d))
}
