package rt

import (
	"context"
	"errors"
	"runtime"
	"sync"
	"time"
)

// mcCtx is a cancellable context driven by the virtual clock.
type mcCtx struct {
	parent   context.Context
	done     chan struct{}
	o        obj
	err      error
	cause    error
	deadline time.Time
	hasDL    bool
	kids     []*mcCtx
	t        *vtimer
	stop     func() bool
}

type mcKeyT struct{}

var mcKey mcKeyT

func (c *mcCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *mcCtx) Done() <-chan struct{} { return c.done }
func (c *mcCtx) Err() error {
	x := cx
	if x != nil && !x.abort && x.cur != nil {
		g := x.cur
		g.pd = pend{kind: opStep, what: "ctx.Err"}
		x.point(g)
		g.acquire(c.o.vc)
		x.evR(g, &c.o, 80)
	}
	return c.err
}
func (c *mcCtx) Value(k any) any {
	if k == any(mcKey) {
		return c
	}
	return c.parent.Value(k)
}

func newCtx(parent context.Context) *mcCtx {
	c := &mcCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(mcKey).(*mcCtx); ok {
		if p.err != nil {
			c.err, c.cause = p.err, p.cause
			close(c.done)
		} else {
			p.kids = append(p.kids, c)
		}
	} else if parent.Done() != nil {
		// a native cancellable context: only its present state can be seen
		select {
		case <-parent.Done():
			c.err, c.cause = parent.Err(), context.Cause(parent)
			close(c.done)
		default:
		}
	}
	return c
}

// cancel runs inside the token holder or the clock.
func (c *mcCtx) cancel(x *exec, g *G, err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if x != nil && !x.abort {
		v := x.vch(chPtr(c.done), 0, c.done)
		if g != nil {
			x.effect()
			g.release(&c.o.vc)
			v.cvc.join(c.o.vc)
			x.evW(g, &c.o, 81)
			x.evW(g, &v.o, 82)
		} else {
			v.o.w = mix(v.o.w, uint64(x.now))
			c.o.w = mix(c.o.w, uint64(x.now))
			x.sum += mix(v.o.w, 3)
			v.cvc.join(c.t.vc)
			c.o.vc.join(c.t.vc)
		}
		v.closed = true
		if c.t != nil {
			x.dropTimer(c.t)
		}
	}
	close(c.done)
	for _, k := range c.kids {
		if k.t == nil && g == nil {
			k.t = c.t
		}
		k.cancel(x, g, err, cause)
	}
	if p, ok := c.parent.Value(mcKey).(*mcCtx); ok {
		for i, k := range p.kids {
			if k == c {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				break
			}
		}
	}
}

func (c *mcCtx) cancelFunc() context.CancelCauseFunc {
	return func(cause error) {
		x := cx
		if x == nil {
			c.cancel(nil, nil, context.Canceled, cause)
			return
		}
		if x.abort {
			return
		}
		g := x.cur
		g.pd = pend{kind: opStep, what: "ctx.cancel"}
		x.point(g)
		if c.err != nil {
			x.evR(g, &c.o, 83)
			return
		}
		c.cancel(x, g, context.Canceled, cause)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if cx == nil {
		return context.WithCancel(parent)
	}
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := newCtx(parent)
	f := c.cancelFunc()
	return c, func() { f(nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if cx == nil {
		return context.WithCancelCause(parent)
	}
	c := newCtx(parent)
	return c, c.cancelFunc()
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	x := cx
	if x == nil {
		return context.WithDeadlineCause(parent, d, cause)
	}
	if x.abort {
		runtime.Goexit()
	}
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := newCtx(parent)
	f := c.cancelFunc()
	stop := func() { f(nil) }
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return c, stop
	}
	c.deadline, c.hasDL = d, true
	if c.err != nil {
		return c, stop
	}
	dur := d.Sub(virt(x))
	c.t = &vtimer{f: func(x *exec, t *vtimer) { c.cancel(x, nil, context.DeadlineExceeded, cause) }}
	if dur <= 0 {
		c.cancel(x, x.cur, context.DeadlineExceeded, cause)
		return c, stop
	}
	x.addTimer(x.cur, c.t, dur)
	return c, stop
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if cx == nil {
		return context.WithTimeout(parent, d)
	}
	return WithDeadline(parent, virt(cx).Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if cx == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	return WithDeadlineCause(parent, virt(cx).Add(d), cause)
}

func Cause(c context.Context) error {
	if m, ok := c.Value(mcKey).(*mcCtx); ok {
		return m.cause
	}
	return context.Cause(c)
}

type noCancel struct{ context.Context }

func (noCancel) Deadline() (time.Time, bool) { return time.Time{}, false }
func (noCancel) Done() <-chan struct{}       { return nil }
func (noCancel) Err() error                  { return nil }
func (n noCancel) Value(k any) any {
	if k == any(mcKey) {
		return nil
	}
	return n.Context.Value(k)
}

func WithoutCancel(parent context.Context) context.Context {
	if cx == nil {
		return context.WithoutCancel(parent)
	}
	return noCancel{parent}
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	if cx == nil {
		return context.AfterFunc(ctx, f)
	}
	var mu sync.Mutex
	ran, stopped := false, false
	Go(0, func() {
		Recv(ctx.Done(), 0)
		mu.Lock()
		if stopped {
			mu.Unlock()
			return
		}
		ran = true
		mu.Unlock()
		f()
	})
	return func() bool {
		mu.Lock()
		defer mu.Unlock()
		if ran || stopped {
			return false
		}
		stopped = true
		return true
	}
}

var ErrInjected = errors.New("injected fault")
