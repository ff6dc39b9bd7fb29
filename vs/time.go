package vs

import (
	"context"
	"time"
)

// Now is time.Now on the virtual clock.
func Now() time.Time {
	if s := S; s != nil {
		return nowTime(s)
	}
	return time.Now()
}

func Since(t time.Time) time.Duration {
	if S != nil {
		return Now().Sub(t)
	}
	return time.Since(t)
}

func Until(t time.Time) time.Duration {
	if S != nil {
		return t.Sub(Now())
	}
	return time.Until(t)
}

func Sleep(d time.Duration) {
	s := S
	if s == nil {
		time.Sleep(d)
		return
	}
	if s.dead {
		deadBlock()
	}
	if d <= 0 {
		Point()
		return
	}
	g := s.cur
	g.done = false
	s.addTimer(&timer{g: g}, int64(d))
	s.block(opSleep, nil, nil)
}

// Timer is time.Timer.
type Timer struct {
	C  <-chan time.Time
	rt *time.Timer
	t  *timer
	ch *hchan
}

func timerChan(s *Sched) (chan time.Time, *hchan) {
	c := make(chan time.Time, 1)
	return c, chS(s, c)
}

func NewTimer(d time.Duration) *Timer {
	s := S
	if s == nil {
		rt := time.NewTimer(d)
		return &Timer{C: rt.C, rt: rt}
	}
	c, h := timerChan(s)
	t := &timer{ch: h}
	s.addTimer(t, int64(d))
	return &Timer{C: c, t: t, ch: h}
}

func After(d time.Duration) <-chan time.Time {
	if S == nil {
		return time.After(d)
	}
	return NewTimer(d).C
}

func AfterFunc(d time.Duration, f func()) *Timer {
	s := S
	if s == nil {
		return &Timer{rt: time.AfterFunc(d, f)}
	}
	t := &timer{fn: f}
	s.addTimer(t, int64(d))
	return &Timer{t: t}
}

func (t *Timer) Stop() bool {
	s := S
	if t.t == nil {
		return t.rt.Stop()
	}
	if s == nil || s.dead {
		return false
	}
	Point()
	was := t.t.active
	if was {
		t.t.active = false
		s.dropTimer(t.t)
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	s := S
	if t.t == nil {
		return t.rt.Reset(d)
	}
	if s == nil || s.dead {
		return false
	}
	was := t.Stop()
	s.addTimer(t.t, int64(d))
	return was
}

// Ticker is time.Ticker.
type Ticker struct {
	C  <-chan time.Time
	rt *time.Ticker
	t  *timer
}

func NewTicker(d time.Duration) *Ticker {
	s := S
	if s == nil {
		rt := time.NewTicker(d)
		return &Ticker{C: rt.C, rt: rt}
	}
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c, h := timerChan(s)
	t := &timer{ch: h, period: int64(d)}
	s.addTimer(t, int64(d))
	return &Ticker{C: c, t: t}
}

func (t *Ticker) Stop() {
	if t.t == nil {
		t.rt.Stop()
		return
	}
	s := S
	if s == nil || s.dead {
		return
	}
	if t.t.active {
		t.t.active = false
		s.dropTimer(t.t)
	}
}

func (t *Ticker) Reset(d time.Duration) {
	if t.t == nil {
		t.rt.Reset(d)
		return
	}
	s := S
	if s == nil || s.dead {
		return
	}
	t.Stop()
	t.t.period = int64(d)
	s.addTimer(t.t, int64(d))
}

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

// ---- context

type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	dl       time.Time
	hasDl    bool
	children []func(err, cause error) // told when this context ends, unless nil
}

type vctxKeyT struct{}

var vctxKey vctxKeyT

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *vctx) Done() <-chan struct{} { return c.done }
func (c *vctx) Err() error {
	Point()
	return c.err
}
func (c *vctx) Value(k any) any {
	if k == any(vctxKey) {
		return c
	}
	return c.parent.Value(k)
}

func (c *vctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err = err
	c.cause = cause
	Close(c.done)
	for _, f := range c.children {
		if f != nil {
			f(err, cause)
		}
	}
	c.children = nil
}

// ended calls f when the context ends. The function returned undoes this.
func ended(parent context.Context, f func(err, cause error)) func() {
	pd := parent.Done()
	if pd == nil {
		return func() {}
	}
	if p, ok := parent.Value(vctxKey).(*vctx); ok && p.done == pd {
		if p.err != nil {
			f(p.err, p.cause)
			return func() {}
		}
		i := len(p.children)
		p.children = append(p.children, f)
		return func() {
			if i < len(p.children) {
				p.children[i] = nil
			}
		}
	}
	quit := make(chan struct{})
	Go(func() {
		switch r, d := RecvCase(pd), RecvCase(quit); Select(false, r, d) {
		case 0:
			f(parent.Err(), context.Cause(parent))
		}
	})
	over := false
	return func() {
		if !over {
			over = true
			Close(quit)
		}
	}
}

func newCtx(parent context.Context) (*vctx, func(err, cause error)) {
	c := &vctx{parent: parent, done: make(chan struct{})}
	undo := ended(parent, c.cancel)
	return c, func(err, cause error) {
		if c.err == nil {
			undo()
		}
		c.cancel(err, cause)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if S == nil {
		return context.WithCancel(parent)
	}
	c, cancel := newCtx(parent)
	return c, func() { cancel(context.Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	if S == nil {
		return context.WithCancelCause(parent)
	}
	c, cancel := newCtx(parent)
	return c, func(cause error) { cancel(context.Canceled, cause) }
}

func Cause(c context.Context) error {
	if v, ok := c.Value(vctxKey).(*vctx); ok {
		Point()
		return v.cause
	}
	return context.Cause(c)
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	if S == nil {
		return context.WithTimeoutCause(parent, d, cause)
	}
	c, cancel := newCtx(parent)
	c.dl, c.hasDl = Now().Add(d), true
	t := AfterFunc(d, func() { cancel(context.DeadlineExceeded, cause) })
	return c, func() { t.Stop(); cancel(context.Canceled, nil) }
}

func WithDeadline(parent context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, t, nil)
}

func WithDeadlineCause(parent context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	if S == nil {
		return context.WithDeadlineCause(parent, t, cause)
	}
	return WithTimeoutCause(parent, Until(t), cause)
}

// ContextAfterFunc is context.AfterFunc.
func ContextAfterFunc(c context.Context, f func()) func() bool {
	if S == nil {
		return context.AfterFunc(c, f)
	}
	state := 0
	undo := ended(c, func(err, cause error) {
		if state == 0 {
			state = 1
			Go(f)
		}
	})
	return func() bool {
		Point()
		if state != 0 {
			return false
		}
		state = 2
		undo()
		return true
	}
}
