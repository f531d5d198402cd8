package vsched

import (
	"context"
	"sync"
	"time"
)

type timer struct {
	at   int64
	seq  int
	fire func()
	name string
}

// Base is the virtual epoch.
var Base = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// NowNs is the virtual time in ns since Base.
func NowNs() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

// AddTimer registers fire to run at now+d; cancel removes it and reports whether it was pending.
func AddTimer(d time.Duration, name string, fire func()) (cancel func() bool) {
	r := s
	if r == nil || r.ending {
		return func() bool { return false }
	}
	if d < 0 {
		d = 0
	}
	at := r.now + int64(d)
	if at < r.now { // overflow
		at = 1<<63 - 1
	}
	t := &timer{at: at, seq: r.timerSeq, fire: fire, name: name}
	r.timerSeq++
	// keep sorted by (at, seq)
	i := len(r.timers)
	for i > 0 && r.timers[i-1].at > t.at {
		i--
	}
	r.timers = append(r.timers[:i:i], append([]*timer{t}, r.timers[i:]...)...)
	return func() bool {
		for j, x := range r.timers {
			if x == t {
				r.timers = append(r.timers[:j:j], r.timers[j+1:]...)
				return true
			}
		}
		return false
	}
}

func (r *sched) fireTimer() {
	t := r.timers[0]
	r.timers = append([]*timer{}, r.timers[1:]...)
	if t.at > r.now {
		r.now = t.at
	}
	if r.cfg.KeepLog {
		r.logf("timer %s fires", t.name)
	}
	t.fire()
}

// PendingTimers is the number of timers that could still fire.
func PendingTimers() int {
	if s == nil {
		return 0
	}
	return len(s.timers)
}

// TimersOf is the number of them that have the name.
func TimersOf(name string) int {
	n := 0
	if s != nil {
		for _, t := range s.timers {
			if t.name == name {
				n++
			}
		}
	}
	return n
}

// RawSend offers v on a buffered channel from a timer callback (dropped if full).
func RawSend[T any](ch chan<- T, v T) {
	r := s
	if r == nil || r.ending {
		return
	}
	c := r.ch(chanPtr(ch), cap(ch))
	if c.closed {
		return
	}
	if len(c.buf) == 0 {
		if w := c.firstRecver(nil); w != nil {
			w.op.completed, w.op.val, w.op.ok, w.op.sel = true, any(v), true, w.idx
			return
		}
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, any(v))
	}
}

// RawDrain removes buffered values (timer Stop/Reset).
func RawDrain[T any](ch chan T) {
	r := s
	if r == nil || r.ending {
		return
	}
	r.ch(chanPtr(ch), cap(ch)).buf = nil
}

// RawClose closes a channel from a callback.
func RawClose[T any](ch chan T) {
	r := s
	if r == nil || r.ending {
		return
	}
	c := r.ch(chanPtr(ch), cap(ch))
	if !c.closed {
		c.closed = true
	}
}

// ---- contexts ----

type vctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	key, val any
	isVal    bool
	noCancel bool
	deadline time.Time
	hasDl    bool
	children []*vctx
	stop     func() bool
	after    []*func()
	_        sync.Mutex
}

func (c *vctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	if c.noCancel {
		return time.Time{}, false
	}
	return c.parent.Deadline()
}
func (c *vctx) Done() <-chan struct{} {
	if c.isVal {
		return c.parent.Done()
	}
	if c.noCancel {
		return nil
	}
	return c.done
}
func (c *vctx) Err() error {
	Point("ctx.Err")
	return c.errNow()
}
func (c *vctx) errNow() error {
	if c.isVal {
		if p, ok := c.parent.(*vctx); ok {
			return p.errNow()
		}
		return c.parent.Err()
	}
	if c.noCancel {
		return nil
	}
	return c.err
}
func (c *vctx) Value(k any) any {
	if c.isVal && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}
func (c *vctx) String() string { return "context" }

func (c *vctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	if c.cause == nil {
		c.cause = err
	}
	RawClose(c.done)
	if c.stop != nil {
		c.stop()
	}
	for _, ch := range c.children {
		ch.cancel(err, c.cause)
	}
	for _, f := range c.after {
		(*f)()
	}
	c.children, c.after = nil, nil
	if a := cancelAncestor(c.parent); a != nil && a.err == nil {
		a.children = without(a.children, c)
	}
}

func without[T comparable](l []T, x T) []T {
	for i, y := range l {
		if y == x {
			return append(append([]T(nil), l[:i]...), l[i+1:]...)
		}
	}
	return l
}

func cancelAncestor(p context.Context) *vctx {
	for {
		c, ok := p.(*vctx)
		if !ok || c.noCancel {
			return nil
		}
		if c.isVal {
			p = c.parent
			continue
		}
		return c
	}
}

func newCtx(parent context.Context) *vctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &vctx{parent: parent, done: make(chan struct{})}
	if a := cancelAncestor(parent); a != nil {
		if a.err != nil {
			c.cancel(a.err, a.cause)
		} else {
			a.children = append(a.children, c)
		}
	}
	return c
}

// CtxCancel is context.WithCancelCause in the virtual world.
func CtxCancel(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		Point("cancel ctx")
		c.cancel(context.Canceled, cause)
	}
}

// CtxDeadline is context.WithTimeoutCause in the virtual world.
func CtxDeadline(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	dl := Base.Add(time.Duration(NowNs()) + d)
	if pd, ok := parent.Deadline(); ok && pd.Before(dl) {
		dl = pd
	} else if c.err == nil {
		c.stop = AddTimer(d, "ctx deadline", func() { c.stop = nil; c.cancel(context.DeadlineExceeded, cause) })
	}
	c.deadline, c.hasDl = dl, true
	return c, func() {
		Point("cancel ctx")
		c.cancel(context.Canceled, nil)
	}
}

// CtxValue is context.WithValue.
func CtxValue(parent context.Context, k, v any) context.Context {
	return &vctx{parent: parent, isVal: true, key: k, val: v}
}

// CtxWithoutCancel is context.WithoutCancel.
func CtxWithoutCancel(parent context.Context) context.Context {
	return &vctx{parent: parent, noCancel: true}
}

// CtxCause is context.Cause.
func CtxCause(c context.Context) error {
	if a := cancelAncestor(c); a != nil {
		return a.cause
	}
	return nil
}

// CtxAfterFunc is context.AfterFunc.
func CtxAfterFunc(c context.Context, f func()) func() bool {
	a := cancelAncestor(c)
	if a == nil {
		return func() bool { return true }
	}
	stopped, started := false, false
	run := func() {
		if !stopped {
			started = true
			spawn(f)
		}
	}
	if a.err != nil {
		run()
	} else {
		a.after = append(a.after, &run)
	}
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		a.after = without(a.after, &run)
		return true
	}
}

// spawn starts a goroutine without a scheduling point (from callbacks).
func spawn(f func()) {
	if s != nil && !s.ending {
		newG("", f)
	}
}

// Spawn is spawn for shims.
func Spawn(f func()) { spawn(f) }

// CtxErr is c.Err() without a scheduling point (for conditions of Await).
func CtxErr(c context.Context) error {
	if v, ok := c.(*vctx); ok {
		return v.errNow()
	}
	return c.Err()
}
