package vsched

import "fmt"

type chanState struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

type waiter struct {
	g   *G
	op  *op
	val any
	idx int
}

func (r *sched) ch(key any, capacity int) *chanState {
	c := r.chans[key]
	if c == nil {
		c = &chanState{cap: capacity, id: len(r.chans)}
		r.chans[key] = c
	}
	return c
}

func (c *chanState) firstSender(not *G) *waiter {
	for _, w := range c.sendq {
		if w.g != not && !w.op.completed && !w.g.dying {
			return w
		}
	}
	return nil
}

func (c *chanState) firstRecver(not *G) *waiter {
	for _, w := range c.recvq {
		if w.g != not && !w.op.completed && !w.g.dying {
			return w
		}
	}
	return nil
}

func remove(q []*waiter, w *waiter) []*waiter {
	for i, x := range q {
		if x == w {
			return append(append([]*waiter{}, q[:i]...), q[i+1:]...)
		}
	}
	return q
}

func (c *chanState) canSend(g *G) bool {
	return c.closed || len(c.buf) < c.cap || c.firstRecver(g) != nil
}
func (c *chanState) canRecv(g *G) bool {
	return c.closed || len(c.buf) > 0 || c.firstSender(g) != nil
}

// doSend performs an enabled send.
func (c *chanState) doSend(r *sched, g *G, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.buf) == 0 {
		if w := c.firstRecver(g); w != nil {
			w.op.completed, w.op.val, w.op.ok, w.op.sel = true, v, true, w.idx
			return
		}
	}
	c.buf = append(c.buf, v)
}

// doRecv performs an enabled receive.
func (c *chanState) doRecv(r *sched, g *G) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]any{}, c.buf[1:]...)
		// a blocked sender moves into the buffer
		if w := c.firstSender(g); w != nil && !c.closed {
			w.op.completed, w.op.sel = true, w.idx
			c.buf = append(c.buf, w.val)
		}
		return v, true
	}
	if w := c.firstSender(g); w != nil && !c.closed {
		w.op.completed, w.op.sel = true, w.idx
		return w.val, true
	}
	return nil, false // closed
}

// Sender returns a function that sends on ch (type arguments are inferred from the channel alone).
func Sender[T any](ch chan<- T) func(T) {
	return func(v T) { send(keyS(ch), ch == nil, cap(ch), any(v)) }
}

func send(key any, isNil bool, capacity int, v any) {
	r := live()
	if r == nil {
		return
	}
	g := r.cur
	if isNil {
		r.block(&op{what: "send on nil channel", enabled: never})
		return
	}
	c := r.ch(key, capacity)
	o := &op{what: fmt.Sprintf("send c%d", c.id)}
	w := &waiter{g: g, op: o, val: v}
	c.sendq = append(c.sendq, w)
	defer func() { c.sendq = remove(c.sendq, w) }()
	o.enabled = func() bool { return c.canSend(g) }
	r.block(o)
	if o.completed {
		return
	}
	o.completed = true
	c.doSend(r, g, v)
}

func never() bool { return false }

// canonical channel identity independent of the direction it is viewed with.
func keyR[T any](ch <-chan T) any { return chanPtr(ch) }
func keyS[T any](ch chan<- T) any { return chanPtr(ch) }

// Recv receives one value.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives one value and whether the channel was open.
func Recv2[T any](ch <-chan T) (T, bool) {
	var zero T
	r := live()
	if r == nil {
		return zero, false
	}
	g := r.cur
	if ch == nil {
		r.block(&op{what: "receive from nil channel", enabled: never})
		return zero, false
	}
	c := r.ch(keyR(ch), cap(ch))
	o := &op{what: fmt.Sprintf("recv c%d", c.id)}
	w := &waiter{g: g, op: o}
	c.recvq = append(c.recvq, w)
	defer func() { c.recvq = remove(c.recvq, w) }()
	o.enabled = func() bool { return c.canRecv(g) }
	r.block(o)
	if o.completed {
		return conv[T](o.val), o.ok
	}
	o.completed = true
	v, ok := c.doRecv(r, g)
	return conv[T](v), ok
}

func conv[T any](v any) T {
	var zero T
	if v == nil {
		return zero
	}
	return v.(T)
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	r := live()
	if r == nil {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	c := r.ch(keyS(ch), cap(ch))
	r.block(&op{what: fmt.Sprintf("close c%d", c.id)})
	r.closeState(c)
}

func (r *sched) closeState(c *chanState) {
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	r := live()
	if r == nil || ch == nil {
		return 0
	}
	c := r.ch(keyR(ch), cap(ch))
	r.block(&op{what: fmt.Sprintf("len c%d", c.id)})
	return len(c.buf)
}

// ChanIter drives a range over a channel.
type ChanIter[T any] struct{ ch <-chan T }

// ChanStart begins a range over ch.
func ChanStart[T any](ch <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{ch}, z
}

// Next receives the next value into *p.
func (i *ChanIter[T]) Next(p *T) bool {
	v, ok := Recv2(i.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Case is one select case.
type Case interface {
	prep(r *sched, g *G, o *op, idx int)
	unprep()
	ready(g *G) bool
	fire(r *sched, g *G)
	take(o *op)
	name() string
}

// RCase is a receive case.
type RCase[T any] struct {
	V  T
	OK bool
	ch <-chan T
	c  *chanState
	w  *waiter
}

// NewRecv makes a receive case.
func NewRecv[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (k *RCase[T]) prep(r *sched, g *G, o *op, idx int) {
	if k.ch == nil {
		return
	}
	k.c = r.ch(keyR(k.ch), cap(k.ch))
	k.w = &waiter{g: g, op: o, idx: idx}
	k.c.recvq = append(k.c.recvq, k.w)
}
func (k *RCase[T]) unprep() {
	if k.c != nil {
		k.c.recvq = remove(k.c.recvq, k.w)
	}
}
func (k *RCase[T]) ready(g *G) bool { return k.c != nil && k.c.canRecv(g) }
func (k *RCase[T]) fire(r *sched, g *G) {
	v, ok := k.c.doRecv(r, g)
	k.V, k.OK = conv[T](v), ok
}
func (k *RCase[T]) take(o *op) { k.V, k.OK = conv[T](o.val), o.ok }
func (k *RCase[T]) name() string {
	if k.c == nil {
		return "recv nil"
	}
	return fmt.Sprintf("recv c%d", k.c.id)
}

// SCase is a send case.
type SCase[T any] struct {
	ch chan<- T
	v  T
	c  *chanState
	w  *waiter
}

// NewSend makes a send case.
func NewSend[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, v: v} }
}
func (k *SCase[T]) prep(r *sched, g *G, o *op, idx int) {
	if k.ch == nil {
		return
	}
	k.c = r.ch(keyS(k.ch), cap(k.ch))
	k.w = &waiter{g: g, op: o, idx: idx, val: any(k.v)}
	k.c.sendq = append(k.c.sendq, k.w)
}
func (k *SCase[T]) unprep() {
	if k.c != nil {
		k.c.sendq = remove(k.c.sendq, k.w)
	}
}
func (k *SCase[T]) ready(g *G) bool     { return k.c != nil && k.c.canSend(g) }
func (k *SCase[T]) fire(r *sched, g *G) { k.c.doSend(r, g, any(k.v)) }
func (k *SCase[T]) take(o *op)          {}
func (k *SCase[T]) name() string {
	if k.c == nil {
		return "send nil"
	}
	return fmt.Sprintf("send c%d", k.c.id)
}

// Select performs a select statement and returns the index of the chosen case, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	r := live()
	if r == nil {
		// goroutine is being ended: leave
		if s != nil && s.cur != nil && s.cur.dying {
			return exitNow()
		}
		return -1
	}
	g := r.cur
	o := &op{}
	for i, c := range cases {
		c.prep(r, g, o, i)
	}
	defer func() {
		for _, c := range cases {
			c.unprep()
		}
	}()
	o.what = "select{"
	for i, c := range cases {
		if i > 0 {
			o.what += " "
		}
		o.what += c.name()
	}
	o.what += "}"
	if hasDefault {
		// non-blocking: must not look like a waiting partner before it is its turn
		for _, c := range cases {
			c.unprep()
		}
	} else {
		o.enabled = func() bool {
			for _, c := range cases {
				if c.ready(g) {
					return true
				}
			}
			return false
		}
	}
	r.block(o)
	if o.completed {
		cases[o.sel].take(o)
		return o.sel
	}
	o.completed = true
	var rd [16]int
	ready := rd[:0]
	for i, c := range cases {
		if c.ready(g) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		return -1
	}
	k := 0
	if len(ready) > 1 && !r.cfg.NoSched {
		k = Choose(len(ready), "select", r.cfg.SelectCost)
	}
	cases[ready[k]].fire(r, g)
	return ready[k]
}

// BlockForever is select{}.
func BlockForever() {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: "select{}", enabled: never})
}
