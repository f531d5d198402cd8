package suites

import (
	"context"
	"errors"
	"fmt"
	"net"

	"github.com/panjf2000/gnet"
	"github.com/yusank/godis/server/v2"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vgnet"
	"github.com/yusank/godis/zzverif/vpool"
	"github.com/yusank/godis/zzverif/vsched"
)

// gconn is a connection of the model of gnet's event loops. What matters of gnet: React of one connection is
// serial and gets everything that arrived; the packet buffer is reused once React has returned; AsyncWrite and
// Close go through one queue which the loop executes in order; after a disconnect they do nothing.
type gconn struct {
	gnet.Conn
	l      *gloop
	w      *wire
	ctx    interface{}
	opened bool
	dead   bool
	next   int
	frame  []byte
}

type gloop struct {
	h     gnet.EventHandler
	conns []*gconn
	tasks []func()
	buf   []byte
	over  bool
	paced bool
	bad   string
}

func (c *gconn) Context() interface{}       { return c.ctx }
func (c *gconn) SetContext(ctx interface{}) { c.ctx = ctx }
func (c *gconn) LocalAddr() net.Addr        { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6379} }
func (c *gconn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + c.w.id}
}
func (c *gconn) Read() []byte      { return c.frame }
func (c *gconn) ResetBuffer()      { c.frame = nil }
func (c *gconn) BufferLength() int { return len(c.frame) }
func (c *gconn) ReadN(n int) (int, []byte) {
	if n <= 0 || n > len(c.frame) {
		n = len(c.frame)
	}
	return n, c.frame[:n]
}
func (c *gconn) ShiftN(n int) int {
	if n <= 0 || n > len(c.frame) {
		n = len(c.frame)
	}
	c.frame = c.frame[n:]
	return n
}
func (c *gconn) SendTo(b []byte) error { return c.AsyncWrite(b) }
func (c *gconn) AsyncWrite(b []byte) error {
	vsched.Point("AsyncWrite")
	c.l.tasks = append(c.l.tasks, func() { c.write(b) })
	return nil
}
func (c *gconn) AsyncWritev(bs [][]byte) error {
	vsched.Point("AsyncWritev")
	c.l.tasks = append(c.l.tasks, func() {
		for _, b := range bs {
			c.write(b)
		}
	})
	return nil
}
func (c *gconn) Wake() error {
	vsched.Point("Wake")
	c.l.tasks = append(c.l.tasks, func() {
		if c.opened {
			c.act(c.l.h.React(nil, c))
		}
	})
	return nil
}
func (c *gconn) Close() error {
	vsched.Point("Close")
	c.l.tasks = append(c.l.tasks, func() { c.close(nil) })
	return nil
}

func (c *gconn) write(b []byte) {
	if !c.opened {
		return
	}
	c.l.h.PreWrite(c)
	c.w.wrote(b)
	c.l.h.AfterWrite(c, b)
}

func (c *gconn) close(err error) {
	if !c.opened {
		return
	}
	c.opened, c.dead = false, true
	if err == nil {
		c.w.shut = true
	}
	a := c.l.h.OnClosed(c, err)
	c.ctx = nil
	if a == gnet.Shutdown {
		c.l.bad = "the server shut itself down"
	}
}

func (c *gconn) act(out []byte, a gnet.Action) {
	if len(out) > 0 {
		c.write(out)
	}
	switch a {
	case gnet.Close:
		c.close(nil)
	case gnet.Shutdown:
		c.l.bad = "the server shut itself down"
	}
}

func (c *gconn) pending() bool {
	return !c.dead && (!c.opened || c.next < len(c.w.pkts) && !(c.w.end != "" && c.next >= c.w.endAt) || c.w.end != "" && c.next >= c.w.endAt)
}

// step handles the next event of the connection.
func (c *gconn) step() {
	switch {
	case !c.opened:
		c.opened = true
		c.act(c.l.h.OnOpened(c))
	case c.w.end != "" && c.next >= c.w.endAt:
		c.w.gone = true
		if c.w.end == "reset" {
			c.close(errors.New("connection reset by peer"))
		} else {
			c.close(errors.New("EOF"))
		}
	default:
		p := c.w.pkts[c.next]
		c.next++
		c.w.deliver(p)
		n := copy(c.l.buf, p)
		c.frame = c.l.buf[:n]
		out, a := c.l.h.React(c.l.buf[:n], c)
		c.act(out, a)
		for i := range c.l.buf[:n] {
			c.l.buf[i] = '#' // the buffer belongs to the loop again
		}
		c.frame = nil
	}
}

func (l *gloop) ready() (r []*gconn) {
	for _, c := range l.conns {
		if c.pending() {
			r = append(r, c)
		}
	}
	return
}

func (l *gloop) run() {
	for {
		vsched.Await("event loop", func() bool { return l.over || len(l.tasks) > 0 || len(l.ready()) > 0 })
		if l.over {
			return
		}
		if l.paced && len(l.tasks) == 0 {
			vsched.AwaitQuiescence()
			if len(l.tasks) > 0 {
				continue
			}
		}
		if t := l.tasks; len(t) > 0 {
			l.tasks = nil
			for _, f := range t {
				f()
			}
			continue
		}
		r := l.ready()
		r[vsched.Choose(len(r), "event", 1)].step()
	}
}

// session2 is a scenario of the event-loop server.
type session2 struct {
	conns  []connSpec
	shared bool // one event loop serves all connections
	paced  bool // packets arrive only when the server has nothing left to do
	full   bool // the worker pool takes no task
}

type connSpec struct {
	n     int // requests
	tail  string
	how   string
	end   string
	endAt int
}

func (s connSpec) String() string {
	return fmt.Sprintf("%d+%q cut=%s end=%s@%d", s.n, s.tail, s.how, s.end, s.endAt)
}

func (sc session2) name() string {
	return fmt.Sprintf("%v shared=%v paced=%v full=%v", sc.conns, sc.shared, sc.paced, sc.full)
}

func (sc session2) start() func() (func(), func(*vsched.Result) (string, string)) {
	verdicts := map[string]string{}
	return func() (func(), func(*vsched.Result) (string, string)) {
		h := &history{}
		var wires []*wire
		var loops []*gloop
		var final []*call
		why := ""
		main := func() {
			vsched.Quiet(true)
			drive.Reset()
			vsched.AwaitQuiescence()
			var handler gnet.EventHandler
			over := false
			vgnet.ServeHook = func(eh gnet.EventHandler, addr string, o *gnet.Options) error {
				handler = eh
				eh.OnInitComplete(gnet.Server{})
				vsched.Await("serve", func() bool { return over })
				return nil
			}
			vgnet.StopHook = func(ctx context.Context, addr string) error { return nil }
			vpool.Overloaded = sc.full
			srv := v2.NewServer(vpool.Default())
			vsched.GoNamed("server", "client", func() { _ = srv.Start("tcp://127.0.0.1:6379") })
			vsched.AwaitQuiescence()
			if handler == nil {
				why = "Start does not serve"
				return
			}
			for i, s := range sc.conns {
				w := newWire(i, h, requestSet(i, s.n), s.tail, s.how, s.end, s.endAt)
				wires = append(wires, w)
				if i == 0 || !sc.shared {
					loops = append(loops, &gloop{h: handler, buf: make([]byte, 65536), paced: sc.paced})
				}
				l := loops[len(loops)-1]
				l.conns = append(l.conns, &gconn{l: l, w: w})
			}
			for i, l := range loops {
				vsched.GoNamed(fmt.Sprintf("loop%d", i), "loop", l.run)
			}
			vsched.Quiet(false)
			idle := func() bool {
				for _, l := range loops {
					if len(l.tasks) > 0 || len(l.ready()) > 0 {
						return false
					}
				}
				return true
			}
			for {
				vsched.Await("all packets handled", idle)
				vsched.AwaitQuiescence()
				if idle() {
					break
				}
			}
			vsched.Quiet(true)
			final = inspect(h, []string{"p", "q", "r", "l", "n"})
			over = true
			for _, l := range loops {
				l.over = true
			}
		}
		judge := func(res *vsched.Result) (string, string) {
			if w := blockedWhy(res, why); w != "" {
				return w, ""
			}
			out := ""
			for _, l := range loops {
				if l.bad != "" {
					return l.bad, ""
				}
			}
			for i, w := range wires {
				if x := w.judge(w.gone); x != "" {
					return x, ""
				}
				if w.shut && w.tail == "" {
					return fmt.Sprintf("conn %d was closed by the server", i), ""
				}
				w.unanswered()
				out += fmt.Sprintf("%d:%q ", i, w.out)
			}
			for _, f := range final {
				if f.bad != "" {
					return f.bad, ""
				}
			}
			sig := h.sig()
			for _, f := range final {
				sig += "|" + f.raw
			}
			v, ok := verdicts[sig]
			if !ok {
				v = explain(model.DB{}, h.calls, final)
				verdicts[sig] = v
			}
			return v, out
		}
		return main, judge
	}
}

// cuts2 lists ways to cut a stream of n requests plus tail: whole, per request, per byte, at every byte.
func cutsOf(id, n int, tail string, pairs bool) (l []string) {
	l = []string{"one", "each", "bytes"}
	size := len(tail)
	for _, p := range cut(requestSet(id, n), "", "one") {
		size += len(p)
	}
	for i := 1; i < size; i++ {
		l = append(l, fmt.Sprintf("at:%d", i))
	}
	if pairs {
		for i := 1; i < size; i++ {
			for j := i + 1; j < size; j++ {
				l = append(l, fmt.Sprintf("at:%d,%d", i, j))
			}
		}
	}
	return
}

var garbage = []string{"*x\r\n", "*1\r\n$-5\r\nab\r\n", "*1\r\n$2\r\nabcd\r\n", "*2\r\n$3\r\nget\r\n", "*1\r\n$4\r\npi"}

func single2(n int, pairs bool, paced bool) (l []session2) {
	for _, how := range cutsOf(0, n, "", pairs) {
		l = append(l, session2{conns: []connSpec{{n: n, how: how}}, paced: paced})
	}
	return
}

func tails2() (l []session2) {
	for _, g := range garbage {
		for n := 0; n <= 2; n++ {
			for _, how := range []string{"one", "each", "bytes"} {
				l = append(l, session2{conns: []connSpec{{n: n, tail: g, how: how}}})
			}
		}
	}
	return
}

func double2(tier string) (l []session2) {
	a := []connSpec{{n: 2, how: "one"}, {n: 2, how: "each"}, {n: 2, how: "at:15"}, {n: 3, how: "at:40"},
		{n: 2, how: "each", end: "close", endAt: 2}, {n: 2, how: "each", end: "reset", endAt: 1}, {n: 2, how: "at:20", end: "close", endAt: 1}, {n: 2, how: "one", end: "reset", endAt: 1},
		{n: 1, tail: "*x\r\n", how: "one"}, {n: 1, tail: "*1\r\n$2\r\nabcd\r\n", how: "each"}, {n: 1, tail: "*2\r\n$3\r\nge", how: "each", end: "close", endAt: 2}}
	for i, x := range a {
		for j, y := range a {
			if y.end != "" || y.tail != "" {
				continue
			}
			if j < i && x.end == "" && x.tail == "" {
				continue
			}
			l = append(l, session2{conns: []connSpec{x, y}}, session2{conns: []connSpec{x, y}, shared: true})
			if tier == "thorough" {
				l = append(l, session2{conns: []connSpec{x, y}, paced: true}, session2{conns: []connSpec{x, y}, paced: true, shared: true})
			}
		}
	}
	for i := 0; i < 8; i++ {
		l = append(l, session2{conns: []connSpec{{n: 2, how: "each"}, {n: 2, how: "one"}, a[i]}, shared: i%2 == 0})
	}
	return
}

func session2Scens(l []session2, cfg vsched.Config, bound int) (out []scen) {
	for _, h := range l {
		out = append(out, scen{name: h.name(), cfg: cfg, bound: bound, start: h.start()})
	}
	return
}

func init() {
	delays := vsched.Config{Delay: true, MaxSteps: 60000}
	stmts := vsched.Config{Delay: true, Stmt: true, StmtFilter: pkgFilter("server/v2", "event"), MaxSteps: 60000}
	schedules{prop: "C23", name: "cuts/delays", suite: "event-loop", bound: tieredText{"one connection, 1-3 requests, every way to cut the stream once (and per request, per byte); every placement of one delay", "every way to cut the stream at two bytes; up to 2 delays"},
		scens: func(tier string) []scen {
			l := append(append(single2(1, tier == "thorough", false), single2(2, tier == "thorough", false)...), single2(3, false, false)...)
			l = append(l, single2(2, false, true)...)
			return session2Scens(append(l, tails2()...), delays, atTier(tier, 1, 2))
		}}.shards(8)
	schedules{prop: "C23", name: "conns/delays", suite: "event-loop", bound: tieredText{"two and three connections with disconnects, resets and garbage; every placement of up to 2 delays", "up to 4 delays"},
		scens: func(tier string) []scen { return session2Scens(double2(tier), delays, atTier(tier, 2, 4)) }}.shards(8)
	schedules{prop: "C23", name: "cuts2/delays", suite: "event-loop", bound: tieredText{"one connection, 2 requests, every way to cut the stream once (and per request, per byte), with and without a full worker pool; every placement of up to 2 delays", "up to 3 delays"},
		scens: func(tier string) []scen {
			l := single2(2, false, false)
			for _, s := range append(single2(2, false, false), double2("quick")[:6]...) {
				s.full = true
				if s.conns[0].how == "one" || s.conns[0].how == "each" {
					l = append(l, s)
				}
			}
			return session2Scens(l, delays, atTier(tier, 2, 3))
		}}.shards(4)
	schedules{prop: "C23", name: "conns/statements", suite: "event-loop", bound: tieredText{"every placement of one delay at statements of the server and event code and at synchronisation points", "every placement of up to two delays"},
		scens: func(tier string) []scen {
			l := []session2{}
			for _, how := range []string{"one", "each", "at:15", "at:30", "at:31"} {
				l = append(l, session2{conns: []connSpec{{n: 3, how: how}}})
			}
			return session2Scens(append(l, double2("quick")...), stmts, atTier(tier, 1, 2))
		}}.shards(4)
	schedules{prop: "C23", name: "conns/preemptions", suite: "event-loop", bound: tieredText{"one connection with 2-3 requests; every schedule of the synchronisation points with at most 1 preemption", "with at most 2 preemptions"},
		scens: func(tier string) []scen {
			l := []session2{}
			for _, how := range []string{"one", "each", "at:15", "at:30", "at:31"} {
				l = append(l, session2{conns: []connSpec{{n: 2, how: how}}}, session2{conns: []connSpec{{n: 3, how: how}}})
			}
			return session2Scens(l, vsched.Config{MaxSteps: 60000}, atTier(tier, 1, 2))
		}}.shards(4)
}
