package suites

import (
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/yusank/godis/server/v1"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vnet"
	"github.com/yusank/godis/zzverif/vsched"
)

// fakeListener and fakeConn behave as TCP sockets do: reads and writes block, deadlines interrupt them,
// Close interrupts both and is refused the second time.
type fakeListener struct {
	queue  []*fakeConn
	faults []error // errors Accept returns before the next connection
	closed bool
	calls  int
	taken  int
	late   int // connections accepted after Close
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6379}, Err: err}
}

func (l *fakeListener) Accept() (net.Conn, error) {
	vsched.Await("accept", func() bool { return l.closed || len(l.queue) > 0 || len(l.faults) > 0 })
	l.calls++
	if l.closed {
		return nil, opErr("accept", net.ErrClosed)
	}
	if len(l.faults) > 0 {
		e := l.faults[0]
		l.faults = l.faults[1:]
		return nil, opErr("accept", e)
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	l.taken++
	c.accepted = true
	vsched.Logf("accepted conn %d", c.w.id)
	return c, nil
}

func (l *fakeListener) Close() error {
	vsched.Point("listener.Close")
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	vsched.Logf("listener closed")
	return nil
}
func (l *fakeListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6379} }

type fakeConn struct {
	w        *wire
	next     int
	part     string
	accepted bool
	closed   bool
	rdl, wdl int64 // deadlines in virtual ns, 0: none
	stall    bool  // the client never reads: writes block
	failAt   int   // the n-th write fails (1-based), 0: never
	writes   int
	reads    int
	freeze   bool
}

func (c *fakeConn) expired(dl int64) bool { return dl != 0 && vsched.NowNs() >= dl }

func (c *fakeConn) clientGone() bool { return c.w.end != "" && c.next >= c.w.endAt && c.part == "" }

func (c *fakeConn) Read(b []byte) (int, error) {
	vsched.Await("conn.Read", func() bool {
		return c.closed || c.expired(c.rdl) || c.part != "" || c.next < len(c.w.pkts) && !(c.w.end != "" && c.next >= c.w.endAt) || c.clientGone()
	})
	c.reads++
	switch {
	case c.closed:
		return 0, opErr("read", net.ErrClosed)
	case c.expired(c.rdl):
		return 0, opErr("read", os.ErrDeadlineExceeded)
	case c.clientGone():
		c.w.gone = true
		if c.w.end == "reset" {
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if c.part == "" {
		c.part = c.w.pkts[c.next]
		c.next++
		c.w.deliver(c.part)
	}
	n := copy(b, c.part)
	c.part = c.part[n:]
	return n, nil
}

func (c *fakeConn) Write(b []byte) (int, error) {
	vsched.Await("conn.Write", func() bool { return c.closed || !c.stall || c.expired(c.wdl) })
	c.writes++
	switch {
	case c.closed:
		return 0, opErr("write", net.ErrClosed)
	case c.expired(c.wdl):
		return 0, opErr("write", os.ErrDeadlineExceeded)
	case c.failAt > 0 && c.writes >= c.failAt || c.w.gone && c.w.end == "reset":
		c.w.gone = true
		return 0, opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	c.w.wrote(append([]byte{}, b...))
	return len(b), nil
}

func (c *fakeConn) Close() error {
	vsched.Point("conn.Close")
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.w.shut = true
	vsched.Logf("conn %d closed", c.w.id)
	return nil
}
func (c *fakeConn) LocalAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 6379} }
func (c *fakeConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + c.w.id}
}

func (c *fakeConn) deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	at := t.Sub(vsched.Base).Nanoseconds()
	if at <= 0 {
		at = 1
	}
	vsched.AddTimer(time.Duration(at-vsched.NowNs()), "conn deadline", func() {})
	return at
}
func (c *fakeConn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *fakeConn) SetReadDeadline(t time.Time) error {
	vsched.Point("SetReadDeadline")
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = c.deadline(t)
	return nil
}
func (c *fakeConn) SetWriteDeadline(t time.Time) error {
	vsched.Point("SetWriteDeadline")
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = c.deadline(t)
	return nil
}

// session1 is a scenario of the goroutine-per-connection server.
type session1 struct {
	conns  []connSpec
	stall  []int // connections whose client never reads
	failAt []int // per connection: the write that fails
	faults []error
	stop   string // when the server is stopped: "idle" (all served), "any" (concurrently), "first" (before Start), "twice"
}

func (sc session1) name() string {
	return fmt.Sprintf("%v stall=%v fail=%v faults=%v stop=%s", sc.conns, sc.stall, sc.failAt, sc.faults, sc.stop)
}

func (sc session1) start() func() (func(), func(*vsched.Result) (string, string)) {
	verdicts := map[string]string{}
	return func() (func(), func(*vsched.Result) (string, string)) {
		h := &history{}
		l := &fakeListener{faults: append([]error{}, sc.faults...)}
		var wires []*wire
		var conns []*fakeConn
		why := ""
		fail := func(f string, a ...any) {
			if why == "" {
				why = fmt.Sprintf(f, a...)
			}
		}
		served := false
		stopped, listened := 0, false
		left := 0
		main := func() {
			vsched.Quiet(true)
			drive.Reset()
			vsched.AwaitQuiescence()
			vnet.ListenHook = func(network, addr string) (net.Listener, error) {
				vsched.Point("listen")
				listened = true
				return l, nil
			}
			before := vsched.Mark()
			srv := v1.NewServer()
			for i, s := range sc.conns {
				w := newWire(i, h, requestSet(i, s.n), s.tail, s.how, s.end, s.endAt)
				wires = append(wires, w)
				c := &fakeConn{w: w}
				for _, x := range sc.stall {
					c.stall = c.stall || x == i
				}
				if i < len(sc.failAt) {
					c.failAt = sc.failAt[i]
				}
				conns = append(conns, c)
				l.queue = append(l.queue, c)
			}
			stop := func(name string) {
				vsched.GoNamed(name, "client", func() {
					srv.Stop()
					vsched.Logf("Stop returned")
					stopped++
					if listened && !l.closed && sc.stop != "first" && served {
						fail("the listener is open after Stop")
					}
				})
			}
			wantStops := 1
			switch sc.stop {
			case "first":
				stop("stopper")
				vsched.Await("stopped", func() bool { return stopped == 1 })
			}
			vsched.GoNamed("server", "client", func() {
				_ = srv.Start("tcp://127.0.0.1:6379")
				vsched.Logf("Start returned")
				served = true
			})
			switch sc.stop {
			case "any":
				stop("stopper")
			case "twice":
				stop("stopper")
				stop("stopper2")
				wantStops = 2
			case "up": // the server is listening
				vsched.AwaitQuiescence()
				stop("stopper")
			}
			vsched.Quiet(false)
			t0 := vsched.NowNs()
			if sc.stop == "idle" || sc.stop == "stalled" {
				vsched.AwaitQuiescence()
				if vsched.NowNs()-t0 > 1e9 {
					fail("requests were only answered after a timer fired")
				}
				if sc.stop == "idle" {
					lossy := len(sc.stall) > 0
					for i, w := range wires {
						c := conns[i]
						if !c.accepted {
							fail("conn %d is not accepted", i)
							return
						}
						if x := w.judge(lossy || w.gone); x != "" {
							fail("%s", x)
							return
						}
						if w.shut && !w.gone && w.tail == "" {
							fail("conn %d was closed by the server", i)
							return
						}
						if w.gone && !w.shut {
							fail("conn %d is not closed although its client is gone", i)
							return
						}
					}
				}
				stop("stopper")
			}
			vsched.Await("Stop and Start return", func() bool { return stopped == wantStops && served })
			took := vsched.NowNs() - t0
			if took > 60e9 {
				fail("stopping took %d s", took/1e9)
			}
			vsched.Quiet(true)
			vsched.AwaitQuiescence()
			if listened && !l.closed {
				fail("the listener is open after Stop and Start returned")
			}
			taken := l.taken
			extra := newWire(9, h, nil, "", "one", "", 0)
			l.queue = append(l.queue, &fakeConn{w: extra})
			vsched.AwaitQuiescence()
			if l.taken != taken {
				fail("a connection was accepted after the stop")
			}
			for i, c := range conns {
				if c.accepted && !c.closed {
					fail("conn %d is still open after the stop", i)
				}
			}
			// everything the server started must end, apart from timers that run out by themselves
			for vsched.CodeGoroutines(before) > 0 && vsched.PendingTimers() > 0 && vsched.NowNs()-t0 < 120e9 {
				n := vsched.NowNs()
				vsched.Await("a timer", func() bool { return vsched.NowNs() > n || vsched.PendingTimers() == 0 })
				vsched.AwaitQuiescence()
			}
			left = vsched.CodeGoroutines(before)
		}
		judge := func(res *vsched.Result) (string, string) {
			if w := blockedWhy(res, why); w != "" {
				return w, ""
			}
			if left > 0 {
				return fmt.Sprintf("activities of the server remain after the stop: %v", res.Blocked), ""
			}
			out := ""
			for _, w := range wires {
				if x := w.judge(true); x != "" {
					return x, ""
				}
				for _, c := range w.calls {
					if c.ret != 0 && c.val.IsErr() && c.args[0] != "nosuch" {
						c.refused = true // the stop refused it
					}
				}
				w.unanswered()
				out += fmt.Sprintf("%d:%q ", w.id, w.out)
			}
			var calls []*call
			for _, c := range h.calls {
				if !c.refused {
					calls = append(calls, c)
				}
			}
			sig := h.sig()
			v, ok := verdicts[sig]
			if !ok {
				v = explain(model.DB{}, calls, nil)
				verdicts[sig] = v
			}
			return v, out
		}
		return main, judge
	}
}

func session1Scens(l []session1, cfg vsched.Config, bound int) (out []scen) {
	for _, h := range l {
		out = append(out, scen{name: h.name(), cfg: cfg, bound: bound, start: h.start()})
	}
	return
}

// serve1 are scenarios that are stopped when everything has been served.
func serve1(tier string) (l []session1) {
	for n := 1; n <= 2; n++ {
		for _, how := range cutsOf(0, n, "", false) {
			l = append(l, session1{conns: []connSpec{{n: n, how: how}}, stop: "idle"})
		}
	}
	for _, g := range garbage {
		for n := 0; n <= 2; n++ {
			for _, how := range []string{"one", "each", "bytes"} {
				l = append(l, session1{conns: []connSpec{{n: n, tail: g, how: how}}, stop: "idle"})
			}
		}
	}
	return
}

// faults1 are scenarios with disconnects and failing sockets, alone and next to a healthy connection.
func faults1() (l []session1) {
	for _, end := range []string{"close", "reset"} {
		for at := 0; at <= 3; at++ {
			for _, how := range []string{"each", "at:20,50"} {
				for _, tail := range []string{"", "*1\r\n$4\r\npi", "*x\r\n"} {
					x := connSpec{n: 2, tail: tail, how: how, end: end, endAt: at}
					l = append(l, session1{conns: []connSpec{x}, stop: "idle"})
					if tail == "" || how == "each" {
						l = append(l, session1{conns: []connSpec{x, {n: 2, how: "each"}}, stop: "idle"})
					}
				}
			}
		}
	}
	for f := 1; f <= 3; f++ {
		l = append(l, session1{conns: []connSpec{{n: 3, how: "each"}}, failAt: []int{f}, stop: "idle"}, session1{conns: []connSpec{{n: 3, how: "one"}, {n: 2, how: "one"}}, failAt: []int{f}, stop: "idle"})
	}
	for _, x := range []connSpec{{n: 1, tail: "*x\r\n", how: "one"}, {n: 1, tail: "*1\r\n$2\r\nabcd\r\n", how: "each"}, {n: 2, how: "one"}, {n: 2, how: "at:20,50"}} {
		l = append(l, session1{conns: []connSpec{x, {n: 2, how: "each"}}, stop: "idle"})
	}
	l = append(l, session1{conns: []connSpec{{n: 1, how: "one"}}, faults: []error{syscall.ECONNABORTED}, stop: "idle"},
		session1{conns: []connSpec{{n: 1, how: "one"}}, faults: []error{syscall.EMFILE, syscall.EMFILE}, stop: "idle"},
		session1{conns: []connSpec{{n: 3, how: "one"}, {n: 2, how: "each"}}, stall: []int{0}, stop: "stalled"},
		session1{conns: []connSpec{{n: 3, how: "each"}}, stall: []int{0}, stop: "stalled"},
		session1{conns: []connSpec{{n: 3, how: "each", end: "reset", endAt: 3}}, stall: []int{0}, stop: "stalled"})
	return
}

// stops1 are scenarios that are stopped at any moment.
func stops1() (l []session1) {
	for _, stop := range []string{"any", "twice", "first", "up"} {
		for _, conns := range [][]connSpec{nil, {{n: 1, how: "one"}}, {{n: 2, how: "each"}}, {{n: 3, how: "one"}}, {{n: 1, how: "one"}, {n: 1, how: "one"}}, {{n: 2, tail: "*1\r\n$4\r\npi", how: "one"}}, {{n: 1, tail: "*x\r\n", how: "each"}}, {{n: 1, how: "one", end: "close", endAt: 1}}, {{n: 2, how: "each", end: "reset", endAt: 1}}} {
			if stop == "twice" && len(conns) > 1 {
				continue
			}
			l = append(l, session1{conns: conns, stop: stop})
		}
		l = append(l, session1{conns: []connSpec{{n: 2, how: "each"}}, stall: []int{0}, stop: stop})
	}
	return
}

func init() {
	delays := vsched.Config{Delay: true, MaxSteps: 20000}
	stmts := vsched.Config{Delay: true, Stmt: true, StmtFilter: pkgFilter("server/v1", "event", "protocol"), MaxSteps: 60000}
	schedules{prop: "C24", name: "serve/delays", suite: "goroutine-per-connection", bound: tieredText{"one connection, every way to cut its stream once, garbage; every placement of up to 2 delays", "up to 3 delays"},
		scens: func(tier string) []scen { return session1Scens(serve1(tier), delays, atTier(tier, 2, 3)) }}.shards(4)
	schedules{prop: "C24", name: "faults/delays", suite: "goroutine-per-connection", bound: tieredText{"disconnects, resets, garbage, failing and stalled writes, failing accepts; every placement of up to 2 delays", "up to 3 delays"},
		scens: func(tier string) []scen { return session1Scens(faults1(), delays, atTier(tier, 2, 3)) }}.shards(8)
	schedules{prop: "C24", name: "stop/delays", suite: "goroutine-per-connection", bound: tieredText{"a stop before, during and after Start; every placement of up to 2 delays", "up to 3 delays"},
		scens: func(tier string) []scen { return session1Scens(stops1(), delays, atTier(tier, 2, 3)) }}.shards(8)
	schedules{prop: "C24", name: "stop/statements", suite: "goroutine-per-connection", bound: tieredText{"every placement of one delay at statements of the server, event and protocol code and at synchronisation points", "up to two delays"},
		scens: func(tier string) []scen {
			return session1Scens(append(stops1(), faults1()...), stmts, atTier(tier, 1, 2))
		}}.shards(8)
}
