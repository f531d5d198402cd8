package suites

import (
	"fmt"
	"strings"

	"github.com/panjf2000/gnet"
	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
	"github.com/yusank/godis/server/v1"
	"github.com/yusank/godis/server/v2"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/registry"
	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vpool"
	"github.com/yusank/godis/zzverif/vsched"
)

// handlers finds the table of command handlers.
// awaits tells whether an operation only waits for something to be received: a lock, a send, a once or a condition are on
// the way to the pool.
func awaits(what string) bool {
	return strings.Contains(what, "recv") && !strings.Contains(what, "send")
}

func handlers() map[string]redis.ExecuteFunc {
	for _, p := range registry.Pkgs {
		for _, v := range p.Vars() {
			if m, ok := v.(*map[string]redis.ExecuteFunc); ok && len(*m) > 0 {
				return *m
			}
		}
	}
	return nil
}

// watch observes executions: which began, which ended, and optionally holds one back.
type watch struct {
	h       *history
	begins  []int
	ends    []int
	names   []string
	running int
	gate    map[string]bool // commands that wait until the gate opens
	open    bool
	found   bool
}

func (w *watch) install() {
	m := handlers()
	if m == nil {
		return
	}
	w.found = true
	names := []string{}
	for n := range m {
		names = append(names, n)
	}
	for _, n := range names {
		n, f := n, m[n]
		m[n] = func(c *redis.Command) (*protocol.Response, error) {
			i := len(w.begins)
			w.begins = append(w.begins, w.h.tick())
			w.ends = append(w.ends, 0)
			w.names = append(w.names, n+" "+strings.Join(c.Values, " "))
			w.running++
			if w.gate[n] {
				vsched.Await("command "+n+" is held", func() bool { return w.open })
			}
			r, err := f(c)
			w.running--
			w.ends[i] = w.h.tick()
			return r, err
		}
	}
}

func (w *watch) begun(args []string) bool {
	for _, n := range w.names {
		if n == strings.Join(args, " ") {
			return true
		}
	}
	return false
}

func (w *watch) executed(args []string) bool {
	for i, n := range w.names {
		if n == strings.Join(args, " ") && w.ends[i] != 0 {
			return true
		}
	}
	return false
}

// halt is a scenario in which clients and stops run together.
type halt struct {
	label    string
	setup    [][]string
	lists    [][][]string // commands whose only right replies are not errors; all distinct
	stops    []int        // Stop actors, each calling Stop this often
	late     [][]string   // requested once some Stop has returned
	gate     string       // this command is held until the gate opens
	settle   bool         // stop only after every request in flight has gone as far as it can
	keys     []string
	inflight bool   // gate opens only after a stop has begun
	via      string // "": the request processing itself, "v1", "v2": through a server
	timers   bool   // timers may fire early: requests may time out
	cold     bool   // nothing of the system has run yet
}

func (sc halt) name() string {
	return fmt.Sprintf("%s %s stops=%v late=%q gate=%q settle=%v via=%s timers=%v inflight=%v cold=%v", sc.label, clients{lists: sc.lists}.name(), sc.stops, sc.late, sc.gate, sc.settle, sc.via, sc.timers, sc.inflight, sc.cold)
}

func (sc halt) start() func() (func(), func(*vsched.Result) (string, string)) {
	verdicts := map[string]string{}
	return func() (func(), func(*vsched.Result) (string, string)) {
		h := &history{}
		w := &watch{h: h, gate: map[string]bool{}}
		var db model.DB
		why := ""
		accepted := 0
		skipped := false
		stopBegan, stopEnded := 0, 0
		fail := func(f string, a ...any) {
			if why == "" {
				why = fmt.Sprintf(f, a...)
			}
		}
		main := func() {
			vsched.Quiet(true)
			drive.Reset()
			if db, why = apply(model.DB{}, sc.setup); why != "" {
				return
			}
			w.install()
			if sc.gate != "" {
				if !w.found {
					skipped = true
					return
				}
				w.gate[sc.gate] = true
			}
			if !sc.cold {
				vsched.AwaitQuiescence()
			}
			t0 := vsched.NowNs()
			n, all := 0, 0
			now := make([][]string, len(sc.lists)) // what each client has requested
			actor := func(name string, f func()) {
				all++
				vsched.GoNamed(name, "client", func() { f(); n++ })
			}
			for i, l := range sc.lists {
				i, l := i, l
				actor(fmt.Sprintf("client%d", i), func() {
					for j, args := range l {
						rec := drive.Decode(args)
						now[i] = args
						h.do(i, j, args, func() []byte { return event.HandleRequest(rec) })
					}
				})
			}
			if sc.settle {
				vsched.AwaitQuiescence()
				// a request is accepted once it only waits for its answer
				accepted = len(sc.lists)
				for i := range sc.lists {
					if what, waits := vsched.Waiting(fmt.Sprintf("client%d", i)); waits && !awaits(what) {
						accepted--
					}
				}
			}
			for s, times := range sc.stops {
				times := times
				actor(fmt.Sprintf("stopper%d", s), func() {
					for k := 0; k < times; k++ {
						b := h.tick()
						if stopBegan == 0 {
							stopBegan = b
						}
						var owed [][]string // requests which wait for nothing but their answer
						for i, args := range now {
							what, waits := vsched.Waiting(fmt.Sprintf("client%d", i))
							if waits && !sc.timers && awaits(what) {
								owed = append(owed, args)
							}
						}
						switch sc.via {
						case "v1":
							v1.NewServer().Stop()
						case "v2":
							v2.NewServer(vpool.Default()).OnShutdown(gnet.Server{})
						default:
							event.Stop()
						}
						vsched.Logf("Stop returned")
						if stopEnded == 0 {
							stopEnded = h.tick()
						}
						if w.running > 0 {
							fail("Stop returned while a command was being executed")
						}
						for _, args := range owed {
							if w.found && !w.executed(args) {
								fail("Stop returned although the accepted request %q had not been executed", args)
							}
						}
						done := 0
						for _, e := range w.ends {
							if e != 0 {
								done++
							}
						}
						if w.found && done < accepted {
							fail("Stop returned when %d of the %d accepted requests had been executed", done, accepted)
						}
					}
				})
			}
			if sc.gate != "" {
				actor("gate", func() {
					if sc.inflight {
						vsched.Await("a stop began", func() bool { return stopBegan > 0 })
					}
					vsched.Point("open gate")
					w.open = true
				})
			}
			for i, args := range sc.late {
				i, args := i, args
				actor(fmt.Sprintf("late%d", i), func() {
					vsched.Await("stop returned", func() bool { return stopEnded > 0 })
					rec := drive.Decode(args)
					h.do(len(sc.lists)+i, 0, args, func() []byte { return event.HandleRequest(rec) })
				})
			}
			vsched.Quiet(false)
			vsched.Await("all actors", func() bool { return n == all })
			vsched.Quiet(true)
			vsched.AwaitQuiescence()
			if !sc.timers && vsched.NowNs()-t0 > 1e9 {
				fail("something only went on after a timer fired")
			}
		}
		judge := func(res *vsched.Result) (string, string) {
			if x := blockedWhy(res, why); x != "" || skipped {
				return x, "skipped"
			}
			real := 0
			out := []string{}
			for _, c := range h.calls {
				if c.bad != "" {
					return c.bad, ""
				}
				if !c.val.IsErr() {
					real++
					out = append(out, "ok")
					continue
				}
				c.lost = true
				if sc.timers && c.retT-c.invT >= 5e9 {
					out = append(out, "timeout")
					c.optional = possible(c.args)
					accepted--
					continue
				}
				out = append(out, "refused")
				if w.begun(c.args) {
					return fmt.Sprintf("%q of client %d was executed but was answered %s", c.args, c.client, c.val), ""
				}
				if c.ret < stopBegan {
					return fmt.Sprintf("%q of client %d was answered %s before any stop began", c.args, c.client, c.val), ""
				}
			}
			if real < accepted {
				return fmt.Sprintf("%d requests were accepted before the stop began but only %d got a real reply: %s", accepted, real, h.replies()), ""
			}
			sig := h.sig()
			v, ok := verdicts[sig]
			if !ok {
				v = explain(db, h.calls, nil)
				verdicts[sig] = v
			}
			return v, strings.Join(out, ",")
		}
		return main, judge
	}
}

// expiry is a scenario in which request timeouts fire.
type expiry struct {
	label string
	setup [][]string
	lists [][][]string
	gate  string
	never bool // the gate opens only after all clients have their replies
	keys  []string
}

func (sc expiry) name() string {
	return fmt.Sprintf("%s %s gate=%q never=%v", sc.label, clients{setup: sc.setup, lists: sc.lists}.name(), sc.gate, sc.never)
}

// possible lists replies a command of these scenarios can have.
func possible(args []string) (l []resp.Value) {
	for i := int64(0); i < 12; i++ {
		l = append(l, resp.Value{Kind: ':', Int: i})
	}
	l = append(l, resp.Value{Kind: '+', Str: "OK"}, resp.Value{Kind: '$', Nil: true})
	for _, s := range []string{"1", "2", "3", "a", "b", "c"} {
		l = append(l, resp.Value{Kind: '$', Str: s}, resp.Value{Kind: '*', Arr: []resp.Value{{Kind: '$', Str: s}}})
	}
	return
}

func (sc expiry) start() func() (func(), func(*vsched.Result) (string, string)) {
	verdicts := map[string]string{}
	return func() (func(), func(*vsched.Result) (string, string)) {
		h := &history{}
		w := &watch{h: h, gate: map[string]bool{}}
		var db model.DB
		var final []*call
		why := ""
		skipped := false
		var executed []string
		main := func() {
			vsched.Quiet(true)
			drive.Reset()
			if db, why = apply(model.DB{}, sc.setup); why != "" {
				return
			}
			w.install()
			if sc.gate != "" {
				if !w.found {
					skipped = true
					return
				}
				w.gate[sc.gate] = true
			}
			vsched.AwaitQuiescence()
			n := 0
			for i, l := range sc.lists {
				i, l := i, l
				vsched.GoNamed(fmt.Sprintf("client%d", i), "client", func() {
					for j, args := range l {
						rec := drive.Decode(args)
						h.do(i, j, args, func() []byte { return event.HandleRequest(rec) })
					}
					n++
				})
			}
			if sc.gate != "" && !sc.never {
				vsched.GoNamed("gate", "client", func() { vsched.Point("open gate"); w.open = true })
			}
			vsched.Quiet(false)
			vsched.Await("clients done", func() bool { return n == len(sc.lists) })
			vsched.Quiet(true)
			w.open = true
			vsched.AwaitQuiescence()
			executed = append(executed, w.names...)
			final = inspect(h, sc.keys)
			for i, b := range w.begins {
				if b != 0 && w.ends[i] == 0 {
					why = "an execution never ended"
				}
			}
		}
		judge := func(res *vsched.Result) (string, string) {
			if x := blockedWhy(res, why); x != "" || skipped {
				return x, "skipped"
			}
			var out []string
			for _, c := range append(append([]*call{}, h.calls...), final...) {
				if c.bad != "" {
					return c.bad, ""
				}
			}
			for _, c := range h.calls {
				c.lost, c.optional = false, nil
				if c.retT-c.invT > 30e9 {
					return fmt.Sprintf("%q of client %d was answered after %d s", c.args, c.client, (c.retT-c.invT)/1e9), ""
				}
				if !c.val.IsErr() {
					out = append(out, fmt.Sprintf("%d.%d=ok", c.client, c.seq))
					continue
				}
				out = append(out, fmt.Sprintf("%d.%d=timeout", c.client, c.seq))
				if c.retT-c.invT < 1e9 {
					return fmt.Sprintf("%q of client %d was answered %s although no time had passed", c.args, c.client, c.val), ""
				}
				c.lost, c.optional = true, possible(c.args)
			}
			for _, f := range final {
				if f.val.IsErr() || f.retT != f.invT {
					return fmt.Sprintf("a later request %q is not processed normally: %s after %d s", f.args, f.val, (f.retT-f.invT)/1e9), ""
				}
			}
			count := map[string]int{}
			for _, n := range executed {
				count[n]++
			}
			asked := map[string]int{}
			for _, c := range h.calls {
				asked[strings.Join(c.args, " ")]++
			}
			for n, k := range count {
				if k > asked[n] {
					return fmt.Sprintf("%q was requested %d times but executed %d times", n, asked[n], k), ""
				}
			}
			sig := h.sig()
			for _, f := range final {
				sig += "|" + f.raw
			}
			v, ok := verdicts[sig]
			if !ok {
				v = explain(db, h.calls, final)
				verdicts[sig] = v
			}
			return v, strings.Join(out, ",")
		}
		return main, judge
	}
}

// own are scenarios whose requests have distinguishable replies, some of them failures.
func own(max int) (out []clients) {
	setup := [][]string{c("mset a 1 b 2 c 3"), c("rpush l x y z"), c("incr n")}
	reqs := [][]string{c("get a"), c("get b"), c("get c"), c("lpop l"), c("incr n"), c("nosuch a"), c("incr l"), c("get"), c("llen l"), c("ping x"), c("lpush a v"), c("get none")}
	for i := range reqs {
		for j := i; j < len(reqs); j++ {
			out = append(out, clients{setup: setup, lists: [][][]string{{reqs[i]}, {reqs[j]}}, keys: []string{"a", "l", "n"}})
		}
	}
	if max >= 3 {
		for i := 0; i < len(reqs); i++ {
			for j := i; j < len(reqs); j++ {
				k := (i*5 + j*7 + 3) % len(reqs)
				out = append(out, clients{setup: setup, lists: [][][]string{{reqs[i]}, {reqs[j]}, {reqs[k]}}, keys: []string{"a", "l", "n"}})
				out = append(out, clients{setup: setup, lists: [][][]string{{reqs[i], reqs[k]}, {reqs[j], reqs[(k+1)%len(reqs)]}}, keys: []string{"a", "l", "n"}})
			}
		}
	}
	return
}

func crowd() (out []clients) {
	setup := [][]string{c("mset a 1 b 2 c 3 d 4 e 5"), c("rpush l x y z")}
	for _, l := range [][]string{{"get a", "get b", "get c", "get d"}, {"get a", "nosuch x", "incr l", "get b"}, {"lpop l", "lpop l", "lpop l", "llen l"}, {"get", "get", "get a", "get b"},
		{"get a", "get b", "get c", "get d", "get e", "llen l"}, {"nosuch", "get a", "nosuch 2", "get b", "lpush a x", "get c"}} {
		var lists [][][]string
		for _, x := range l {
			lists = append(lists, [][]string{c(x)})
		}
		out = append(out, clients{setup: setup, lists: lists, keys: []string{"a", "l"}})
	}
	// each client issues several requests
	for _, l := range [][]string{{"get a|get b|get c", "get d|get e|nosuch", "llen l|lpop l|incr a"}, {"nosuch|nosuch|get a", "get b|incr l|get c"}} {
		var lists [][][]string
		for _, x := range l {
			var m [][]string
			for _, y := range strings.Split(x, "|") {
				m = append(m, c(y))
			}
			lists = append(lists, m)
		}
		out = append(out, clients{setup: setup, lists: lists, keys: []string{"a", "l"}})
	}
	return
}

func halts() (out []halt) {
	s := [][]string{c("set n 5")}
	keys := []string{"n", "l"}
	one, two := [][]string{c("incr n")}, [][]string{c("rpush l a")}
	for _, stops := range [][]int{{1}, {2}, {1, 1}} {
		for _, late := range [][][]string{nil, {c("incrby n 10")}, {c("incrby n 10"), c("rpush l z")}} {
			if len(late) == 2 && len(stops) == 2 {
				continue
			}
			out = append(out,
				halt{label: "cold", lists: [][][]string{one}, stops: stops, late: late, keys: keys, cold: true},
				halt{label: "cold", lists: [][][]string{one, two}, stops: stops, late: late, keys: keys, cold: true},
				halt{label: "idle", setup: s, stops: stops, late: late, keys: keys},
				halt{label: "one", setup: s, lists: [][][]string{one}, stops: stops, late: late, keys: keys},
				halt{label: "two", setup: s, lists: [][][]string{one, two}, stops: stops, late: late, keys: keys})
		}
		out = append(out,
			halt{label: "three", setup: s, lists: [][][]string{one, two, {c("rpush l b")}}, stops: stops, keys: keys},
			halt{label: "lists", setup: s, lists: [][][]string{{c("incr n"), c("incrby n 2")}, {c("rpush l a"), c("rpush l b c")}}, stops: stops, keys: keys})
		for k := 1; k <= 4; k++ {
			lists := [][][]string{{c("decrby n 3")}, {c("incr n")}, {c("rpush l a")}, {c("rpush l b")}}[:k]
			for _, late := range [][][]string{nil, {c("incrby n 10")}} {
				if late != nil && len(stops) == 2 {
					continue
				}
				out = append(out, halt{label: "held", setup: s, lists: lists, stops: stops, gate: "decrby", settle: true, late: late, keys: keys},
					halt{label: "held", setup: s, lists: lists, stops: stops, gate: "decrby", settle: true, inflight: true, late: late, keys: keys})
			}
		}
	}
	for _, h := range out {
		if h.label == "held" && len(h.lists) < 4 && len(h.stops) == 1 && len(h.late) < 2 {
			for _, via := range []string{"v1", "v2"} {
				h.via = via
				out = append(out, h)
			}
		}
	}
	return
}

// haltTimers are stops while timers fire early.
func haltTimers() (out []halt) {
	for _, h := range halts() {
		if len(h.lists) > 0 && len(h.lists) < 4 && h.stops[0] == 1 && len(h.late) < 2 {
			h.timers = true
			out = append(out, h)
		}
	}
	return
}

func expiries() (out []expiry) {
	setup := [][]string{c("set n 0"), c("mset a 1 b 2"), c("rpush l a b c")}
	keys := []string{"n", "l", "a", "b"}
	l := func(s ...string) (o [][][]string) {
		for _, x := range s {
			var m [][]string
			for _, y := range strings.Split(x, "|") {
				m = append(m, c(y))
			}
			o = append(o, m)
		}
		return
	}
	for _, x := range [][][][]string{l("incr n"), l("incr n|get a"), l("incr n", "get a"), l("incr n", "incr n"), l("get a", "get b"), l("lpop l", "lpop l"), l("incr n|get a", "get b"), l("rpush l b|get a", "lpop l|get b")} {
		out = append(out, expiry{label: "free", setup: setup, lists: x, keys: keys})
	}
	for _, x := range [][][][]string{l("decrby n 0|get a"), l("decrby n 0|get a", "get b"), l("decrby n 0", "incr n|get a"), l("decrby n 0|incr n", "lpop l|get a"), l("decrby n 0", "get a", "get b"), l("decrby n 0", "decrby n 0", "incr n")} {
		out = append(out, expiry{label: "held", setup: setup, lists: x, keys: keys, gate: "decrby"},
			expiry{label: "held", setup: setup, lists: x, keys: keys, gate: "decrby", never: true})
	}
	out = append(out, expiry{label: "held", setup: setup, lists: l("decrby n 0", "get a", "get b", "incr n"), keys: keys, gate: "decrby", never: true})
	return
}

// few drops the scenarios with more than max actors.
func few(l []halt, max int) (out []halt) {
	for _, h := range l {
		if h.actors() <= max {
			out = append(out, h)
		}
	}
	return
}

func haltScens(l []halt, cfg vsched.Config, bound int) (out []scen) {
	for _, h := range l {
		out = append(out, scen{name: h.name(), cfg: cfg, bound: bound, start: h.start()})
	}
	return
}

func (sc halt) actors() int {
	n := len(sc.lists) + len(sc.stops) + len(sc.late)
	if sc.gate != "" {
		n++
	}
	return n
}

// crowded lowers the bound of the scenarios with more than four actors by one.
func crowded(l []halt, cfg vsched.Config, bound int) (out []scen) {
	for i, s := range haltScens(l, cfg, bound) {
		if l[i].actors() > 4 {
			s.bound--
		}
		out = append(out, s)
	}
	return
}

func expiryScens(l []expiry, cfg vsched.Config, bound int) (out []scen) {
	for _, h := range l {
		out = append(out, scen{name: h.name(), cfg: cfg, bound: bound, start: h.start()})
	}
	return
}

func init() {
	ev := pkgFilter("event", "redis")
	stmts := vsched.Config{Stmt: true, StmtFilter: ev, Delay: true, MaxSteps: 60000}
	delays := vsched.Config{Delay: true, MaxSteps: 60000}
	syncs := vsched.Config{MaxSteps: 60000}
	stmtB := tieredText{"every placement of one delay at statements of the event and command code and at synchronisation points", "every placement of up to two delays at statements of the event and command code and at synchronisation points"}
	schedules{prop: "C20", name: "own/statements", suite: "clients", bound: stmtB,
		scens: func(tier string) []scen { return toScens(append(own(3), crowd()...), stmts, atTier(tier, 1, 2)) }}.shards(4)
	schedules{prop: "C20", name: "own/delays", suite: "clients", bound: tieredText{"every placement of up to 2 delays at synchronisation points", "up to 4 delays"},
		scens: func(tier string) []scen { return toScens(append(own(3), crowd()...), delays, atTier(tier, 2, 4)) }}.shards(8)
	schedules{prop: "C20", name: "own/preemptions", suite: "clients", bound: tieredText{"every schedule of the synchronisation points without preemption", "at most 1 preemption"},
		scens: func(tier string) []scen { return toScens(own(2), syncs, atTier(tier, 0, 1)) }}.shards(4)

	schedules{prop: "C21", name: "stop/delays", suite: "stop", bound: tieredText{"every placement of up to 3 delays at synchronisation points (2 with more than four actors)", "up to 5 delays (4)"},
		scens: func(tier string) []scen { return crowded(halts(), delays, atTier(tier, 3, 5)) }}.shards(8)
	schedules{prop: "C21", name: "stop/statements", suite: "stop", bound: stmtB,
		scens: func(tier string) []scen { return haltScens(halts(), stmts, atTier(tier, 1, 2)) }}.shards(4)
	schedules{prop: "C21", name: "stop/preemptions", suite: "stop", bound: tieredText{"up to 3 actors: every schedule of the synchronisation points without preemption", "any number of actors, at most 1 preemption"},
		scens: func(tier string) []scen {
			return haltScens(few(halts(), atTier(tier, 3, 99)), syncs, atTier(tier, 0, 1))
		}}.shards(8)

	early := func(c vsched.Config) vsched.Config { c.EarlyTimer = true; return c }
	schedules{prop: "C21", name: "stop/timers", suite: "stop", bound: tieredText{"every placement of up to 2 delays or early timer expiries at synchronisation points", "up to 4"},
		scens: func(tier string) []scen { return haltScens(haltTimers(), early(delays), atTier(tier, 2, 4)) }}.shards(4)

	schedules{prop: "C22", name: "expiry/delays", suite: "expiry", bound: tieredText{"every placement of up to 2 delays or early timer expiries at synchronisation points", "up to 4 delays or early timer expiries"},
		scens: func(tier string) []scen { return expiryScens(expiries(), early(delays), atTier(tier, 2, 4)) }}.shards(8)
	schedules{prop: "C22", name: "expiry/statements", suite: "expiry", bound: tieredText{"every placement of one delay or early timer expiry at statements of the event and command code and at synchronisation points", "every placement of up to two delays or early timer expiries"},
		scens: func(tier string) []scen { return expiryScens(expiries(), early(stmts), atTier(tier, 1, 2)) }}.shards(4)
	schedules{prop: "C22", name: "expiry/preemptions", suite: "expiry", bound: tieredText{"every schedule of the synchronisation points without preemption or early expiry", "with at most 1 preemption or early timer expiry"},
		scens: func(tier string) []scen { return expiryScens(expiries(), early(syncs), atTier(tier, 0, 1)) }}.shards(8)
}
