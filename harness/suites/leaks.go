package suites

import (
	"context"
	"fmt"
	"net"
	"regexp"
	"strings"

	"github.com/panjf2000/gnet"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/server/v1"
	"github.com/yusank/godis/server/v2"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vgnet"
	"github.com/yusank/godis/zzverif/vnet"
	"github.com/yusank/godis/zzverif/vpool"
	"github.com/yusank/godis/zzverif/vsched"
)

// What is left behind is told by repetition: a history is repeated, and what the server holds is looked at after
// ever more repetitions. Buffers, caches and pools of any reasonable size fill up; what grows at every look leaks.
var looks = []int{2, 5, 12, 60, 300, 1500}

type holding struct{ bytes, goroutines, timers int }

// repeats calls cycle again and again; look tells what is held, same whether the data is as at the last look.
func repeats(cycle func() string, look func() holding, same func() bool) string {
	var at []holding
	n := 0
	for _, upto := range looks {
		for ; n < upto; n++ {
			if why := cycle(); why != "" {
				return why
			}
		}
		h := look()
		if len(at) > 0 {
			if !same() {
				return "" // the data itself grows
			}
			p := at[len(at)-1]
			if h.bytes <= p.bytes && h.goroutines <= p.goroutines && h.timers <= p.timers {
				return ""
			}
		} else {
			same()
		}
		at = append(at, h)
	}
	grows := func(f func(holding) int) bool {
		for i := 1; i < len(at); i++ {
			if f(at[i]) <= f(at[i-1]) {
				return false
			}
		}
		return true
	}
	for _, m := range []struct {
		what string
		f    func(holding) int
	}{{"bytes of memory", func(h holding) int { return h.bytes }}, {"goroutines", func(h holding) int { return h.goroutines }}, {"timers", func(h holding) int { return h.timers }}} {
		if grows(m.f) {
			var l []string
			for i, h := range at {
				l = append(l, fmt.Sprintf("%d after %d", m.f(h), looks[i]))
			}
			return fmt.Sprintf("with every repetition the server holds more %s: %s", m.what, strings.Join(l, ", "))
		}
	}
	return ""
}

var freshName = regexp.MustCompile("~[0-9]{6}")

const never = 99

func init() {
	keys := append(append([]string{}, typedKeys...), "none", "other", "dst")
	drop := append([]string{"del"}, keys...)
	// every repetition has other names for its arguments from the fresh-th on
	one := func(cmds [][]string, fresh int) string {
		drive.Reset()
		vsched.AwaitQuiescence()
		mark := vsched.Mark()
		db, last := model.DB{}, ""
		n := 0
		return repeats(func() string {
			vsched.ResetBudget()
			n++
			for _, c := range cmds {
				if fresh < len(c) {
					c = append([]string{}, c...)
					for i := fresh; i < len(c); i++ {
						if len(c[i]) == 1 && c[i] >= "a" && c[i] <= "z" {
							c[i] = fmt.Sprintf("%s~%06d", c[i], n)
						}
					}
				}
				v, err := drive.Do(c)
				if err != nil {
					return fmt.Sprintf("%.100q: %v", c, err)
				}
				next, why := db.Step(c, v)
				if why != "" {
					return fmt.Sprintf("%.100q: %.300s", c, why)
				}
				db = next
			}
			return ""
		}, func() holding {
			vsched.AwaitQuiescence()
			return holding{drive.Weigh(), vsched.CodeGoroutines(mark), vsched.TimersOf("ctx deadline")}
		}, func() bool {
			now := freshName.ReplaceAllString(db.Canon(), "")
			eq := last == now
			last = now
			return eq
		})
	}
	enum{prop: "C31", name: "leaks/stopped", suite: "leaks", fresh: true, bound: tieredText{"every command asked for again and again after the stop of the event pool", ""},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			for _, n := range append(model.Names(), "nosuch") {
				for _, a := range usual(n, "k") {
					if !emit(func() string { return fmt.Sprintf("%q", a) }, func() string {
						drive.Reset()
						drive.Exec([]string{"set", "k", "1"})
						event.Stop()
						vsched.AwaitQuiescence()
						mark := vsched.Mark()
						return repeats(func() string {
							vsched.ResetBudget()
							drive.Exec(a)
							return ""
						}, func() holding {
							vsched.AwaitQuiescence()
							return holding{drive.Weigh(), vsched.CodeGoroutines(mark), vsched.TimersOf("ctx deadline")}
						}, func() bool { return true })
					}) {
						return
					}
				}
			}
		}}.register()
	var forms [][]string
	seen := map[string]bool{}
	for _, n := range append(model.Names(), "nosuch") {
		for _, k := range append(append([]string{}, typedKeys...), "none") {
			for _, u := range usual(n, k) {
				for _, a := range [][]string{u, u[:len(u)-1]} {
					if len(a) == 0 {
						continue
					}
					if id := strings.Join(a, "\x00|"); !seen[id] {
						seen[id] = true
						forms = append(forms, a)
					}
				}
			}
		}
	}
	enum{prop: "C31", name: "leaks/commands", suite: "leaks", fresh: true, bound: tieredText{"every command with its usual and shortened forms on one key of each type, with and without deleting the keys at the end, repeated", ""},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			for _, f := range forms {
				for _, tail := range [][][]string{{drop}, nil} {
					cmds := append(append(append([][]string{}, typedSetup...), f), tail...)
					if !emit(func() string { return fmt.Sprintf("%q", cmds) }, func() string { return one(cmds, never) }) {
						return
					}
				}
				cmds := [][]string{f}
				if !emit(func() string { return fmt.Sprintf("%q", cmds) }, func() string { return one(cmds, never) }) {
					return
				}
			}
		}}.register()
	// histories of commands of one type which may leave parts of a collection behind
	perType := map[string][][]string{
		"strings": {{"set", "a", "x"}, {"set", "a", "10"}, {"append", "a", "y"}, {"incr", "a"}, {"decrby", "a", "1"}, {"mset", "a", "1", "b", "2"}, {"mget", "a", "b"}, {"del", "a"}, {"del", "b"}, {"keys", "*"}},
		"lists":   {{"rpush", "l", "a", "b"}, {"lpush", "l", "c"}, {"lpop", "l"}, {"rpop", "l", "2"}, {"lrem", "l", "0", "a"}, {"lrem", "l", "-1", "b"}, {"linsert", "l", "before", "b", "n"}, {"lrem", "l", "1", "n"}, {"lset", "l", "0", "z"}, {"lrange", "l", "0", "-1"}, {"del", "l"}},
		"hashes":  {{"hset", "h", "f", "1"}, {"hset", "h", "g", "x"}, {"hsetnx", "h", "n", "2"}, {"hincrby", "h", "f", "1"}, {"hincrby", "h", "f", "-1"}, {"hincrbyfloat", "h", "e", "0.5"}, {"hdel", "h", "f"}, {"hdel", "h", "n", "e", "g"}, {"hgetall", "h"}, {"hvals", "h"}, {"hset", "h", "stay", "1"}, {"del", "h"}},
		"sets":    {{"sadd", "s", "a", "b"}, {"sadd", "t", "b", "c"}, {"srem", "s", "a"}, {"spop", "t"}, {"smove", "s", "t", "b"}, {"smove", "t", "s", "b"}, {"sunionstore", "d", "s", "t"}, {"sdiffstore", "s", "t", "s"}, {"sinterstore", "t", "s", "t"}, {"smembers", "s"}, {"sunion", "s", "t"}, {"sadd", "s", "stay"}, {"del", "s", "t", "d"}},
		"zsets":   {{"zadd", "z", "1", "a", "2", "b"}, {"zadd", "z", "2", "a"}, {"zincr", "z", "1", "b"}, {"zincr", "z", "-1", "b"}, {"zrem", "z", "a"}, {"zpopmin", "z"}, {"zpopmax", "z", "2"}, {"zadd", "z", "0", "c"}, {"zrange", "z", "0", "-1"}, {"zcount", "z", "-inf", "+inf"}, {"zadd", "z", "xx", "5", "c"}, {"zadd", "z", "3", "stay"}, {"del", "z"}},
	}
	for _, t := range []string{"strings", "lists", "hashes", "sets", "zsets"} {
		ops := perType[t]
		enum{prop: "C31", name: "leaks/" + t, suite: "leaks", fresh: true, bound: tieredText{"every sequence of up to 4 commands of the type, repeated, with the same ones, with fresh elements and with fresh keys and elements each time", "every sequence of up to 5 commands"},
			gen: func(tier string, emit func(func() string, func() string) bool) {
				var rec func(cmds [][]string) bool
				rec = func(cmds [][]string) bool {
					for _, fresh := range []int{never, 1, 2} {
						if len(cmds) > 0 && !emit(func() string { return fmt.Sprintf("%q fresh names from %d", cmds, fresh) }, func() string { return one(cmds, fresh) }) {
							return false
						}
					}
					if len(cmds) == atTier(tier, 4, 5) {
						return true
					}
					for _, o := range ops {
						if !rec(append(append([][]string{}, cmds...), o)) {
							return false
						}
					}
					return true
				}
				rec(nil)
			}}.register()
	}

	// connections which come and go
	type visit struct {
		reqs   int
		tail   string
		how    string
		end    string
		endAt  int
		failAt int
	}
	reqs := [][]string{{"set", "p", "1"}, {"get", "p"}, {"nosuch"}, {"get", "p"}, {"incr", "p"}, {"get", "q"}, {"type", "p"}, {"del", "p"}}
	var visits []visit
	for _, end := range []string{"close", "reset"} {
		for n := 0; n <= 3; n++ {
			for _, tail := range []string{"", "*2\r\n$3\r\nge", "*1\r\n$4\r\n", "!\r\n", "*x\r\n", "PING", "*0\r\n", "*1\r\n$0\r\n\r\n"} {
				for _, how := range []string{"one", "each"} {
					if n < 2 && how == "each" && tail == "" {
						continue
					}
					v := visit{reqs: n, tail: tail, how: how, end: end, endAt: len(cut(reqs[:n], tail, how))}
					if n == 0 && tail == "" {
						v.endAt = 0
					}
					visits = append(visits, v)
					if v.endAt > 1 {
						v.endAt--
						visits = append(visits, v)
					}
				}
			}
			if n == 3 {
				for more := 4; more <= 8; more++ {
					for at := 1; at <= 3; at++ {
						visits = append(visits, visit{reqs: more, how: "one", end: end, endAt: 1, failAt: at})
					}
				}
			}
			if n > 0 {
				visits = append(visits, visit{reqs: n, how: "one", end: end, endAt: 1, failAt: 1}, visit{reqs: n, how: "each", end: end, endAt: n, failAt: n})
			}
		}
	}
	newVisit := func(id int, v visit) *wire {
		w := newWire(id, &history{}, reqs[:v.reqs], v.tail, v.how, v.end, v.endAt)
		if v.reqs == 0 && v.tail == "" {
			w.pkts = nil
		}
		return w
	}
	// a connection is opened and sent packets with say
	type door struct {
		connect func(v visit)
		say     func(pkt string)
		held    func() holding
	}
	open := func() *wire { return newWire(99, &history{}, nil, "", "one", "", 0) }
	serve1 := func(body func(d door) string) string {
		l := &fakeListener{}
		vnet.ListenHook = func(network, addr string) (net.Listener, error) { return l, nil }
		drive.Reset()
		srv := v1.NewServer()
		vsched.GoNamed("server", "client", func() { _ = srv.Start("tcp://127.0.0.1:6379") })
		vsched.AwaitQuiescence()
		mark, id := vsched.Mark(), 0
		var stays *fakeConn
		why := body(door{func(v visit) {
			l.queue = append(l.queue, &fakeConn{w: newVisit(id, v), failAt: v.failAt})
			id++
			vsched.AwaitQuiescence()
		}, func(pkt string) {
			if stays == nil {
				stays = &fakeConn{w: open()}
				stays.w.pkts = nil
				l.queue = append(l.queue, stays)
			}
			stays.w.pkts, stays.next, stays.w.out = []string{pkt}, 0, nil
			vsched.AwaitQuiescence()
		}, func() holding {
			return holding{drive.Weigh(srv), vsched.CodeGoroutines(mark), vsched.TimersOf("ctx deadline")}
		}})
		vsched.Quiet(true)
		srv.Stop()
		vsched.AwaitQuiescence()
		return why
	}
	serve2 := func(body func(d door) string) string {
		var handler gnet.EventHandler
		over := false
		vgnet.ServeHook = func(eh gnet.EventHandler, addr string, o *gnet.Options) error {
			handler = eh
			eh.OnInitComplete(gnet.Server{})
			vsched.Await("serve", func() bool { return over })
			return nil
		}
		vgnet.StopHook = func(ctx context.Context, addr string) error { return nil }
		vpool.Overloaded = false
		drive.Reset()
		srv := v2.NewServer(vpool.Default())
		vsched.GoNamed("server", "client", func() { _ = srv.Start("tcp://127.0.0.1:6379") })
		vsched.AwaitQuiescence()
		if handler == nil {
			return "Start does not serve"
		}
		l := &gloop{h: handler, buf: make([]byte, 65536)}
		vsched.GoNamed("loop", "loop", l.run)
		mark, id := vsched.Mark(), 0
		var stays *gconn
		why := body(door{func(v visit) {
			l.conns = []*gconn{{l: l, w: newVisit(id, v)}}
			id++
			vsched.AwaitQuiescence()
		}, func(pkt string) {
			if stays == nil {
				stays = &gconn{l: l, w: open()}
				l.conns = []*gconn{stays}
			}
			stays.w.pkts, stays.next, stays.w.out = []string{pkt}, 0, nil
			vsched.AwaitQuiescence()
		}, func() holding {
			extra := []any{srv}
			if stays != nil {
				extra = append(extra, stays.ctx)
			}
			return holding{drive.Weigh(extra...), vsched.CodeGoroutines(mark), vsched.TimersOf("ctx deadline")}
		}})
		vsched.Quiet(true)
		over, l.over = true, true
		vsched.AwaitQuiescence()
		return why
	}
	for _, kind := range []struct {
		name  string
		serve func(func(door) string) string
	}{{"v1", serve1}, {"v2", serve2}} {
		kind := kind
		enum{prop: "C31", name: "leaks/visits-" + kind.name, suite: "leaks", fresh: true, bound: tieredText{"connections with every kind of stream and end, complete or not, repeated", ""},
			gen: func(tier string, emit func(func() string, func() string) bool) {
				for _, v := range visits {
					for _, w := range append([]visit{{}}, visits...) {
						v, w := v, w
						pair := w != visit{}
						if !emit(func() string { return fmt.Sprintf("%+v %+v", v, w) }, func() string {
							return kind.serve(func(d door) string {
								return repeats(func() string {
									vsched.ResetBudget()
									d.connect(v)
									if pair {
										d.connect(w)
									}
									return ""
								}, d.held, func() bool { return true })
							})
						}) {
							return
						}
					}
				}
			}}.register()
		enum{prop: "C31", name: "leaks/stay-" + kind.name, suite: "leaks", fresh: true, bound: tieredText{"one connection which stays, sending every sequence of up to 3 requests of a set with every cut of it into packets, again and again", ""},
			gen: func(tier string, emit func(func() string, func() string) bool) {
				words := [][]string{{"set", "p", "1"}, {"get", "p"}, {"nosuch"}, {"incr", "p"}, {"append", "p", ""}}
				for n := 1; n <= 3; n++ {
					for i := 0; i < []int{1, 5, 25, 125}[n]; i++ {
						var seq [][]string
						for j, x := 0, i; j < n; j, x = j+1, x/len(words) {
							seq = append(seq, words[x%len(words)])
						}
						size := len(strings.Join(cut(seq, "", "one"), ""))
						hows := []string{"one", "each", "bytes"}
						for at := 1; at < size && n < 3; at++ {
							hows = append(hows, fmt.Sprintf("at:%d", at))
						}
						for _, how := range hows {
							pkts := cut(seq, "", how)
							if !emit(func() string { return fmt.Sprintf("%q", pkts) }, func() string {
								return kind.serve(func(d door) string {
									return repeats(func() string {
										for _, p := range pkts {
											vsched.ResetBudget()
											d.say(p)
										}
										return ""
									}, d.held, func() bool { return true })
								})
							}) {
								return
							}
						}
					}
				}
			}}.register()
		schedules{prop: "C31", name: "leaks/races-" + kind.name, suite: "leaks", bound: tieredText{"four like connections one after another, every placement of one delay at blocking points", "every placement of up to two delays"},
			scens: func(tier string) (out []scen) {
				for _, v := range visits {
					v := v
					out = append(out, scen{name: fmt.Sprintf("%+v", v), cfg: vsched.Config{Delay: true, MaxSteps: 60000}, bound: atTier(tier, 1, 2), start: func() (func(), func(*vsched.Result) (string, string)) {
						why := ""
						return func() {
								vsched.Quiet(true)
								why = kind.serve(func(d door) string {
									vsched.Quiet(false)
									d.connect(v)
									d.connect(v)
									a := d.held()
									d.connect(v)
									d.connect(v)
									b := d.held()
									if b.goroutines > a.goroutines || b.timers > a.timers {
										return fmt.Sprintf("goroutines and timers left after two connections: %d, %d; after four: %d, %d", a.goroutines, a.timers, b.goroutines, b.timers)
									}
									return ""
								})
							}, func(res *vsched.Result) (string, string) {
								return drive.ResultWhy(res, why, nil), ""
							}
					}})
				}
				return
			}}.shards(2)
	}
}
