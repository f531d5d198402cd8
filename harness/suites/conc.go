package suites

import (
	"fmt"
	"strings"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vfmt"
	"github.com/yusank/godis/zzverif/vsched"
)

// apply answers setup commands by the model (their replies come from the implementation).
func apply(db model.DB, cmds [][]string) (model.DB, string) {
	for _, c := range cmds {
		v, err := drive.Do(c)
		if err != nil {
			return db, fmt.Sprintf("set-up %q: %v", c, err)
		}
		next, why := db.Step(c, v)
		if why != "" {
			return db, fmt.Sprintf("set-up %q -> %s: %s", c, v, why)
		}
		db = next
	}
	return db, ""
}

// inspect reads every key through its own type's reading commands.
func inspect(h *history, keys []string) (out []*call) {
	do := func(args ...string) *call {
		d := &history{clock: h.clock}
		c := d.do(99, 0, args, func() []byte { return drive.Exec(args) })
		out = append(out, c)
		return c
	}
	do("keys", "*")
	for _, k := range keys {
		t := do("type", k)
		do(readOf(k, t.val.Str)...)
		do(lenOf(k, t.val.Str)...)
	}
	return out
}

// clients is a concurrent scenario: each client issues its commands one after the other through the
// request handler.
type clients struct {
	setup [][]string
	lists [][][]string
	keys  []string
	debug bool // a debug build
	log   bool // the command log is judged, too
}

func (sc clients) name() string {
	var l []string
	for _, c := range sc.lists {
		var m []string
		for _, a := range c {
			m = append(m, strings.Join(a, " "))
		}
		l = append(l, strings.Join(m, ", "))
	}
	s := strings.Join(l, " || ")
	if len(sc.setup) > 0 {
		s = fmt.Sprintf("%q ", sc.setup) + s
	}
	if sc.debug {
		s += " debug"
	}
	return s
}

func (sc clients) start() func() (func(), func(*vsched.Result) (string, string)) {
	verdicts := map[string]string{}
	return func() (func(), func(*vsched.Result) (string, string)) {
		h := &history{}
		var db model.DB
		var final []*call
		why := ""
		main := func() {
			vsched.Quiet(true)
			drive.Debug = sc.debug
			drive.Reset()
			drive.Debug = false
			if db, why = apply(model.DB{}, sc.setup); why != "" {
				return
			}
			var lg *recorder
			if sc.log {
				lg = watchLog()
				defer func() { vfmt.Sink = nil }()
			}
			vsched.AwaitQuiescence()
			t0 := vsched.NowNs()
			n := 0
			for i, l := range sc.lists {
				i, l := i, l
				vsched.GoNamed(fmt.Sprintf("client%d", i), "client", func() {
					for j, args := range l {
						rec := drive.Decode(args)
						h.do(i, j, args, func() []byte { return event.HandleRequest(rec) })
					}
					n++
				})
			}
			vsched.Quiet(false)
			vsched.Await("clients done", func() bool { return n == len(sc.lists) })
			vsched.Quiet(true)
			vsched.AwaitQuiescence()
			if vsched.NowNs()-t0 > 1e9 {
				why = "requests were only answered after a timer fired: they had blocked each other"
				return
			}
			if why = lg.judge(sc.lists); why != "" {
				return
			}
			final = inspect(h, sc.keys)
		}
		judge := func(res *vsched.Result) (string, string) {
			if w := blockedWhy(res, why); w != "" {
				return w, ""
			}
			for _, c := range append(append([]*call{}, h.calls...), final...) {
				if c.bad != "" {
					return c.bad, ""
				}
			}
			sig := h.sig()
			for _, f := range final {
				sig += "|" + f.raw
			}
			w, ok := verdicts[sig]
			if !ok {
				w = explain(db, h.calls, final)
				verdicts[sig] = w
			}
			return w, h.replies()
		}
		return main, judge
	}
}

var groups = map[string][]string{
	"string": {"get", "set", "mset", "mget", "append", "incr", "decr", "incrby", "decrby"},
	"list":   {"lpush", "rpush", "lpop", "rpop", "llen", "lrange", "lrem", "lindex", "lset", "linsert"},
	"hash":   {"hset", "hmset", "hsetnx", "hget", "hmget", "hgetall", "hkeys", "hvals", "hlen", "hexists", "hdel", "hincrby", "hincrbyfloat"},
	"set":    {"sadd", "srem", "sismember", "scard", "smembers", "spop", "smove", "sdiff", "sinter", "sunion", "sdiffstore", "sinterstore", "sunionstore"},
	"zset":   {"zadd", "zincr", "zscore", "zcard", "zrank", "zrem", "zcount", "zrange", "zrevrange", "zrangebyscore", "zpopmin", "zpopmax"},
}

var groupOrder = []string{"string", "list", "hash", "set", "zset"}

// pairList lists the unordered pairs of commands on the key of each type, at least one of which writes.
func pairList(per int) (out []clients) {
	for gi, g := range groupOrder {
		k := typedKeys[gi]
		var cmds [][]string
		for _, n := range append(append([]string{}, groups[g]...), "del", "exists", "type", "keys") {
			u := usual(n, k)
			if per > 0 && len(u) > per {
				u = u[:per]
			}
			cmds = append(cmds, u...)
		}
		writes := map[string]bool{}
		for _, m := range mutators(cmds, 0) {
			writes[strings.Join(m, " ")] = true
		}
		for i, a := range cmds {
			for _, b := range cmds[i:] {
				if !writes[strings.Join(a, " ")] && !writes[strings.Join(b, " ")] {
					continue
				}
				out = append(out, clients{setup: [][]string{typedSetup[gi]}, lists: [][][]string{{a}, {b}}, keys: []string{k, "other", "dst"}})
			}
		}
	}
	return
}

func toScens(l []clients, cfg vsched.Config, bound int) (out []scen) {
	for _, c := range l {
		out = append(out, scen{name: c.name(), cfg: cfg, bound: bound, start: c.start()})
	}
	return
}

// hot is a short list of updates and reads of the key of each type.
var hot = [][][]string{
	{c("incr str"), c("append str 1"), c("mset str 5 other w"), c("mget str other"), c("del str")},
	{c("rpush lst c"), c("lpop lst"), c("lrem lst 0 a"), c("linsert lst before b x"), c("lrange lst 0 -1")},
	{c("hincrby hsh f 2"), c("hset hsh f v g w"), c("hdel hsh f"), c("hsetnx hsh f n"), c("hgetall hsh")},
	{c("sadd set c"), c("spop set"), c("smove set other a"), c("sunionstore other set other"), c("smembers set")},
	{c("zadd zst incr 1 a"), c("zpopmin zst"), c("zrem zst a b"), c("zadd zst nx 5 a 7 c"), c("zrange zst 0 -1 withscores")},
}

// triples are three clients with one hot command each.
func triples() (out []clients) {
	for g, cmds := range hot {
		for i := range cmds {
			for j := i; j < len(cmds); j++ {
				for k := j; k < len(cmds); k++ {
					out = append(out, clients{setup: [][]string{typedSetup[g]}, lists: [][][]string{{cmds[i]}, {cmds[j]}, {cmds[k]}}, keys: []string{typedKeys[g], "other"}})
				}
			}
		}
	}
	return
}

// lists are two clients with two hot commands each, on one key and across keys.
func lists() (out []clients) {
	for g, cmds := range hot {
		for i := range cmds {
			for j := range cmds {
				for k := i; k < len(cmds); k++ {
					if (i+j+k)%2 == 0 {
						out = append(out, clients{setup: [][]string{typedSetup[g]}, lists: [][][]string{{cmds[i], cmds[j]}, {cmds[k], cmds[(j+k+1)%len(cmds)]}}, keys: []string{typedKeys[g], "other"}})
					}
				}
			}
		}
	}
	return
}

// transfers move data between keys while others look at both.
func transfers() (out []clients) {
	sets := [][]string{c("sadd set a b"), c("sadd other c")}
	for _, x := range [][]string{c("smove set other a"), c("smove other set c"), c("sunionstore set set other"), c("sdiffstore other set other"), c("sinterstore set set other"), c("del set other"), c("spop set 2")} {
		for _, y := range [][]string{c("sunion set other"), c("sinter set other"), c("sdiff set other"), c("smove set other a"), c("smove other set c"), c("exists set other"), c("sadd other a"), c("del set"), c("keys *")} {
			out = append(out, clients{setup: sets, lists: [][][]string{{x}, {y}}, keys: []string{"set", "other"}})
		}
	}
	for _, x := range [][]string{c("mset str 1 other 1"), c("del str other")} {
		for _, y := range [][]string{c("mget str other"), c("mset other 2 str 2"), c("del other str"), c("exists str other"), c("keys *"), c("lpush str a"), c("lpush other a")} {
			out = append(out, clients{setup: [][]string{c("mset str 0 other 0")}, lists: [][][]string{{x}, {y}}, keys: []string{"str", "other"}})
			out = append(out, clients{lists: [][][]string{{x}, {y}}, keys: []string{"str", "other"}})
		}
	}
	return
}

// fresh are clients that create the same or neighbouring keys in an empty store.
func fresh() (out []clients) {
	n := collide("k", 1)[0]
	cmds := [][]string{c("incr k"), c("append k 1"), c("set k 7"), c("lpush k a"), c("hset k f v"), c("hincrby k f 1"), c("hincrbyfloat k f 1.5"), c("hsetnx k f v"), c("sadd k a"), c("zadd k 1 a"), c("zincr k 1 a"), c("set " + n + " 1"), c("sadd " + n + " x"), c("del k")}
	for i, x := range cmds {
		for _, y := range cmds[i:] {
			out = append(out, clients{lists: [][][]string{{x}, {y}}, keys: []string{"k", n}})
		}
	}
	return
}

func atTier(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func init() {
	code := pkgFilter("redis", "datastruct", "event", "lib/shard_map")
	stmts := vsched.Config{Stmt: true, StmtFilter: code, Delay: true, MaxSteps: 60000}
	syncs := vsched.Config{MaxSteps: 60000}
	delays := vsched.Config{Delay: true, MaxSteps: 60000}
	stmtBound := tieredText{"every placement of one delay at statements of the command, data-structure and event code and at every synchronisation point",
		"every placement of up to two delays at statements of the command, data-structure and event code and at every synchronisation point"}
	schedules{prop: "C19", name: "pairs/statements", suite: "clients", bound: stmtBound,
		scens: func(tier string) []scen {
			return toScens(pairList(atTier(tier, 2, 0)), stmts, atTier(tier, 1, 2))
		}}.shards(8)
	schedules{prop: "C19", name: "keys/statements", suite: "clients", bound: stmtBound,
		scens: func(tier string) []scen {
			return toScens(append(transfers(), fresh()...), stmts, atTier(tier, 1, 2))
		}}.shards(2)
	schedules{prop: "C19", name: "lists/statements", suite: "clients", bound: stmtBound,
		scens: func(tier string) []scen {
			return toScens(lists(), stmts, atTier(tier, 1, 2))
		}}.shards(2)
	schedules{prop: "C19", name: "triples/statements", suite: "clients", bound: stmtBound,
		scens: func(tier string) []scen {
			return toScens(triples(), stmts, atTier(tier, 1, 2))
		}}.shards(2)
	schedules{prop: "C19", name: "pairs/preemptions", suite: "clients", bound: tieredText{"every schedule of the synchronisation points without preemption (switching at blocking points is free)", "every schedule of the synchronisation points with at most 1 preemption (switching at blocking points is free)"},
		scens: func(tier string) []scen {
			return toScens(pairList(1), syncs, atTier(tier, 0, 1))
		}}.shards(4)
	schedules{prop: "C19", name: "triples/delays", suite: "clients", bound: tieredText{"every placement of up to 2 delays at synchronisation points", "up to 4 delays"},
		scens: func(tier string) []scen {
			return toScens(append(triples(), lists()...), delays, atTier(tier, 2, 4))
		}}.shards(4)
}
