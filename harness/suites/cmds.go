package suites

import (
	"strings"
	"time"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vsched"
)

// typedSetup creates one key of each type.
var typedSetup = [][]string{{"set", "str", "10"}, {"rpush", "lst", "a", "b"}, {"hset", "hsh", "f", "1"}, {"sadd", "set", "a", "b"}, {"zadd", "zst", "1", "a", "2", "b"}}
var typedKeys = []string{"str", "lst", "hsh", "set", "zst"}

// usual returns sensible argument lists of a command applied to key k.
func usual(name, k string) [][]string {
	t := map[string][]string{
		"get": {"K"}, "set": {"K v"}, "mset": {"K v", "K v other w", "other w K v"}, "mget": {"K", "other K", "K K"}, "append": {"K v", "K 1"},
		"incr": {"K"}, "decr": {"K"}, "incrby": {"K 2", "K 0"}, "decrby": {"K 2"},
		"del": {"K", "K K", "other K"}, "exists": {"K", "K other"}, "type": {"K"}, "keys": {"K", "*"},
		"lpush": {"K v", "K v w"}, "rpush": {"K v", "K v w"}, "lpop": {"K", "K 2", "K 9"}, "rpop": {"K", "K 2", "K 9"}, "llen": {"K"},
		"lrange": {"K 0 -1", "K 1 0", "K 0 0"}, "lrem": {"K 0 a", "K 1 a", "K -1 b", "K 0 zz"}, "lindex": {"K 0", "K -1", "K 7"}, "lset": {"K 0 v", "K 7 v"}, "linsert": {"K before a v", "K after b v", "K before zz v"},
		"hset": {"K f v", "K f v g w"}, "hmset": {"K f v"}, "hsetnx": {"K f v", "K g v"}, "hget": {"K f", "K zz"}, "hmget": {"K f zz"}, "hgetall": {"K"}, "hkeys": {"K"}, "hvals": {"K"}, "hlen": {"K"}, "hexists": {"K f", "K zz"}, "hdel": {"K f", "K zz", "K f f"}, "hincrby": {"K f 2", "K g 2"}, "hincrbyfloat": {"K f 1.5", "K g 1.5"},
		"sadd": {"K v", "K a v"}, "srem": {"K a", "K zz", "K a b"}, "sismember": {"K a", "K zz"}, "scard": {"K"}, "smembers": {"K"}, "spop": {"K", "K 2", "K 9"},
		"smove": {"K other a", "K set a", "set K a", "set K zz", "K K a", "other K a", "K lst a", "K zst b"},
		"sdiff": {"K", "K set", "set K", "set other K", "K K"}, "sinter": {"K", "K set", "set K", "set other K", "K K"}, "sunion": {"K", "K set", "set K", "set other K", "K K"},
		"sdiffstore": {"dst K", "dst K set", "dst set K", "K set", "K set other", "K K", "K other", "dst set other K"}, "sinterstore": {"dst K", "dst K set", "dst set K", "K set", "K set set", "K other", "dst set other K"}, "sunionstore": {"dst K", "dst K set", "dst set K", "K set", "K K set", "K other", "dst set other K"},
		"zadd": {"K 1 v", "K 5 a", "K nx 1 v 2 a", "K xx 3 a", "K incr 1 a"}, "zincr": {"K 1 a", "K 1 v", "K 0 a"}, "zscore": {"K a", "K zz"}, "zcard": {"K"}, "zrank": {"K a", "K b", "K zz"}, "zrem": {"K a", "K a b", "K zz"}, "zcount": {"K -inf +inf", "K (1 2"}, "zrange": {"K 0 -1", "K 0 -1 withscores", "K 1 2 byscore", "K 1 0"}, "zrevrange": {"K 0 -1", "K 1 2"}, "zrangebyscore": {"K 1 2", "K -inf +inf"}, "zpopmin": {"K", "K 2", "K 9"}, "zpopmax": {"K", "K 2", "K 9"},
		"ping": {"", "K"}, "command": {""},
	}
	var out [][]string
	for _, a := range t[name] {
		cmd := []string{name}
		for _, w := range strings.Fields(a) {
			if w == "K" {
				w = k
			}
			cmd = append(cmd, w)
		}
		out = append(out, cmd)
	}
	return out
}

func allUsual(keys []string) [][]string {
	var o [][]string
	for _, n := range model.Names() {
		seen := map[string]bool{}
		for _, k := range keys {
			for _, cm := range usual(n, k) {
				s := strings.Join(cm, "\x00")
				if !seen[s] {
					seen[s] = true
					o = append(o, cm)
				}
			}
		}
	}
	return o
}

func init() {
	keys := append(append([]string{}, typedKeys...), "none", "other", "dst")
	// C15: every command on every key type, from a populated store, and after a second such command
	bfs{prop: "C15", name: "types/depth1", keys: keys, setup: typedSetup, depth: tiered{1, 2}, ops: allUsual(append(typedKeys, "none"))}.register()
	bfs{prop: "C15", name: "types/depth2", keys: keys, setup: typedSetup, depth: tiered{2, 2},
		ops: mutators(allUsual(append(typedKeys, "none")), 2)}.register()
	// C16: existence across types under reuse
	var reuse [][]string
	for _, k := range []string{"k", "j"} {
		reuse = append(reuse, [][]string{{"set", k, "1"}, {"lpush", k, "a"}, {"rpush", k, "a", "b"}, {"hset", k, "f", "1"}, {"sadd", k, "a"}, {"sadd", k, "a", "b"}, {"zadd", k, "1", "a"}, {"zincr", k, "1", "a"}, {"hincrby", k, "f", "1"}, {"hincrbyfloat", k, "f", "0.5"}, {"append", k, "1"}, {"incr", k}, {"hsetnx", k, "f", "x"},
			{"lpop", k}, {"rpop", k}, {"rpop", k, "5"}, {"lpop", k, "5"}, {"lrem", k, "0", "a"}, {"lrem", k, "-5", "a"}, {"lrem", k, "5", "b"}, {"hdel", k, "f"}, {"srem", k, "a"}, {"srem", k, "a", "b"}, {"spop", k}, {"spop", k, "5"}, {"zrem", k, "a"}, {"zpopmin", k}, {"zpopmax", k}, {"zpopmax", k, "3"}, {"zpopmin", k, "3"}, {"del", k}, {"zadd", k, "xx", "1", "a"}, {"linsert", k, "before", "a", "b"}, {"lset", k, "0", "b"}}...)
	}
	reuse = append(reuse, []string{"smove", "k", "j", "a"}, []string{"smove", "j", "k", "b"}, []string{"sdiffstore", "k", "j", "k"}, []string{"sinterstore", "j", "k", "zz"}, []string{"sunionstore", "k", "j"}, []string{"del", "k", "j"}, []string{"del", "k", "k", "zz"}, []string{"exists", "k", "j", "k"}, []string{"mset", "k", "1", "j", "2"})
	bfs{prop: "C16", name: "existence", keys: []string{"k", "j", "zz"}, ops: reuse, size: tiered{3, 4}, depth: tiered{3, 5},
		probes: cat([][]string{{"exists", "k", "j", "zz"}, {"exists", "j", "j"}, {"keys", "?"}, {"keys", "k"}, {"keys", "*"}})}.register()
	single := [][]string{}
	for _, o := range reuse {
		if len(o) < 2 || o[1] != "j" {
			single = append(single, o)
		}
	}
	bfs{prop: "C16", name: "existence/one-key", keys: []string{"k", "j", "zz"}, ops: single, size: tiered{3, 4}, depth: tiered{5, 7}, probes: [][]string{{"exists", "k"}, {"keys", "*"}}}.register()
	// C16: every command that creates or empties, from the populated store
	bfs{prop: "C16", name: "existence/all-commands", keys: keys, setup: typedSetup, depth: tiered{2, 2}, ops: mutators(allUsual(append(typedKeys, "none")), 3), probes: [][]string{{"exists", "str", "lst", "hsh", "set", "zst", "none", "other", "dst"}, {"keys", "*"}}}.register()
	// C17: isolation: two keys of each type in the same shard, every command on one of them
	var setup17 [][]string
	var keys17 []string
	for _, s := range typedSetup {
		setup17 = append(setup17, s)
		keys17 = append(keys17, s[1])
		k2 := collide(s[1], 1)[0]
		s2 := append([]string{}, s...)
		s2[1] = k2
		setup17 = append(setup17, s2)
		keys17 = append(keys17, k2)
	}
	keys17 = append(keys17, "other", "dst", "none")
	bfs{prop: "C17", name: "isolation", keys: keys17, setup: setup17, depth: tiered{1, 2}, ops: allUsual(append(append([]string{}, keys17[:10]...), "none"))}.register()
	share := cat(
		[][]string{{"sunionstore", "dst", "set"}, {"sinterstore", "dst", "set", "set"}, {"sdiffstore", "dst", "set"}, {"sunionstore", "set", "dst"}, {"smove", "set", "dst", "a"}, {"smove", "dst", "set", "a"}},
		cross([]string{"sadd", "srem"}, []string{"set", "dst"}, []string{"a", "q"}), cross(one("spop"), []string{"set", "dst"}),
		[][]string{{"mset", "str", "v", "dst", "v"}, {"append", "str", "w"}, {"append", "dst", "w"}, {"incr", "str"}, {"lpush", "lst", "x"}, {"lpush", "lst2", "x", "y"}, {"lset", "lst", "0", "q"}, {"hset", "hsh", "f", "2"}, {"hset", "hsh2", "f", "9"}, {"hincrby", "hsh", "f", "1"}, {"zadd", "zst", "9", "a"}, {"zadd", "zst2", "1", "a"}, {"zincr", "zst2", "2", "a"}, {"del", "dst"}, {"del", "lst"}})
	bfs{prop: "C17", name: "sharing", keys: append(typedKeys, "dst", "lst2", "hsh2", "zst2"), setup: typedSetup, ops: share, depth: tiered{3, 4}}.register()
	// C18: every command with every argument list over a pool, up to a length
	for part := 0; part < 6; part++ {
		registerC18(part, 6)
	}
	// C27: names
	registerC27()
	// C26: patterns
	registerC26()
}

// mutators drops commands whose name only reads, and keeps every n-th argument form after the first two.
func mutators(ops [][]string, n int) [][]string {
	ro := map[string]bool{"get": true, "mget": true, "exists": true, "type": true, "keys": true, "llen": true, "lrange": true, "lindex": true, "hget": true, "hmget": true, "hgetall": true, "hkeys": true, "hvals": true, "hlen": true, "hexists": true, "sismember": true, "scard": true, "smembers": true, "sdiff": true, "sinter": true, "sunion": true, "zscore": true, "zcard": true, "zrank": true, "zcount": true, "zrange": true, "zrevrange": true, "zrangebyscore": true, "ping": true, "command": true}
	var o [][]string
	for _, c := range ops {
		if !ro[c[0]] {
			o = append(o, c)
		}
	}
	return o
}

func registerC18(part, parts int) {
	name := "arguments/" + string(rune('a'+part))
	ops := func(tier string) [][]string {
		pool := []string{"", "str", "lst", "hsh", "set", "zst", "none", "0", "-1", "x", maxI, minI, "1.5", "nan", "(1", "before", "nx", "withscores", "a", "9223372036854775808", "["}
		small := []string{"", "lst", "zst", "none", "1", "-1", "x", maxI, minI, "inf"}
		tiny := []string{"", "set", "0", "x", minI}
		var out [][]string
		names := append(model.Names(), "", "nosuch", "get\r\n", "ge", "GETT", "*", "lpushx")
		for i, n := range names {
			if i%parts != part {
				continue
			}
			out = append(out, []string{n})
			out = append(out, cross(one(n), pool)...)
			out = append(out, cross(one(n), pool, pool)...)
			k := typedKeys
			if tier == "thorough" {
				k = pool
			}
			out = append(out, cross(one(n), append(append([]string{}, k...), "none"), small, small)...)
			out = append(out, cross(one(n), append(append([]string{}, typedKeys...), "none"), tiny, tiny, tiny)...)
			// usual forms shortened, with arguments dropped, doubled, swapped or replaced
			for _, key := range append(append([]string{}, typedKeys...), "none") {
				for _, u := range usual(n, key) {
					out = append(out, u, with(u, "extra"))
					for j := 1; j < len(u); j++ {
						out = append(out, u[:j], append(with(u[:j]), u[j+1:]...), append(with(u[:j], u[j]), u[j:]...))
						if j > 1 {
							out = append(out, append(with(u[:j-1], u[j], u[j-1]), u[j+1:]...))
						}
					}
					for j := 1; j < len(u); j++ {
						for _, r := range pool {
							w := append([]string{}, u...)
							w[j] = r
							out = append(out, w)
						}
					}
				}
			}
		}
		// drop duplicates
		seen := map[string]bool{}
		var o [][]string
		for _, c := range out {
			s := strings.Join(c, "\x00|")
			if !seen[s] {
				seen[s] = true
				o = append(o, c)
			}
		}
		return o
	}
	mk := func(tier string, dl time.Time) *drive.BFS {
		return &drive.BFS{Name: name, Setup: typedSetup, Ops: ops(tier), Probes: dump(append(append([]string{}, typedKeys...), "none", "")), MaxDepth: 1, Deadline: dl, Sched: vsched.Config{}}
	}
	All = append(All, Config{Prop: "C18", Name: name,
		Run: func(tier string, dl time.Time) drive.Report {
			r := mk(tier, dl).Run()
			r.Suite = "arguments"
			r.Bound = "every command name (and unknown names) with every argument list of the pool up to length 2, reduced pools for lengths 3 and 4, and every prefix, deletion, duplication, swap and single-argument replacement of its usual forms, on a store holding one key of each type; full dump after every state change"
			return r
		},
		Replay: func(v *drive.Violation) (string, []string) { return drive.Replay(v, vsched.Config{}) }})
}

func registerC27() {
	variants := func(n string) []string {
		o := []string{n, strings.ToUpper(n)}
		m := []byte(n)
		for i := range m {
			if i%2 == 0 {
				m[i] = strings.ToUpper(n)[i]
			}
		}
		o = append(o, string(m))
		l := []byte(n)
		l[len(l)-1] = strings.ToUpper(n)[len(n)-1]
		o = append(o, string(l))
		return o
	}
	var ops [][]string
	for _, n := range model.Names() {
		for _, v := range variants(n) {
			for _, k := range append(append([]string{}, typedKeys...), "none") {
				for _, u := range usual(n, k) {
					w := append([]string{}, u...)
					w[0] = v
					ops = append(ops, w)
				}
			}
		}
		// near misses
		for _, bad := range []string{n[:len(n)-1], n + "x", n[1:], " " + n, n + " ", n + "\x00", "s" + n, n + "s", "p" + n, strings.Replace(n, n[:1], n[:1]+n[:1], 1)} {
			if !model.Known(bad) {
				ops = append(ops, []string{bad, "set", "a", "b"}, []string{bad, "str"}, []string{bad})
			}
		}
	}
	for _, alien := range []string{"spopn", "zpopmix", "stringappend", "keytype", "msetnx", "getset", "zincrby", "flushall", "expire", "rename", "lpushx", "hscan", "zrevrank", "strlen", "select", "hstrlen", "ſet", "K", "ıncr", "get\n", ""} {
		if !model.Known(alien) {
			ops = append(ops, []string{alien, "str", "set", "a"}, []string{alien})
		}
	}
	mk := func(dl time.Time) *drive.BFS {
		return &drive.BFS{Name: "names", Setup: typedSetup, Ops: ops, Probes: dump(append(append([]string{}, typedKeys...), "none", "other", "dst")), MaxDepth: 1, Deadline: dl}
	}
	All = append(All, Config{Prop: "C27", Name: "names",
		Run: func(tier string, dl time.Time) drive.Report {
			r := mk(dl).Run()
			r.Suite = "names"
			r.Bound = "every command name in 4 case variants with its usual forms on one key of each type, and near-miss names; full dump after every state change"
			return r
		},
		Replay: func(v *drive.Violation) (string, []string) { return drive.Replay(v, vsched.Config{}) }})
}

func registerC26() {
	// all patterns over a small alphabet up to a length, against a key set containing every string up to a length
	type part struct {
		name  string
		keys  []string
		alpha []string
		max   tiered
	}
	words := func(alpha []string, max int) []string {
		out := []string{}
		cur := []string{""}
		for i := 0; i <= max; i++ {
			out = append(out, cur...)
			var n []string
			for _, p := range cur {
				for _, a := range alpha {
					n = append(n, p+a)
				}
			}
			cur = n
		}
		return out
	}
	parts := []part{
		{"patterns/wildcards", words([]string{"a", "b"}, 3), []string{"a", "b", "*", "?"}, tiered{4, 6}},
		{"patterns/escapes", words([]string{"a", "*", "?", "\\"}, 2), []string{"a", "*", "?", "\\"}, tiered{4, 5}},
		{"patterns/classes", append(words([]string{"a", "b", "c"}, 2), "[", "]", "-", "!", "a-b", "[a]", "b]"), []string{"a", "b", "[", "]", "-", "!", "*"}, tiered{4, 6}},
		{"patterns/class-forms", append(words([]string{"a", "b", "c", "d"}, 2), "", "^", "\n", "é", "日", "a.b", "a/b", "+", "(", "{", "}", ","), []string{"[ab]", "[a-c]", "[!a]", "[!b-d]", "a", "?", "*", "\\[", "\\a", "^", ".", "[^a]", "\n", "é", "/", "{", ",", "}"}, tiered{3, 3}},
	}
	parts = append(parts, part{"patterns/alternatives", append(words([]string{"a", "b", ","}, 3), "{", "}", "{a}", "{a,b}", "{,}"), []string{"a", "b", "{", ",", "}"}, tiered{5, 7}},
		part{"patterns/alternative-forms", append(words([]string{"a", "b", "c"}, 2), ",", "{", "a,", "}", "*", "{a}"), []string{"{a,b}", "{", ",", "}", "*", "?", "[ab]", "\\,", "\\}", "ab", "c", "[!,]"}, tiered{3, 4}})
	for _, p := range parts {
		p := p
		mk := func(tier string, dl time.Time) *drive.BFS {
			set := []string{"mset"}
			for i, k := range p.keys {
				set = append(set, k, string(rune('0'+i%10)))
			}
			var ops [][]string
			for _, w := range words(p.alpha, p.max.of(tier)) {
				ops = append(ops, []string{"keys", w})
			}
			return &drive.BFS{Name: p.name, Setup: [][]string{set}, Ops: ops, MaxDepth: 1, Deadline: dl}
		}
		All = append(All, Config{Prop: "C26", Name: p.name,
			Run: func(tier string, dl time.Time) drive.Report {
				r := mk(tier, dl).Run()
				r.Suite = "patterns"
				r.Bound = "every pattern over the alphabet " + strings.Join(p.alpha, " ") + " up to the length bound, against a store holding every key over the key alphabet up to a length"
				return r
			},
			Replay: func(v *drive.Violation) (string, []string) { return drive.Replay(v, vsched.Config{}) }})
	}
	bfs{prop: "C26", name: "patterns/history", keys: []string{"ab", "b"}, mapOrder: true, depth: tiered{4, 5},
		ops: [][]string{{"set", "ab", "1"}, {"lpush", "b", "x"}, {"lpop", "b"}, {"del", "ab"}, {"sadd", collide("ab", 1)[0], "1"}, {"zadd", collide("ab", 2)[1], "1", "m"}, {"hset", "a*", "f", "1"}, {"hdel", "a*", "f"}, {"keys", "a*"}, {"keys", "*"}, {"keys", "a\\*"}, {"keys", "?"}, {"keys", "m*"}},
	}.register()
}
