// Package suites holds the bounded explorations that decide each property.
package suites

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vsched"
)

// Config is one independently runnable exploration of a property.
type Config struct {
	Prop string
	Name string
	// Run explores; tier is "quick" or "thorough".
	Run func(tier string, deadline time.Time) drive.Report
	// Replay re-executes a recorded violation and returns what is wrong ("" when nothing is).
	Replay   func(v *drive.Violation) (string, []string)
	Thorough bool // only in the thorough tier
}

// All lists every configuration.
var All []Config

func c(s string) []string { return strings.Split(s, " ") }

// cross builds every command from alternatives separated by | in each position.
func cross(spec ...[]string) [][]string {
	out := [][]string{{}}
	for _, alts := range spec {
		var n [][]string
		for _, p := range out {
			for _, a := range alts {
				n = append(n, append(append([]string{}, p...), a))
			}
		}
		out = n
	}
	return out
}

func one(s string) []string { return []string{s} }

func cat(l ...[][]string) [][]string {
	var o [][]string
	for _, x := range l {
		o = append(o, x...)
	}
	return o
}

func fnv32(key string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(key); i++ {
		h *= 16777619
		h ^= uint32(key[i])
	}
	return h
}

// collide returns short strings that share the shard of base.
func collide(base string, n int) []string {
	var o []string
	for i := 0; len(o) < n; i++ {
		s := "m" + strconv.Itoa(i)
		if s != base && fnv32(s)%32 == fnv32(base)%32 {
			o = append(o, s)
		}
	}
	return o
}

// readOf is the full read of a key of the given type.
func readOf(k, t string) []string {
	switch t {
	case "string":
		return []string{"get", k}
	case "list":
		return []string{"lrange", k, "0", "-1"}
	case "hash":
		return []string{"hgetall", k}
	case "set":
		return []string{"smembers", k}
	case "zset":
		return []string{"zrange", k, "0", "-1", "withscores"}
	}
	return []string{"type", k}
}

// lenOf is the size command of a key of the given type.
func lenOf(k, t string) []string {
	switch t {
	case "list":
		return []string{"llen", k}
	case "hash":
		return []string{"hlen", k}
	case "set":
		return []string{"scard", k}
	case "zset":
		return []string{"zcard", k}
	}
	return []string{"exists", k}
}

// dump reads everything about the keys of the universe.
func dump(keys []string) func(db model.DB) [][]string {
	return func(db model.DB) [][]string {
		o := [][]string{{"keys", "*"}}
		for _, k := range keys {
			o = append(o, []string{"type", k}, []string{"exists", k})
			if e := db[k]; e != nil {
				o = append(o, readOf(k, e.T), lenOf(k, e.T))
			}
		}
		return o
	}
}

func plus(f func(db model.DB) [][]string, more [][]string) func(db model.DB) [][]string {
	return func(db model.DB) [][]string { return append(f(db), more...) }
}

func sizeGuard(max int) func(db model.DB) bool {
	return func(db model.DB) bool {
		n := 0
		for _, e := range db {
			n += len(e.L) + len(e.H) + len(e.M) + len(e.Z)
			if e.T == "string" {
				n += len(e.S)
			}
		}
		return n <= max
	}
}

type tiered struct{ q, t int }

func (x tiered) of(tier string) int {
	if tier == "thorough" && x.t != 0 {
		return x.t
	}
	return x.q
}

type bfs struct {
	prop, name string
	keys       []string
	setup      [][]string
	ops        [][]string
	probes     [][]string
	size       tiered // 0: none
	depth      tiered
	lows       tiered // random draws that may be low
	mapOrder   bool
	bound      string
	thorough   bool
}

func (b bfs) build(tier string, deadline time.Time) *drive.BFS {
	e := &drive.BFS{
		Name: b.name, Setup: b.setup, Ops: b.ops, Probes: plus(dump(b.keys), b.probes),
		MaxDepth: b.depth.of(tier), Deadline: deadline,
		Sched:     vsched.Config{MapOrder: b.mapOrder, RandLow: b.lows.of(tier)},
		MaxStates: 3000000,
	}
	if s := b.size.of(tier); s > 0 {
		e.Guard = sizeGuard(s)
	}
	return e
}

func (b bfs) register() {
	All = append(All, Config{
		Prop: b.prop, Name: b.name, Thorough: b.thorough,
		Run: func(tier string, deadline time.Time) drive.Report {
			r := b.build(tier, deadline).Run()
			r.Suite = "history"
			var parts []string
			if d := b.depth.of(tier); d > 0 {
				parts = append(parts, fmt.Sprintf("all histories up to %d commands after the setup", d))
			} else {
				parts = append(parts, "all reachable states (closure)")
			}
			if s := b.size.of(tier); s > 0 {
				parts = append(parts, fmt.Sprintf("states of total size at most %d extended", s))
			}
			parts = append(parts, fmt.Sprintf("%d commands", len(b.ops)))
			if b.lows.of(tier) > 0 {
				parts = append(parts, fmt.Sprintf("up to %d low random draws per command", b.lows.of(tier)))
			}
			if b.mapOrder {
				parts = append(parts, "all rotations of every map iteration")
			}
			if b.bound != "" {
				parts = append(parts, b.bound)
			}
			r.Bound = strings.Join(parts, "; ")
			return r
		},
		Replay: func(v *drive.Violation) (string, []string) {
			why := ""
			var log []string
			for _, tier := range []string{"quick", "thorough"} {
				why, log = drive.Replay(v, b.build(tier, time.Time{}).Sched)
				if why != "" {
					return why, log
				}
			}
			return why, log
		},
	})
}

func ints(l ...int64) []string {
	var o []string
	for _, n := range l {
		o = append(o, strconv.FormatInt(n, 10))
	}
	return o
}

func irange(lo, hi int) []string {
	var o []string
	for i := lo; i <= hi; i++ {
		o = append(o, strconv.Itoa(i))
	}
	return o
}

var (
	maxI = strconv.FormatInt(math.MaxInt64, 10)
	minI = strconv.FormatInt(math.MinInt64, 10)
)

const binary = "a\r\n\x00$5\r\n*+-:\xff"

func init() {
	// ---- C05 ----
	ks := []string{"a", "b", "k\r\n\x00"}
	bfs{prop: "C05", name: "strings/write-append", keys: append(ks, "zz"), size: tiered{5, 8},
		ops: cat(
			cross(one("set"), ks, []string{"", "x", "\r\n"}),
			cross(one("append"), ks, []string{"", "yz", "\x00"}),
			[][]string{{"mset", "a", "x", "b", "y"}, {"mset", "a", "x", "a", ""}, {"mset", "b", "q", "a"}, {"mset", "a"}, {"mset", "a", "1", "b", "2", "k\r\n\x00"}, {"mset", "b", "1", "k\r\n\x00", "2", "b", "3"}},
			cross(one("del"), ks), [][]string{{"del", "a", "b"}, {"del", "b", "b", "zz", "a"}},
			cross(one("get"), append(ks, "zz")), [][]string{{"mget", "a", "b", "zz", "a", "k\r\n\x00"}, {"mget", "zz"}},
		)}.register()
	big := strings.Repeat("0123456789abcdef", 300)
	bfs{prop: "C05", name: "strings/values", keys: []string{"a", "b"}, depth: tiered{3, 4},
		ops: cat(
			cross(one("SET"), []string{"a"}, []string{"", "0", "007", "1.50", "-0", binary, big, "nil", "$-1\r\n", "é", " "}),
			cross(one("append"), []string{"a"}, []string{"", binary, big, "1"}),
			[][]string{{"mset", "a", binary, "b", ""}, {"Mset", "b", big, "a", "0"}, {"lpush", "b", "x"}, {"mget", "a", "b", "a"}, {"get", "a"}, {"del", "a"}, {"incr", "a"}},
		)}.register()
	col := collide("a", 2)
	ck := append([]string{"a"}, col...)
	bfs{prop: "C05", name: "strings/same-shard", keys: ck,
		ops: cat(cross(one("set"), ck, []string{"1", "2"}), cross(one("del"), ck), [][]string{append([]string{"mget"}, ck...), {"mset", ck[0], "3", ck[1], "3", ck[2], "3"}, {"mset", ck[1], "4", ck[0], "5"}, append([]string{"del"}, ck...)}),
	}.register()
	// ---- C06 ----
	amounts := []string{"1", "-1", "0", "7", maxI, minI, "-9223372036854775807", "x", "", "1.5", "9223372036854775808", " 1", "1 ", "--1", "0x1"}
	bfs{prop: "C06", name: "counters", keys: []string{"n"}, depth: tiered{3, 4},
		ops: cat(
			cross(one("set"), one("n"), []string{"0", "10", "-1", maxI, minI, "9223372036854775806", "-9223372036854775807", "abc", "", "1.5", " 1", "1\n", "99999999999999999999"}),
			cross([]string{"incrby", "decrby"}, one("n"), amounts),
			[][]string{{"incr", "n"}, {"decr", "n"}, {"INCR", "n"}, {"append", "n", "0"}, {"append", "n", "x"}, {"del", "n"}, {"get", "n"}},
		)}.register()
	bfs{prop: "C06", name: "counters/two", keys: []string{"n", "m"}, depth: tiered{5, 7},
		ops: [][]string{{"incr", "n"}, {"decr", "n"}, {"incrby", "m", "3"}, {"decrby", "m", "-2"}, {"incr", "m"}, {"mset", "n", "5", "m", "x"}, {"del", "n", "m"}, {"append", "n", "1"}, {"lpush", "m", "1"}},
	}.register()
	// ---- C07 ----
	lv := []string{"a", "b"}
	listReads := cat(cross(one("lindex"), one("l"), irange(-10, 9)), cross(one("lrange"), one("l"), irange(-6, 6), irange(-6, 6)))
	listOps := cat(
		cross(one("lpush"), one("l"), lv), cross(one("rpush"), one("l"), lv),
		[][]string{{"lpush", "l", "a", "b"}, {"rpush", "l", "a", "b", "b"}, {"lpop", "l"}, {"rpop", "l"}, {"llen", "l"}, {"lrange", "l", "0", "-1"}, {"lindex", "l", "-1"}, {"del", "l"}},
		cross([]string{"lpop", "rpop"}, one("l"), []string{"2", "3", "9", "0", "-1", "x", maxI}),
		cross(one("lrem"), one("l"), []string{"0", "1", "2", "3", "-1", "-2", "-3", "99", minI, maxI}, append(lv, "z")),
		cross(one("lset"), one("l"), irange(-3, 3), []string{"a"}), [][]string{{"lset", "l", "5", "b"}, {"lset", "l", "-6", "b"}},
		cross(one("linsert"), one("l"), []string{"before", "AFTER"}, append(lv, "z"), lv), [][]string{{"linsert", "l", "x", "a", "b"}},
	)
	bfs{prop: "C07", name: "list/closure", keys: []string{"l"}, size: tiered{5, 7}, ops: listOps, probes: listReads}.register()
	bfs{prop: "C07", name: "list/long", keys: []string{"l"}, depth: tiered{4, 5},
		setup:  [][]string{{"rpush", "l", "1", "2", "3", "4", "5", "6", "7", "8"}},
		ops:    cat(cross(one("lset"), one("l"), irange(-9, 8), []string{"X"}), [][]string{{"lpop", "l", "3"}, {"rpop", "l", "3"}, {"linsert", "l", "before", "6", "n"}, {"linsert", "l", "after", "8", "t"}, {"lrem", "l", "0", "X"}, {"lrem", "l", "-1", "5"}, {"rpush", "l", "9", "9"}, {"lpush", "l", "0"}, {"lrem", "l", "2", "9"}}),
		probes: listReads}.register()
	bfs{prop: "C07", name: "list/values", keys: []string{"l", "k"}, size: tiered{3, 4},
		ops:    cat(cross([]string{"lpush", "rpush"}, []string{"l", "k"}, []string{"", binary, "1"}), cross([]string{"lpop", "rpop"}, []string{"l", "k"}), cross(one("lrem"), one("l"), []string{"0", "1", "-1"}, []string{"", binary}), cross(one("lset"), one("k"), []string{"0", "-1"}, []string{"", "1"}), cross(one("linsert"), one("l"), []string{"before", "after"}, []string{"", binary}, []string{"", "v"})),
		probes: cat(cross(one("lindex"), []string{"l", "k", "missing"}, []string{"0", "-1", "1", maxI, minI, "x", ""}), cross(one("lrange"), []string{"l", "k", "missing"}, []string{"0", minI, maxI, "x"}, []string{"-1", minI, maxI, "x", "2"}))}.register()
	// ---- C08 ----
	hv := []string{"", "x", "1", "1.5", "1.50", "007", "1e3", "inf", "-0", "+5", "nan", maxI, "12345678901234567890", " 1", "1.0", ".5", "0.1", "1e400", "-0.0", "true", binary}
	bfs{prop: "C08", name: "hash/values", keys: []string{"h"}, depth: tiered{2, 3},
		ops:    cat(cross(one("hset"), one("h"), []string{"f", "g"}, hv), cross(one("hsetnx"), one("h"), []string{"f"}, hv), cross(one("hmset"), one("h"), one("f"), hv, one("g"), []string{"1", "x"}), [][]string{{"hdel", "h", "f"}, {"hgetall", "h"}, {"hvals", "h"}}),
		probes: cat(cross(one("hget"), one("h"), []string{"f", "g", "zz"}), [][]string{{"hmget", "h", "f", "zz", "g", "f"}, {"hvals", "h"}, {"hkeys", "h"}, {"hexists", "h", "f"}, {"hexists", "h", "zz"}}),
	}.register()
	hf := append([]string{"f", ""}, collide("f", 2)...)
	bfs{prop: "C08", name: "hash/closure", keys: []string{"h"}, mapOrder: true,
		ops: cat(cross(one("hset"), one("h"), hf, []string{"1", "x"}), cross(one("hsetnx"), one("h"), hf, []string{"2"}), cross(one("hdel"), one("h"), hf),
			[][]string{{"hset", "h", hf[0], "1", hf[1], "x", hf[0], "2"}, {"hmset", "h", hf[2], "1", hf[3], "x"}, {"hmset", "h", hf[2]}, {"hset", "h", hf[0], "1", hf[1]}, {"hmset", "h", hf[0], "9", hf[1]}, {"hdel", "h", hf[0], hf[2], hf[0], "zz"}, append([]string{"hdel", "h"}, hf...), {"del", "h"}, {"hlen", "h"}, {"hgetall", "h"}}),
		probes: cat(cross([]string{"hget", "hexists"}, one("h"), append(hf, "zz")), [][]string{append([]string{"hmget", "h", "zz"}, hf...), {"hvals", "h"}, {"hkeys", "h"}, {"hkeys", "none"}, {"hvals", "none"}, {"hgetall", "none"}, {"hmget", "none", "a", "b"}, {"hlen", "none"}, {"hexists", "none", "f"}, {"hget", "none", "f"}}),
	}.register()
	bfs{prop: "C08", name: "hash/two-keys", keys: []string{"h", "i"}, depth: tiered{5, 7},
		ops:    cat(cross(one("hset"), []string{"h", "i"}, []string{"f", "g"}, []string{"1", "2"}), cross(one("hdel"), []string{"h", "i"}, []string{"f", "g"}), cross(one("hsetnx"), []string{"h", "i"}, one("f"), one("3")), cross(one("hincrby"), []string{"i"}, one("f"), one("1")), [][]string{{"del", "h", "i"}}),
		probes: cat(cross([]string{"hget", "hexists"}, []string{"h", "i"}, []string{"f", "g"}), cross([]string{"hkeys", "hvals"}, []string{"h", "i"}))}.register()
	// ---- C09 ----
	famounts := []string{"1.5", "-0.5", "0", "0.1", "0.2", "1e308", "-1e308", "3", "x", "", "nan", "1.5.2", "--1", "1e999", "inf", "-inf"}
	iamounts := []string{"1", "-1", "0", "5", maxI, minI, "x", "", "1.5", "9223372036854775808", " 1"}
	bfs{prop: "C09", name: "hash/increments", keys: []string{"h"}, depth: tiered{3, 3},
		ops:    cat(cross(one("hset"), one("h"), one("f"), []string{"10", maxI, minI, "1.5", "1.50", "x", "", "1e308", "-7", "0.1"}), cross(one("hincrby"), one("h"), []string{"f"}, iamounts), cross(one("hincrbyfloat"), one("h"), []string{"f"}, famounts), [][]string{{"hdel", "h", "f"}, {"hincrby", "h", "g", "2"}, {"hincrbyfloat", "h", "g", "2.25"}, {"hset", "h", "g", "5"}}),
		probes: cat(cross([]string{"hget", "hexists"}, one("h"), []string{"f", "g"}), [][]string{{"hlen", "h"}, {"hkeys", "h"}, {"hvals", "h"}, {"hlen", "none"}}),
	}.register()
	bfs{prop: "C09", name: "hash/increments-two-keys", keys: []string{"h", "i", "s"}, depth: tiered{4, 6},
		ops:    [][]string{{"hincrby", "h", "f", "1"}, {"hincrby", "h", "g", "-2"}, {"hincrbyfloat", "i", "f", "0.5"}, {"hincrbyfloat", "h", "f", "0.5"}, {"hincrby", "i", "f", "3"}, {"hincrby", "i", "g", "x"}, {"hdel", "h", "f"}, {"hdel", "i", "f", "g"}, {"set", "s", "1"}, {"hincrby", "s", "f", "1"}, {"hincrbyfloat", "s", "f", "1.5"}, {"hsetnx", "h", "f", "41"}, {"del", "s"}},
		probes: cat(cross([]string{"hget", "hexists"}, []string{"h", "i"}, []string{"f", "g"}), cross(one("hlen"), []string{"h", "i", "s"}))}.register()
	// ---- C10 ----
	sm := append([]string{"a", ""}, collide("a", 2)...)
	bfs{prop: "C10", name: "set/closure", keys: []string{"s"}, mapOrder: true,
		ops: cat(cross([]string{"sadd", "srem"}, one("s"), sm), cross(one("sismember"), one("s"), sm),
			[][]string{append([]string{"sadd", "s"}, sm...), {"sadd", "s", "a", "a"}, {"srem", "s", "a", "a", sm[2]}, append([]string{"srem", "s"}, sm...), {"spop", "s"}, {"del", "s"}, {"smembers", "s"}, {"scard", "s"}},
			cross(one("spop"), one("s"), []string{"0", "1", "2", "3", "9", maxI, "-1", "x", ""})),
		probes: cat(cross(one("sismember"), []string{"s", "none"}, append(sm, "zz")), [][]string{{"smembers", "none"}, {"scard", "none"}, {"srem", "none", "a"}, {"spop", "none"}, {"spop", "none", "3"}})}.register()
	bfs{prop: "C10", name: "set/move", keys: []string{"s", "t", "x"}, mapOrder: true,
		ops:    cat(cross([]string{"sadd", "srem"}, []string{"s", "t"}, []string{"a", "b", "c"}), cross(one("smove"), []string{"s", "t", "x", "none"}, []string{"s", "t", "x"}, []string{"a", "b"}), cross(one("spop"), []string{"s", "t"}), cross(one("spop"), []string{"s", "t"}, one("2")), [][]string{{"set", "x", "1"}, {"del", "x"}, {"smove", "s", "t", "zz"}, {"del", "t"}}),
		probes: cross(one("sismember"), []string{"s", "t"}, []string{"a", "b", "c"})}.register()
	// ---- C11 ----
	sk := []string{"s", "t", "u"}
	sops := []string{"sdiff", "sinter", "sunion"}
	var reads11, stores11 [][]string
	for _, o := range sops {
		for _, k1 := range []string{"s", "t", "u", "d", "none"} {
			reads11 = append(reads11, []string{o, k1})
			for _, k2 := range []string{"s", "t", "u", "d", "none", "str"} {
				reads11 = append(reads11, []string{o, k1, k2})
			}
		}
		reads11 = append(reads11, []string{o, "s", "t", "u"}, []string{o, "u", "s", "s"}, []string{o, "t", "none", "s"}, []string{o, "none", "s", "t"}, []string{o, "str"}, []string{o, "str", "s"}, []string{o, "s", "t", "str"}, []string{o, "d", "u", "t", "s"})
		for _, d := range []string{"s", "d", "str"} {
			stores11 = append(stores11, []string{o + "store", d, "s"}, []string{o + "store", d, "t"}, []string{o + "store", d, "s", "t"}, []string{o + "store", d, "t", "s"}, []string{o + "store", d, "u", "s", "t"}, []string{o + "store", d, "none"}, []string{o + "store", d, "none", "t"}, []string{o + "store", d, "s", "none"}, []string{o + "store", d, "s", "t", "u"}, []string{o + "store", d, "s", "s"}, []string{o + "store", d, "d", "t"})
		}
		stores11 = append(stores11, []string{o + "store", "d", "str"}, []string{o + "store", "d", "s", "str"})
	}
	bfs{prop: "C11", name: "setops/two-members", keys: append(sk, "d", "str"), depth: tiered{3, 4}, setup: [][]string{{"set", "str", "v"}},
		ops:    cat(cross([]string{"sadd", "srem"}, sk, []string{"a", "b"}), cross([]string{"sadd", "srem"}, one("d"), []string{"a", "c"}), stores11, [][]string{{"del", "s"}, {"del", "d"}}),
		probes: reads11}.register()
	bfs{prop: "C11", name: "setops/populated", keys: append(sk, "d", "str"), depth: tiered{2, 3}, mapOrder: false,
		setup:  [][]string{{"set", "str", "v"}, {"sadd", "s", "a", "b", "c"}, {"sadd", "t", "b", "c", "d"}, {"sadd", "u", "c", "e", sm[2], "a"}, {"sadd", "d", "q"}},
		ops:    cat(cross([]string{"sadd", "srem"}, append(sk, "d"), []string{"a", "c", "q"}), stores11, [][]string{{"del", "s"}, {"del", "d"}, {"spop", "s", "2"}, {"spop", "d"}, {"smove", "s", "d", "a"}, {"smove", "d", "s", "q"}}),
		probes: reads11}.register()
	bfs{prop: "C11", name: "setops/same-shard", keys: []string{"s", "t", "d"}, mapOrder: true, depth: tiered{3, 4},
		setup:  [][]string{append([]string{"sadd", "s"}, sm...), {"sadd", "t", sm[2], sm[3], "zz"}},
		ops:    cat(cross([]string{"sdiffstore", "sinterstore", "sunionstore"}, one("d"), one("s"), []string{"t"}), [][]string{{"srem", "s", sm[2]}, {"sadd", "t", "a"}, {"spop", "t"}}, cross(sops, one("s"), one("t"))),
		probes: nil}.register()
	for i, setup := range [][][]string{
		{{"set", "str", "v"}, {"sadd", "s", "a", "b", "c"}, {"sadd", "t", "b", "c", "d"}, {"sadd", "u", "c", "e", sm[2], "a"}, {"sadd", "d", "q", "b"}},
		{{"set", "str", "v"}, {"sadd", "s", "a"}, {"sadd", "t", "a", "b"}, {"sadd", "u", "c"}, {"sadd", "d", "a", "c"}}} {
		every := []string{"s", "t", "u", "d", "none", "str"}
		bfs{prop: "C11", name: "setops/triples-" + strconv.Itoa(i), keys: append(sk, "d", "str"), depth: tiered{1, 1}, setup: setup,
			ops: cat(cross([]string{"sdiffstore", "sinterstore", "sunionstore"}, []string{"d", "s", "str", "new"}, every, every, every), cross(sops, every, every, every))}.register()
	}
	// ---- C12..C14 ----
	zscores := []string{"1", "2", "3"}
	zm := []string{"a", "b", "c"}
	zops := cat(cross(one("zadd"), one("z"), zscores, zm), cross(one("zrem"), one("z"), zm), cross(one("zincr"), one("z"), []string{"1", "-1", "0"}, one("a")),
		[][]string{{"zpopmin", "z"}, {"zpopmax", "z"}, {"zpopmin", "z", "2"}, {"zpopmax", "z", "2"}, {"zpopmin", "z", "9"}, {"zpopmax", "z", "9"}})
	zmore := [][]string{{"zadd", "z", "nx", "2", "a", "3", "b"}, {"zadd", "z", "xx", "3", "a", "1", "b"}, {"zadd", "z", "INCR", "1", "a"}, {"zadd", "z", "incr", "xx", "2", "b"}, {"zadd", "z", "nx", "incr", "2", "a"}, {"zadd", "z", "incr", "nx", "1", "b"}, {"zadd", "z", "nx", "xx", "1", "a"}, {"zadd", "z", "1", "a", "2", "a"}, {"zadd", "z", "1", "a", "x", "b"}, {"zadd", "z", "nan", "a"}, {"zadd", "z", "1", "a", "2"}, {"zadd", "z", "nx", "1"}, {"zadd", "z", "2", "a", "nan", "b"}, {"zadd", "z", "incr", "0", "a"},
		{"zincr", "z", "nan", "a"}, {"zincr", "z", "x", "a"}, {"zpopmin", "z", "0"}, {"zpopmax", "z", "-1"}, {"zpopmin", "z", "x"}, {"zrem", "z", "a", "b", "a", "zz"}, {"zrem", "z", "c", "a"}, {"del", "z"}, {"zadd", "z", "3", "a", "3", "b", "3", "c"}, {"zscore", "z", "a"}, {"zrange", "z", "0", "-1"}}
	zreads := cat(cross([]string{"zscore", "zrank"}, one("z"), append(zm, "zz")), [][]string{{"zcard", "z"}, {"zcard", "none"}, {"zscore", "none", "a"}, {"zrank", "none", "a"}, {"zrem", "none", "a"}, {"zpopmin", "none"}, {"zpopmax", "none", "2"}})
	zidx := cat(cross([]string{"zrange", "zrevrange"}, one("z"), irange(-4, 4), irange(-4, 4)), cross([]string{"zrange", "zrevrange"}, one("z"), []string{"0", "1", "-2", minI}, []string{"-1", "0", maxI, "1"}, []string{"WITHSCORES"}))
	bnd := []string{"-inf", "+inf", "0", "1", "(1", "2", "(2", "3", "(3", "4", "2.5", "(1.5"}
	zsc := cat(cross([]string{"zcount", "zrangebyscore"}, one("z"), bnd, bnd), cross(one("zrange"), one("z"), []string{"(1", "2", "-inf", "0"}, []string{"2", "(3", "+inf", "(2"}, one("byscore"), one("withscores")), cross(one("zrange"), one("z"), []string{"(1", "2", "-inf"}, []string{"2", "(3", "+inf"}, one("BYSCORE")))
	zbad := cat(cross([]string{"zcount", "zrangebyscore"}, []string{"z", "none"}, []string{"x", "", "(", "nan", "((1", "1"}, []string{"x", "1", "(nan", "("}))
	bfs{prop: "C12", name: "zset/scores", keys: []string{"z"}, lows: tiered{1, 2}, ops: cat(zops, zmore), probes: zreads, depth: tiered{4, 5}}.register()
	infs := []string{"inf", "-inf", "0", "-0", "1e308", "1.5"}
	bfs{prop: "C12", name: "zset/extreme-scores", keys: []string{"z"}, lows: tiered{1, 1}, depth: tiered{3, 4},
		ops:    cat(cross(one("zadd"), one("z"), infs, []string{"a", "b"}), cross(one("zincr"), one("z"), append(infs, "-1e308", "-1.5", "x", ""), []string{"a"}), cross(one("zadd"), one("z"), one("incr"), infs, []string{"a"}), [][]string{{"zrem", "z", "a"}, {"zpopmin", "z"}, {"zpopmax", "z"}, {"zadd", "z", "1e400", "a"}, {"zadd", "z", "0x10", "a", "y"}}),
		probes: cat(zreads, cross([]string{"zcount", "zrangebyscore"}, one("z"), []string{"-inf", "(-inf", "0", "1e308", "+inf"}, []string{"-inf", "0", "(1e308", "+inf", "(+inf"}))}.register()
	bfs{prop: "C12", name: "zset/towers", keys: []string{"z"}, lows: tiered{2, 3}, size: tiered{4, 5}, depth: tiered{5, 7},
		ops:    cat(cross(one("zadd"), one("z"), []string{"1", "2"}, []string{"a", "b", "c", "d"}), cross(one("zrem"), one("z"), []string{"a", "b", "c", "d"}), [][]string{{"zpopmin", "z"}, {"zpopmax", "z"}, {"zpopmax", "z", "2"}, {"zadd", "z", "3", "a"}}),
		probes: cross([]string{"zscore", "zrank"}, one("z"), []string{"a", "b", "c", "d"})}.register()
	bfs{prop: "C12", name: "zset/two-keys", keys: []string{"z", "y"}, lows: tiered{0, 1}, depth: tiered{5, 6},
		ops: [][]string{{"zadd", "z", "1", "a"}, {"zadd", "y", "2", "a", "2", "b"}, {"zincr", "y", "1", "a"}, {"zrem", "z", "a"}, {"zpopmax", "y"}, {"zpopmin", "y", "5"}, {"zadd", "z", "xx", "2", "a"}, {"zadd", "y", "xx", "5", "n"}, {"del", "y"}}, probes: cross([]string{"zscore", "zrank"}, []string{"z", "y"}, []string{"a", "b"})}.register()
	bfs{prop: "C13", name: "zset/order", keys: []string{"z"}, lows: tiered{1, 2}, depth: tiered{4, 5}, ops: zops, probes: cat(zidx, zreads)}.register()
	bfs{prop: "C13", name: "zset/ties", keys: []string{"z"}, lows: tiered{2, 3}, depth: tiered{5, 6},
		ops:    cat(cross(one("zadd"), one("z"), []string{"1"}, []string{"a", "b", "c", "d", "", "ab"}), cross(one("zrem"), one("z"), []string{"a", "c", "ab"}), [][]string{{"zadd", "z", "2", "b"}}),
		probes: cat(cross([]string{"zrange", "zrevrange"}, one("z"), ints(-7, -6, -4, -1, 0, 2, 5, 6), ints(-7, -6, -3, -2, -1, 0, 1, 3, 5, 6)), cross(one("zrank"), one("z"), []string{"a", "b", "c", "d", "", "ab"}))}.register()
	bfs{prop: "C13", name: "zset/arguments", keys: []string{"z"}, depth: tiered{2, 2}, setup: [][]string{{"zadd", "z", "1", "a", "1", "b", "2", "c"}},
		ops:    [][]string{{"zadd", "z", "0.5", "b"}, {"zrem", "z", "a", "b", "c"}, {"zpopmin", "z", "2"}},
		probes: cat(cross([]string{"zrange", "zrevrange"}, []string{"z", "none"}, []string{"0", "-1", "x", "", "1.5", minI, maxI, "9223372036854775808"}, []string{"0", "-1", "x", "", minI, maxI, "(1"}), cross([]string{"zrange", "zrevrange"}, []string{"z"}, irange(-4, 4), irange(-4, 4), []string{"withscores", "WithScores"}))}.register()
	bfs{prop: "C14", name: "zset/score-ranges", keys: []string{"z"}, lows: tiered{1, 2}, depth: tiered{4, 5}, ops: zops, probes: cat(zsc, zbad)}.register()
	bfs{prop: "C14", name: "zset/score-ranges-gaps", keys: []string{"z"}, lows: tiered{2, 3}, depth: tiered{4, 6},
		ops:    cat(cross(one("zadd"), one("z"), []string{"-5", "10"}, []string{"a", "b", "c", "d"}), [][]string{{"zrem", "z", "b"}, {"zadd", "z", "0", "c"}}),
		probes: cross([]string{"zcount", "zrangebyscore"}, one("z"), []string{"-inf", "-6", "-5", "(-5", "-1", "0", "(0", "3", "10", "(10", "11", "+inf", "inf", "(-inf"}, []string{"-inf", "-6", "-5", "(-5", "-1", "0", "(0", "3", "10", "(10", "11", "+inf", "inf", "(+inf"})}.register()
}
