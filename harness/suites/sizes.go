package suites

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vsched"
)

// sizes enumerates collections of every size up to a bound, built in several ways, and runs every one of the
// given short histories on each; every reply and the whole contents afterwards are judged by the model.
type sizes struct {
	prop, name string
	keys       []string
	max        tiered
	extra      []int
	scripts    []string // patterns of the random draws
	build      func(n int) [][][]string
	tails      func(n int) [][][]string
}

// draws are the patterns of low and high random draws offered to the code.
var draws = map[string]func(int) bool{
	"high":   func(int) bool { return false },
	"one":    func(i int) bool { return i%2 == 1 },
	"ruler":  func(i int) bool { return i*40503>>3&1 == 1 },
	"tower":  func(i int) bool { return i%41 != 0 },
	"sparse": func(i int) bool { return uint32(i)*2654435761>>28 < 4 },
	"dense":  func(i int) bool { return uint32(i)*2654435761>>28 < 11 },
}

func names(p string, n int) []string {
	o := make([]string, n)
	for i := range o {
		o[i] = p + strconv.Itoa(i)
	}
	return o
}

func (z sizes) all(tier string) []int {
	var o []int
	for n := 1; n <= z.max.of(tier); n++ {
		o = append(o, n)
	}
	for _, n := range z.extra {
		if n > z.max.of(tier) {
			o = append(o, n)
		}
	}
	return o
}

func (z sizes) run(cmds [][]string, tail int) string {
	db := model.DB{}
	step := func(c []string) string {
		v, err := drive.Do(c)
		if err != nil {
			return fmt.Sprintf("%.80q: %v", c, err)
		}
		next, why := db.Step(c, v)
		if why != "" {
			return fmt.Sprintf("%.80q: %.400s", c, why)
		}
		db = next
		return ""
	}
	look := dump(z.keys)
	for i, c := range cmds {
		vsched.ResetBudget()
		if why := step(c); why != "" {
			return why
		}
		if i >= tail-1 {
			for _, p := range look(db) {
				if why := step(p); why != "" {
					return fmt.Sprintf("after %.80q: %s", c, why)
				}
			}
		}
	}
	return ""
}

func (z sizes) register() {
	if len(z.scripts) == 0 {
		z.scripts = []string{"high"}
	}
	enum{prop: z.prop, name: z.name, suite: "history", fresh: true,
		bound: tieredText{fmt.Sprintf("every size from 1 to %d and %v, every way of building, every listed short history", z.max.q, z.extra), fmt.Sprintf("every size from 1 to %d and %v, every way of building, every listed short history", z.max.t, z.extra)},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			defer vsched.Script(nil)
			for _, n := range z.all(tier) {
				for bi, b := range z.build(n) {
					for ti, t := range z.tails(n) {
						for _, sc := range z.scripts {
							n, bi, b, ti, t, sc := n, bi, b, ti, t, sc
							if !emit(func() string {
								return fmt.Sprintf("size %d, built way %d, history %d %.60q, draws %s", n, bi, ti, t, sc)
							},
								func() string {
									vsched.Script(draws[sc])
									defer vsched.Script(nil)
									return z.run(append(append([][]string{}, b...), t...), len(b))
								}) {
								return
							}
						}
					}
				}
			}
		}}.register()
}

func each(l []string, f func(v string) []string) [][]string {
	var o [][]string
	for _, v := range l {
		o = append(o, f(v))
	}
	return o
}

func with(p []string, l ...string) []string { return append(append([]string{}, p...), l...) }

// some are the interesting positions of a collection of n.
func some(n int) []int {
	var o []int
	seen := map[int]bool{}
	for _, i := range []int{0, 1, n / 3, n / 2, n/2 + 1, n/2 + 2, n - 2, n - 1} {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			o = append(o, i)
		}
	}
	return o
}

func init() {
	edges := []int{255, 256, 257, 511, 512, 513, 1000, 1024, 1025}
	sizes{prop: "C07", name: "list/sizes", keys: []string{"l"}, max: tiered{70, 300}, extra: edges[:6],
		build: func(n int) [][][]string {
			return [][][]string{
				{with([]string{"rpush", "l"}, names("e", n)...)},
				{with([]string{"lpush", "l"}, names("e", n)...)},
				each(names("e", n), func(v string) []string {
					if v[len(v)-1]%2 == 0 {
						return []string{"lpush", "l", v}
					}
					return []string{"rpush", "l", v}
				}),
			}
		},
		tails: func(n int) (o [][][]string) {
			for _, i := range some(n) {
				p, q := strconv.Itoa(i), strconv.Itoa(i-n)
				v := "e" + p
				o = append(o,
					[][]string{{"lindex", "l", p}, {"lindex", "l", q}, {"lset", "l", p, "X"}, {"lset", "l", q, "Y"}, {"lrange", "l", p, q}, {"lrange", "l", q, "-1"}, {"lrange", "l", "0", p}, {"lrange", "l", p, p}},
					[][]string{{"linsert", "l", "before", v, "N"}, {"linsert", "l", "after", v, "M"}, {"lrem", "l", "0", v}, {"rpush", "l", "t"}, {"lpush", "l", "h"}},
					[][]string{{"lpop", "l", strconv.Itoa(i + 1)}, {"rpop", "l", strconv.Itoa(n - i)}, {"lpush", "l", "z"}},
					[][]string{{"rpop", "l", strconv.Itoa(i + 1)}, {"lpop", "l"}, {"rpush", "l", "z"}},
					[][]string{{"lrem", "l", "-1", v}, {"lrem", "l", "1", v}, {"lindex", "l", "-1"}, {"lindex", "l", p}})
			}
			return append(o, [][]string{{"lpop", "l", strconv.Itoa(n)}, {"rpush", "l", "z"}}, [][]string{{"rpop", "l", strconv.Itoa(n + 5)}, {"lpush", "l", "z", "y"}},
				[][]string{with(with([]string{"rpush", "l"}, names("e", n)...), names("f", n)...), {"lrem", "l", "0", "e0"}, {"lrange", "l", "-3", strconv.Itoa(2 * n)}})
		}}.register()
	sizes{prop: "C10", name: "set/sizes", keys: []string{"s", "t"}, max: tiered{70, 300}, extra: edges[:6],
		build: func(n int) [][][]string {
			return [][][]string{
				{with([]string{"sadd", "s"}, names("e", n)...)},
				each(append(names("e", n), names("e", n/2)...), func(v string) []string { return []string{"sadd", "s", v} }),
			}
		},
		tails: func(n int) (o [][][]string) {
			for _, i := range some(n) {
				v, k := "e"+strconv.Itoa(i), strconv.Itoa(i+1)
				o = append(o,
					[][]string{{"sismember", "s", v}, {"srem", "s", v}, {"sismember", "s", v}, {"sadd", "s", v, "new"}},
					[][]string{{"spop", "s", k}, {"spop", "s"}, {"sadd", "s", v}},
					[][]string{{"sadd", "t", "o"}, {"smove", "s", "t", v}, {"smove", "t", "s", "o"}},
					[][]string{with([]string{"srem", "s"}, names("e", i+1)...), {"sadd", "s", "e0", "e1"}})
			}
			return append(o, [][]string{{"spop", "s", strconv.Itoa(n + 1)}, {"sadd", "s", "a"}})
		}}.register()
	sizes{prop: "C11", name: "setops/sizes", keys: []string{"s", "t", "u", "d"}, max: tiered{40, 150}, extra: []int{63, 64, 65, 127, 128, 129, 256, 257},
		build: func(n int) [][][]string {
			return [][][]string{{with([]string{"sadd", "s"}, names("e", n)...), with([]string{"sadd", "t"}, names("e", n)[n/3:]...), with(with([]string{"sadd", "u"}, names("f", n)...), names("e", n/2+1)...)}}
		},
		tails: func(n int) (o [][][]string) {
			for _, op := range []string{"sdiff", "sinter", "sunion"} {
				o = append(o, [][]string{{op, "s", "t"}, {op, "t", "s"}, {op, "u", "s"}, {op, "s", "t", "u"}, {op, "u", "t", "s"}},
					[][]string{{op + "store", "d", "s", "t"}, {"srem", "s", "e0"}, {"sadd", "t", "e0"}, {"sadd", "d", "q"}},
					[][]string{{op + "store", "s", "s", "u"}, {"sadd", "s", "q"}, {"spop", "u"}},
					[][]string{{op + "store", "d", "u", "s", "t"}, {"spop", "d"}, {"srem", "u", "f0"}})
			}
			// many operands
			var ks []string
			var add [][]string
			for i := 0; i < n; i++ {
				ks = append(ks, "k"+strconv.Itoa(i))
				add = append(add, []string{"sadd", ks[i], "e" + strconv.Itoa(i), "all"})
			}
			return append(o, append(add, with([]string{"sunion"}, ks...), with([]string{"sinter"}, ks...), with([]string{"sdiff", "s"}, ks...), with([]string{"sunionstore", "d"}, ks...), with([]string{"sinterstore", "d"}, ks...)))
		}}.register()
	sizes{prop: "C08", name: "hash/sizes", keys: []string{"h"}, max: tiered{70, 300}, extra: edges[:6],
		build: func(n int) [][][]string {
			pairs := func(p string) []string {
				var o []string
				for i, f := range names("f", n) {
					o = append(o, f, p+strconv.Itoa(i))
				}
				return o
			}
			return [][][]string{
				{with([]string{"hset", "h"}, pairs("v")...)}, {with([]string{"hmset", "h"}, pairs("")...)},
				each(names("f", n), func(v string) []string { return []string{"hsetnx", "h", v, v[1:] + ".50"} }),
			}
		},
		tails: func(n int) (o [][][]string) {
			for _, i := range some(n) {
				f := "f" + strconv.Itoa(i)
				o = append(o,
					[][]string{{"hget", "h", f}, {"hexists", "h", f}, {"hset", "h", f, "1", "new", "2"}, {"hincrby", "h", f, "2"}, {"hget", "h", f}, {"hdel", "h", f, "new"}, {"hsetnx", "h", f, "x"}},
					[][]string{with([]string{"hdel", "h"}, names("f", i+1)...), {"hset", "h", "f0", "b"}},
					[][]string{with([]string{"hmget", "h", "zz"}, names("f", i+2)...), {"hkeys", "h"}, {"hvals", "h"}})
			}
			return o
		}}.register()
	sizes{prop: "C05", name: "strings/sizes", keys: []string{"a"}, max: tiered{150, 600}, extra: append(append([]int{}, edges...), 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537),
		build: func(n int) [][][]string {
			v := strings.Repeat("\r\nx$7", n/5+1)[:n]
			return [][][]string{{{"set", "a", v}}, {{"set", "a", v[:n/2]}, {"append", "a", v[n/2:]}}, {{"mset", "b", v, "a", v}, {"append", "b", v}}}
		},
		tails: func(n int) [][][]string {
			return [][][]string{{{"get", "a"}, {"append", "a", "!"}, {"get", "a"}, {"mget", "a", "b", "a"}}, {{"append", "a", ""}, {"set", "a", "s"}, {"get", "b"}}}
		}}.register()
	sizes{prop: "C16", name: "keys/sizes", keys: nil, max: tiered{70, 200}, extra: edges[:6],
		build: func(n int) [][][]string {
			var ps, ks []string
			for _, k := range names("k", n) {
				ps, ks = append(ps, k, "v"+k), append(ks, k)
			}
			_ = ks
			return [][][]string{{with([]string{"mset"}, ps...)}, each(names("k", n), func(k string) []string {
				return [][]string{{"set", k, "v"}, {"rpush", k, "v"}, {"sadd", k, "v"}, {"zadd", k, "1", "v"}, {"hset", k, "f", "v"}}[int(k[len(k)-1])%5]
			})}
		},
		tails: func(n int) (o [][][]string) {
			for _, i := range some(n) {
				k := "k" + strconv.Itoa(i)
				o = append(o, [][]string{{"del", k}, {"exists", k}, {"type", k}, {"set", k, "z"}}, [][]string{with([]string{"del"}, names("k", i+1)...), with([]string{"exists"}, names("k", n)...)},
					[][]string{with([]string{"mget"}, names("k", i+1)...), {"keys", "k" + strconv.Itoa(i) + "*"}, {"keys", "*" + strconv.Itoa(i%10)}})
			}
			return append(o, [][]string{with([]string{"exists"}, names("k", n+1)...), with([]string{"del", "none"}, names("k", n)...)})
		}}.register()
	sizes{prop: "C26", name: "patterns/sizes", keys: nil, max: tiered{40, 130}, extra: []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4097},
		build: func(n int) [][][]string {
			var ps []string
			for _, k := range names("k", n) {
				ps = append(ps, k, "v")
			}
			return [][][]string{{with([]string{"mset"}, ps...)}}
		},
		tails: func(n int) (o [][][]string) {
			for _, i := range some(n) {
				k := strconv.Itoa(i)
				o = append(o, [][]string{{"keys", "*"}, {"keys", "k" + k}, {"del", "k" + k}, {"keys", "k" + k + "*"}, {"keys", "*"}, {"keys", "*" + strconv.Itoa(i%10)}, {"keys", "k?"}, {"keys", "*[1-3]?"}})
			}
			return o
		}}.register()
	zbuild := func(score func(i, n int) string) func(n int) [][][]string {
		return func(n int) [][][]string {
			var a []string
			var b [][]string
			for i, m := range names("m", n) {
				a = append(a, score(i, n), m)
				j := i * 7919 % n
				b = append(b, []string{"zadd", "z", score(j, n), "m" + strconv.Itoa(j)})
			}
			for i := 0; i < n; i++ { // members the stride missed
				b = append(b, []string{"zadd", "z", score(i, n), "m" + strconv.Itoa(i)})
			}
			return [][][]string{{with([]string{"zadd", "z"}, a...)}, b}
		}
	}
	by3 := func(i, n int) string { return strconv.Itoa(i / 3) }
	ztails := func(n int, prop string) (o [][][]string) {
		for _, i := range some(n) {
			m, p, q := "m"+strconv.Itoa(i), strconv.Itoa(i), strconv.Itoa(i-n)
			sc, up := strconv.Itoa(i/3), strconv.Itoa(i/3+1)
			switch prop {
			case "C12":
				o = append(o, [][]string{{"zscore", "z", m}, {"zrem", "z", m}, {"zadd", "z", "0.5", m}, {"zincr", "z", "1", m}, {"zadd", "z", "xx", "1000000", m}, {"zadd", "z", "1", m, "nan", "x"}},
					[][]string{{"zpopmin", "z", strconv.Itoa(i + 1)}, {"zpopmax", "z"}, {"zadd", "z", "0", "m0"}}, [][]string{{"zpopmax", "z", strconv.Itoa(i + 1)}, {"zpopmin", "z"}, {"zadd", "z", "0", "m0"}},
					[][]string{with([]string{"zrem", "z"}, names("m", i+1)...), {"zadd", "z", "3", "m1", "4", "m0"}})
			case "C13":
				o = append(o, [][]string{{"zrank", "z", m}, {"zrange", "z", p, p}, {"zrange", "z", q, "-1", "withscores"}, {"zrange", "z", "0", p}, {"zrevrange", "z", p, "-1"}, {"zrevrange", "z", "0", q}, {"zrevrange", "z", p, p, "withscores"}, {"zrem", "z", m}, {"zrank", "z", "m" + strconv.Itoa(n-1)}, {"zrange", "z", p, "-1"}, {"zadd", "z", "0", m}, {"zrank", "z", m}})
			case "C14":
				o = append(o, [][]string{{"zcount", "z", sc, sc}, {"zcount", "z", "(" + sc, "+inf"}, {"zcount", "z", "-inf", "(" + sc}, {"zrangebyscore", "z", sc, up}, {"zrangebyscore", "z", "(" + sc, up}, {"zrange", "z", "-inf", "(" + up, "byscore"}, {"zrem", "z", m}, {"zcount", "z", sc, "+inf"}, {"zrangebyscore", "z", sc, "+inf"}, {"zrangebyscore", "z", "-inf", sc}})
			}
		}
		return o
	}
	for _, prop := range []string{"C12", "C13", "C14"} {
		prop := prop
		sizes{prop: prop, name: "zset/sizes", keys: []string{"z"}, max: tiered{24, 150}, extra: []int{32, 33, 63, 64, 65, 128, 129, 256, 257}, scripts: []string{"high", "ruler", "sparse", "dense", "tower"},
			build: zbuild(by3), tails: func(n int) [][][]string { return ztails(n, prop) }}.register()
	}
}
