package suites

import (
	"fmt"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/vsched"
)

// words calls f with every string over the alphabet of at most n characters.
func words(alphabet string, n int, f func(string) bool) bool {
	var rec func(s string) bool
	rec = func(s string) bool {
		if !f(s) {
			return false
		}
		if len(s) < n {
			for _, r := range alphabet {
				if !rec(s + string(r)) {
					return false
				}
			}
		}
		return true
	}
	return rec("")
}

// judged runs commands in a new system, each reply judged by the model.
func judged(cmds [][]string, keys []string) string {
	db := model.DB{}
	for i := 0; i < len(cmds); i++ {
		vsched.ResetBudget()
		v, err := drive.Do(cmds[i])
		if err != nil {
			return fmt.Sprintf("%.80q: %v", cmds[i], err)
		}
		next, why := db.Step(cmds[i], v)
		if why != "" {
			return fmt.Sprintf("%.80q: %.400s", cmds[i], why)
		}
		db = next
	}
	for _, p := range dump(keys)(db) {
		v, err := drive.Do(p)
		if err == nil {
			if _, why := db.Step(p, v); why != "" {
				err = fmt.Errorf("%s", why)
			}
		}
		if err != nil {
			return fmt.Sprintf("afterwards %.80q: %v", p, err)
		}
	}
	return ""
}

// texts enumerates every short text of an alphabet in the places where a command reads or stores it.
func texts(prop, name, alphabet string, n tiered, extra []string, keys []string, cases func(s string) [][][]string) {
	bound := func(n int) string {
		return fmt.Sprintf("every text of at most %d characters of %q and %d listed ones in every listed place", n, alphabet, len(extra))
	}
	enum{prop: prop, name: name, suite: "history", fresh: true, bound: tieredText{bound(n.q), bound(n.t)},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			f := func(s string) bool {
				var cmds [][]string
				for _, c := range cases(s) {
					cmds = append(append(cmds, c...), with([]string{"del"}, keys...))
				}
				return emit(func() string { return fmt.Sprintf("%q", s) }, func() string { return judged(cmds[:len(cmds)-1], keys) })
			}
			for _, s := range extra {
				if !f(s) {
					return
				}
			}
			words(alphabet, n.of(tier), f)
		}}.register()
}

func init() {
	numbers := []string{"0.00001", "0.0001", "-0.0001", "100000000000000000000", "1000000000000000000000", "123456789012345678901234", "1e+21", "1e21", "1e-05", "1E5", "1e+06", "1e-7", "0x1p4", "0x1p-2", "1_000", "Inf", "Infinity", "-inf", "+Inf", "NaN", "0b1", "0o17",
		"9007199254740993", "9007199254740992.0", "0.30000000000000004", "0.10000000000000001", "0.1000000000000000055511151231257827", "1.0000000000000002", "0.20000000000000001", "2.2999999999999998", "1.10000000000000009", "16777217.0", "16777217", "0.10000000149011612", "5e-324", "1.7976931348623157e+308", "1e309", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "09223372036854775807", "+9223372036854775807", "18446744073709551616", "4294967296", "2147483648", "-2147483649", "1\\x00", "\\t1", "1\\n", "١", "1 000", "1,5", "1.5f"}
	texts("C08", "hash/number-texts", "01.e-+_xI", tiered{4, 6}, numbers, []string{"h"}, func(s string) [][][]string {
		return [][][]string{
			{{"hset", "h", "f", s, s, "v"}, {"hget", "h", "f"}, {"hmget", "h", "f", "zz", s}, {"hvals", "h"}, {"hgetall", "h"}},
			{{"hmset", "h", "f", s}, {"hsetnx", "h", "g", s}, {"hget", "h", "g"}},
		}
	})
	texts("C09", "hash/amount-texts", "019.e-+_x", tiered{4, 5}, numbers, []string{"h"}, func(s string) [][][]string {
		return [][][]string{
			{{"hset", "h", "f", "5"}, {"hincrby", "h", "f", s}, {"hget", "h", "f"}, {"hincrby", "h", "n", s}},
			{{"hset", "h", "f", "5.5"}, {"hincrbyfloat", "h", "f", s}, {"hget", "h", "f"}, {"hincrbyfloat", "h", "n", s}},
			{{"hset", "h", "f", s}, {"hincrby", "h", "f", "1"}, {"hget", "h", "f"}},
			{{"hset", "h", "f", s}, {"hincrbyfloat", "h", "f", "0.5"}, {"hget", "h", "f"}, {"hincrby", "h", "f", "1"}},
		}
	})
	texts("C06", "counter-texts", "019.e-+_x ", tiered{4, 5}, numbers, []string{"n"}, func(s string) [][][]string {
		return [][][]string{
			{{"set", "n", "5"}, {"incrby", "n", s}, {"get", "n"}, {"decrby", "n", s}},
			{{"incrby", "n", s}}, {{"decrby", "n", s}},
			{{"set", "n", s}, {"incr", "n"}, {"get", "n"}, {"decrby", "n", "2"}, {"append", "n", "0"}, {"decr", "n"}},
		}
	})
	texts("C12", "zset/score-texts", "01.e-+_xif", tiered{4, 5}, numbers, []string{"z"}, func(s string) [][][]string {
		return [][][]string{
			{{"zadd", "z", s, "a"}, {"zscore", "z", "a"}, {"zincr", "z", s, "a"}, {"zincr", "z", s, "b"}},
			{{"zadd", "z", "1", "a", s, "b"}, {"zadd", "z", "incr", s, "a"}, {"zpopmin", "z"}},
		}
	})
	texts("C14", "zset/bound-texts", "01.e-+(xif", tiered{4, 5}, append(numbers, "(inf", "(-inf", "(+inf", "( 1", "(1(", "((1", "(", "-INF", "+Inf", "(1e0", "[1", "(0x1", "1)"), []string{"z"}, func(s string) [][][]string {
		b := []string{"zadd", "z", "-1", "m", "0", "a", "1", "b", "1", "c", "10", "d", "inf", "e"}
		return [][][]string{{b, {"zcount", "z", s, "+inf"}, {"zcount", "z", "-inf", s}, {"zrangebyscore", "z", s, s}, {"zrangebyscore", "z", "(" + s, "10"}, {"zrange", "z", "0", s, "byscore"}}, {{"zcount", "z", s, "1"}, {"zcount", "z", "1", s}}}
	})
	texts("C13", "zset/position-texts", "012.e-+_x", tiered{4, 5}, numbers, []string{"z"}, func(s string) [][][]string {
		b := []string{"zadd", "z", "1", "a", "1", "b", "2", "c", "3", "d"}
		return [][][]string{{b, {"zrange", "z", s, "2"}, {"zrange", "z", "-3", s}, {"zrevrange", "z", s, "-1", "withscores"}, {"zrevrange", "z", "0", s}}}
	})
	texts("C07", "list/position-texts", "012.e-+_x", tiered{4, 5}, numbers, []string{"l"}, func(s string) [][][]string {
		b := []string{"rpush", "l", "a", "b", "a", "c"}
		return [][][]string{{b, {"lindex", "l", s}, {"lrange", "l", s, "2"}, {"lrange", "l", "-3", s}, {"lset", "l", s, "X"}, {"lrem", "l", s, "a"}}, {b, {"lpop", "l", s}}, {b, {"rpop", "l", s}}}
	})
	texts("C10", "set/count-texts", "012.e-+_x", tiered{4, 5}, numbers, []string{"s"}, func(s string) [][][]string {
		b := []string{"sadd", "s", "a", "b", "c"}
		return [][][]string{{b, {"spop", "s", s}}, {{"sadd", "s", s}, {"sismember", "s", s}, {"smembers", "s"}, {"srem", "s", s}}}
	})
}
