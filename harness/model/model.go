// Package model is the reference semantics of the command set, written from the properties and not from
// the code under test. Step judges one reply and returns the next abstract state.
package model

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/yusank/godis/zzverif/resp"
)

// HVal is a hash field: its text, and whether an increment made it a floating-point field.
type HVal struct {
	Text  string
	Float bool
}

// Entry is the value of a key. Entries are immutable once stored.
type Entry struct {
	T string // string, list, hash, set, zset
	S string
	L []string
	H map[string]HVal
	M map[string]bool
	Z map[string]float64
}

// DB maps keys to entries. DBs are immutable: Step returns a modified copy.
type DB map[string]*Entry

func (d DB) with(k string, e *Entry) DB {
	n := make(DB, len(d)+1)
	for a, b := range d {
		n[a] = b
	}
	if e == nil || e.size() == 0 && e.T != "string" {
		delete(n, k)
	} else {
		n[k] = e
	}
	return n
}

func (e *Entry) size() int { return len(e.L) + len(e.H) + len(e.M) + len(e.Z) }

func (e *Entry) clone() *Entry {
	n := &Entry{T: e.T, S: e.S, L: append([]string{}, e.L...)}
	if e.H != nil {
		n.H = map[string]HVal{}
		for k, v := range e.H {
			n.H[k] = v
		}
	}
	if e.M != nil {
		n.M = map[string]bool{}
		for k := range e.M {
			n.M[k] = true
		}
	}
	if e.Z != nil {
		n.Z = map[string]float64{}
		for k, v := range e.Z {
			n.Z[k] = v
		}
	}
	return n
}

// Canon is a canonical rendering.
func (d DB) Canon() string {
	ks := make([]string, 0, len(d))
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		e := d[k]
		fmt.Fprintf(&b, "%q:%s:", k, e.T)
		switch e.T {
		case "string":
			b.WriteString(strconv.Quote(e.S))
		case "list":
			fmt.Fprintf(&b, "%q", e.L)
		case "hash":
			for _, f := range sortedH(e.H) {
				fmt.Fprintf(&b, "%q=%q/%v,", f, e.H[f].Text, e.H[f].Float)
			}
		case "set":
			fmt.Fprintf(&b, "%q", sortedM(e.M))
		case "zset":
			for _, m := range ZOrder(e.Z) {
				fmt.Fprintf(&b, "%q=%v,", m, e.Z[m])
			}
		}
		b.WriteByte(';')
	}
	return b.String()
}

func sortedH(m map[string]HVal) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
func sortedM(m map[string]bool) []string {
	o := make([]string, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// ZOrder lists members by ascending score, then text.
func ZOrder(z map[string]float64) []string {
	o := make([]string, 0, len(z))
	for k := range z {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool {
		a, b := z[o[i]], z[o[j]]
		if a != b {
			return a < b
		}
		return o[i] < o[j]
	})
	return o
}

// intArg classifies a decimal argument: 2 canonical, 1 parsable but unusual, 0 not an integer.
func intArg(s string) (int64, int) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, 0
	}
	if strconv.FormatInt(n, 10) != s {
		return n, 1
	}
	return n, 2
}

// floatArg reads a number; the hexadecimal forms of oddFloat may also be refused.
func floatArg(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return 0, false
	}
	return f, true
}

func oddFloat(s string) bool { return strings.ContainsAny(s, "xX") }

var floats = map[string]bool{"hincrbyfloat": true, "zadd": true, "zincr": true, "zcount": true, "zrange": true, "zrangebyscore": true}

type step struct {
	db   DB
	args []string
	r    resp.Value
}

// result constructors
func (s *step) bad(f string, a ...any) (DB, string) { return s.db, fmt.Sprintf(f, a...) }
func (s *step) same() (DB, string)                  { return s.db, "" }
func (s *step) wantErr(why string) (DB, string) {
	if s.r.IsErr() {
		return s.db, ""
	}
	return s.bad("want an error (%s), got %s", why, s.r)
}
func (s *step) wantInt(n int64, next DB) (DB, string) {
	if s.r.IsInt(n) {
		return next, ""
	}
	return s.bad("want :%d, got %s", n, s.r)
}
func (s *step) wantOK(next DB) (DB, string) {
	if s.r.IsText("OK") {
		return next, ""
	}
	return s.bad("want OK, got %s", s.r)
}

// typed returns the entry at k; wrong is true when it has another type.
func (s *step) typed(k, t string) (e *Entry, wrong bool) {
	e = s.db[k]
	if e != nil && e.T != t {
		return nil, true
	}
	return e, false
}

// arity of each command: minimum number of arguments after the name; exact >= 0 when surplus is not meaningful.
type spec struct {
	min   int
	exact bool
	f     func(s *step, a []string) (DB, string)
}

var table map[string]spec

// Known reports whether name (any case) is a documented command.
func Known(name string) bool { _, ok := table[strings.ToLower(name)]; return ok }

// Names lists the commands.
func Names() []string {
	var o []string
	for k := range table {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// MinArgs is the least number of arguments a command needs.
func MinArgs(name string) int { return table[strings.ToLower(name)].min }

// Step judges reply r to args in state d.
func (d DB) Step(args []string, r resp.Value) (DB, string) {
	s := &step{db: d, args: args, r: r}
	if len(args) == 0 {
		return d, "empty request"
	}
	sp, ok := table[strings.ToLower(args[0])]
	if !ok {
		return s.wantErr("unknown command")
	}
	a := args[1:]
	if len(a) < sp.min {
		return s.wantErr("too few arguments")
	}
	if sp.exact && len(a) > sp.min {
		if r.IsErr() {
			return d, ""
		}
		a = a[:sp.min]
	}
	if r.IsErr() && floats[strings.ToLower(args[0])] {
		for _, x := range a {
			if _, ok := floatArg(strings.TrimPrefix(x, "(")); ok && oddFloat(x) {
				return d, ""
			}
		}
	}
	return sp.f(s, a)
}

func init() {
	table = map[string]spec{
		"ping":          {0, false, cPing},
		"command":       {0, false, cCommand},
		"get":           {1, true, cGet},
		"set":           {2, false, cSet},
		"mset":          {2, false, cMSet},
		"mget":          {1, false, cMGet},
		"append":        {2, true, cAppend},
		"incr":          {1, true, func(s *step, a []string) (DB, string) { return s.incr(a[0], "1", 1) }},
		"decr":          {1, true, func(s *step, a []string) (DB, string) { return s.incr(a[0], "1", -1) }},
		"incrby":        {2, true, func(s *step, a []string) (DB, string) { return s.incr(a[0], a[1], 1) }},
		"decrby":        {2, true, func(s *step, a []string) (DB, string) { return s.incr(a[0], a[1], -1) }},
		"del":           {1, false, cDel},
		"exists":        {1, false, cExists},
		"type":          {1, true, cType},
		"keys":          {1, true, cKeys},
		"lpush":         {2, false, func(s *step, a []string) (DB, string) { return s.push(a, true) }},
		"rpush":         {2, false, func(s *step, a []string) (DB, string) { return s.push(a, false) }},
		"lpop":          {1, false, func(s *step, a []string) (DB, string) { return s.pop(a, true) }},
		"rpop":          {1, false, func(s *step, a []string) (DB, string) { return s.pop(a, false) }},
		"llen":          {1, true, cLLen},
		"lrange":        {3, true, cLRange},
		"lrem":          {3, true, cLRem},
		"lindex":        {2, true, cLIndex},
		"lset":          {3, true, cLSet},
		"linsert":       {4, true, cLInsert},
		"hset":          {3, false, func(s *step, a []string) (DB, string) { return s.hset(a, false) }},
		"hmset":         {3, false, func(s *step, a []string) (DB, string) { return s.hset(a, true) }},
		"hsetnx":        {3, true, cHSetNX},
		"hget":          {2, true, cHGet},
		"hmget":         {2, false, cHMGet},
		"hgetall":       {1, true, cHGetAll},
		"hkeys":         {1, true, cHKeys},
		"hvals":         {1, true, cHVals},
		"hlen":          {1, true, cHLen},
		"hexists":       {2, true, cHExists},
		"hdel":          {2, false, cHDel},
		"hincrby":       {3, true, cHIncrBy},
		"hincrbyfloat":  {3, true, cHIncrByFloat},
		"sadd":          {2, false, cSAdd},
		"srem":          {2, false, cSRem},
		"sismember":     {2, true, cSIsMember},
		"scard":         {1, true, cSCard},
		"smembers":      {1, true, cSMembers},
		"spop":          {1, false, cSPop},
		"smove":         {3, true, cSMove},
		"sdiff":         {1, false, func(s *step, a []string) (DB, string) { return s.setop(a, diff) }},
		"sinter":        {1, false, func(s *step, a []string) (DB, string) { return s.setop(a, inter) }},
		"sunion":        {1, false, func(s *step, a []string) (DB, string) { return s.setop(a, union) }},
		"sdiffstore":    {2, false, func(s *step, a []string) (DB, string) { return s.setstore(a, diff) }},
		"sinterstore":   {2, false, func(s *step, a []string) (DB, string) { return s.setstore(a, inter) }},
		"sunionstore":   {2, false, func(s *step, a []string) (DB, string) { return s.setstore(a, union) }},
		"zadd":          {3, false, cZAdd},
		"zincr":         {3, true, cZIncr},
		"zscore":        {2, true, cZScore},
		"zcard":         {1, true, cZCard},
		"zrank":         {2, true, cZRank},
		"zrem":          {2, false, cZRem},
		"zcount":        {3, true, cZCount},
		"zrange":        {3, false, cZRange},
		"zrevrange":     {3, false, cZRevRange},
		"zrangebyscore": {3, false, cZRangeByScore},
		"zpopmin":       {1, false, func(s *step, a []string) (DB, string) { return s.zpop(a, false) }},
		"zpopmax":       {1, false, func(s *step, a []string) (DB, string) { return s.zpop(a, true) }},
	}
}

// ---- connection ----

func cPing(s *step, a []string) (DB, string) {
	if s.r.IsText("PONG") || len(a) > 0 && (s.r.IsErr() || s.r.IsText(a[0])) {
		return s.same()
	}
	return s.bad("want PONG, got %s", s.r)
}

func cCommand(s *step, a []string) (DB, string) {
	if s.r.IsErr() && len(a) == 0 {
		return s.bad("unexpected error %s", s.r)
	}
	return s.same()
}

// ---- strings ----

func cGet(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "string")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		if s.r.IsNil() {
			return s.same()
		}
		return s.bad("want nil, got %s", s.r)
	}
	if s.r.IsBulk(e.S) {
		return s.same()
	}
	return s.bad("want %q, got %s", e.S, s.r)
}

func str(v string) *Entry { return &Entry{T: "string", S: v} }

func cSet(s *step, a []string) (DB, string) {
	if len(a) > 2 && s.r.IsErr() {
		return s.same()
	}
	return s.wantOK(s.db.with(a[0], str(a[1])))
}

func cMSet(s *step, a []string) (DB, string) {
	if len(a)%2 != 0 {
		return s.wantErr("missing value")
	}
	d := s.db
	for i := 0; i < len(a); i += 2 {
		d = d.with(a[i], str(a[i+1]))
	}
	return s.wantOK(d)
}

func cMGet(s *step, a []string) (DB, string) {
	if s.r.Kind != '*' || s.r.Nil || len(s.r.Arr) != len(a) {
		return s.bad("want an array of %d, got %s", len(a), s.r)
	}
	for i, k := range a {
		e := s.db[k]
		v := s.r.Arr[i]
		if e == nil || e.T != "string" {
			if !v.IsNil() {
				return s.bad("entry %d: want nil, got %s", i, v)
			}
		} else if !v.IsBulk(e.S) {
			return s.bad("entry %d: want %q, got %s", i, e.S, v)
		}
	}
	return s.same()
}

func cAppend(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "string")
	if wrong {
		return s.wantErr("wrong type")
	}
	v := a[1]
	if e != nil {
		v = e.S + v
	}
	return s.wantInt(int64(len(v)), s.db.with(a[0], str(v)))
}

func (s *step) incr(k, by string, sign int) (DB, string) {
	e, wrong := s.typed(k, "string")
	n, q := intArg(by)
	if q == 0 {
		return s.wantErr("amount is not an integer")
	}
	if wrong {
		return s.wantErr("wrong type")
	}
	cur := int64(0)
	if e != nil {
		c, cq := intArg(e.S)
		if cq == 0 {
			return s.wantErr("value is not an integer")
		}
		if cq < q {
			q = cq
		}
		cur = c
	}
	if (q == 1 || sign < 0 && n == math.MinInt64) && s.r.IsErr() {
		return s.same() // a decrement that has no negation may be refused
	}
	res, ok := addSigned(cur, n, sign)
	if !ok {
		return s.wantErr("overflow")
	}
	return s.wantInt(res, s.db.with(k, str(strconv.FormatInt(res, 10))))
}

func addSigned(a, b int64, sign int) (int64, bool) {
	if sign < 0 {
		// a - b
		r := a - b
		if (b > 0 && r > a) || (b < 0 && r < a) {
			return 0, false
		}
		return r, true
	}
	r := a + b
	if (b > 0 && r < a) || (b < 0 && r > a) {
		return 0, false
	}
	return r, true
}

// ---- keys ----

func cDel(s *step, a []string) (DB, string) {
	d := s.db
	n := 0
	for _, k := range a {
		if d[k] != nil {
			n++
			d = d.with(k, nil)
		}
	}
	return s.wantInt(int64(n), d)
}

func cExists(s *step, a []string) (DB, string) {
	n, uniq := 0, 0
	seen := map[string]bool{}
	for _, k := range a {
		if s.db[k] != nil {
			n++
			if !seen[k] {
				uniq++
			}
			seen[k] = true
		}
	}
	if s.r.IsInt(int64(n)) || s.r.IsInt(int64(uniq)) {
		return s.same()
	}
	return s.bad("want :%d, got %s", n, s.r)
}

func cType(s *step, a []string) (DB, string) {
	want := "none"
	if e := s.db[a[0]]; e != nil {
		want = e.T
	}
	if s.r.IsText(want) {
		return s.same()
	}
	return s.bad("want %s, got %s", want, s.r)
}

func cKeys(s *step, a []string) (DB, string) {
	m, ok := CompilePattern(a[0])
	if !ok {
		if s.r.IsErr() || s.r.Kind == '*' {
			return s.same()
		}
		return s.bad("malformed pattern: want an error or a listing, got %s", s.r)
	}
	got, isArr := s.r.Strings()
	if !isArr && !s.r.IsNil() {
		return s.bad("want an array, got %s", s.r)
	}
	var want []string
	for k := range s.db {
		if m.Match(k) {
			want = append(want, k)
		}
	}
	return s.sameSet(got, want)
}

func (s *step) sameSet(got, want []string) (DB, string) {
	g := append([]string{}, got...)
	w := append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if !eq(g, w) {
		return s.bad("want (any order) %q, got %q", w, got)
	}
	return s.same()
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// arr checks an ordered array reply.
func (s *step) wantArr(want []string, next DB) (DB, string) {
	if len(want) == 0 {
		if s.r.Empty() {
			return next, ""
		}
		return s.bad("want an empty reply, got %s", s.r)
	}
	got, ok := s.r.Strings()
	if !ok || !eq(got, want) {
		return s.bad("want %q, got %s", want, s.r)
	}
	return next, ""
}

// ---- lists ----

func (s *step) push(a []string, left bool) (DB, string) {
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	var l []string
	if e != nil {
		l = e.L
	}
	n := append([]string{}, l...)
	for _, v := range a[1:] {
		if left {
			n = append([]string{v}, n...)
		} else {
			n = append(n, v)
		}
	}
	return s.wantInt(int64(len(n)), s.db.with(a[0], &Entry{T: "list", L: n}))
}

func (s *step) pop(a []string, left bool) (DB, string) {
	cnt := int64(1)
	if len(a) > 2 && s.r.IsErr() {
		return s.same()
	}
	if len(a) > 1 {
		n, q := intArg(a[1])
		if q == 0 || n < 0 {
			return s.wantErr("bad count")
		}
		if (q == 1 || n == 0) && s.r.IsErr() {
			return s.same()
		}
		cnt = n
	}
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantArr(nil, s.db)
	}
	if cnt > int64(len(e.L)) {
		cnt = int64(len(e.L))
	}
	var out, rest []string
	for i := int64(0); i < cnt; i++ {
		if left {
			out = append(out, e.L[i])
		} else {
			out = append(out, e.L[int64(len(e.L))-1-i])
		}
	}
	if left {
		rest = e.L[cnt:]
	} else {
		rest = e.L[:int64(len(e.L))-cnt]
	}
	next := s.db.with(a[0], &Entry{T: "list", L: append([]string{}, rest...)})
	if len(a) == 1 && len(out) == 1 && s.r.IsBulk(out[0]) {
		return next, ""
	}
	return s.wantArr(out, next)
}

func cLLen(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := 0
	if e != nil {
		n = len(e.L)
	}
	return s.wantInt(int64(n), s.db)
}

// span resolves start/stop indices against a length; ok is false when the range is empty.
func span(start, stop int64, n int) (lo, hi int, ok bool) {
	ln := int64(n)
	if start < 0 {
		if start < -ln {
			start = 0
		} else {
			start += ln
		}
	}
	if stop < 0 {
		if stop < -ln {
			return 0, 0, false
		}
		stop += ln
	}
	if stop >= ln {
		stop = ln - 1
	}
	if start > stop || start >= ln {
		return 0, 0, false
	}
	return int(start), int(stop), true
}

func (s *step) twoInts(a, b string) (x, y int64, bad, odd bool) {
	x, p := intArg(a)
	y, q := intArg(b)
	return x, y, p == 0 || q == 0, (p == 1 || q == 1)
}

func cLRange(s *step, a []string) (DB, string) {
	x, y, bad, odd := s.twoInts(a[1], a[2])
	if bad {
		return s.wantErr("index is not an integer")
	}
	if odd && s.r.IsErr() {
		return s.same()
	}
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantArr(nil, s.db)
	}
	lo, hi, ok := span(x, y, len(e.L))
	if !ok {
		return s.wantArr(nil, s.db)
	}
	return s.wantArr(e.L[lo:hi+1], s.db)
}

func cLRem(s *step, a []string) (DB, string) {
	n, q := intArg(a[1])
	if q == 0 {
		return s.wantErr("count is not an integer")
	}
	if q == 1 && s.r.IsErr() {
		return s.same()
	}
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantInt(0, s.db)
	}
	drop := make([]bool, len(e.L))
	c := int64(0)
	if n >= 0 {
		for i := range e.L {
			if e.L[i] == a[2] && (n == 0 || c < n) {
				drop[i] = true
				c++
			}
		}
	} else {
		for i := len(e.L) - 1; i >= 0; i-- {
			if e.L[i] == a[2] && (n == math.MinInt64 || c < -n) {
				drop[i] = true
				c++
			}
		}
	}
	var l []string
	for i := range e.L {
		if !drop[i] {
			l = append(l, e.L[i])
		}
	}
	if c == 0 {
		return s.wantInt(0, s.db)
	}
	return s.wantInt(c, s.db.with(a[0], &Entry{T: "list", L: l}))
}

func index(i int64, n int) (int, bool) {
	if i < 0 {
		if i < -int64(n) {
			return 0, false
		}
		i += int64(n)
	}
	if i >= int64(n) {
		return 0, false
	}
	return int(i), true
}

func cLIndex(s *step, a []string) (DB, string) {
	i, q := intArg(a[1])
	if q == 0 {
		return s.wantErr("index is not an integer")
	}
	if q == 1 && s.r.IsErr() {
		return s.same()
	}
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e != nil {
		if p, ok := index(i, len(e.L)); ok {
			if s.r.IsBulk(e.L[p]) {
				return s.same()
			}
			return s.bad("want %q, got %s", e.L[p], s.r)
		}
	}
	if s.r.IsNil() {
		return s.same()
	}
	return s.bad("want nil, got %s", s.r)
}

func cLSet(s *step, a []string) (DB, string) {
	i, q := intArg(a[1])
	if q == 0 {
		return s.wantErr("index is not an integer")
	}
	if q == 1 && s.r.IsErr() {
		return s.same()
	}
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.notApplied()
	}
	p, ok := index(i, len(e.L))
	if !ok {
		return s.notApplied()
	}
	n := append([]string{}, e.L...)
	n[p] = a[2]
	return s.wantOK(s.db.with(a[0], &Entry{T: "list", L: n}))
}

// notApplied: an error, nil or a non-positive integer.
func (s *step) notApplied() (DB, string) {
	if s.r.IsErr() || s.r.IsNil() || s.r.Kind == ':' && s.r.Int <= 0 {
		return s.same()
	}
	return s.bad("want an error or a non-positive reply, got %s", s.r)
}

func cLInsert(s *step, a []string) (DB, string) {
	w := strings.ToLower(a[1])
	if w != "before" && w != "after" {
		return s.wantErr("bad position word")
	}
	e, wrong := s.typed(a[0], "list")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.notApplied()
	}
	for i, v := range e.L {
		if v != a[2] {
			continue
		}
		if w == "after" {
			i++
		}
		n := append([]string{}, e.L[:i]...)
		n = append(n, a[3])
		n = append(n, e.L[i:]...)
		return s.wantInt(int64(len(n)), s.db.with(a[0], &Entry{T: "list", L: n}))
	}
	return s.notApplied()
}

// ---- hashes ----

func (s *step) hset(a []string, multi bool) (DB, string) {
	if len(a)%2 != 1 {
		return s.wantErr("missing value")
	}
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := &Entry{T: "hash", H: map[string]HVal{}}
	if e != nil {
		n = e.clone()
	}
	for i := 1; i < len(a); i += 2 {
		n.H[a[i]] = HVal{Text: a[i+1]}
	}
	d := s.db.with(a[0], n)
	if multi {
		return s.wantOK(d)
	}
	return s.wantInt(int64(len(a)-1)/2, d)
}

func cHSetNX(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := &Entry{T: "hash", H: map[string]HVal{}}
	if e != nil {
		if _, ok := e.H[a[1]]; ok {
			return s.wantInt(0, s.db)
		}
		n = e.clone()
	}
	n.H[a[1]] = HVal{Text: a[2]}
	return s.wantInt(1, s.db.with(a[0], n))
}

func cHGet(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e != nil {
		if v, ok := e.H[a[1]]; ok {
			if s.r.IsBulk(v.Text) {
				return s.same()
			}
			return s.bad("want %q, got %s", v.Text, s.r)
		}
	}
	if s.r.IsNil() {
		return s.same()
	}
	return s.bad("want nil, got %s", s.r)
}

func cHMGet(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	if s.r.Kind != '*' || s.r.Nil || len(s.r.Arr) != len(a)-1 {
		return s.bad("want an array of %d, got %s", len(a)-1, s.r)
	}
	for i, f := range a[1:] {
		v := s.r.Arr[i]
		var want *HVal
		if e != nil {
			if h, ok := e.H[f]; ok {
				want = &h
			}
		}
		if want == nil && !v.IsNil() {
			return s.bad("entry %d: want nil, got %s", i, v)
		}
		if want != nil && !v.IsBulk(want.Text) {
			return s.bad("entry %d: want %q, got %s", i, want.Text, v)
		}
	}
	return s.same()
}

func cHGetAll(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantArr(nil, s.db)
	}
	got, ok := s.r.Strings()
	if !ok || len(got) != 2*len(e.H) {
		return s.bad("want %d fields and values, got %s", len(e.H), s.r)
	}
	seen := map[string]bool{}
	for i := 0; i < len(got); i += 2 {
		v, ok := e.H[got[i]]
		if !ok || seen[got[i]] || v.Text != got[i+1] {
			return s.bad("want the pairs of %v, got %s", e.H, s.r)
		}
		seen[got[i]] = true
	}
	return s.same()
}

func (s *step) hlist(a []string, pick func(f string, v HVal) string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantArr(nil, s.db)
	}
	got, ok := s.r.Strings()
	if !ok {
		return s.bad("want an array, got %s", s.r)
	}
	var want []string
	for f, v := range e.H {
		want = append(want, pick(f, v))
	}
	return s.sameSet(got, want)
}
func cHKeys(s *step, a []string) (DB, string) {
	return s.hlist(a, func(f string, v HVal) string { return f })
}
func cHVals(s *step, a []string) (DB, string) {
	return s.hlist(a, func(f string, v HVal) string { return v.Text })
}

func cHLen(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := 0
	if e != nil {
		n = len(e.H)
	}
	return s.wantInt(int64(n), s.db)
}

func cHExists(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := int64(0)
	if e != nil {
		if _, ok := e.H[a[1]]; ok {
			n = 1
		}
	}
	return s.wantInt(n, s.db)
}

func cHDel(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantInt(0, s.db)
	}
	n := e.clone()
	c := int64(0)
	for _, f := range a[1:] {
		if _, ok := n.H[f]; ok {
			delete(n.H, f)
			c++
		}
	}
	if c == 0 {
		return s.wantInt(0, s.db)
	}
	return s.wantInt(c, s.db.with(a[0], n))
}

func cHIncrBy(s *step, a []string) (DB, string) {
	by, q := intArg(a[2])
	if q == 0 {
		return s.wantErr("amount is not an integer")
	}
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	cur := int64(0)
	n := &Entry{T: "hash", H: map[string]HVal{}}
	if e != nil {
		n = e.clone()
		if v, ok := e.H[a[1]]; ok {
			c, cq := intArg(v.Text)
			if cq == 0 || v.Float {
				return s.wantErr("field is not an integer")
			}
			if cq < q {
				q = cq
			}
			cur = c
		}
	}
	if q == 1 && s.r.IsErr() {
		return s.same()
	}
	res, ok := addSigned(cur, by, 1)
	if !ok {
		return s.wantErr("overflow")
	}
	n.H[a[1]] = HVal{Text: strconv.FormatInt(res, 10)}
	return s.wantInt(res, s.db.with(a[0], n))
}

func cHIncrByFloat(s *step, a []string) (DB, string) {
	by, ok := floatArg(a[2])
	if !ok {
		return s.wantErr("amount is not a number")
	}
	e, wrong := s.typed(a[0], "hash")
	if wrong {
		return s.wantErr("wrong type")
	}
	cur := 0.0
	n := &Entry{T: "hash", H: map[string]HVal{}}
	if e != nil {
		n = e.clone()
		if v, ok := e.H[a[1]]; ok {
			c, isNum := floatArg(v.Text)
			_, iq := intArg(v.Text)
			if iq == 1 && !v.Float && s.r.IsErr() { // an integer written unusually
				return s.same()
			}
			if !isNum || iq == 2 && !v.Float {
				return s.wantErr("field is not a floating-point number")
			}
			cur = c
			if (math.IsInf(c, 0) || oddFloat(v.Text)) && s.r.IsErr() {
				return s.same()
			}
		}
	}
	res := cur + by
	if math.IsNaN(res) {
		return s.wantErr("result is not a number")
	}
	if math.IsInf(res, 0) {
		return s.wantErr("result is not finite")
	}
	if s.r.Kind != '$' && s.r.Kind != '+' || s.r.Nil {
		return s.bad("want %v, got %s", res, s.r)
	}
	got, err := strconv.ParseFloat(s.r.Str, 64)
	if err != nil || got != res {
		return s.bad("want %v, got %s", res, s.r)
	}
	n.H[a[1]] = HVal{Text: s.r.Str, Float: true}
	return s.db.with(a[0], n), ""
}

// ---- sets ----

func cSAdd(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := &Entry{T: "set", M: map[string]bool{}}
	if e != nil {
		n = e.clone()
	}
	c := int64(0)
	for _, m := range a[1:] {
		if !n.M[m] {
			n.M[m] = true
			c++
		}
	}
	return s.wantInt(c, s.db.with(a[0], n))
}

func cSRem(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantInt(0, s.db)
	}
	n := e.clone()
	c := int64(0)
	for _, m := range a[1:] {
		if n.M[m] {
			delete(n.M, m)
			c++
		}
	}
	return s.wantInt(c, s.db.with(a[0], n))
}

func cSIsMember(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := int64(0)
	if e != nil && e.M[a[1]] {
		n = 1
	}
	return s.wantInt(n, s.db)
}

func cSCard(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := 0
	if e != nil {
		n = len(e.M)
	}
	return s.wantInt(int64(n), s.db)
}

func (s *step) wantSet(m map[string]bool) (DB, string) {
	if len(m) == 0 {
		return s.wantArr(nil, s.db)
	}
	got, ok := s.r.Strings()
	if !ok {
		return s.bad("want %q, got %s", sortedM(m), s.r)
	}
	return s.sameSet(got, sortedM(m))
}

func cSMembers(s *step, a []string) (DB, string) {
	e, wrong := s.typed(a[0], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil {
		return s.wantArr(nil, s.db)
	}
	return s.wantSet(e.M)
}

func cSPop(s *step, a []string) (DB, string) {
	cnt := int64(1)
	if len(a) > 2 && s.r.IsErr() {
		return s.same()
	}
	if len(a) > 1 {
		n, q := intArg(a[1])
		if q == 0 {
			return s.wantErr("count is not an integer")
		}
		if (q == 1 || n <= 0) && s.r.IsErr() {
			return s.same()
		}
		cnt = n
	}
	e, wrong := s.typed(a[0], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	if e == nil || cnt <= 0 {
		return s.wantArr(nil, s.db)
	}
	if cnt > int64(len(e.M)) {
		cnt = int64(len(e.M))
	}
	got, ok := s.r.Strings()
	if !ok && len(a) == 1 && s.r.Kind == '$' && !s.r.Nil {
		got, ok = []string{s.r.Str}, true
	}
	if !ok || int64(len(got)) != cnt {
		return s.bad("want %d members of %q, got %s", cnt, sortedM(e.M), s.r)
	}
	n := e.clone()
	for _, m := range got {
		if !n.M[m] {
			return s.bad("popped %q which is not a (remaining) member of %q", m, sortedM(e.M))
		}
		delete(n.M, m)
	}
	return s.db.with(a[0], n), ""
}

func cSMove(s *step, a []string) (DB, string) {
	src, wrong := s.typed(a[0], "set")
	dst, wrong2 := s.typed(a[1], "set")
	if wrong {
		return s.wantErr("wrong type")
	}
	if src == nil || !src.M[a[2]] {
		return s.notApplied()
	}
	if wrong2 {
		return s.wantErr("wrong type")
	}
	if a[0] == a[1] {
		return s.wantInt(1, s.db)
	}
	ns := src.clone()
	delete(ns.M, a[2])
	nd := &Entry{T: "set", M: map[string]bool{}}
	if dst != nil {
		nd = dst.clone()
	}
	nd.M[a[2]] = true
	return s.wantInt(1, s.db.with(a[0], ns).with(a[1], nd))
}

func diff(sets []map[string]bool) map[string]bool {
	o := map[string]bool{}
	for m := range sets[0] {
		in := false
		for _, t := range sets[1:] {
			in = in || t[m]
		}
		if !in {
			o[m] = true
		}
	}
	return o
}
func inter(sets []map[string]bool) map[string]bool {
	o := map[string]bool{}
	for m := range sets[0] {
		in := true
		for _, t := range sets[1:] {
			in = in && t[m]
		}
		if in {
			o[m] = true
		}
	}
	return o
}
func union(sets []map[string]bool) map[string]bool {
	o := map[string]bool{}
	for _, t := range sets {
		for m := range t {
			o[m] = true
		}
	}
	return o
}

func (s *step) operands(ks []string) (sets []map[string]bool, wrong bool) {
	for _, k := range ks {
		e, w := s.typed(k, "set")
		if w {
			return nil, true
		}
		if e == nil {
			sets = append(sets, nil)
		} else {
			sets = append(sets, e.M)
		}
	}
	return sets, false
}

func (s *step) setop(a []string, f func([]map[string]bool) map[string]bool) (DB, string) {
	sets, wrong := s.operands(a)
	if wrong {
		return s.wantErr("wrong type")
	}
	return s.wantSet(f(sets))
}

func (s *step) setstore(a []string, f func([]map[string]bool) map[string]bool) (DB, string) {
	sets, wrong := s.operands(a[1:])
	if wrong {
		return s.wantErr("wrong type")
	}
	m := f(sets)
	return s.wantInt(int64(len(m)), s.db.with(a[0], &Entry{T: "set", M: m}))
}

// ---- sorted sets ----

func cZAdd(s *step, a []string) (DB, string) {
	var nx, xx, incr bool
	i := 1
flags:
	for ; i < len(a); i++ {
		switch strings.ToLower(a[i]) {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "incr":
			incr = true
		default:
			break flags
		}
	}
	rest := a[i:]
	if len(rest) == 0 || len(rest)%2 != 0 {
		return s.wantErr("score/member pairs incomplete")
	}
	scores := make([]float64, 0, len(rest)/2)
	for j := 0; j < len(rest); j += 2 {
		f, ok := floatArg(rest[j])
		if !ok {
			return s.wantErr("score is not a number")
		}
		scores = append(scores, f)
	}
	e, wrong := s.typed(a[0], "zset")
	if wrong {
		return s.wantErr("wrong type")
	}
	if nx && xx && s.r.IsErr() {
		return s.same()
	}
	n := &Entry{T: "zset", Z: map[string]float64{}}
	if e != nil {
		n = e.clone()
	}
	c := int64(0)
	touched := map[string]bool{}
	for j, f := range scores {
		m := rest[2*j+1]
		old, ok := n.Z[m]
		if ok && nx || !ok && xx {
			continue
		}
		if ok && incr {
			f = old + f
			if math.IsNaN(f) {
				return s.wantErr("score is not a number")
			}
		}
		if !ok || f != old {
			c++
			touched[m] = true
		}
		n.Z[m] = f
	}
	d := s.db.with(a[0], n)
	if int64(len(touched)) != c && s.r.IsInt(int64(len(touched))) {
		return d, ""
	}
	return s.wantInt(c, d)
}

func (s *step) isScore(v resp.Value, f float64) bool {
	if v.Kind != '$' && v.Kind != '+' || v.Nil {
		return false
	}
	g, err := strconv.ParseFloat(v.Str, 64)
	return err == nil && g == f
}

func cZIncr(s *step, a []string) (DB, string) {
	f, ok := floatArg(a[1])
	if !ok {
		return s.wantErr("increment is not a number")
	}
	e, wrong := s.typed(a[0], "zset")
	if wrong {
		return s.wantErr("wrong type")
	}
	n := &Entry{T: "zset", Z: map[string]float64{}}
	if e != nil {
		n = e.clone()
	}
	if old, ok := n.Z[a[2]]; ok {
		f = old + f
	}
	if math.IsNaN(f) {
		return s.wantErr("score is not a number")
	}
	n.Z[a[2]] = f
	if !s.isScore(s.r, f) {
		return s.bad("want score %v, got %s", f, s.r)
	}
	return s.db.with(a[0], n), ""
}

func (s *step) z(k string) (map[string]float64, bool) {
	e, wrong := s.typed(k, "zset")
	if e == nil {
		return nil, wrong
	}
	return e.Z, wrong
}

func cZScore(s *step, a []string) (DB, string) {
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	f, ok := z[a[1]]
	if !ok {
		if s.r.IsNil() {
			return s.same()
		}
		return s.bad("want nil, got %s", s.r)
	}
	if s.isScore(s.r, f) {
		return s.same()
	}
	return s.bad("want score %v, got %s", f, s.r)
}

func cZCard(s *step, a []string) (DB, string) {
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	return s.wantInt(int64(len(z)), s.db)
}

func cZRank(s *step, a []string) (DB, string) {
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	if _, ok := z[a[1]]; !ok {
		if s.r.IsNil() {
			return s.same()
		}
		return s.bad("want nil, got %s", s.r)
	}
	for i, m := range ZOrder(z) {
		if m == a[1] {
			return s.wantInt(int64(i), s.db)
		}
	}
	return s.same()
}

func cZRem(s *step, a []string) (DB, string) {
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	if z == nil {
		return s.wantInt(0, s.db)
	}
	n := s.db[a[0]].clone()
	c := int64(0)
	for _, m := range a[1:] {
		if _, ok := n.Z[m]; ok {
			delete(n.Z, m)
			c++
		}
	}
	return s.wantInt(c, s.db.with(a[0], n))
}

type bound struct {
	f    float64
	open bool
}

func parseBound(t string) (bound, bool) {
	var b bound
	if strings.HasPrefix(t, "(") {
		b.open = true
		t = t[1:]
	}
	f, ok := floatArg(t)
	b.f = f
	return b, ok
}

func inInterval(f float64, lo, hi bound) bool {
	if f < lo.f || lo.open && f == lo.f {
		return false
	}
	if f > hi.f || hi.open && f == hi.f {
		return false
	}
	return true
}

func (s *step) byScore(z map[string]float64, lo, hi bound) []string {
	var o []string
	for _, m := range ZOrder(z) {
		if inInterval(z[m], lo, hi) {
			o = append(o, m)
		}
	}
	return o
}

func cZCount(s *step, a []string) (DB, string) {
	lo, ok1 := parseBound(a[1])
	hi, ok2 := parseBound(a[2])
	if !ok1 || !ok2 {
		return s.wantErr("bound is not a number")
	}
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	return s.wantInt(int64(len(s.byScore(z, lo, hi))), s.db)
}

// zarr checks members (and scores) in order.
func (s *step) zarr(ms []string, z map[string]float64, ws bool, next DB) (DB, string) {
	if len(ms) == 0 {
		return s.wantArr(nil, next)
	}
	if !ws {
		return s.wantArr(ms, next)
	}
	if s.r.Kind != '*' || s.r.Nil || len(s.r.Arr) != 2*len(ms) {
		return s.bad("want %d members with scores %q, got %s", len(ms), ms, s.r)
	}
	for i, m := range ms {
		if !s.r.Arr[2*i].IsBulk(m) || !s.isScore(s.r.Arr[2*i+1], z[m]) {
			return s.bad("want %q with scores, got %s", ms, s.r)
		}
	}
	return next, ""
}

func zopts(a []string) (ws, bs, other bool) {
	for _, o := range a {
		switch strings.ToLower(o) {
		case "withscores":
			ws = true
		case "byscore":
			bs = true
		default:
			other = true
		}
	}
	return
}

func cZRange(s *step, a []string) (DB, string) {
	ws, bs, other := zopts(a[3:])
	if other && s.r.IsErr() {
		return s.same()
	}
	if bs {
		lo, ok1 := parseBound(a[1])
		hi, ok2 := parseBound(a[2])
		if !ok1 || !ok2 {
			return s.wantErr("bound is not a number")
		}
		z, wrong := s.z(a[0])
		if wrong {
			return s.wantErr("wrong type")
		}
		return s.zarr(s.byScore(z, lo, hi), z, ws, s.db)
	}
	return s.zindex(a, ws, false)
}

func (s *step) zindex(a []string, ws, rev bool) (DB, string) {
	x, y, bad, odd := s.twoInts(a[1], a[2])
	if bad {
		return s.wantErr("index is not an integer")
	}
	if odd && s.r.IsErr() {
		return s.same()
	}
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	o := ZOrder(z)
	if rev {
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
	lo, hi, ok := span(x, y, len(o))
	if !ok {
		return s.wantArr(nil, s.db)
	}
	return s.zarr(o[lo:hi+1], z, ws, s.db)
}

func cZRevRange(s *step, a []string) (DB, string) {
	ws, bs, other := zopts(a[3:])
	if (other || bs) && s.r.IsErr() {
		return s.same()
	}
	return s.zindex(a, ws, true)
}

func cZRangeByScore(s *step, a []string) (DB, string) {
	ws, bs, other := zopts(a[3:])
	if (other || bs || ws) && s.r.IsErr() {
		return s.same()
	}
	lo, ok1 := parseBound(a[1])
	hi, ok2 := parseBound(a[2])
	if !ok1 || !ok2 {
		return s.wantErr("bound is not a number")
	}
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	ms := s.byScore(z, lo, hi)
	if ws && len(ms) > 0 {
		if d, why := s.wantArr(ms, s.db); why == "" {
			return d, ""
		}
	}
	return s.zarr(ms, z, ws, s.db)
}

func (s *step) zpop(a []string, max bool) (DB, string) {
	cnt := int64(1)
	if len(a) > 2 && s.r.IsErr() {
		return s.same()
	}
	if len(a) > 1 {
		n, q := intArg(a[1])
		if q == 0 {
			return s.wantErr("count is not an integer")
		}
		if (q == 1 || n <= 0) && s.r.IsErr() {
			return s.same()
		}
		cnt = n
	}
	z, wrong := s.z(a[0])
	if wrong {
		return s.wantErr("wrong type")
	}
	if z == nil || cnt <= 0 {
		return s.wantArr(nil, s.db)
	}
	o := ZOrder(z)
	if max {
		for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	}
	if cnt > int64(len(o)) {
		cnt = int64(len(o))
	}
	n := s.db[a[0]].clone()
	for _, m := range o[:cnt] {
		delete(n.Z, m)
	}
	return s.zarr(o[:cnt], z, true, s.db.with(a[0], n))
}
