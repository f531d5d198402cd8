package suites

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/registry"
	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vsched"
)

// scen is one scenario whose every schedule within a bound is executed. start is called before each
// execution and returns its body and what decides it afterwards.
type scen struct {
	name  string
	cfg   vsched.Config
	bound int
	start func() (main func(), judge func(res *vsched.Result) (why, outcome string))
}

// schedules registers a configuration made of scenarios.
type schedules struct {
	prop, name, suite string
	bound             tieredText
	thorough          bool
	scens             func(tier string) []scen
	part, parts       int
}

func (c schedules) all(tier string) (l []scen) {
	for i, s := range c.scens(tier) {
		if c.parts == 0 || i%c.parts == c.part {
			l = append(l, s)
		}
	}
	return
}

func (c schedules) run(tier string, dl time.Time) drive.Report {
	start := time.Now()
	rep := drive.Report{Suite: c.suite, Bound: c.bound.of(tier), Exhaustive: true}
	all := c.all(tier)
	outcomes := map[string]bool{}
	done := 0
	for i, sc := range all {
		var judge func(res *vsched.Result) (string, string)
		var body func()
		var v *drive.Violation
		ex := vsched.Explore(sc.cfg, sc.bound, dl, func() { body, judge = sc.start() }, func() { body() }, func(res *vsched.Result) bool {
			why, out := judge(res)
			if why == "" {
				outcomes[sc.name+"|"+out] = true
				if len(rep.Samples) < 3 && len(res.Trace) > 3 {
					rep.Samples = append(rep.Samples, fmt.Sprintf("%s picks=%v outcome=%s", sc.name, vsched.Picks(res.Trace), out))
				}
				return true
			}
			v = &drive.Violation{Config: c.name, Param: sc.name, Picks: vsched.Picks(res.Trace), Why: sc.name + ": " + why}
			return false
		})
		rep.Runs += ex.Runs
		rep.Steps += ex.Steps
		rep.Transitions += ex.Choices + 1
		if ex.MaxDepth > rep.Depth {
			rep.Depth = ex.MaxDepth
		}
		if ex.Diverged != "" {
			rep.EngineError = fmt.Sprintf("%s: replaying a prefix diverged: %s", sc.name, ex.Diverged)
			break
		}
		if v != nil {
			rep.Violation = v
			break
		}
		if !ex.Complete {
			rep.Exhaustive = false
			rep.Note = fmt.Sprintf("time budget reached in scenario %d of %d (%s)", i+1, len(all), sc.name)
			break
		}
		done++
	}
	rep.States = uint64(len(outcomes))
	if rep.Note == "" {
		rep.Note = fmt.Sprintf("%d scenarios, every schedule within the bound", done)
	}
	rep.Seconds = time.Since(start).Seconds()
	return rep
}

func (c schedules) register() {
	name := c.name
	if c.parts > 0 {
		name = fmt.Sprintf("%s/%d", c.name, c.part)
	}
	c.name = name
	All = append(All, Config{Prop: c.prop, Name: name, Thorough: c.thorough,
		Run: c.run,
		Replay: func(v *drive.Violation) (string, []string) {
			for _, tier := range []string{"quick", "thorough"} {
				for _, sc := range c.all(tier) {
					if sc.name != v.Param {
						continue
					}
					body, judge := sc.start()
					cfg := sc.cfg
					cfg.Prefix, cfg.KeepLog = v.Picks, true
					res := vsched.Run(cfg, body)
					why, _ := judge(res)
					return why, res.Log
				}
			}
			return "", []string{"scenario " + v.Param + " not found"}
		}})
}

func (c schedules) shards(n int) {
	for i := 0; i < n; i++ {
		d := c
		d.part, d.parts = i, n
		d.register()
	}
}

// pkgFilter selects statement points by package path suffix.
func pkgFilter(suffixes ...string) func(int) bool {
	ok := make([]bool, len(registry.Sites))
	for i, s := range registry.Sites {
		for _, x := range suffixes {
			if strings.HasSuffix(s.Pkg, x) {
				ok[i] = true
			}
		}
	}
	return func(i int) bool { return i < len(ok) && ok[i] }
}

// call is one request of a client and what became of it.
type call struct {
	args     []string
	client   int
	seq      int // position in its client's list
	inv, ret int // stamps; ret 0: never returned
	invT     int64
	retT     int64
	val      resp.Value
	raw      string
	bad      string
	optional []resp.Value // the command may have had no effect, or produced any of these replies unseen
	strict   bool         // takes effect only after every earlier request of its client
	refused  bool         // answered by an error because of a stop
	lost     bool         // its reply was not delivered (timeout, refusal)
}

// history collects the calls of one execution.
type history struct {
	clock int
	calls []*call
}

func (h *history) tick() int { h.clock++; return h.clock }

// do issues one request through f and records it.
func (h *history) do(client, seq int, args []string, f func() []byte) *call {
	c := &call{args: args, client: client, seq: seq, invT: vsched.NowNs()}
	h.calls = append(h.calls, c)
	c.inv = h.tick()
	b := f()
	c.ret = h.tick()
	c.retT = vsched.NowNs()
	c.raw = string(b)
	v, err := resp.One(b)
	if err != nil {
		c.bad = fmt.Sprintf("%q of client %d: reply %q is not one reply: %v", args, client, clipText(b), err)
	}
	c.val = v
	vsched.Logf("client %d: %q -> %s", client, args, v)
	return c
}

// sig identifies what was observed: replies and the precedence between calls.
func (h *history) sig() string {
	var b strings.Builder
	for _, c := range h.calls {
		n := 0
		for _, d := range h.calls {
			if d.ret != 0 && d.ret < c.inv {
				n |= 1 << (uint(d.client)*5 + uint(d.seq))
			}
		}
		fmt.Fprintf(&b, "%d.%d=%s@%x;", c.client, c.seq, strings.ReplaceAll(c.raw, "\r\n", "~"), n)
	}
	return b.String()
}

// outcome is sig without the order of the list.
func (h *history) replies() string {
	var l []string
	for _, c := range h.calls {
		l = append(l, fmt.Sprintf("%d.%d=%s", c.client, c.seq, strings.ReplaceAll(c.raw, "\r\n", "~")))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// explain searches an order of the calls that respects precedence and client order, in which every reply is
// right, and which ends in a state that answers the final inspection; "" if there is one.
func explain(db model.DB, calls []*call, final []*call) string {
	type key struct {
		mask uint64
		db   string
	}
	seen := map[key]bool{}
	best, bestWhy := -1, ""
	note := func(n int, why string) {
		if n > best {
			best, bestWhy = n, why
		}
	}
	var rec func(mask uint64, n int, db model.DB) bool
	rec = func(mask uint64, n int, db model.DB) bool {
		k := key{mask, db.Canon()}
		if seen[k] {
			return false
		}
		seen[k] = true
		rest := false
		for i, c := range calls {
			if mask&(1<<i) != 0 {
				continue
			}
			if !c.lost {
				rest = true
			}
			// another call that had returned before this one was issued must come first
			ok := true
			for j, d := range calls {
				if mask&(1<<j) == 0 && j != i && d.ret != 0 && d.ret < c.inv && !d.lost {
					ok = false
				}
				if c.strict && mask&(1<<j) == 0 && d.client == c.client && d.seq < c.seq {
					ok = false
				}
			}
			if !ok {
				continue
			}
			if c.lost {
				for _, v := range c.optional {
					if next, why := db.Step(c.args, v); why == "" && rec(mask|1<<i, n+1, next) {
						return true
					}
				}
				continue
			}
			next, why := db.Step(c.args, c.val)
			if why != "" {
				note(n, fmt.Sprintf("%q cannot be answered %s here: %s", c.args, c.val, why))
				continue
			}
			if rec(mask|1<<i, n+1, next) {
				return true
			}
		}
		if rest {
			return false
		}
		// everything answered is placed: the rest had no effect
		for _, f := range final {
			next, why := db.Step(f.args, f.val)
			if why != "" {
				note(1000, fmt.Sprintf("final state: %q answers %s: %s", f.args, f.val, why))
				return false
			}
			db = next
		}
		return true
	}
	if rec(0, 0, db) {
		return ""
	}
	var l []string
	for _, c := range calls {
		l = append(l, fmt.Sprintf("client %d %q -> %s", c.client, c.args, c.val))
	}
	return fmt.Sprintf("no one-at-a-time order explains %s (closest: %s)", strings.Join(l, "; "), bestWhy)
}

// blockedWhy reports a client or main goroutine that never finished.
func blockedWhy(res *vsched.Result, why string) string {
	if w := drive.ResultWhy(res, why, nil); w != "" {
		return w
	}
	for _, b := range res.Blocked {
		if b.Role != "" {
			return fmt.Sprintf("%s never finishes (waiting: %s)", b.G, b.Op)
		}
	}
	return ""
}
