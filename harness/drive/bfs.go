package drive

import (
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vsched"
)

// Violation is one failing execution.
type Violation struct {
	Property string     `json:"property"`
	Suite    string     `json:"suite"`
	Config   string     `json:"config"`
	Cmds     [][]string `json:"cmds,omitempty"`
	Picks    []int      `json:"picks"`
	Why      string     `json:"why"`
	Log      []string   `json:"log,omitempty"`
	Param    string     `json:"param,omitempty"`
}

// Report is what one configuration covered.
type Report struct {
	Suite       string     `json:"suite"`
	Config      string     `json:"config"`
	States      uint64     `json:"states"`
	Transitions uint64     `json:"transitions"`
	Runs        uint64     `json:"runs"`
	Steps       uint64     `json:"steps"`
	Depth       int        `json:"depth"`
	Exhaustive  bool       `json:"exhaustive"`
	Bound       string     `json:"bound"`
	Note        string     `json:"note,omitempty"`
	Violation   *Violation `json:"violation,omitempty"`
	Known       []string   `json:"known,omitempty"`
	EngineError string     `json:"engine_error,omitempty"`
	Samples     []string   `json:"samples,omitempty"`
	Seconds     float64    `json:"seconds"`
}

// BFS explores command histories breadth first. A state is the pair (digest of the implementation's whole
// heap, abstract state of the model); every command of the alphabet is executed in every reached state and
// its reply judged by the model; the frontier is followed until no new state appears or a bound is met.
type BFS struct {
	Name      string
	Setup     [][]string
	Ops       [][]string
	Probes    func(db model.DB) [][]string
	Sched     vsched.Config
	MaxDepth  int
	MaxStates int
	Guard     func(db model.DB) bool // states for which it is false are checked by probes but not extended
	Judge     func(db model.DB, args []string, v resp.Value) (model.DB, string)
	Deadline  time.Time
}

type node struct {
	parent int32
	op     int32
	depth  int32
	leaf   bool
	picks  []int // choices made by the last command
	db     model.DB
	h      HeapHash
}

type cand struct {
	args []string
	op   int32 // index of the operation, -1 for a probe
}

// readOnly commands never change the abstract state.
var readOnly = map[string]bool{"get": true, "mget": true, "exists": true, "type": true, "keys": true, "llen": true, "lrange": true, "lindex": true, "hget": true, "hmget": true, "hgetall": true, "hkeys": true, "hvals": true, "hlen": true, "hexists": true, "sismember": true, "scard": true, "smembers": true, "sdiff": true, "sinter": true, "sunion": true, "zscore": true, "zcard": true, "zrank": true, "zcount": true, "zrange": true, "zrevrange": true, "zrangebyscore": true, "ping": true, "command": true}

type stateKey struct{ a, b, m uint64 }

func keyOf(h HeapHash, db model.DB) stateKey {
	f := fnv.New64a()
	f.Write([]byte(db.Canon()))
	return stateKey{h[0], h[1], f.Sum64()}
}

func (b *BFS) path(nodes []node, i int32) (cmds [][]string, picks []int) {
	var ids []int32
	for j := i; j > 0; j = nodes[j].parent {
		ids = append(ids, j)
	}
	picks = append(picks, nodes[0].picks...)
	cmds = append(cmds, b.Setup...)
	for k := len(ids) - 1; k >= 0; k-- {
		n := nodes[ids[k]]
		cmds = append(cmds, b.Ops[n.op])
		picks = append(picks, n.picks...)
	}
	return
}

// Run explores.
func (b *BFS) Run() Report {
	start := time.Now()
	rep := Report{Config: b.Name, Exhaustive: true}
	if b.Judge == nil {
		b.Judge = func(db model.DB, a []string, v resp.Value) (model.DB, string) { return db.Step(a, v) }
	}
	cfg := b.Sched
	cfg.NoSched = true
	vio := func(cmds [][]string, picks []int, why string) {
		if rep.Violation == nil {
			rep.Violation = &Violation{Config: b.Name, Cmds: append([][]string{}, cmds...), Picks: trim(picks), Why: why}
		}
	}
	var nodes []node
	index := map[stateKey]int32{}
	// initial state
	var root node
	runWhy := ""
	var cur []string
	res := vsched.Run(cfg, func() {
		Reset()
		db := model.DB{}
		for _, c := range b.Setup {
			vsched.ResetBudget()
			cur = c
			v, err := Do(c)
			if err == nil {
				var why string
				db, why = b.Judge(db, c, v)
				if why != "" {
					err = fmt.Errorf("%s", why)
				}
			}
			if err != nil {
				runWhy = fmt.Sprintf("setup %q: %v", c, err)
				return
			}
		}
		root.db = db
		root.h = Hash()
	})
	rep.Runs++
	if why := ResultWhy(res, runWhy, cur); why != "" {
		vio(b.Setup, vsched.Picks(res.Trace), why)
		return rep
	}
	for _, ch := range res.Trace {
		root.picks = append(root.picks, ch.Picked)
	}
	nodes = append(nodes, root)
	index[keyOf(root.h, root.db)] = 0
	rep.States = 1

	type alt struct {
		op    int // index into the node's op list
		picks []int
	}
	for ni := int32(0); int(ni) < len(nodes); ni++ {
		if rep.Violation != nil || rep.EngineError != "" {
			break
		}
		if !b.Deadline.IsZero() && time.Now().After(b.Deadline) {
			rep.Exhaustive = false
			rep.Note = "time budget reached"
			break
		}
		n := nodes[ni]
		if int(n.depth) > rep.Depth {
			rep.Depth = int(n.depth)
		}
		cmds, base := b.path(nodes, ni)
		// readers first: they are run back to back and the heap is compared once after all of them
		var ops []cand
		if !n.leaf {
			for i, o := range b.Ops {
				if readOnly[strings.ToLower(o[0])] {
					ops = append(ops, cand{o, int32(i)})
				}
			}
		}
		if b.Probes != nil {
			for _, o := range b.Probes(n.db) {
				ops = append(ops, cand{o, -1})
			}
		}
		readers := len(ops)
		if !n.leaf {
			for i, o := range b.Ops {
				if !readOnly[strings.ToLower(o[0])] {
					ops = append(ops, cand{o, int32(i)})
				}
			}
		}
		nextOp := 0
		var alts []alt
		careful := false // compare the heap after every command
		for nextOp < len(ops) || len(alts) > 0 {
			var single *alt
			if len(alts) > 0 {
				single = &alts[len(alts)-1]
				alts = alts[:len(alts)-1]
			}
			c := cfg
			c.Prefix = append([]int{}, base...)
			if single != nil {
				c.Prefix = append(c.Prefix, single.picks...)
			}
			var why string
			var at []string
			engine := ""
			replayed := false
			var ran [][]string // commands of this run since the node that are part of a failing history
			res := vsched.Run(c, func() {
				Reset()
				for _, cm := range cmds {
					vsched.ResetBudget()
					Exec(cm)
				}
				if rep.Runs%8 == 0 && Hash() != n.h {
					engine = "replaying the history gave another heap"
					return
				}
				if vsched.TraceLen() != len(base) {
					engine = fmt.Sprintf("replaying the history made %d choices, not %d", vsched.TraceLen(), len(base))
					return
				}
				replayed = true
				i := nextOp
				if single != nil {
					i = single.op
				}
				for ; i < len(ops); i++ {
					traceStart := vsched.TraceLen()
					at = ops[i].args
					ran = append(ran, at)
					vsched.ResetBudget()
					v, err := Do(at)
					rep.Transitions++
					if err != nil {
						why = err.Error()
						return
					}
					db2, w := b.Judge(n.db, at, v)
					if w != "" {
						why = fmt.Sprintf("%q: %s", at, w)
						return
					}
					picked, ns, _ := vsched.TraceFrom(traceStart)
					// alternatives of this command's choices not yet scheduled
					lo := 0
					if single != nil {
						lo = len(single.picks)
					}
					for j := len(picked) - 1; j >= lo; j-- {
						for o := picked[j] + 1; o < ns[j]; o++ {
							alts = append(alts, alt{i, append(append([]int{}, picked[:j]...), o)})
						}
					}
					batch := i < readers && single == nil && !careful && same(db2, n.db)
					if batch && i < readers-1 {
						nextOp = i + 1
						continue
					}
					h := Hash()
					if batch && h != n.h {
						careful = true
						nextOp = 0
						return
					}
					changed := h != n.h || !same(db2, n.db)
					if op := ops[i].op; changed && op >= 0 { // what a probe changes is not followed
						k := keyOf(h, db2)
						if _, ok := index[k]; !ok {
							if b.MaxStates > 0 && len(nodes) >= b.MaxStates {
								rep.Exhaustive = false
								rep.Note = "state budget reached"
							} else {
								leaf := b.Guard != nil && !b.Guard(db2) || b.MaxDepth > 0 && int(n.depth)+1 >= b.MaxDepth
								index[k] = int32(len(nodes))
								nodes = append(nodes, node{parent: ni, op: op, depth: n.depth + 1, leaf: leaf, picks: picked, db: db2, h: h})
								rep.States++
							}
						}
					}
					if single != nil {
						return
					}
					nextOp = i + 1
					if changed || len(picked) > 0 {
						return
					}
				}
			})
			rep.Runs++
			rep.Steps += uint64(res.Steps)
			if engine != "" {
				rep.EngineError = fmt.Sprintf("%s after %q", engine, cmds)
				break
			}
			if !replayed && res.Crash == nil && res.Livelock == "" {
				rep.EngineError = fmt.Sprintf("replay did not finish: %q %+v %+v", cmds, res.Diverged, res.Blocked)
				break
			}
			if w := ResultWhy(res, why, at); w != "" {
				vio(append(append([][]string{}, cmds...), ran...), vsched.Picks(res.Trace), w)
				break
			}
		}
		nodes[ni].db = nil
	}
	for i := 0; i < len(nodes) && len(rep.Samples) < 3; i += 1 + len(nodes)/3 {
		c, _ := b.path(nodes, int32(i))
		rep.Samples = append(rep.Samples, fmt.Sprintf("%q", c))
	}
	rep.Seconds = time.Since(start).Seconds()
	return rep
}

func same(a, b model.DB) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return a.Canon() == b.Canon()
		}
	}
	return true
}

func trim(p []int) []int {
	n := len(p)
	for n > 0 && p[n-1] == 0 {
		n--
	}
	return append([]int{}, p[:n]...)
}

// resultWhy turns a run's ending into a reason, or "".
// ResultWhy tells what is wrong with an execution, if anything.
func ResultWhy(res *vsched.Result, why string, at []string) string {
	switch {
	case res.Crash != nil:
		return fmt.Sprintf("%q: panic in %s: %s", at, res.Crash.G, res.Crash.Value)
	case res.Livelock != "":
		return fmt.Sprintf("%q does not terminate: %s", at, res.Livelock)
	case len(res.TaskPanics) > 0:
		return fmt.Sprintf("%q: task panic: %s", at, res.TaskPanics[0])
	case why != "":
		return why
	}
	for _, b := range res.Blocked {
		if b.Role == "main" {
			return fmt.Sprintf("%q never returns (blocked: %s)", at, b.Op)
		}
	}
	return ""
}

// Replay executes a recorded command history against the model and returns the first disagreement.
func Replay(v *Violation, sched vsched.Config) (string, []string) {
	cfg := sched
	cfg.NoSched = true
	cfg.Prefix = v.Picks
	why := ""
	var at []string
	var log []string
	res := vsched.Run(cfg, func() {
		Reset()
		db := model.DB{}
		for i, c := range v.Cmds {
			at = c
			vsched.ResetBudget()
			r, err := Do(c)
			if err != nil {
				why = err.Error()
				return
			}
			d, w := db.Step(c, r)
			log = append(log, fmt.Sprintf("%d %q -> %s", i, c, r))
			if w != "" {
				why = fmt.Sprintf("%q: %s", c, w)
				return
			}
			db = d
		}
	})
	return ResultWhy(res, why, at), log
}
