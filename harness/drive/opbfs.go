package drive

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"time"

	"github.com/yusank/godis/zzverif/vsched"
)

// Sys is a system under exploration by OpBFS: an implementation object together with its reference.
type Sys interface {
	Roots() []any  // pointers to the variables that hold the implementation's state
	Canon() string // the reference's state
}

// Op is an operation on a Sys; it returns what is wrong with its outcome, or "".
type Op struct {
	Name string
	Do   func(s Sys) string
}

// OpBFS explores all sequences of operations breadth first, merging equal (implementation, reference) states.
type OpBFS struct {
	Name      string
	Fresh     func() Sys
	Ops       []Op
	MaxDepth  int
	MaxStates int
	Sched     vsched.Config
	Deadline  time.Time
}

type opNode struct {
	parent, op, depth int32
	picks             []int
}

// HashRoots digests what is reachable from the given pointers.
func HashRoots(rs []any) HeapHash {
	w := &walker{ids: make(map[uintptr]int, 64), roots: rs}
	for _, r := range rs {
		w.value(reflect.ValueOf(r).Elem())
	}
	return HeapHash{w.a, w.b}
}

func sysKey(s Sys) stateKey {
	h := HashRoots(s.Roots())
	f := fnv.New64a()
	f.Write([]byte(s.Canon()))
	return stateKey{h[0], h[1], f.Sum64()}
}

// Run explores.
func (b *OpBFS) Run() Report {
	start := time.Now()
	rep := Report{Config: b.Name, Exhaustive: true}
	cfg := b.Sched
	cfg.NoSched = true
	nodes := []opNode{{}}
	index := map[stateKey]bool{}
	res := vsched.Run(cfg, func() { index[sysKey(b.Fresh())] = true })
	if why := ResultWhy(res, "", nil); why != "" {
		rep.Violation = &Violation{Config: b.Name, Why: why}
		return rep
	}
	rep.States, rep.Runs = 1, 1
	for ni := 0; ni < len(nodes) && rep.Violation == nil && rep.EngineError == ""; ni++ {
		if !b.Deadline.IsZero() && time.Now().After(b.Deadline) {
			rep.Exhaustive, rep.Note = false, "time budget reached"
			break
		}
		n := nodes[ni]
		if int(n.depth) > rep.Depth {
			rep.Depth = int(n.depth)
		}
		if b.MaxDepth > 0 && int(n.depth) >= b.MaxDepth {
			continue
		}
		var ops []int
		var base []int
		for j := int32(ni); j > 0; j = nodes[j].parent {
			ops = append(ops, int(nodes[j].op))
		}
		for i, j := 0, len(ops)-1; i < j; i, j = i+1, j-1 {
			ops[i], ops[j] = ops[j], ops[i]
		}
		{
			var chain []int32
			for j := int32(ni); j > 0; j = nodes[j].parent {
				chain = append(chain, j)
			}
			for i := len(chain) - 1; i >= 0; i-- {
				base = append(base, nodes[chain[i]].picks...)
			}
		}
		for oi := range b.Ops {
			prefix := append([]int{}, base...)
			for {
				c := cfg
				c.Prefix = prefix
				why := ""
				var key stateKey
				done := false
				replayed := -1
				at := ""
				res := vsched.Run(c, func() {
					s := b.Fresh()
					for _, o := range ops {
						at = b.Ops[o].Name
						vsched.ResetBudget()
						if why = b.Ops[o].Do(s); why != "" {
							return
						}
					}
					replayed = vsched.TraceLen()
					at = b.Ops[oi].Name
					vsched.ResetBudget()
					if why = b.Ops[oi].Do(s); why != "" {
						return
					}
					key = sysKey(s)
					done = true
				})
				rep.Runs++
				rep.Transitions++
				rep.Steps += uint64(res.Steps)
				if w := ResultWhy(res, why, []string{at}); w != "" {
					v := &Violation{Config: b.Name, Picks: vsched.Picks(res.Trace), Why: w}
					for _, o := range ops {
						v.Cmds = append(v.Cmds, []string{b.Ops[o].Name})
					}
					v.Cmds = append(v.Cmds, []string{b.Ops[oi].Name})
					rep.Violation = v
					break
				}
				if !done || replayed != len(base) {
					rep.EngineError = fmt.Sprintf("replay of %v diverged (%d choices, not %d) %s", ops, replayed, len(base), res.Diverged)
					break
				}
				if !index[key] {
					if b.MaxStates > 0 && len(nodes) >= b.MaxStates {
						rep.Exhaustive, rep.Note = false, "state budget reached"
					} else {
						index[key] = true
						var p []int
						for _, ch := range res.Trace[replayed:] {
							p = append(p, ch.Picked)
						}
						nodes = append(nodes, opNode{int32(ni), int32(oi), n.depth + 1, p})
						rep.States++
					}
				}
				// next alternative of this operation's choices
				tr := res.Trace
				i := len(tr) - 1
				for ; i >= len(base); i-- {
					if tr[i].Picked+1 < tr[i].N {
						break
					}
				}
				if i < len(base) {
					break
				}
				prefix = prefix[:0]
				for k := 0; k < i; k++ {
					prefix = append(prefix, tr[k].Picked)
				}
				prefix = append(prefix, tr[i].Picked+1)
			}
			if rep.Violation != nil || rep.EngineError != "" {
				break
			}
		}
	}
	for i := 0; i < len(nodes) && len(rep.Samples) < 3; i += 1 + len(nodes)/3 {
		s := ""
		for j := int32(i); j > 0; j = nodes[j].parent {
			s = b.Ops[nodes[j].op].Name + "; " + s
		}
		rep.Samples = append(rep.Samples, "["+s+"]")
	}
	rep.Seconds = time.Since(start).Seconds()
	return rep
}

// Replay re-executes a recorded violation.
func (b *OpBFS) Replay(v *Violation) (string, []string) {
	cfg := b.Sched
	cfg.NoSched = true
	cfg.Prefix = v.Picks
	why, at := "", ""
	var log []string
	res := vsched.Run(cfg, func() {
		s := b.Fresh()
		for _, c := range v.Cmds {
			at = c[0]
			vsched.ResetBudget()
			found := false
			for _, o := range b.Ops {
				if o.Name == c[0] {
					found = true
					why = o.Do(s)
				}
			}
			if !found {
				why = "no operation " + c[0]
			}
			log = append(log, fmt.Sprintf("%s -> %q, reference now %s", c[0], why, s.Canon()))
			if why != "" {
				return
			}
		}
	})
	return ResultWhy(res, why, []string{at}), log
}
