package vsched

import "time"

// ExploreResult summarises an exploration.
type ExploreResult struct {
	Runs       uint64
	Steps      uint64
	Choices    uint64 // distinct decision nodes expanded
	Complete   bool   // every choice sequence within the bound was executed
	Bound      int
	MaxDepth   int
	Diverged   string
	LastPrefix []int
}

// Explore enumerates every choice sequence whose cost is at most bound, depth first, calling before before
// and one(run result) after every execution; one returns false to stop. main must build all state from scratch.
func Explore(cfg Config, bound int, deadline time.Time, before func(), main func(), one func(*Result) bool) ExploreResult {
	er := ExploreResult{Bound: bound}
	prefix := append([]int{}, cfg.Prefix...)
	fixed := len(prefix)
	for {
		c := cfg
		c.Prefix = prefix
		before()
		res := Run(c, main)
		er.Runs++
		er.Steps += uint64(res.Steps)
		if len(res.Trace) > er.MaxDepth {
			er.MaxDepth = len(res.Trace)
		}
		if res.Diverged == "" && len(res.Trace) < len(prefix) {
			res.Diverged = "run made fewer choices than its prefix"
		}
		if res.Diverged != "" {
			er.Diverged = res.Diverged
			er.LastPrefix = prefix
			return er
		}
		er.LastPrefix = prefix
		if !one(res) {
			return er
		}
		if !deadline.IsZero() && er.Runs%16 == 0 && time.Now().After(deadline) {
			return er
		}
		// next prefix
		tr := res.Trace
		costs := make([]int, len(tr)+1)
		for i, ch := range tr {
			costs[i+1] = costs[i] + int(ch.Costs[ch.Picked])
		}
		i := len(tr) - 1
		found := false
		for ; i >= fixed; i-- {
			for j := tr[i].Picked + 1; j < tr[i].N; j++ {
				if costs[i]+int(tr[i].Costs[j]) <= bound {
					np := make([]int, i+1)
					for k := 0; k < i; k++ {
						np[k] = tr[k].Picked
					}
					np[i] = j
					prefix = np
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			er.Complete = true
			return er
		}
		er.Choices++
	}
}

// Picks returns the choice list of a trace with trailing defaults trimmed.
func Picks(tr []Choice) []int {
	n := len(tr)
	for n > 0 && tr[n-1].Picked == 0 {
		n--
	}
	p := make([]int, n)
	for i := range p {
		p[i] = tr[i].Picked
	}
	return p
}
