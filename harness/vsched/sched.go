// Package vsched is a cooperative, fully controlled scheduler for instrumented Go code.
// Exactly one goroutine of a run executes at any time; every synchronisation operation is announced
// with an enabledness predicate before it takes effect, and which announced operation takes effect
// next is a choice of the explorer.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
)

// G is one controlled goroutine.
type G struct {
	ID      int
	Name    string
	wake    chan struct{}
	op      *op
	dying   bool
	ended   bool
	Role    string // "" for goroutines started by the code under test, else set by the harness
	parent  int
	yielded bool
}

type op struct {
	what      string
	enabled   func() bool // nil: always enabled
	completed bool        // a partner already performed it
	res       any         // object it acts on (for reporting)
	sel       int
	// rendezvous data
	val any
	ok  bool
}

// Crash is a panic that escaped a goroutine (the real process would have died).
type Crash struct {
	G     string
	Value string
	Stack string
}

// Blocked describes a goroutine left waiting when the run became quiescent.
type Blocked struct {
	G, Role, Op string
}

// Result of one run.
type Result struct {
	Crash      *Crash
	Livelock   string
	TaskPanics []string
	Blocked    []Blocked
	Steps      int
	PCount     int
	Diverged   string
	Trace      []Choice
	Log        []string
	Aborted    string
}

// Choice is one resolved nondeterministic choice.
type Choice struct {
	N      int
	Picked int
	Kind   string
	Costs  []uint8
}

// Config of a run.
type Config struct {
	Prefix     []int
	MaxSteps   int  // scheduling steps before the run is declared a livelock
	MaxP       int  // statements before the run is declared non-terminating
	Stmt       bool // statements are scheduling points
	StmtFilter func(site int) bool
	Delay      bool // delay bounding: only the default choice is free at blocking points
	EarlyTimer bool // timers may fire at any point (cost 1)
	TimerFree  bool
	KeepLog    bool
	MapOrder   bool // map iteration order is a choice
	RandLow    int  // how many consecutive "low" random draws are offered
	RandCost   uint8
	NoSched    bool // goroutine choices are not branched (sequential runs)
	SelectCost uint8
}

type sched struct {
	cfg      Config
	gs       []*G
	cur      *G
	nextID   int
	trace    []Choice
	cost     int
	steps    int
	pcount   int
	chans    map[any]*chanState
	timers   []*timer
	timerSeq int
	now      int64
	crash    *Crash
	livelock string
	diverged string
	aborted  string
	panics   []string
	log      []string
	fin      chan struct{}
	exited   chan struct{}
	finished bool
	ending   bool
	randLow  int
	randN    int
	sites    map[int]struct{}
	quiet    bool
}

var s *sched

// Active reports whether a run is in progress.
func Active() bool { return s != nil && !s.ending }

// SiteHits counts executed statement sites over the whole process.
var SiteHits []uint32

// Stats over the process.
var TotalRuns, TotalSteps, TotalChoices uint64

// Run executes main under the scheduler until everything is quiescent.
func Run(cfg Config, main func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.MaxP == 0 {
		cfg.MaxP = 2000000
	}
	if s != nil {
		panic("vsched: nested run")
	}
	r := &sched{cfg: cfg, chans: map[any]*chanState{}, fin: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	s = r
	g := newG("main", main)
	g.Role = "main"
	s.cur = g
	g.op = nil
	g.wake <- struct{}{}
	<-r.fin
	// quiescent or aborted: collect, then end what is left
	res := &Result{Crash: r.crash, Livelock: r.livelock, TaskPanics: r.panics, Steps: r.steps, PCount: r.pcount, Diverged: r.diverged, Trace: r.trace, Log: r.log, Aborted: r.aborted}
	for _, g := range r.gs {
		if !g.ended {
			w := "?"
			if g.op != nil {
				w = g.op.what
			}
			res.Blocked = append(res.Blocked, Blocked{g.Name, g.Role, w})
		}
	}
	r.ending = true
	for i := 0; i < len(r.gs); i++ {
		g := r.gs[i]
		if g.ended {
			continue
		}
		g.dying = true
		r.cur = g
		g.wake <- struct{}{}
		<-r.exited
	}
	s = nil
	TotalRuns++
	TotalSteps += uint64(res.Steps)
	TotalChoices += uint64(len(res.Trace))
	return res
}

func newG(name string, f func()) *G {
	r := s
	g := &G{ID: r.nextID, wake: make(chan struct{}, 1)}
	if name == "" {
		name = fmt.Sprintf("g%d", r.nextID)
	}
	g.Name = name
	if r.cur != nil {
		g.parent = r.cur.ID
	}
	g.op = &op{what: "start"}
	r.nextID++
	r.gs = append(r.gs, g)
	go func() {
		<-g.wake
		normal := false
		defer func() {
			if !normal && !g.dying {
				if v := recover(); v != nil {
					if r.crash == nil && r.livelock == "" {
						r.crash = &Crash{G: g.Name, Value: fmt.Sprint(v), Stack: trimStack(debug.Stack())}
					}
					g.ended = true
					r.finish()
					return
				}
				// runtime.Goexit by the code itself
			} else if !normal {
				recover()
			}
			g.ended = true
			if g.dying {
				r.exited <- struct{}{}
				return
			}
			r.dispatchNext()
		}()
		if g.dying {
			return
		}
		g.op = nil
		f()
		normal = true
	}()
	return g
}

func trimStack(b []byte) string {
	if len(b) > 6000 {
		b = b[:6000]
	}
	return string(b)
}

func (r *sched) finish() {
	if !r.finished {
		r.finished = true
		r.fin <- struct{}{}
	}
}

// dispatchNext hands control to the next goroutine (the caller is ending).
func (r *sched) dispatchNext() {
	if r.finished {
		return
	}
	n := r.pick(nil)
	if n == nil {
		r.finish()
		return
	}
	r.cur = n
	n.wake <- struct{}{}
}

func (r *sched) opEnabled(g *G) bool {
	if g.ended || g.op == nil {
		return false
	}
	if g.op.completed || g.op.enabled == nil {
		return true
	}
	return g.op.enabled()
}

// pick chooses the next goroutine to execute its announced operation; nil: quiescent.
func (r *sched) pick(cur *G) *G {
	for {
		if r.finished {
			return nil
		}
		r.steps++
		if r.steps > r.cfg.MaxSteps {
			r.livelock = fmt.Sprintf("more than %d scheduling steps", r.cfg.MaxSteps)
			return nil
		}
		var en []*G
		curEn := false
		if cur != nil && r.opEnabled(cur) && !cur.yielded {
			en = append(en, cur)
			curEn = true
		}
		start := 0
		if cur != nil {
			start = cur.ID + 1
		} else if r.cur != nil {
			start = r.cur.ID + 1
		}
		n := len(r.gs)
		for k := 0; k < n; k++ {
			g := r.gs[(start+k)%n]
			if g != cur && r.opEnabled(g) {
				en = append(en, g)
			}
		}
		if cur != nil && cur.yielded {
			if r.opEnabled(cur) {
				en = append(en, cur)
			}
			cur.yielded = false
		}
		early := r.cfg.EarlyTimer && len(r.timers) > 0 && len(en) > 0
		if len(en) == 0 {
			if len(r.timers) > 0 {
				r.fireTimer()
				continue
			}
			return nil
		}
		if r.cfg.NoSched || r.quiet {
			return en[0]
		}
		opts := len(en)
		if early {
			opts++
		}
		if opts == 1 {
			return en[0]
		}
		costs := make([]uint8, opts)
		for i := 1; i < opts; i++ {
			if curEn || r.cfg.Delay {
				costs[i] = 1
			}
		}
		if early && !r.cfg.TimerFree {
			costs[opts-1] = 1
		}
		c := r.choose(costs, "sched")
		if r.diverged != "" {
			return nil
		}
		if early && c == opts-1 {
			r.fireTimer()
			continue
		}
		return en[c]
	}
}

func (r *sched) choose(costs []uint8, kind string) int {
	if r.quiet {
		return 0
	}
	i := len(r.trace)
	p := 0
	if i < len(r.cfg.Prefix) {
		p = r.cfg.Prefix[i]
		if p >= len(costs) {
			r.diverged = fmt.Sprintf("choice %d (%s): prefix wants %d of %d", i, kind, p, len(costs))
			return 0
		}
	}
	r.trace = append(r.trace, Choice{N: len(costs), Picked: p, Kind: kind, Costs: costs})
	return p
}

var freeCosts [64]uint8

// Choose resolves an environment choice among n options.
func Choose(n int, kind string, cost uint8) int {
	r := s
	if r == nil || n <= 1 || r.ending {
		return 0
	}
	var costs []uint8
	if cost == 0 && n <= len(freeCosts) {
		costs = freeCosts[:n]
	} else {
		costs = make([]uint8, n)
		for i := 1; i < n; i++ {
			costs[i] = cost
		}
	}
	return r.choose(costs, kind)
}

// block announces o for the current goroutine and returns when the scheduler lets it take effect.
func (r *sched) block(o *op) {
	g := r.cur
	g.op = o
	n := r.pick(g)
	if n == g {
		if r.cfg.KeepLog {
			r.logf("%s: %s", g.Name, o.what)
		}
		g.op = nil
		return
	}
	if n == nil {
		r.finish()
	} else {
		r.cur = n
		n.wake <- struct{}{}
	}
	<-g.wake
	if g.dying {
		runtime.Goexit()
	}
	if r.cfg.KeepLog {
		r.logf("%s: %s", g.Name, o.what)
	}
	g.op = nil
}

func (r *sched) logf(f string, a ...any) {
	if len(r.log) < 4000 {
		r.log = append(r.log, fmt.Sprintf(f, a...))
	}
}

// Logf adds a line to the run's log.
func Logf(f string, a ...any) {
	if s != nil && s.cfg.KeepLog {
		s.logf(f, a...)
	}
}

// live returns the scheduler if the calling goroutine is under its control and not being ended.
func live() *sched {
	r := s
	if r == nil {
		return nil
	}
	if r.ending || r.cur == nil || r.cur.dying {
		return nil
	}
	return r
}

// Go starts f as a controlled goroutine. Outside a run it is dropped (package initialisation is re-run inside every run).
func Go(f func()) { GoNamed("", "", f) }

// GoNamed starts a harness goroutine.
func GoNamed(name, role string, f func()) *G {
	r := live()
	if r == nil {
		return nil
	}
	g := newG(name, f)
	g.Role = role
	if r.cfg.KeepLog {
		r.logf("%s: go %s", r.cur.Name, g.Name)
	}
	if !r.cfg.NoSched {
		r.block(&op{what: "after go"})
	}
	return g
}

// GoTask starts f like Go but a panic in it is recorded and swallowed (worker-pool semantics).
func GoTask(f func()) {
	r := live()
	if r == nil {
		return
	}
	Go(func() {
		defer func() {
			if r.cur.dying {
				return
			}
			if v := recover(); v != nil {
				r.panics = append(r.panics, fmt.Sprint(v)+"\n"+trimStack(debug.Stack()))
			}
		}()
		f()
	})
}

// Yield lets every other enabled goroutine run first.
func Yield() {
	r := live()
	if r == nil {
		return
	}
	r.cur.yielded = true
	r.block(&op{what: "yield"})
}

// Point is a plain scheduling point.
func Point(what string) {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: what})
}

// Await blocks until cond holds.
func Await(what string, cond func() bool) {
	r := live()
	if r == nil {
		return
	}
	r.block(&op{what: what, enabled: cond})
}

// Abort ends the run with a reason (harness use).
func Abort(why string) {
	r := live()
	if r == nil {
		return
	}
	r.aborted = why
	r.finish()
	<-r.cur.wake
	runtime.Goexit()
}

// CurName returns the name of the running goroutine.
func CurName() string {
	if s == nil || s.cur == nil {
		return ""
	}
	return s.cur.Name
}

// SetRole sets the role of the current goroutine.
func SetRole(role string) {
	if s != nil && s.cur != nil {
		s.cur.Role = role
	}
}

// Quiet reports whether no goroutine other than the caller is enabled.
func othersEnabled(r *sched) bool {
	for _, g := range r.gs {
		if g != r.cur && r.opEnabled(g) {
			return true
		}
	}
	return false
}

// Quiet turns branching off (set-up and inspection phases: the default choice is taken and not recorded) or on.
func Quiet(on bool) {
	if r := live(); r != nil {
		r.quiet = on
	}
}

// WaitingClients counts the harness's client goroutines that wait in an operation whose description contains text.
func WaitingClients(text string) (n int) {
	r := live()
	if r == nil {
		return 0
	}
	for _, g := range r.gs {
		if g != r.cur && g.Role == "client" && !g.ended && g.op != nil && !r.opEnabled(g) && strings.Contains(g.op.what, text) {
			n++
		}
	}
	return n
}

// Waiting tells what the goroutine of that name waits for, if it waits and cannot go on.
func Waiting(name string) (string, bool) {
	if r := live(); r != nil {
		for _, g := range r.gs {
			if g != r.cur && g.Name == name && !g.ended && g.op != nil && !r.opEnabled(g) {
				return g.op.what, true
			}
		}
	}
	return "", false
}

// Mark identifies the goroutines started so far.
func Mark() int {
	if s == nil {
		return 0
	}
	return s.nextID
}

// CodeGoroutines counts the goroutines of the code under test started since mark that have not ended.
func CodeGoroutines(mark int) (n int) {
	if r := live(); r != nil {
		for _, g := range r.gs {
			if !g.ended && g.Role == "" && g.ID >= mark {
				n++
			}
		}
	}
	return n
}

// AwaitQuiescence blocks the caller until nothing else can run (timers not considered).
func AwaitQuiescence() {
	r := live()
	if r == nil {
		return
	}
	me := r.cur
	r.block(&op{what: "await quiescence", enabled: func() bool {
		for _, g := range r.gs {
			if g != me && g.op != nil && g.op.what != "await quiescence" && r.opEnabled(g) {
				return false
			}
		}
		return true
	}})
}

// P is executed before every statement of instrumented code.
func P(site int) {
	if site < len(SiteHits) {
		SiteHits[site]++
	}
	r := s
	if r == nil {
		return
	}
	r.pcount++
	if r.pcount > r.cfg.MaxP {
		g := r.cur
		if g == nil {
			return
		}
		if g.dying {
			if r.pcount > r.cfg.MaxP+100000 {
				r.pcount = r.cfg.MaxP
				runtime.Goexit()
			}
			return
		}
		if !r.finished {
			r.livelock = fmt.Sprintf("%s executes more than %d statements at site %d: %s", g.Name, r.cfg.MaxP, site, trimStack(debug.Stack()))
			r.finish()
		}
		<-g.wake
		runtime.Goexit()
	}
	if r.cfg.Stmt && !r.quiet && !r.ending && !r.cur.dying {
		if r.cfg.StmtFilter == nil || r.cfg.StmtFilter(site) {
			r.block(&op{what: "stmt"})
		}
	}
}

// PCount is the number of statements executed so far in this run.
func PCount() int {
	if s == nil {
		return 0
	}
	return s.pcount
}

// ResetBudget restarts the statement and step budgets (called by the harness between commands).
func ResetBudget() {
	if s != nil {
		s.pcount = 0
		s.steps = 0
		s.randLow = 0
		s.randN = 0
	}
}

// TraceLen is the number of choices made so far in this run.
func TraceLen() int {
	if s == nil {
		return 0
	}
	return len(s.trace)
}

// TraceFrom returns the choices made since position i.
func TraceFrom(i int) (picked, n []int, costs []int) {
	for _, c := range s.trace[i:] {
		picked = append(picked, c.Picked)
		n = append(n, c.N)
		costs = append(costs, int(c.Costs[c.Picked]))
	}
	return
}
