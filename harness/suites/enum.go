package suites

import (
	"fmt"
	"time"

	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/vsched"
)

// enum executes every case of a generator; gen calls emit with what identifies the case and what decides it.
type enum struct {
	prop, name, suite string
	bound             tieredText
	thorough          bool
	fresh             bool // every case in an execution of its own
	gen               func(tier string, emit func(param func() string, do func() string) bool)
}

type tieredText [2]string

func (t tieredText) of(tier string) string {
	if tier == "thorough" && t[1] != "" {
		return t[1]
	}
	return t[0]
}

func (e enum) run(tier string, dl time.Time, only string, sel bool) (rep drive.Report, why string, log []string) {
	start := time.Now()
	rep = drive.Report{Suite: e.suite, Bound: e.bound.of(tier), Exhaustive: true, Depth: 1}
	var at func() string
	var res *vsched.Result
	cfg := vsched.Config{NoSched: true, KeepLog: sel, MaxP: 20000000}
	whole := func(f func()) { res = vsched.Run(cfg, f) }
	if e.fresh {
		whole = func(f func()) { f() }
	}
	whole(func() {
		if !e.fresh {
			drive.ResetAll()
		}
		n := 0
		e.gen(tier, func(param func() string, do func() string) bool {
			if sel && param() != only {
				return true
			}
			n++
			at = param
			if !sel && n%64 == 0 && !dl.IsZero() && time.Now().After(dl) {
				rep.Exhaustive, rep.Note = false, "time budget reached"
				return false
			}
			if !e.fresh {
				vsched.ResetBudget()
			}
			if !sel && (n == 1 || n == 1000 || n == 100000) {
				rep.Samples = append(rep.Samples, param())
			}
			rep.States++
			rep.Transitions++
			rep.Runs++
			if e.fresh {
				res = vsched.Run(cfg, func() { drive.ResetAll(); why = do() })
				rep.Steps += uint64(res.Steps)
				why = drive.ResultWhy(res, why, nil)
			} else {
				why = do()
			}
			return why == "" && !sel
		})
	})
	p := ""
	if at != nil {
		p = at()
	}
	if !e.fresh {
		rep.Steps = uint64(res.Steps)
		why = drive.ResultWhy(res, why, nil)
	}
	if why != "" {
		why = fmt.Sprintf("%s: %s", p, why)
		rep.Violation = &drive.Violation{Config: e.name, Why: why, Param: p}
	}
	rep.Seconds = time.Since(start).Seconds()
	if res != nil {
		log = res.Log
	}
	return rep, why, log
}

func (e enum) register() {
	All = append(All, Config{Prop: e.prop, Name: e.name, Thorough: e.thorough,
		Run: func(tier string, dl time.Time) drive.Report {
			r, _, _ := e.run(tier, dl, "", false)
			return r
		},
		Replay: func(v *drive.Violation) (string, []string) {
			_, why, log := e.run("thorough", time.Time{}, v.Param, true)
			return why, log
		}})
}
