package suites

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/model"
	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vfmt"
	"github.com/yusank/godis/zzverif/vsched"
)

// recorder collects what is written to the command log, which is the standard output.
type recorder struct{ lines []string }

// watchLog starts to record; nil if nothing is written for a plain request (the log goes elsewhere and is not observed).
func watchLog() *recorder {
	r := &recorder{}
	vfmt.Sink = func(s string) { r.lines = append(r.lines, s) }
	drive.Exec([]string{"ping"})
	if len(r.lines) == 0 {
		vfmt.Sink = nil
		return nil
	}
	r.lines = nil
	return r
}

func (r *recorder) count(text string) (n int) {
	for _, l := range r.lines {
		if l == text || l == text+"\n" {
			n++
		}
	}
	return
}

// pieces are the requests in the log when it holds nothing but them, however many writes made it; nil otherwise.
func (r *recorder) pieces(known map[string]bool) (out []string) {
	for s := strings.Join(r.lines, ""); s != ""; {
		best := ""
		for k := range known {
			if len(k) > len(best) && strings.HasPrefix(s, k) {
				best = k
			}
		}
		if best == "" {
			return nil
		}
		out = append(out, best)
		s = strings.TrimPrefix(s[len(best):], "\n")
	}
	return
}

// judge compares the log with the requests that were answered: each is there once, those of a client in their order.
func (r *recorder) judge(lists [][][]string) string {
	if r == nil {
		return ""
	}
	want := map[string]int{}
	known := map[string]bool{}
	for _, l := range lists {
		for _, args := range l {
			known[string(resp.Encode(args...))] = true
		}
	}
	if e := r.pieces(known); e != nil {
		r.lines = e
	}
	for _, l := range lists {
		at := 0
		for _, args := range l {
			text := string(resp.Encode(args...))
			want[text]++
			for ; at < len(r.lines) && r.lines[at] != text && r.lines[at] != text+"\n"; at++ {
			}
			if at == len(r.lines) {
				return fmt.Sprintf("the command log lacks the request %q, or has it out of the client's order: %q", args, r.lines)
			}
			at++
		}
	}
	for text, n := range want {
		if got := r.count(text); got != n {
			return fmt.Sprintf("the request %q was made %d times and is %d times in the command log", text, n, got)
		}
	}
	return ""
}

func debugged(f func()) {
	drive.Debug = true
	defer func() { drive.Debug = false }()
	f()
}

func init() {
	// replies of a debug build: every command with its usual forms and with damaged ones
	usualForms := func() [][]string {
		var ops [][]string
		seen := map[string]bool{}
		add := func(a []string) {
			if k := strings.Join(a, "\x00|"); len(a) > 0 && !seen[k] {
				seen[k] = true
				ops = append(ops, a)
			}
		}
		for _, n := range append(model.Names(), "nosuch") {
			for _, k := range append(append([]string{}, typedKeys...), "none") {
				for _, u := range usual(n, k) {
					add(u)
					add(u[:len(u)-1])
					w := append([]string{}, u...)
					w[len(w)-1] = "%d%s\r\n\x00"
					add(w)
				}
			}
			add([]string{n})
		}
		return ops
	}
	mk := func(tier string, dl time.Time) *drive.BFS {
		return &drive.BFS{Name: "debug/forms", Setup: typedSetup, Ops: usualForms(), Probes: dump(append(append([]string{}, typedKeys...), "none")), MaxDepth: atTier(tier, 1, 1), Deadline: dl}
	}
	All = append(All, Config{Prop: "C30", Name: "debug/forms",
		Run: func(tier string, dl time.Time) (r drive.Report) {
			debugged(func() { r = mk(tier, dl).Run() })
			r.Suite = "debug"
			r.Bound = "a debug build: every command with its usual forms, shortened ones and ones with format directives and line ends in the last argument, on a store holding one key of each type; full dump after every state change"
			return r
		},
		Replay: func(v *drive.Violation) (w string, l []string) {
			debugged(func() { w, l = drive.Replay(v, vsched.Config{}) })
			return
		}})

	// the log of single requests, whatever their bytes
	enum{prop: "C30", name: "log/requests", suite: "log", bound: tieredText{"every request of up to 3 elements out of 9, simple strings, integers, errors, single bulk strings, nested and empty arrays, in a release and a debug build, each twice", "every request of up to 4 elements out of 9"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			elems := []string{"", "a", "\r\n", "%d", "\x00\xff", "*1\r\n", "日", "get", "append"}
			texts := []string{"PING\r\n", "+ping\r\n", ":12\r\n", "-x\r\n", "+a b\r\n", "$4\r\nping\r\n", "$0\r\n\r\n", "*0\r\n", "*1\r\n*1\r\n$4\r\nping\r\n", "*2\r\n$3\r\nget\r\n+a\r\n", "*2\r\n:1\r\n*2\r\n$1\r\na\r\n:2\r\n", "*01\r\n$004\r\nping\r\n"}
			var rec func(args []string)
			rec = func(args []string) {
				if len(args) > 0 {
					texts = append(texts, string(resp.Encode(args...)))
				}
				if len(args) == atTier(tier, 3, 4) {
					return
				}
				for _, e := range elems {
					rec(append(append([]string{}, args...), e))
				}
			}
			rec(nil)
			for _, n := range []int{100, 4095, 4096, 65536, 1 << 20} {
				texts = append(texts, string(resp.Encode("append", "k", strings.Repeat("x", n))))
			}
			for _, d := range []bool{false, true} {
				drive.Debug = d
				drive.Reset()
				drive.Debug = false
				lg := watchLog()
				vfmt.Sink = nil
				if lg == nil {
					return
				}
				for _, text := range texts {
					d, text := d, text
					if !emit(func() string { return fmt.Sprintf("debug=%t %s", d, clipText([]byte(text))) }, func() string {
						lg.lines = nil
						vfmt.Sink = func(s string) { lg.lines = append(lg.lines, s) }
						defer func() { vfmt.Sink = nil }()
						for k := 1; k <= 2; k++ {
							rec, err := protocol.DecodeFromReader(bytes.NewBufferString(text))
							if err != nil {
								return "the request does not decode: " + err.Error()
							}
							elements := append([]string{}, rec.Elements...)
							reply := event.HandleRequest(rec)
							if strings.Join(rec.Elements, "|") != strings.Join(elements, "|") || len(rec.Elements) != len(elements) {
								return "the request was changed by handling it"
							}
							if len(elements) > 0 {
								if _, err := resp.One(reply); err != nil {
									return fmt.Sprintf("the reply %q is not one reply: %v", clipText(reply), err)
								}
							}
							if e := lg.pieces(map[string]bool{text: true}); e != nil {
								lg.lines = e
							}
							if n := lg.count(text); n != k {
								return fmt.Sprintf("the request was made %d times and is %d times in the command log: %.300q", k, n, lg.lines)
							}
						}
						return ""
					}) {
						return
					}
				}
			}
		}}.register()

	both := func(in []clients) (out []clients) {
		for _, c := range in {
			c.log = true
			d := c
			d.debug = true
			out = append(out, c, d)
		}
		return
	}
	ev := pkgFilter("event", "redis", "persistence", "protocol")
	schedules{prop: "C30", name: "log/delays", suite: "clients", bound: tieredText{"every placement of up to 2 delays at synchronisation points and log writes", "up to 3"},
		scens: func(tier string) []scen {
			return toScens(both(own(2)), vsched.Config{Delay: true, MaxSteps: 60000}, atTier(tier, 2, 3))
		}}.shards(4)
	schedules{prop: "C30", name: "log/statements", suite: "clients", bound: tieredText{"every placement of one delay at statements of the event, command, log and protocol code and at synchronisation points", "every placement of up to two delays"},
		scens: func(tier string) []scen {
			return toScens(both(crowd()), vsched.Config{Stmt: true, StmtFilter: ev, Delay: true, MaxSteps: 60000}, atTier(tier, 1, 2))
		}}.shards(4)
}
