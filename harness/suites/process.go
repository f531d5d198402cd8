package suites

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/panjf2000/gnet"

	"github.com/yusank/godis/debug"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/redis"
	"github.com/yusank/godis/server"
	"github.com/yusank/godis/zzverif/drive"
	server_main "github.com/yusank/godis/zzverif/mains/server"
	"github.com/yusank/godis/zzverif/vgnet"
	"github.com/yusank/godis/zzverif/vos"
	"github.com/yusank/godis/zzverif/vpool"
	"github.com/yusank/godis/zzverif/vsched"
	"github.com/yusank/godis/zzverif/vsignal"
	"github.com/yusank/godis/zzverif/vtime"
)

// process is one life of the server process: how it is started, how its event loop fares and the signals it gets.
type process struct {
	addr  string   // "": the default
	fail  string   // "": none, "listen": the address is taken, "loops": the event loops do not start
	early []string // signals sent at any time after the process began
	late  string   // the signal sent when nothing else happens any more
	debug bool     // the debug build, which begins with some data
	busy  int      // seconds a command takes which is requested as soon as the server serves, 0: no such command
}

var signalNames = map[string]os.Signal{"TERM": syscall.SIGTERM, "INT": syscall.SIGINT, "QUIT": syscall.SIGQUIT}

func (sc process) name() string {
	return fmt.Sprintf("addr=%q fail=%q signals=%s then %s debug=%v busy=%d", sc.addr, sc.fail, strings.Join(sc.early, ","), sc.late, sc.debug, sc.busy)
}

// farm is gnet's table of servers: Serve blocks until Stop is called for its address, Stop knows a server from the
// moment its event loops run.
type farm struct {
	addrs    []string
	calls    int
	known    bool
	told     bool
	serving  bool // Serve has neither failed nor returned
	shut     bool
	returned bool
	onServe  func(h gnet.EventHandler)
}

func (f *farm) serve(fail string) func(gnet.EventHandler, string, *gnet.Options) error {
	return func(h gnet.EventHandler, addr string, o *gnet.Options) error {
		f.calls++
		f.addrs = append(f.addrs, addr)
		vsched.Point("gnet.Serve: listen")
		if fail == "listen" {
			return errors.New("listen: address already in use")
		}
		f.serving = true
		defer func() { f.serving, f.returned = false, true }()
		if h.OnInitComplete(gnet.Server{}) == gnet.Shutdown {
			return nil
		}
		vsched.Point("gnet.Serve: start the event loops")
		if fail == "loops" {
			return errors.New("event loops: too many open files")
		}
		vsched.Point("gnet.Serve: register")
		f.known = true
		f.onServe(h)
		vsched.Await("gnet.Serve", func() bool { return f.told })
		h.OnShutdown(gnet.Server{})
		vsched.Point("gnet.Serve: end the event loops")
		f.shut = true
		return nil
	}
}

func (f *farm) stop(ctx context.Context, addr string) error {
	vsched.Point("gnet.Stop")
	if !f.known || addr != f.addrs[len(f.addrs)-1] {
		return errors.New("server is already in shutdown")
	}
	f.told = true
	defer func() { f.known = false }()
	if f.shut {
		return errors.New("server is already in shutdown")
	}
	vsched.Await("gnet.Stop", func() bool { return f.shut || vsched.CtxErr(ctx) != nil })
	if f.shut {
		return nil
	}
	return vsched.CtxErr(ctx)
}

// exits tells a panic which stands for the end of the process from one that is not meant.
func exits(v string) bool {
	return strings.HasPrefix(v, "os.Exit(") || strings.HasPrefix(v, "log.Fatal (process exit)")
}

var preloaded = []struct {
	cmd  []string
	want string
}{
	{[]string{"lrange", "list1", "0", "-1"}, `["1" "2" "3" "4" "5" "6"]`},
	{[]string{"get", "key1"}, `"hello"`},
	{[]string{"get", "key2"}, `"10"`},
	{[]string{"zrange", "zset", "0", "-1", "withscores"}, `["a" "1" "b" "2" "c" "3" "d" "4" "e" "5"]`},
}

func (sc process) start() func() (func(), func(*vsched.Result) (string, string)) {
	return func() (func(), func(*vsched.Result) (string, string)) {
		var f farm
		why := ""
		ended, killed := false, false
		begun, finished := false, false
		say := func(s string) {
			if why == "" {
				why = s
			}
		}
		main := func() {
			vsched.Quiet(true)
			drive.ResetAll()
			vsched.AwaitQuiescence()
			vsignal.Clear()
			debug.DEBUG, server.Version = sc.debug, "v2"
			vpool.Overloaded = false
			flag.CommandLine = flag.NewFlagSet("godis", flag.ContinueOnError)
			args := []string{"godis"}
			want := "tcp://:7379"
			if sc.addr != "" {
				args = append(args, "-addr", sc.addr)
				want = sc.addr
			}
			os.Args, vos.Args = args, args
			f.onServe = func(gnet.EventHandler) {
				if m := handlers(); sc.busy > 0 && m != nil {
					m["slow"] = func(*redis.Command) (*protocol.Response, error) {
						begun = true
						vtime.Sleep(time.Duration(sc.busy) * time.Second)
						vsched.Point("slow")
						finished = true
						return protocol.NewResponseWithInteger(1), nil
					}
					vsched.GoNamed("client", "", func() { drive.Exec([]string{"slow"}) })
				}
				vsched.Quiet(true)
				defer vsched.Quiet(false)
				if a := f.addrs[len(f.addrs)-1]; a != want {
					say(fmt.Sprintf("serves at %q instead of %q", a, want))
				}
				if !sc.debug {
					if v, err := drive.Do([]string{"keys", "*"}); err != nil || !(v.Empty()) {
						say(fmt.Sprintf("does not start empty: KEYS * replies %v (%v)", v, err))
					}
					return
				}
				for _, p := range preloaded {
					if v, err := drive.Do(p.cmd); err != nil || v.String() != p.want {
						say(fmt.Sprintf("serves while the prepared data is not there: %q replies %v (%v) instead of %s", p.cmd, v, err, p.want))
					}
				}
			}
			vgnet.ServeHook, vgnet.StopHook = f.serve(sc.fail), f.stop
			vsched.GoNamed("process", "", func() {
				defer func() {
					r := recover()
					if s, ok := r.(string); r != nil && !(ok && exits(s)) {
						panic(r)
					}
					ended = true
					if begun && !finished && !killed {
						say("the process ends in the middle of a command")
					}
					if f.serving && !killed {
						say("the process ends while the server is still serving or stopping")
					}
				}()
				server_main.VerifMain()
			})
			send := func(s string) {
				if ended || killed || vsignal.Deliver(signalNames[s]) {
					return
				}
				killed = true
				if f.serving {
					say("SIG" + s + " kills the process while the server serves")
				}
			}
			for i, s := range sc.early {
				s := s
				vsched.GoNamed(fmt.Sprintf("SIG%s #%d", s, i+1), "", func() { send(s) })
			}
			vsched.Quiet(false)
			vsched.AwaitQuiescence()
			if why != "" || killed {
				return
			}
			if len(sc.early) == 0 && sc.fail == "" {
				if ended {
					say("the process ends without having been told to")
					return
				}
				if !f.known || f.calls != 1 {
					say(fmt.Sprintf("the process is idle but does not serve (%d times started)", f.calls))
					return
				}
				send(sc.late)
			}
			vsched.Await("the end of the process", func() bool { return ended || killed })
		}
		judge := func(res *vsched.Result) (string, string) {
			if res.Crash != nil && exits(fmt.Sprint(res.Crash.Value)) {
				if f.serving {
					return "the process ends while the server is still serving or stopping", ""
				}
				return why, "exit"
			}
			for _, b := range res.Blocked {
				if b.Role == "main" && why == "" && res.Crash == nil {
					return "the process never ends", ""
				}
			}
			w := drive.ResultWhy(res, why, nil)
			return w, fmt.Sprintf("%v %v %d", ended, killed, f.calls)
		}
		return main, judge
	}
}

func processes() (out []process) {
	for _, dbg := range []bool{false, true} {
		out = append(out, process{late: "TERM", debug: dbg}, process{addr: "tcp://127.0.0.1:6379", late: "INT", debug: dbg},
			process{late: "QUIT", debug: dbg})
	}
	for _, s := range []string{"TERM", "INT", "QUIT"} {
		out = append(out, process{early: []string{s}})
	}
	for _, fail := range []string{"listen", "loops"} {
		out = append(out, process{fail: fail}, process{fail: fail, early: []string{"TERM"}})
	}
	return append(out, process{early: []string{"TERM", "INT"}}, process{early: []string{"TERM", "TERM"}}, process{early: []string{"INT"}, debug: true}, process{late: "TERM", busy: 1}, process{early: []string{"QUIT"}, busy: 1}, process{late: "TERM", busy: 7}, process{early: []string{"TERM"}, busy: 7})
}

func processScens(cfg vsched.Config, bound int) (out []scen) {
	for _, p := range processes() {
		out = append(out, scen{name: p.name(), cfg: cfg, bound: bound, start: p.start()})
	}
	return
}

func init() {
	schedules{prop: "C29", name: "preemptions", suite: "process", bound: tieredText{"starts with and without an address, in both builds, failing or not; up to two signals; every schedule of the synchronisation points with at most 2 preemptions", "with at most 4 preemptions"},
		scens: func(tier string) []scen { return processScens(vsched.Config{MaxSteps: 60000}, atTier(tier, 2, 4)) }}.shards(8)
	schedules{prop: "C29", name: "statements", suite: "process", bound: tieredText{"the same; every placement of up to two delays at statements of the server and of the process", "of up to three delays"},
		scens: func(tier string) []scen {
			return processScens(vsched.Config{MaxSteps: 60000, Delay: true, Stmt: true, StmtFilter: pkgFilter("cmd/server", "server/v2", "zzverif/mains/server")}, atTier(tier, 2, 3))
		}}.shards(4)
}
