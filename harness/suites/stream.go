package suites

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vsched"
)

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

// pieces is a connection's incoming side: one piece per read, then the end for ever.
type pieces struct {
	list []string
	end  error
	with bool // the end comes together with the last piece
	over int
}

func (p *pieces) Read(b []byte) (int, error) {
	vsched.Point("read")
	if len(p.list) == 0 {
		p.over++
		return 0, p.end
	}
	n := copy(b, p.list[0])
	if n < len(p.list[0]) {
		p.list[0] = p.list[0][n:]
	} else {
		p.list = p.list[1:]
	}
	if p.with && len(p.list) == 0 {
		return n, p.end
	}
	return n, nil
}

// stream is an asynchronous reading scenario.
type stream struct {
	reqs     [][]string
	tail     string // what follows the complete requests
	cuts     string // how the bytes arrive
	end      error
	with     bool
	consumer string
}

func (sc stream) name() string {
	var l []string
	for _, r := range sc.reqs {
		l = append(l, strings.Join(r, " "))
	}
	return fmt.Sprintf("[%s]+%q cut=%s end=%v(%v) consumer=%s", strings.Join(l, ", "), sc.tail, sc.cuts, sc.end, sc.with, sc.consumer)
}

func (sc stream) start() (func(), func(*vsched.Result) (string, string)) {
	var data string
	for _, r := range sc.reqs {
		data += string(resp.Encode(r...))
	}
	whole := len(data)
	data += sc.tail
	src := &pieces{end: sc.end, with: sc.with}
	switch sc.cuts {
	case "none":
		src.list = []string{data}
	case "requests":
		for _, r := range sc.reqs {
			src.list = append(src.list, string(resp.Encode(r...)))
		}
		src.list = append(src.list, data[whole:])
	case "half":
		for i := 0; i < len(data); i += 9 {
			j := i + 9
			if j > len(data) {
				j = len(data)
			}
			src.list = append(src.list, data[i:j])
		}
	}
	if n := len(src.list); n > 0 && src.list[n-1] == "" {
		src.list = src.list[:n-1]
	}
	var got []*protocol.Receive
	var errs []error
	why := ""
	left := 0
	main := func() {
		vsched.Quiet(true)
		drive.Reset()
		vsched.AwaitQuiescence()
		done := 0
		before := vsched.Mark()
		vsched.Quiet(false)
		vsched.SetRole("main")
		ar := protocol.ReceiveDataAsync(bufio.NewReaderSize(src, 16))
		recC, errC := ar.ReceiveChan, ar.ErrorChan
		take := func(r *protocol.Receive, ok bool) bool {
			if !ok {
				return false
			}
			if r == nil {
				why = "a nil request was delivered"
				return false
			}
			vsched.Logf("received %q", r.Elements)
			got = append(got, r)
			return true
		}
		switch sc.consumer {
		case "select":
			for recC != nil || errC != nil {
				rc, ec := vsched.NewRecv((<-chan *protocol.Receive)(recC)), vsched.NewRecv((<-chan error)(errC))
				switch vsched.Select(false, rc, ec) {
				case 0:
					if !take(rc.V, rc.OK) {
						recC = nil
					}
				case 1:
					if !ec.OK {
						errC = nil
					} else {
						errs = append(errs, ec.V)
					}
				}
			}
		case "two":
			vsched.GoNamed("requests", "client", func() {
				for {
					r, ok := vsched.Recv2(recC)
					if !take(r, ok) {
						break
					}
				}
				done++
			})
			vsched.GoNamed("errors", "client", func() {
				for {
					e, ok := vsched.Recv2(errC)
					if !ok {
						break
					}
					errs = append(errs, e)
				}
				done++
			})
			vsched.Await("consumers", func() bool { return done == 2 })
		case "range": // the way the server reads: requests only, then the error if there is one
			for {
				r, ok := vsched.Recv2(recC)
				if !take(r, ok) {
					break
				}
			}
			if e, ok := vsched.Recv2(errC); ok {
				errs = append(errs, e)
			}
		case "slow": // lets the reader run as far as it can before every receive
			for recC != nil || errC != nil {
				vsched.AwaitQuiescence()
				rc, ec := vsched.NewRecv((<-chan *protocol.Receive)(recC)), vsched.NewRecv((<-chan error)(errC))
				switch vsched.Select(false, rc, ec) {
				case 0:
					if !take(rc.V, rc.OK) {
						recC = nil
					}
				case 1:
					if !ec.OK {
						errC = nil
					} else {
						errs = append(errs, ec.V)
					}
				}
			}
		}
		vsched.Quiet(true)
		vsched.AwaitQuiescence()
		left = vsched.CodeGoroutines(before)
	}
	judge := func(res *vsched.Result) (string, string) {
		if w := blockedWhy(res, why); w != "" {
			return w, ""
		}
		if left > 0 {
			return fmt.Sprintf("the reading activity never ends: %v", res.Blocked), ""
		}
		if src.over > 64 {
			return fmt.Sprintf("the stream was read %d times after its end", src.over), ""
		}
		for i, r := range sc.reqs {
			if i >= len(got) {
				return fmt.Sprintf("only %d of %d complete requests were delivered (errors %v)", len(got), len(sc.reqs), errs), ""
			}
			if w := sameStrings(got[i].Elements, r); w != "" {
				return fmt.Sprintf("request %d: %s", i, w), ""
			}
		}
		if sc.tail == "" || sc.consumer == "" {
			if len(got) > len(sc.reqs) {
				return fmt.Sprintf("request %q was delivered beyond the %d of the stream", got[len(sc.reqs)].Elements, len(sc.reqs)), ""
			}
		}
		if len(got) > len(sc.reqs) {
			if _, n, v := resp.Request([]byte(sc.tail)); v != resp.Loose || n == 0 {
				return fmt.Sprintf("request %q was made up from %q", got[len(sc.reqs)].Elements, sc.tail), ""
			}
		}
		// a stream that merely ends may be announced by the closed channels alone
		if malformed := map[string]bool{"*x\r\n": true, "*1\r\n$-5\r\nab\r\n": true, "*1\r\n$2\r\nabcd\r\n": true}; len(errs) == 0 && (sc.end != io.EOF || malformed[sc.tail]) {
			return "the stream failed but no error was delivered", ""
		}
		return "", fmt.Sprintf("%d requests, %d errors", len(got), len(errs))
	}
	return main, judge
}

func streams(tier string) (out []stream) {
	ends := []error{io.EOF, net.ErrClosed, errors.New("connection reset by peer"), timeoutError{}, io.ErrUnexpectedEOF}
	tails := []string{"", "*2\r\n$3\r\nGET\r\n", "*1\r\n$4\r\nPI", "*", "*x\r\n", "*1\r\n$-5\r\nab\r\n", "*1\r\n$2\r\nabcd\r\n", "hello\r\n", "*2\r\n$1\r\na\r\n$9"}
	cuts := []string{"none", "requests", "half"}
	max := 3
	if tier == "thorough" {
		max = 5
	}
	for n := 0; n <= max; n++ {
		var reqs [][]string
		for i := 0; i < n; i++ {
			reqs = append(reqs, []string{"get", strings.Repeat(string(rune('a'+i)), 1+i*3)})
		}
		for ei, end := range ends {
			for ti, tail := range tails {
				for _, cut := range cuts {
					for _, consumer := range []string{"select", "two", "slow", "range"} {
						if n > 1 && tier == "quick" && (ti+ei)%3 != 0 && ti > 0 && ei > 0 {
							continue
						}
						out = append(out, stream{reqs: reqs, tail: tail, cuts: cut, end: end, consumer: consumer, with: (n+ti+ei)%2 == 1})
					}
				}
			}
		}
	}
	return
}

func streamScens(l []stream, cfg vsched.Config, bound int) (out []scen) {
	for _, s := range l {
		out = append(out, scen{name: s.name(), cfg: cfg, bound: bound, start: s.start})
	}
	return
}

func init() {
	cfg := vsched.Config{MaxSteps: 4000}
	del := vsched.Config{MaxSteps: 20000, Delay: true, Stmt: true, StmtFilter: pkgFilter("protocol")}
	few := func(l []stream, ok func(s stream) bool) (o []stream) {
		for _, s := range l {
			if ok(s) {
				o = append(o, s)
			}
		}
		return
	}
	schedules{prop: "C04", name: "stream/preemptions", suite: "stream", bound: tieredText{"streams of 0-3 requests, every ending; every schedule of reader and consumer with at most 1 preemption", "streams of 0-5 requests; at most 2 preemptions"},
		scens: func(tier string) []scen {
			return streamScens(few(streams(tier), func(s stream) bool { return tier == "thorough" || s.cuts != "half" || len(s.reqs) < 2 }), cfg, atTier(tier, 1, 2))
		}}.shards(8)
	schedules{prop: "C04", name: "stream/statements", suite: "stream", bound: tieredText{"every placement of one delay at statements of the protocol code and at synchronisation points", "up to two delays"},
		scens: func(tier string) []scen {
			return streamScens(few(streams("quick"), func(s stream) bool {
				return s.consumer != "two" && s.cuts != "half" && len(s.reqs) > 0 && (tier == "thorough" || len(s.reqs) == 2)
			}), del, atTier(tier, 1, 2))
		}}.shards(4)
}
