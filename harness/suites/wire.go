package suites

import (
	"fmt"
	"strings"

	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vsched"
)

// wire is one connection as its client sees it: what it sends, in which packets, and what it gets back.
type wire struct {
	id      int
	reqs    [][]string
	tail    string   // sent after the complete requests: part of a request, or garbage
	pkts    []string // the stream, cut
	end     string   // what the client does after its last packet: "" stays, "close", "reset"
	endAt   int      // the client goes away after this many packets (len(pkts): after all)
	h       *history
	sent    int // bytes delivered to the server
	out     []byte
	calls   []*call
	replied int
	gone    bool // the client went away
	shut    bool // the server closed the connection
	extra   string
}

// cut splits a stream: "one", "each" (one packet per request), "bytes", "at:i,j".
func cut(reqs [][]string, tail, how string) (pkts []string) {
	var data string
	for _, r := range reqs {
		b := string(resp.Encode(r...))
		if how == "each" {
			pkts = append(pkts, b)
		}
		data += b
	}
	data += tail
	switch {
	case how == "each":
		if tail != "" {
			pkts = append(pkts, tail)
		}
	case how == "one":
		pkts = []string{data}
	case how == "bytes":
		for i := range data {
			pkts = append(pkts, data[i:i+1])
		}
	default:
		last := 0
		for _, f := range strings.Split(strings.TrimPrefix(how, "at:"), ",") {
			n := 0
			fmt.Sscan(f, &n)
			if n > last && n < len(data) {
				pkts = append(pkts, data[last:n])
				last = n
			}
		}
		pkts = append(pkts, data[last:])
	}
	return
}

func newWire(id int, h *history, reqs [][]string, tail, how, end string, endAt int) *wire {
	w := &wire{id: id, reqs: reqs, tail: tail, pkts: cut(reqs, tail, how), end: end, endAt: endAt, h: h}
	for i, r := range reqs {
		w.calls = append(w.calls, &call{args: r, client: id, seq: i, strict: true})
	}
	return w
}

// deliver notes that the next packet reaches the server.
func (w *wire) deliver(p string) {
	w.sent += len(p)
	n := 0
	for i, r := range w.reqs {
		n += len(resp.Encode(r...))
		if n <= w.sent && w.calls[i].inv == 0 {
			w.calls[i].inv = w.h.tick()
			w.h.calls = append(w.h.calls, w.calls[i])
		}
	}
	vsched.Logf("conn %d: packet %q", w.id, p)
}

// wrote notes bytes that reach the client.
func (w *wire) wrote(b []byte) {
	vsched.Logf("conn %d: writes %q", w.id, b)
	w.out = append(w.out, b...)
	n := 0
	for rest := w.out; len(rest) > 0; n++ {
		v, r, err := resp.Parse(rest)
		if err != nil {
			break
		}
		if n == w.replied && n < len(w.calls) {
			c := w.calls[n]
			c.ret, c.val, c.raw = w.h.tick(), v, string(rest[:len(rest)-len(r)])
			w.replied++
			if c.inv == 0 {
				w.extra = fmt.Sprintf("conn %d: reply %s before the request %q was complete", w.id, v, c.args)
			}
		}
		rest = r
	}
}

// judge tells what is wrong with what the client got. Everything must be answered unless lossy.
func (w *wire) judge(lossy bool) string {
	if w.extra != "" {
		return w.extra
	}
	rest := w.out
	var got []resp.Value
	for len(rest) > 0 {
		v, r, err := resp.Parse(rest)
		if err != nil {
			if lossy {
				break
			}
			return fmt.Sprintf("conn %d: the bytes %q after %d replies are no reply: %v", w.id, clipText(rest), len(got), err)
		}
		got = append(got, v)
		rest = r
	}
	max := len(w.reqs)
	if len(got) > max && w.tail != "" && got[max].IsErr() {
		got = got[:max] // a protocol error reply to what follows
	}
	if len(got) > max {
		return fmt.Sprintf("conn %d: %d replies to %d requests: %q", w.id, len(got), max, clipText(w.out))
	}
	if len(got) < max && !lossy {
		return fmt.Sprintf("conn %d: only %d replies to %d requests: %q", w.id, len(got), max, clipText(w.out))
	}
	return ""
}

// unanswered marks the calls without a reply as possibly executed.
func (w *wire) unanswered() {
	for _, c := range w.calls {
		if c.ret == 0 {
			c.lost, c.optional = true, possible(c.args)
		}
	}
}

// requestSets are request lists with distinguishable replies for connection id.
func requestSet(id, n int) (l [][]string) {
	k := string(rune('p' + id))
	all := [][]string{{"append", k, "x"}, {"rpush", "l", fmt.Sprint(id), "1"}, {"append", k, "yz"}, {"incr", "n"}, {"get", k}, {"nosuch", k}}
	return all[:n]
}
