package suites

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"

	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/resp"
)

// fragReader is a protocol.Reader over a byte string: Read never crosses a cut, and returns a zero-length
// read at a cut when stutter is set; the end comes as end.
type fragReader struct {
	b       []byte
	i       int
	cut     func(i int) bool // is there a cut before byte i
	stutter bool
	did     int
	end     error
	withEnd bool // the last bytes come together with the end
}

func (r *fragReader) Read(p []byte) (int, error) {
	if r.i >= len(r.b) {
		return 0, r.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.stutter && r.did != r.i && r.cut(r.i) {
		r.did = r.i
		return 0, nil
	}
	n := 1
	for n < len(p) && r.i+n < len(r.b) && !r.cut(r.i+n) {
		n++
	}
	copy(p, r.b[r.i:r.i+n])
	r.i += n
	if r.withEnd && r.i == len(r.b) {
		return n, r.end
	}
	return n, nil
}

func (r *fragReader) ReadBytes(d byte) ([]byte, error) {
	j := bytes.IndexByte(r.b[r.i:], d)
	if j < 0 {
		rest := append([]byte{}, r.b[r.i:]...)
		r.i = len(r.b)
		return rest, r.end
	}
	line := append([]byte{}, r.b[r.i:r.i+j+1]...)
	r.i += j + 1
	return line, nil
}

func atNone(int) bool { return false }
func atAll(int) bool  { return true }
func atMod(m int) func(int) bool {
	return func(i int) bool { return i%m == 0 }
}

type source struct {
	name string
	mk   func(b []byte) (protocol.Reader, func() int) // the reader, and how many bytes are left behind it
}

func buffered(size int, cut func(int) bool, stutter, withEnd bool) func([]byte) (protocol.Reader, func() int) {
	return func(b []byte) (protocol.Reader, func() int) {
		f := &fragReader{b: b, cut: cut, stutter: stutter, did: -1, end: io.EOF, withEnd: withEnd}
		r := bufio.NewReaderSize(f, size)
		return r, func() int { return r.Buffered() + len(f.b) - f.i }
	}
}

func raw(cut func(int) bool, stutter, withEnd bool, end error) func([]byte) (protocol.Reader, func() int) {
	return func(b []byte) (protocol.Reader, func() int) {
		f := &fragReader{b: b, cut: cut, stutter: stutter, did: -1, end: end, withEnd: withEnd}
		return f, func() int { return len(f.b) - f.i }
	}
}

var errBroken = errors.New("connection reset")

func sources() []source {
	return []source{
		{"bytes.Buffer", func(b []byte) (protocol.Reader, func() int) {
			r := bytes.NewBuffer(append([]byte{}, b...))
			return r, r.Len
		}},
		{"bytewise", raw(atAll, false, false, io.EOF)},
		{"bufio over bytewise", buffered(16, atAll, false, false)},
		{"bufio 16", buffered(16, atNone, false, true)},
		{"bufio over threes", buffered(64, atMod(3), true, false)},
		{"stuttering sevens", raw(atMod(7), true, true, errBroken)},
	}
}

// decodeAll decodes the requests of a stream one after the other and compares them with the grammar.
func decodeAll(stream []byte, src source) string {
	r, left := src.mk(stream)
	off := 0
	var recs []*protocol.Receive
	var wants [][]string
	var texts []string
	for k := 0; ; k++ {
		want, n, verdict := resp.Request(stream[off:])
		rec, err := protocol.DecodeFromReader(r)
		at := fmt.Sprintf("request %d from %s", k+1, src.name)
		if err != nil {
			if verdict == resp.Good {
				return fmt.Sprintf("%s: %v", at, err)
			}
			break
		}
		if rec == nil {
			return at + ": neither a request nor an error"
		}
		if verdict == resp.Bad {
			return fmt.Sprintf("%s: %q is no request but decodes to %q", at, clipText(stream[off:]), rec.Elements)
		}
		if w := sameStrings(rec.Elements, want); w != "" {
			return fmt.Sprintf("%s: %s", at, w)
		}
		if verdict == resp.Good && rec.OrgStr != string(stream[off:off+n]) {
			return fmt.Sprintf("%s: recorded text %q, want %q", at, clipText([]byte(rec.OrgStr)), clipText(stream[off:off+n]))
		}
		off += n
		if left() != len(stream)-off {
			return fmt.Sprintf("%s: %d bytes of the stream are left, want %d", at, left(), len(stream)-off)
		}
		recs, wants, texts = append(recs, rec), append(wants, want), append(texts, rec.OrgStr)
		if verdict == resp.Loose {
			break
		}
	}
	for i, rec := range recs {
		if w := sameStrings(rec.Elements, wants[i]); w != "" {
			return fmt.Sprintf("request %d changed while later ones were decoded: %s", i+1, w)
		}
		if rec.OrgStr != texts[i] {
			return fmt.Sprintf("the text of request %d changed while later ones were decoded", i+1)
		}
	}
	return ""
}

func sameStrings(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d elements %q, want %d %q", len(got), clipAll(got), len(want), clipAll(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("element %d is %q, want %q", i+1, clipText([]byte(got[i])), clipText([]byte(want[i])))
		}
	}
	return ""
}

func clipText(b []byte) string {
	if len(b) > 100 {
		return fmt.Sprintf("%s...(%d bytes)", b[:100], len(b))
	}
	return string(b)
}

func clipAll(l []string) []string {
	if len(l) > 6 {
		l = l[:6]
	}
	o := make([]string, len(l))
	for i := range l {
		o[i] = clipText([]byte(l[i]))
	}
	return o
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

func elementAlphabet() []string {
	return []string{"", "a", "get", "\r", "\n", "\r\n", "\x00", "$", "*1", "\r\n$1\r\nb\r\n", "\xff\xfe", "+", "PING\r\n", "0123456789abcdef"}
}

// requests builds all arrays of up to n elements of the alphabet, and the single values.
func requests(alpha []string, n int) []string {
	out := []string{"PING\r\n", "*0\r\n"}
	for _, e := range alpha {
		out = append(out, bulk(e))
		if !strings.ContainsAny(e, "\r\n") {
			out = append(out, "+"+e+"\r\n")
		}
	}
	cur := []string{""}
	for k := 1; k <= n; k++ {
		var next []string
		for _, p := range cur {
			for _, e := range alpha {
				next = append(next, p+bulk(e))
			}
		}
		for _, b := range next {
			out = append(out, "*"+strconv.Itoa(k)+"\r\n"+b)
		}
		cur = next
	}
	return out
}

func quoted(b string) func() string {
	return func() string {
		if len(b) > 300 {
			return fmt.Sprintf("%q... %d bytes %x", b[:100], len(b), fnv32(b))
		}
		return strconv.Quote(b)
	}
}

func streamCase(emit func(func() string, func() string) bool, stream string, srcs []source) bool {
	return emit(quoted(stream), func() string {
		for _, s := range srcs {
			if w := decodeAll([]byte(stream), s); w != "" {
				return w
			}
		}
		return ""
	})
}

func init() {
	few := []string{"PING\r\n", "*0\r\n", "*1\r\n$0\r\n\r\n", "*2\r\n$3\r\nget\r\n$2\r\n\r\n\r\n", "$1\r\n*\r\n", "+OK\r\n", "*1\r\n$16\r\n0123456789abcdef\r\n"}
	enum{prop: "C01", name: "requests/pairs", suite: "codec", bound: tieredText{
		"all requests of up to 4 elements of 14 kinds, followed by each of 8 continuations (by 3 of them from the fourth element on), from 6 readers",
		"all requests of up to 5 elements of 14 kinds, followed by each of 8 continuations (by 3 of them from the fourth element on), from 6 readers"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			n := 4
			if tier == "thorough" {
				n = 5
			}
			srcs := sources()
			for i, r := range requests(elementAlphabet(), n) {
				for j, f := range append(few, "") {
					if (i+j)%4 != 0 && i > 4000 && f != "" {
						continue
					}
					if !streamCase(emit, r+f, srcs) {
						return
					}
				}
			}
		}}.register()
	enum{prop: "C01", name: "requests/splits", suite: "codec", bound: tieredText{
		"every way to cut 28 streams of up to 16 bytes (and every pair of cuts, with and without empty reads, of streams of up to 90 bytes) into reads, directly and through bufio",
		"every way to cut streams of up to 20 bytes, every triple of cuts of longer ones"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			short := []string{"PING\r\n", "PING\r\nPING\r\n", "$0\r\n\r\n", "$1\r\na\r\n", "$2\r\n\r\n\r\n", "$6\r\na\r\nb\r\n\r\n", "+\r\n", "+OK\r\n", "+OK\r\n+NO\r\n", "*0\r\n", "*0\r\n*0\r\n", "*0\r\nPING\r\n", "*1\r\n$0\r\n\r\n", "*1\r\n$1\r\na\r\n", "*1\r\n$2\r\n\r\n\r\n", "*1\r\n$3\r\nget\r\n", "$3\r\nget\r\n$1\r\nk\r\n",
				"*2\r\n$0\r\n\r\n$0\r\n\r\n", "*2\r\n$1\r\na\r\n$0\r\n\r\n", "$1\r\n\n\r\n$1\r\n\r\r\n", "+a\r\n$1\r\nb\r\n"}
			max := 16
			if tier == "thorough" {
				max = 20
			}
			for _, st := range short {
				if len(st) > max {
					continue
				}
				for m := 0; m < 1<<(len(st)-1); m++ {
					m := m
					cut := func(i int) bool { return i > 0 && m>>(i-1)&1 == 1 }
					st := st
					if !emit(func() string { return fmt.Sprintf("%q cut %b", st, m) }, func() string {
						if w := decodeAll([]byte(st), source{"cut", raw(cut, false, m&1 == 1, io.EOF)}); w != "" {
							return w
						}
						return decodeAll([]byte(st), source{"bufio over cut", buffered(16, cut, m&1 == 1, m&2 == 2)})
					}) {
						return
					}
				}
			}
			long := []string{"*3\r\n$3\r\nset\r\n$1\r\nk\r\n$4\r\n\r\n\r\n\r\n", "*2\r\n$3\r\nget\r\n$1\r\nk\r\nPING\r\n*1\r\n$4\r\nping\r\n", "*2\r\n$12\r\n0123456789ab\r\n$20\r\n0123456789ab01234567\r\n+OK\r\n", "*1\r\n$40\r\n" + strings.Repeat("\r\n", 20) + "\r\n*1\r\n$1\r\n\n\r\n"}
			for _, st := range long {
				for a := 0; a <= len(st); a++ {
					for b := a; b <= len(st); b++ {
						last := b
						if tier == "thorough" {
							last = len(st)
						}
						for c := b; c <= last; c++ {
							st, a, b, c := st, a, b, c
							cut := func(i int) bool { return i == a || i == b || i == c }
							if !emit(func() string { return fmt.Sprintf("%q cut at %d %d %d", st, a, b, c) }, func() string {
								if w := decodeAll([]byte(st), source{"cut", raw(cut, (a+b+c)%2 == 1, a%2 == 1, io.EOF)}); w != "" {
									return w
								}
								return decodeAll([]byte(st), source{"bufio over cut", buffered(16, cut, a%2 == 1, b%2 == 1)})
							}) {
								return
							}
						}
					}
				}
			}
		}}.register()
	enum{prop: "C01", name: "requests/sizes", suite: "codec", bound: tieredText{"every bulk length 0..1100 and around each power of two up to 1 MiB, every array length 0..300 and around 1000, 4096, 10000; each between other requests, from 6 readers"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			var lens []int
			for i := 0; i <= 1100; i++ {
				lens = append(lens, i)
			}
			for p := 11; p <= 20; p++ {
				for d := -3; d <= 3; d++ {
					lens = append(lens, 1<<p+d)
				}
			}
			lens = append(lens, 9999, 10000, 10001, 99999, 100000, 999999, 1000000)
			body := make([]byte, 1<<20+16)
			for i := range body {
				body[i] = byte(i*7 + i>>8)
			}
			srcs := sources()
			for _, n := range lens {
				ss := srcs
				if n > 5000 {
					ss = srcs[:1]
					ss = append(ss, srcs[3], source{"bufio 4096 over 1460", buffered(4096, atMod(1460), false, false)}, source{"1460", raw(atMod(1460), true, true, io.EOF)})
				}
				if !streamCase(emit, "*2\r\n$3\r\nset\r\n"+bulk(string(body[:n]))+"PING\r\n"+bulk(string(body[n/2:n]))+"+x\r\n", ss) {
					return
				}
			}
			for _, n := range append([]int{999, 1000, 1001, 4095, 4096, 4097, 10000}, lens[:301]...) {
				var b strings.Builder
				fmt.Fprintf(&b, "*%d\r\n", n)
				for i := 0; i < n; i++ {
					b.WriteString(bulk(strconv.Itoa(i)))
				}
				if !streamCase(emit, "PING\r\n"+b.String()+"*1\r\n$1\r\nx\r\n", srcs) {
					return
				}
			}
			for _, n := range []int{0, 1, 2, 100, 4093, 4094, 4095, 4096, 4097, 65536, 100000} {
				if !streamCase(emit, "+"+strings.Repeat("x", n)+"\r\nPING\r\n", srcs) {
					return
				}
			}
			for b := 0; b < 256; b++ {
				for _, f := range []string{"%s", "a%s", "%sa", "%s%s", "\r%s", "%s\n"} {
					e := strings.ReplaceAll(f, "%s", string([]byte{byte(b)}))
					if !streamCase(emit, "*2\r\n"+bulk(e)+bulk("x")+bulk(e), srcs) {
						return
					}
				}
			}
		}}.register()

	// C02
	two := func(s []source) []source { return []source{s[0], s[2]} }
	bytesOf := func(alpha []string, max int, first func(i int) bool, tail string) func(emit func(func() string, func() string) bool) {
		return func(emit func(func() string, func() string) bool) {
			srcs := two(sources())
			var rec func(p string, n int) bool
			rec = func(p string, n int) bool {
				ss := srcs[:1]
				if n < 5 {
					ss = srcs
				}
				if n > 0 && !streamCase(emit, p+tail, ss) {
					return false
				}
				if n == max {
					return true
				}
				for i, a := range alpha {
					if n == 0 && !first(i) {
						continue
					}
					if !rec(p+a, n+1) {
						return false
					}
				}
				return true
			}
			rec("", 0)
		}
	}
	byteAlpha := []string{"*", "$", "+", ":", "-", "0", "1", "2", "\r", "\n", "a", "P"}
	tokAlpha := []string{"*", "$", "+", "0", "1", "2", "\r\n", "\n", "\r", "a", "-1", "*1\r\n", "*2\r\n", "$1\r\n", "$0\r\n", "PING\r\n"}
	for part := 0; part < 4; part++ {
		part := part
		mine := func(alpha []string) func(i int) bool { return func(i int) bool { return i%4 == part } }
		enum{prop: "C02", name: fmt.Sprintf("bytes/%d", part), suite: "codec", bound: tieredText{"all byte strings over 12 protocol bytes up to length 6 (a quarter per configuration, by first byte)", "all byte strings over 12 protocol bytes up to length 8 (a quarter per configuration, by first byte)"},
			gen: func(tier string, emit func(func() string, func() string) bool) {
				n := 6
				if tier == "thorough" {
					n = 8
				}
				bytesOf(byteAlpha, n, mine(byteAlpha), "")(emit)
			}}.register()
		enum{prop: "C02", name: fmt.Sprintf("tokens/%d", part), suite: "codec", bound: tieredText{"all strings of up to 6 protocol tokens out of 16, bare and followed by a complete request (a quarter per configuration)", "all strings of up to 7 protocol tokens out of 16 (a quarter per configuration)"},
			gen: func(tier string, emit func(func() string, func() string) bool) {
				n := 6
				if tier == "thorough" {
					n = 7
				}
				bytesOf(tokAlpha, n, mine(tokAlpha), "")(emit)
				bytesOf(tokAlpha, n-1, mine(tokAlpha), "$1\r\nb\r\n")(emit)
			}}.register()
	}
	base := []string{"PING\r\n", "+OK\r\n", "$0\r\n\r\n", "$1\r\na\r\n", "$12\r\nabcdefghijkl\r\n", "*0\r\n", "*1\r\n$1\r\na\r\n", "*1\r\n$0\r\n\r\n", "*2\r\n$3\r\nget\r\n$1\r\nk\r\n", "*3\r\n$3\r\nset\r\n$1\r\nk\r\n$2\r\n\r\n\r\n", "*2\r\n$11\r\nhello world\r\n$10\r\n0123456789\r\n",
		"*1\r\n+OK\r\n", "*2\r\n*1\r\n$1\r\na\r\n$1\r\nb\r\n", "-ERR x\r\n", ":12\r\n", "*11\r\n" + strings.Repeat("$1\r\nx\r\n", 11)}
	enum{prop: "C02", name: "corruptions", suite: "codec", bound: tieredText{"every prefix of 16 requests; every replacement of one byte by each of 256, every deletion, insertion and duplication of one byte, every swap of neighbours; bare and followed by another request", "additionally every pair of replacements by protocol bytes"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			srcs := two(sources())
			for _, st := range base {
				for i := 0; i <= len(st); i++ {
					if !streamCase(emit, st[:i], sources()) {
						return
					}
				}
				for _, tail := range []string{"", "*1\r\n$4\r\nping\r\n"} {
					for i := 0; i < len(st); i++ {
						for b := 0; b < 256; b++ {
							c := string([]byte{byte(b)})
							if !streamCase(emit, st[:i]+c+st[i+1:]+tail, srcs) {
								return
							}
							if !streamCase(emit, st[:i]+c+st[i:]+tail, srcs[:1]) {
								return
							}
						}
						if !streamCase(emit, st[:i]+st[i+1:]+tail, srcs) {
							return
						}
						if i > 0 && !streamCase(emit, st[:i-1]+st[i:i+1]+st[i-1:i]+st[i+1:]+tail, srcs) {
							return
						}
					}
				}
				if tier == "thorough" && len(st) < 40 {
					for i := 0; i < len(st); i++ {
						for j := i + 1; j < len(st); j++ {
							for _, a := range byteAlpha {
								for _, b := range byteAlpha {
									if !streamCase(emit, st[:i]+a+st[i+1:j]+b+st[j+1:], srcs[:1]) {
										return
									}
								}
							}
						}
					}
				}
			}
		}}.register()
	enum{prop: "C02", name: "hostile", suite: "codec", bound: tieredText{"52 hostile lengths as bulk, array and nested lengths, with 0 to 3 elements present; allocation at most 8 MiB and statements bounded; nesting up to 5000"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			lens := []string{"100000000", "268435456", "536870911", "536870912", "536870913", "1000000000", "1073741824", "2147483645", "2147483646", "2147483647", "2147483648", "4294967293", "4294967294", "4294967295", "4294967296", "4294967297", "4294967298", "4294967299",
				"1099511627776", "9007199254740993", "4611686018427387904", "9223372036854775804", "9223372036854775805", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551613", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551618", "18446744073709551619",
				"36893488147419103233", "184467440737095516161", "184467440737095516162", "340282366920938463463374607431768211457", "99999999999999999999999999", strings.Repeat("9", 1000), "1" + strings.Repeat("0", 64), "-1", "-2", "-9223372036854775808", "-18446744073709551615", "1e9", "0x10", "1 ", " 1", "1\r", "1.", "²"}
			srcs := two(sources())
			allocs := func(st string) func() string {
				return func() string {
					for _, s := range srcs {
						var m0, m1 runtime.MemStats
						runtime.ReadMemStats(&m0)
						w := decodeAll([]byte(st), s)
						runtime.ReadMemStats(&m1)
						if w != "" {
							return w
						}
						if d := m1.TotalAlloc - m0.TotalAlloc; d > 8<<20+64*uint64(len(st)) {
							return fmt.Sprintf("decoding %d bytes from %s allocated %d bytes", len(st), s.name, d)
						}
					}
					return ""
				}
			}
			for _, l := range lens {
				for _, st := range []string{"$" + l + "\r\n", "*" + l + "\r\n", "$" + l + "\r\na\r\n", "$" + l + "\r\na\r\n\r\n", "$" + l + "\r\n\r\n", "*" + l + "\r\n$1\r\na\r\n", "*" + l + "\r\n$1\r\na\r\n$1\r\nb\r\n$1\r\nc\r\n", "*1\r\n$" + l + "\r\na\r\n", "*2\r\n$1\r\na\r\n$" + l + "\r\nb\r\n", "*1\r\n*" + l + "\r\n$1\r\na\r\n", "*" + l + "\r\n*" + l + "\r\n", "*2\r\n*" + l + "\r\n$1\r\na\r\n"} {
					if !emit(quoted(st), allocs(st)) {
						return
					}
				}
			}
			for _, d := range []int{2, 10, 100, 127, 128, 129, 130, 1000, 5000} {
				for _, inner := range []string{"", "$1\r\na\r\n", "$5\r\na\r\n", "*0\r\n"} {
					if !streamCase(emit, strings.Repeat("*1\r\n", d)+inner, srcs) {
						return
					}
				}
				if !streamCase(emit, strings.Repeat("*1000000000\r\n", d), srcs) {
					return
				}
			}
			for _, n := range []int{1000, 100000} {
				for _, st := range []string{strings.Repeat("x", n), strings.Repeat("*", n), strings.Repeat("\n", n), "*" + strings.Repeat("0", n) + "1\r\n", "$" + strings.Repeat("9", n) + "\r\n", strings.Repeat("\r", n) + "\n"} {
					if !streamCase(emit, st, srcs) {
						return
					}
				}
			}
		}}.register()
	registerC03()
}

// ---- replies ----

type replyCase struct {
	name string
	mk   func() *protocol.Response
	want func(v resp.Value) string
}

func expectKind(kinds string, text string, exact bool) func(resp.Value) string {
	return func(v resp.Value) string {
		if !strings.ContainsRune(kinds, rune(v.Kind)) || v.Nil || exact && v.Str != text {
			return fmt.Sprintf("parses as %s, want %s %q", v, kinds, clipText([]byte(text)))
		}
		return ""
	}
}

func expectItem(it *protocol.ResponseItem) func(resp.Value) string {
	switch it.Type {
	case protocol.TypeSimpleStrings:
		s := it.Value.(string)
		plain := !strings.ContainsAny(s, "\r\n")
		return func(v resp.Value) string {
			if v.Kind == '$' && !v.Nil && v.Str == s { // a text with line breaks as a bulk string
				return ""
			}
			return expectKind("+", s, plain)(v)
		}
	case protocol.TypeErrors:
		s := it.Value.(error).Error()
		return expectKind("-", s, !strings.ContainsAny(s, "\r\n"))
	case protocol.TypeIntegers:
		n := it.Value.(int64)
		return func(v resp.Value) string {
			if !v.IsInt(n) {
				return fmt.Sprintf("parses as %s, want integer %d", v, n)
			}
			return ""
		}
	}
	switch x := it.Value.(type) {
	case nil:
		return func(v resp.Value) string {
			if !v.IsNil() {
				return fmt.Sprintf("parses as %s, want nil", v)
			}
			return ""
		}
	case string:
		return expectKind("$", x, true)
	case int64:
		return expectKind("$", strconv.FormatInt(x, 10), true)
	case float64:
		return func(v resp.Value) string {
			f, err := strconv.ParseFloat(v.Str, 64)
			if v.Kind != '$' || v.Nil || err != nil || f != x && !(f != f && x != x) {
				return fmt.Sprintf("parses as %s, want %v", v, x)
			}
			return ""
		}
	}
	panic("kind")
}

func expectItems(items []*protocol.ResponseItem) func(resp.Value) string {
	return func(v resp.Value) string {
		if v.Kind != '*' || v.Nil && len(items) > 0 || len(v.Arr) != len(items) {
			return fmt.Sprintf("parses as %s, want an array of %d", clipText([]byte(v.String())), len(items))
		}
		for i, it := range items {
			if w := expectItem(it)(v.Arr[i]); w != "" {
				return fmt.Sprintf("item %d %s", i+1, w)
			}
		}
		return ""
	}
}

func registerC03() {
	texts := []string{"", "OK", "a b", "PONG", "\r", "\n", "a\r\nb", "x\n", "\r\n", "+OK", "$-1", "é", "\x00", "\xff", strings.Repeat("t", 100), "ERR no", "-1", "a\r\n+OK\r\nb"}
	nums := []int64{0, 1, -1, 9, 10, -10, 42, math.MaxInt64, math.MinInt64, 1 << 32, -1 << 31}
	floats := []float64{0, 1, -1, 0.1, 1.5, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 3.0000000000000004, math.Inf(1), math.Inf(-1), 100, 1e6}
	item := func(t protocol.ProtocolDataType, v interface{}) *protocol.ResponseItem {
		return &protocol.ResponseItem{Value: v, Type: t}
	}
	// earlier replies whose encodings nothing may change
	check := func(mk func() *protocol.Response, want func(resp.Value) string) func() string {
		return func() string {
			other := protocol.NewResponseWithBulkString("other text, rather long")
			o1 := other.Encode()
			oc := string(o1)
			r := mk()
			b1 := r.Encode()
			c1 := string(b1)
			v, err := resp.One(b1)
			if err != nil {
				return fmt.Sprintf("%q is not one RESP value: %v", clipText(b1), err)
			}
			if w := want(v); w != "" {
				return fmt.Sprintf("%q %s", clipText(b1), w)
			}
			b2 := r.Encode()
			if string(b2) != c1 {
				return fmt.Sprintf("encodes as %q the first time, %q the second", clipText([]byte(c1)), clipText(b2))
			}
			other.Encode()
			if string(b1) != c1 || string(o1) != oc {
				return fmt.Sprintf("the encoded reply %q later became %q", clipText([]byte(c1)), clipText(b1))
			}
			for i := range b2 {
				b2[i] = 'X'
			}
			if string(b1) != c1 || string(r.Encode()) != c1 {
				return "two encodings share their bytes"
			}
			return ""
		}
	}
	var single []*protocol.ResponseItem
	for _, t := range texts {
		single = append(single, item(protocol.TypeSimpleStrings, t), item(protocol.TypeErrors, errors.New(t)), item(protocol.TypeBulkStrings, t))
	}
	for _, n := range nums {
		single = append(single, item(protocol.TypeIntegers, n), item(protocol.TypeBulkStrings, n))
	}
	for _, f := range floats {
		single = append(single, item(protocol.TypeBulkStrings, f))
	}
	single = append(single, item(protocol.TypeBulkStrings, nil))
	show := func(it *protocol.ResponseItem) string { return fmt.Sprintf("%d:%q", it.Type, fmt.Sprint(it.Value)) }
	enum{prop: "C03", name: "replies/single", suite: "codec", bound: tieredText{"every single reply through every constructor: 18 texts as simple string, error and bulk string, 11 integers, nil, empty array, every bulk length 0..1100 and around powers of two, every byte"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			for _, it := range single {
				it := it
				var ctor func() *protocol.Response
				switch {
				case it.Type == protocol.TypeSimpleStrings:
					ctor = func() *protocol.Response { return protocol.NewResponseWithSimpleString(it.Value.(string)) }
				case it.Type == protocol.TypeErrors:
					ctor = func() *protocol.Response { return protocol.NewResponseWithError(it.Value.(error)) }
				case it.Type == protocol.TypeIntegers:
					ctor = func() *protocol.Response { return protocol.NewResponseWithInteger(it.Value.(int64)) }
				case it.Value == nil:
					ctor = protocol.NewResponseWithNilBulk
				default:
					if s, ok := it.Value.(string); ok {
						ctor = func() *protocol.Response { return protocol.NewResponseWithBulkString(s) }
					}
				}
				if ctor != nil && !emit(func() string { return "constructor " + show(it) }, check(ctor, expectItem(it))) {
					return
				}
				if !emit(func() string { return "item " + show(it) }, check(func() *protocol.Response {
					r := protocol.NewResponse()
					r.Items = append(r.Items, &protocol.ResponseItem{Value: it.Value, Type: it.Type})
					return r
				}, expectItem(it))) {
					return
				}
				if !emit(func() string { return "array of one " + show(it) }, check(func() *protocol.Response {
					r := protocol.NewResponse()
					r.Items = append(r.Items, &protocol.ResponseItem{Value: it.Value, Type: it.Type})
					r.SetIsArray()
					return r
				}, expectItems([]*protocol.ResponseItem{it}))) {
					return
				}
			}
			empty := func(v resp.Value) string {
				if !v.Empty() || v.Kind != '*' {
					return "parses as " + v.String() + ", want an empty array"
				}
				return ""
			}
			if !emit(func() string { return "empty array" }, check(protocol.NewResponseWithEmptyArray, empty)) ||
				!emit(func() string { return "array without items" }, check(func() *protocol.Response { return protocol.NewResponse(true) }, empty)) ||
				!emit(func() string { return "AppendBulkStrings()" }, check(func() *protocol.Response { return protocol.NewResponse(true).AppendBulkStrings() }, empty)) ||
				!emit(func() string { return "AppendBulkInterfaces()" }, check(func() *protocol.Response { return protocol.NewResponse(true).AppendBulkInterfaces() }, empty)) ||
				!emit(func() string { return "no items" }, check(func() *protocol.Response { return protocol.NewResponse() }, expectItem(item(protocol.TypeBulkStrings, nil)))) {
				return
			}
			var lens []int
			for i := 0; i <= 1100; i++ {
				lens = append(lens, i)
			}
			for p := 11; p <= 20; p++ {
				lens = append(lens, 1<<p-1, 1<<p, 1<<p+1)
			}
			lens = append(lens, 9999, 10000, 99999, 100000, 999999, 1000000)
			body := make([]byte, 1<<20+2)
			for i := range body {
				body[i] = byte(i*11 + i>>8)
			}
			for _, n := range lens {
				s := string(body[:n])
				it := item(protocol.TypeBulkStrings, s)
				if !emit(func() string { return fmt.Sprintf("bulk of %d", len(s)) }, check(func() *protocol.Response { return protocol.NewResponseWithBulkString(s) }, expectItem(it))) ||
					!emit(func() string { return fmt.Sprintf("array with a bulk of %d", len(s)) }, check(func() *protocol.Response {
						return protocol.NewResponse(true).AppendBulkStrings("x", s, "y")
					}, expectItems([]*protocol.ResponseItem{item(protocol.TypeBulkStrings, "x"), it, item(protocol.TypeBulkStrings, "y")}))) {
					return
				}
				if n > 5000 {
					continue
				}
				x := strings.Repeat("e", n)
				if !emit(func() string { return fmt.Sprintf("simple string of %d", len(s)) }, check(func() *protocol.Response { return protocol.NewResponseWithSimpleString(x) }, expectItem(item(protocol.TypeSimpleStrings, x)))) ||
					!emit(func() string { return fmt.Sprintf("error of %d", len(s)) }, check(func() *protocol.Response { return protocol.NewResponseWithError(errors.New(x)) }, expectItem(item(protocol.TypeErrors, errors.New(x))))) {
					return
				}
			}
			for b := 0; b < 256; b++ {
				s := string([]byte{byte(b)})
				for _, t := range []protocol.ProtocolDataType{protocol.TypeBulkStrings, protocol.TypeSimpleStrings, protocol.TypeErrors} {
					for _, x := range []string{s, "a" + s, s + "a", s + s} {
						it := item(t, x)
						if t == protocol.TypeErrors {
							it.Value = errors.New(x)
						}
						if !emit(func() string { return "byte " + show(it) }, check(func() *protocol.Response {
							r := protocol.NewResponse()
							r.Items = append(r.Items, it)
							return r
						}, expectItem(it))) {
							return
						}
					}
				}
			}
			step := int64(1)
			for n := int64(0); n >= 0 && n < math.MaxInt64/10; n += step {
				for _, x := range []int64{n, -n, n*10 + 9, -n*10 - 9} {
					x := x
					if !emit(func() string { return fmt.Sprint("integer ", x) }, check(func() *protocol.Response { return protocol.NewResponseWithInteger(x) }, expectItem(item(protocol.TypeIntegers, x)))) {
						return
					}
				}
				if n >= 1100*step {
					step *= 10
				}
			}
		}}.register()
	kinds := func() []*protocol.ResponseItem {
		return []*protocol.ResponseItem{
			item(protocol.TypeBulkStrings, ""), item(protocol.TypeBulkStrings, "a"), item(protocol.TypeBulkStrings, nil), item(protocol.TypeBulkStrings, "\r\n$1\r\nx\r\n"), item(protocol.TypeBulkStrings, int64(-5)), item(protocol.TypeBulkStrings, 2.5), item(protocol.TypeBulkStrings, "0123456789"),
			item(protocol.TypeIntegers, int64(7)), item(protocol.TypeIntegers, int64(-1)), item(protocol.TypeSimpleStrings, "OK"), item(protocol.TypeSimpleStrings, "a\r\nb"), item(protocol.TypeErrors, errors.New("ERR x")), item(protocol.TypeErrors, errors.New("bad\r\n$5")),
		}
	}()
	enum{prop: "C03", name: "replies/arrays", suite: "codec", bound: tieredText{"all arrays of up to 5 items of 13 kinds, through AppendBulkInterfaces or AppendBulkStrings where they apply, and every array length up to 1100", "all arrays of up to 6 items of 13 kinds"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			max := 5
			if tier == "thorough" {
				max = 6
			}
			var rec func(items []*protocol.ResponseItem) bool
			rec = func(items []*protocol.ResponseItem) bool {
				if len(items) > 0 {
					its := append([]*protocol.ResponseItem{}, items...)
					allBulk, allStr := true, true
					var vals []interface{}
					var strs []string
					for _, it := range its {
						allBulk = allBulk && it.Type == protocol.TypeBulkStrings
						s, ok := it.Value.(string)
						allStr = allStr && allBulk && ok
						vals, strs = append(vals, it.Value), append(strs, s)
					}
					name := func(k string) func() string {
						return func() string {
							var n []string
							for _, it := range its {
								n = append(n, show(it))
							}
							return k + " " + strings.Join(n, " ")
						}
					}
					if !emit(name("items"), check(func() *protocol.Response {
						r := protocol.NewResponse(true)
						r.Items = append(r.Items, its...)
						return r
					}, expectItems(its))) {
						return false
					}
					if allBulk && !emit(name("interfaces"), check(func() *protocol.Response { return protocol.NewResponse(true).AppendBulkInterfaces(vals...) }, expectItems(its))) {
						return false
					}
					if allStr && !emit(name("strings"), check(func() *protocol.Response { return protocol.NewResponse(true).AppendBulkStrings(strs...) }, expectItems(its))) {
						return false
					}
				}
				if len(items) == max {
					return true
				}
				for _, k := range kinds {
					if !rec(append(items, k)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
			for _, n := range append([]int{4096, 9999, 10000, 65536}, seqInts(1, 1100)...) {
				n := n
				var strs []string
				var its []*protocol.ResponseItem
				for i := 0; i < n; i++ {
					strs = append(strs, strconv.Itoa(i%13))
					its = append(its, item(protocol.TypeBulkStrings, strs[i]))
				}
				if !emit(func() string { return fmt.Sprintf("array of %d", n) }, check(func() *protocol.Response { return protocol.NewResponse(true).AppendBulkStrings(strs...) }, expectItems(its))) {
					return
				}
			}
		}}.register()
}

func seqInts(a, b int) (o []int) {
	for ; a <= b; a++ {
		o = append(o, a)
	}
	return
}
