package suites

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/yusank/godis/config"
	"github.com/yusank/godis/zzverif/drive"
	"github.com/yusank/godis/zzverif/registry"
	"github.com/yusank/godis/zzverif/vsched"
)

// confSys is the configuration package and the timeout it should be using.
type confSys struct{ eff time.Duration }

func (s *confSys) Roots() []any {
	for _, p := range registry.Pkgs {
		if p.Path == "config" {
			return p.Vars()
		}
	}
	return nil
}
func (s *confSys) Canon() string { return s.eff.String() }

// readers deliver a document in various ways; fault is where they fail, -1 for never.
type chunkReader struct {
	b     []byte
	n     int
	fault int
	err   error
	eof   bool // deliver the end together with the last bytes
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.fault == 0 {
		return 0, r.err
	}
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if r.n > 0 && n > r.n {
		n = r.n
	}
	if r.fault > 0 && n > r.fault {
		n = r.fault
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if r.fault > 0 {
		r.fault -= n
	}
	if r.eof && len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type confDoc struct {
	text string
	// kind: 'v' must load with timeout d (0: unset), 'e' must fail, 'l' either
	kind byte
	d    time.Duration
}

const confDefault = 5 * time.Second

func confDocs() []confDoc {
	sec := time.Second
	return []confDoc{
		{"default_timeout: 3s\n", 'v', 3 * sec},
		{"default_timeout: 1500ms\npersistence: aof\n", 'v', 1500 * time.Millisecond},
		{"persistence: aof\ndefault_timeout: 1h2m3s\n", 'v', time.Hour + 2*time.Minute + 3*sec},
		{"# comment\n\ndefault_timeout: 5s # five\n", 'v', 5 * sec},
		{"default_timeout: 1ns\n", 'v', 1},
		{"---\ndefault_timeout: 10s\n...\n", 'v', 10 * sec},
		{"{default_timeout: 7s, persistence: \"\"}", 'v', 7 * sec},
		{"\"default_timeout\": \"8s\"", 'v', 8 * sec},
		{"persistence: aof\n", 'v', 0},
		{"persistence: \"\"\n", 'v', 0},
		{"{}", 'v', 0},
		{"{}\n", 'v', 0},
		{"default_timeout: -1s\n", 'l', -sec},
		{"default_timeout: 0s\n", 'l', 0},
		{"default_timeout: null\n", 'l', 0},
		{"default_timeout:\n", 'l', 0},
		{"default_timeout: 9\n", 'l', 9},
		{"unknown: 1\ndefault_timeout: 4s\n", 'l', 4 * sec},
		{"default_timeout: 11s\n---\ndefault_timeout: 12s\n", 'l', 11 * sec},
		{"default_timeout: 11s\n---\n[\n", 'l', 11 * sec},
		{"", 'e', 0},
		{"# only a comment\n", 'e', 0},
		{"\n\n", 'e', 0},
		{"[1]\n", 'e', 0},
		{"abc\n", 'e', 0},
		{"default_timeout: soon\n", 'e', 0},
		{"default_timeout: 3x\n", 'e', 0},
		{"default_timeout: [3s]\n", 'e', 0},
		{"default_timeout: {a: 3s}\n", 'e', 0},
		{"default_timeout: 6s\npersistence: [x]\n", 'e', 0},
		{"persistence: {a: b}\ndefault_timeout: 6s\n", 'e', 0},
		{"default_timeout: 6s\ndefault_timeout: 7s\n", 'e', 0},
		{"default_timeout: 6s\n\tpersistence: x\n", 'e', 0},
		{"default_timeout: 6s\npersistence: \"x\n", 'e', 0},
		{"default_timeout: 6s\n}\n", 'e', 0},
		{"default_timeout: 6s\npersistence: *nowhere\n", 'e', 0},
		{"default_timeout: 99999999999999999999s\n", 'e', 0},
		{"default_timeout: 6s\nx: \xff\xfe\n", 'l', 6 * sec},
		{"default_timeout: 6s\npersistence: \x00\n", 'l', 6 * sec},
	}
}

var errReader = errors.New("the reader failed")

func load(name string, d confDoc, mk func() io.Reader) drive.Op {
	return drive.Op{Name: name, Do: func(x drive.Sys) string {
		s := x.(*confSys)
		err := config.InitConfig(mk())
		switch {
		case err == nil && d.kind == 'e':
			return name + ": no error"
		case err != nil && d.kind == 'v':
			return fmt.Sprintf("%s: %v", name, err)
		case err == nil:
			s.eff = d.d
			if d.d == 0 {
				s.eff = confDefault
			}
		}
		for i := 0; i < 2; i++ {
			got := config.GetDefaultTimeout()
			if got != s.eff && !(err == nil && d.kind == 'l' && d.d == 0 && got == 0) {
				return fmt.Sprintf("%s: returned %v, then the timeout is %v, want %v", name, err, got, s.eff)
			}
			if got == 0 {
				s.eff = 0
			}
		}
		return ""
	}}
}

func confOps(tier string) []drive.Op {
	var ops []drive.Op
	for _, d := range confDocs() {
		d := d
		q := fmt.Sprintf("load %q", d.text)
		ops = append(ops, load(q, d, func() io.Reader { return strings.NewReader(d.text) }))
		ops = append(ops, load(q+" byte by byte", d, func() io.Reader { return &chunkReader{b: []byte(d.text), n: 1, fault: -1, eof: true} }))
		for at := 0; at <= len(d.text); at++ {
			at := at
			if tier == "quick" && at > 0 && at < len(d.text) && at != len(d.text)/2 && d.text[at-1] != '\n' {
				continue
			}
			ops = append(ops, drive.Op{Name: fmt.Sprintf("%s failing at %d", q, at), Do: func(x drive.Sys) string {
				s := x.(*confSys)
				before := config.GetDefaultTimeout()
				err := config.InitConfig(&chunkReader{b: []byte(d.text), fault: at, err: errReader})
				after := config.GetDefaultTimeout()
				if err != nil {
					if after != before {
						return fmt.Sprintf("%s failing at %d: reported %v but the timeout changed from %v to %v", q, at, err, before, after)
					}
					return ""
				}
				// at best the loader had all it needs before the failure
				want := d.d
				if want == 0 {
					want = confDefault
				}
				if at == 0 || d.kind == 'e' || after != want && d.kind != 'l' {
					return fmt.Sprintf("%s failing at %d: no error, the timeout is %v", q, at, after)
				}
				s.eff = after
				return ""
			}})
		}
	}
	return ops
}

func init() {
	mk := func(tier string, dl time.Time) *drive.OpBFS {
		return &drive.OpBFS{Name: "config/loads", Deadline: dl, Ops: confOps(tier), Sched: vsched.Config{},
			Fresh: func() drive.Sys {
				drive.Reset()
				s := &confSys{eff: confDefault}
				if d := config.GetDefaultTimeout(); d != confDefault {
					panic(fmt.Sprintf("the timeout is %v before anything is loaded", d))
				}
				return s
			}}
	}
	All = append(All, Config{Prop: "C28", Name: "config/loads",
		Run: func(tier string, dl time.Time) drive.Report {
			b := mk(tier, dl)
			r := b.Run()
			r.Suite = "operations"
			r.Bound = fmt.Sprintf("closure of all sequences of %d loads: %d documents, whole, byte by byte, and failing at a byte", len(b.Ops), len(confDocs()))
			return r
		},
		Replay: func(v *drive.Violation) (string, []string) { return mk("thorough", time.Time{}).Replay(v) }})
}
