package suites

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	gen "github.com/yusank/godis/zzverif/mains/gen_redis_cmd"
	"github.com/yusank/godis/zzverif/vos"
)

// tableOf reads a generated file: the pairs of a name and a function it registers in whatever form (an assignment to an
// element, a call, an entry of a composite literal), sorted.
func tableOf(path string) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != "redis" {
		return nil, fmt.Errorf("package %s", f.Name.Name)
	}
	var out []string
	entry := func(key, fn ast.Expr) {
		k, ok := key.(*ast.BasicLit)
		if !ok || k.Kind != token.STRING {
			return
		}
		if u, ok := fn.(*ast.CallExpr); ok && len(u.Args) == 1 { // a conversion or a wrapper
			fn = u.Args[0]
		}
		v, ok := fn.(*ast.Ident)
		if !ok {
			err = fmt.Errorf("an entry is not a name and a function")
			return
		}
		s, e := strconv.Unquote(k.Value)
		if e != nil {
			err = e
		}
		out = append(out, s+"="+v.Name)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.AssignStmt:
			for i, l := range n.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok && len(n.Lhs) == len(n.Rhs) {
					entry(ix.Index, n.Rhs[i])
				}
			}
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i += 2 {
				entry(n.Args[i], n.Args[i+1])
			}
		case *ast.KeyValueExpr:
			entry(n.Key, n.Value)
		case *ast.CompositeLit:
			if len(n.Elts) == 2 {
				entry(n.Elts[0], n.Elts[1])
			}
		}
		return true
	})
	sort.Strings(out)
	return out, err
}

// generate runs the generator on a file; failed tells that it panicked.
func generate(path string) (failed string) {
	defer func() {
		if r := recover(); r != nil {
			failed = fmt.Sprint(r)
		}
	}()
	vos.Args = []string{"gen_redis_cmd", path}
	gen.VerifMain()
	return ""
}

type genStyle struct {
	name string
	text func(fn string) string
	cmd  func(fn string) string
}

func genStyles() []genStyle {
	low := strings.ToLower
	com := func(f string) func(string) string {
		return func(fn string) string { return strings.ReplaceAll(f, "F", fn) }
	}
	return []genStyle{
		{"none", com(""), low},
		{"// F .", com("// F .\n"), low},
		{"// cmdF.", com("// cmdF.\n"), func(fn string) string { return "cmd" + low(fn) }},
		{"//CmdF", com("//CmdF\n"), func(fn string) string { return "cmd" + low(fn) }},
		{"// cmdF . ", com("// cmdF . \n"), nil}, // a trailing blank: the dot may or may not be dropped
		{"//", com("//\n"), low},
		{"// ", com("// \n"), low},
		{"detached", com("// other .\n\n"), low},
		{"helper comment", com("// other .\nvar vF = 1\n\n"), low},
		{"// cmd.F", com("// cmd.F\n"), func(fn string) string { return "cmd." + low(fn) }},
		{"//\tcmdF\t.", com("//\tcmdF\t.\n"), func(fn string) string { return "cmd" + low(fn) }},
	}
}

const genSig = "(c *Command) (*protocol.Response, error) {"

func init() {
	type item struct {
		name string
		text string
		cmd  []string // acceptable entries, nil: none
	}
	fns := []string{"zAdd", "hSet2", "get", "X_y"}
	items := func(i int) []item {
		fn := fns[i]
		var out []item
		for _, st := range genStyles() {
			cmds := []string{"?"}
			if st.cmd != nil {
				cmds = []string{st.cmd(fn) + "=" + fn}
			}
			out = append(out, item{"handler " + st.name, "\n" + st.text(fn) + "func " + fn + genSig + "\n\treturn nil, nil\n}\n", cmds})
		}
		plain := []string{strings.ToLower(fn) + "=" + fn}
		return append(out,
			item{"handler right after", "func " + fn + genSig + "\n\treturn nil, nil\n}\n", plain},
			item{"handler on one line", "\nfunc " + fn + genSig + " return nil, nil }\n", plain},
			item{"handler with wide spaces", "\nfunc  " + fn + "(c *Command)  (*protocol.Response,  error) {\n\treturn nil, nil\n}\n", []string{"?", plain[0]}},
			item{"handler around a comment", "\nfunc " + fn + genSig + "\n\t// func gone" + genSig + "\n\treturn nil, nil\n}\n", plain},
			item{"handler ended by a comment", "\nfunc " + fn + genSig + "\n\treturn nil, nil\n\t// other .\n}\n", plain},
			item{"helper", "\n// " + fn + " .\nfunc " + fn + "Helper(k string) (int, error) {\n\treturn 0, nil\n}\n", nil},
			item{"almost", "\nfunc " + fn + "Almost(d *Commands) (*protocol.Response, error) {\n\treturn nil, nil\n}\n", nil},
			item{"method", "\n// " + fn + " .\nfunc (t *T) " + fn + genSig + "\n\treturn nil, nil\n}\n", nil},
			item{"removed", "\n// func " + fn + genSig + "\n//\treturn nil, nil\n// }\n\n", nil},
			item{"variable", "\nvar v" + fn + " = func" + genSig + "\n\treturn nil, nil\n}\n", nil},
		)
	}
	header := "package redis\n\nimport (\n\t\"github.com/yusank/godis/protocol\"\n)\n\n//go:generate gen_redis_cmd \"./x.go\"\n\n// some comment\n\n"
	scratch := func() (string, func()) {
		d, err := os.MkdirTemp("", "gen")
		if err != nil {
			panic(err)
		}
		return d, func() { os.RemoveAll(d) }
	}
	check := func(path, text string, want []string, mayFail bool) string {
		out := strings.TrimSuffix(path, ".go") + ".cmd.go"
		os.Remove(out)
		if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
			panic(err)
		}
		if f := generate(path); f != "" {
			if mayFail {
				return ""
			}
			return "the generator failed: " + f
		}
		got, err := tableOf(out)
		if err != nil {
			return "the generated file is wrong: " + err.Error()
		}
		if b, err := os.ReadFile(path); err != nil || string(b) != text {
			return "the source file was changed"
		}
		var g []string
		free := map[string]bool{}
		for _, w := range want {
			if strings.HasPrefix(w, "?") {
				free[w[1:]] = true
			}
		}
		var w []string
		for _, x := range want {
			if x[0] != '?' {
				w = append(w, x)
			}
		}
		for _, x := range got {
			if fn := x[strings.LastIndexByte(x, '=')+1:]; free[fn] {
				free[fn] = false // one entry under any name
				continue
			}
			g = append(g, x)
		}
		sort.Strings(w)
		if strings.Join(g, " ") != strings.Join(w, " ") {
			return fmt.Sprintf("the table is %v, want %v", g, w)
		}
		return ""
	}
	enum{prop: "C27", name: "generator/files", suite: "generator", bound: tieredText{"all source files of up to 3 declarations out of 21 kinds (also with CRLF line ends and without a final line end), 8 paths, lines of 1 to 200000 bytes", "all source files of up to 4 declarations out of 21 kinds"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			dir, done := scratch()
			defer done()
			max := 3
			if tier == "thorough" {
				max = 4
			}
			var rec func(n int, text, name string, want []string) bool
			rec = func(n int, text, name string, want []string) bool {
				for v, variant := range []string{"", " CRLF", " without final line end"} {
					t := header + text
					if v == 1 {
						t = strings.ReplaceAll(t, "\n", "\r\n")
					}
					if v == 2 {
						t = strings.TrimRight(t, "\n")
					}
					if v > 0 && n > 1 {
						continue
					}
					variant := variant
					if !emit(func() string { return name + variant }, func() string { return check(dir+"/x.go", t, want, false) }) {
						return false
					}
				}
				if n == max {
					return true
				}
				for _, it := range items(n) {
					w := append([]string{}, want...)
					for _, x := range it.cmd {
						if x == "?" {
							x = "?" + fns[n]
						}
						w = append(w, x)
					}
					if len(it.cmd) == 2 {
						w = w[:len(w)-1]
					}
					if !rec(n+1, text+it.text, name+" / "+it.name, w) {
						return false
					}
				}
				return true
			}
			if !rec(0, "", "", nil) {
				return
			}
			two := items(0)[1].text + items(1)[0].text
			both := []string{"zadd=zAdd", "hset2=hSet2"}
			for _, p := range []string{"a/x.go", "a.go/x.go", "a.go.d/x.go", "x.go.go", "cmd.go", "xcmd.go", "dotgo.go", "a.cmd/x.go", "x_test2.go"} {
				path := filepath.Join(dir, "paths", p)
				os.MkdirAll(filepath.Dir(path), 0o700)
				p := p
				if !emit(func() string { return "path " + p }, func() string { return check(path, header+two, both, false) }) {
					return
				}
				os.RemoveAll(filepath.Join(dir, "paths"))
			}
			for _, n := range []int{1, 100, 4000, 4096, 65530, 65535, 65536, 65537, 70000, 200000} {
				for pos, text := range []string{header + "// " + strings.Repeat("x", n) + "\n\n" + two, header + two + "// " + strings.Repeat("x", n) + "\n", header + items(0)[1].text + "\nvar long = \"" + strings.Repeat("y", n) + "\"\n" + items(1)[0].text} {
					n, pos, text := n, pos, text
					if !emit(func() string { return fmt.Sprintf("line of %d bytes at %d", n, pos) }, func() string { return check(dir+"/x.go", text, both, n > 60000) }) {
						return
					}
				}
			}
			// many handlers
			for _, n := range []int{20, 300} {
				n := n
				var b strings.Builder
				var want []string
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "\nfunc h%d%s\n\treturn nil, nil\n}\n", i, genSig)
					want = append(want, fmt.Sprintf("h%d=h%d", i, i))
				}
				if !emit(func() string { return fmt.Sprintf("%d handlers", n) }, func() string { return check(dir+"/x.go", header+b.String(), want, false) }) {
					return
				}
			}
		}}.register()
	enum{prop: "C27", name: "generator/checked-in", suite: "generator", bound: tieredText{"every handler source file of the repository that has a checked-in table"},
		gen: func(tier string, emit func(func() string, func() string) bool) {
			repo := os.Getenv("VERIF_REPO")
			if repo == "" {
				repo = "/repo"
			}
			dir, done := scratch()
			defer done()
			files, _ := filepath.Glob(repo + "/redis/*.cmd.go")
			sort.Strings(files)
			for _, f := range files {
				f := f
				if !emit(func() string { return filepath.Base(f) }, func() string {
					want, err := tableOf(f)
					if err != nil {
						return err.Error()
					}
					src := strings.TrimSuffix(f, ".cmd.go") + ".go"
					b, err := os.ReadFile(src)
					if err != nil {
						return ""
					}
					return check(filepath.Join(dir, filepath.Base(src)), string(b), want, false)
				}) {
					return
				}
			}
		}}.register()
}
