// Command instr writes an instrumented copy of a Go module's packages for use with go build -overlay.
//
//	instr -repo /repo -out DIR -modfile MOD -harness DIR [-tags t] root...
//
// It rewrites language-level concurrency and nondeterminism only (see DESIGN.md) and never refers to
// the names of functions of the module under test.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"instr/astutil"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	repo    = flag.String("repo", "/repo", "module under test")
	out     = flag.String("out", "", "output directory")
	modfile = flag.String("modfile", "", "alternative go.mod")
	harness = flag.String("harness", "", "harness source directory")
	tags    = flag.String("tags", "", "build tags")
)

var shims = map[string]string{
	"sync":                          "vsync",
	"sync/atomic":                   "vatomic",
	"context":                       "vcontext",
	"time":                          "vtime",
	"math/rand":                     "vrand",
	"math/rand/v2":                  "vrandv2",
	"log":                           "vlog",
	"fmt":                           "vfmt",
	"net":                           "vnet",
	"os":                            "vos",
	"os/signal":                     "vsignal",
	"runtime":                       "vruntime",
	"github.com/panjf2000/gnet":     "vgnet",
	"github.com/panjf2000/gnet/pkg/pool/goroutine": "vpool",
}

type site struct {
	Pkg, File string
	Line      int
	Func      string
}

var sites []site

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	roots := flag.Args()
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,Imports,Standard,Module,Error", "-modfile", *modfile}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	ob, err := cmd.Output()
	if err != nil {
		fatal("go list: %v\n%s", err, eb.String())
	}
	var order []*listPkg
	byPath := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(ob))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		order = append(order, p)
		byPath[p.ImportPath] = p
	}
	mod := modulePath()
	zz := mod + "/zzverif"
	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := checked[path]; ok {
			return p, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(path)
	})
	overlay := map[string]string{}
	var regs []string
	for _, p := range order {
		if p.Module == nil || p.Module.Path != mod {
			continue
		}
		inst := &pkgInst{ntype: map[ast.Node]types.Type{}, p: p, fset: fset, zz: zz, mod: mod}
		inst.load(imp)
		checked[p.ImportPath] = inst.pkg
		inst.rewrite()
		dstDir := filepath.Join(*out, "src", strings.TrimPrefix(p.ImportPath, mod))
		os.MkdirAll(dstDir, 0o755)
		target := p.Dir
		ipath := p.ImportPath
		if p.Name == "main" {
			// becomes an importable package below zzverif/mains
			base := filepath.Base(p.ImportPath)
			target = filepath.Join(*repo, "zzverif", "mains", base)
			ipath = zz + "/mains/" + base
			inst.pkgName = "main_" + strings.NewReplacer("-", "_", ".", "_").Replace(base)
		}
		for i, f := range inst.files {
			var buf bytes.Buffer
			if inst.pkgName != "" {
				f.Name.Name = inst.pkgName
			}
			if cs := inst.constraints[i]; cs != "" && inst.pkgName == "" {
				buf.WriteString(cs + "\n\n")
			}
			if err := format.Node(&buf, fset, f); err != nil {
				fatal("print %s: %v", p.GoFiles[i], err)
			}
			dst := filepath.Join(dstDir, p.GoFiles[i])
			os.WriteFile(dst, buf.Bytes(), 0o644)
			overlay[filepath.Join(target, p.GoFiles[i])] = dst
		}
		gen := filepath.Join(dstDir, "zz_verif_gen.go")
		os.WriteFile(gen, inst.gen(), 0o644)
		overlay[filepath.Join(target, "zz_verif_gen.go")] = gen
		regs = append(regs, ipath)
	}
	// registry
	var b strings.Builder
	b.WriteString("package registry\n\nimport (\n")
	for i, r := range regs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, r)
	}
	fmt.Fprintf(&b, "\t%q\n)\n\n", zz+"/vsched")
	b.WriteString("type Pkg struct {\n\tPath string\n\tReset func()\n\tVars func() []any\n}\n\nvar Pkgs = []Pkg{\n")
	for i, r := range regs {
		fmt.Fprintf(&b, "\t{%q, p%d.VerifReset, p%d.VerifVars},\n", strings.TrimPrefix(r, mod+"/"), i, i)
	}
	b.WriteString("}\n\ntype Site struct {\n\tPkg, File string\n\tLine int\n\tFunc string\n}\n\nvar Sites = []Site{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t{%q, %q, %d, %q},\n", strings.TrimPrefix(s.Pkg, mod+"/"), s.File, s.Line, s.Func)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() { vsched.SiteHits = make([]uint32, %d) }\n", len(sites)+1)
	rg := filepath.Join(*out, "src", "zz_registry.go")
	os.WriteFile(rg, []byte(b.String()), 0o644)
	overlay[filepath.Join(*repo, "zzverif", "registry", "registry.go")] = rg
	// harness sources
	filepath.Walk(*harness, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(*harness, path)
			overlay[filepath.Join(*repo, "zzverif", rel)] = path
		}
		return nil
	})
	ov, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func modulePath() string {
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	fatal("no module path")
	return ""
}

type pkgInst struct {
	p           *listPkg
	fset        *token.FileSet
	zz, mod     string
	files       []*ast.File
	constraints []string
	info        *types.Info
	pkg         *types.Package
	inits       []string
	pkgName     string
	tmp         int
	ntype       map[ast.Node]types.Type
	resetBody   []string
	vars        []string
	genImports  map[string]string
}

func (k *pkgInst) load(imp types.Importer) {
	for _, fn := range k.p.GoFiles {
		path := filepath.Join(k.p.Dir, fn)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		f, err := parser.ParseFile(k.fset, path, src, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		k.variable(f)
		k.files = append(k.files, f)
		cs := ""
		for _, l := range strings.Split(string(src), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "package ") {
				break
			}
			if constraint.IsGoBuild(l) {
				cs = l
			}
		}
		k.constraints = append(k.constraints, cs)
	}
	k.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, GoVersion: "go1.21"}
	pkg, err := conf.Check(k.p.ImportPath, k.fset, k.files, k.info)
	if err != nil {
		fatal("typecheck %s: %v", k.p.ImportPath, err)
	}
	k.pkg = pkg
}

// buildSwitches are constants chosen by build tags: they become variables so that one binary covers the builds
var buildSwitches = map[string]string{"/debug": "DEBUG", "/server": "Version"}

func (k *pkgInst) variable(f *ast.File) {
	name, ok := buildSwitches[strings.TrimPrefix(k.p.ImportPath, k.mod)]
	if !ok {
		return
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.CONST && len(gd.Specs) == 1 {
			if vs := gd.Specs[0].(*ast.ValueSpec); len(vs.Names) == 1 && vs.Names[0].Name == name {
				gd.Tok = token.VAR
			}
		}
	}
}

func (k *pkgInst) fresh(p string) string { k.tmp++; return fmt.Sprintf("_v%s%d", p, k.tmp) }

func vs(name string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent(name)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func id(n string) *ast.Ident                         { return ast.NewIdent(n) }
func intLit(n int) ast.Expr                          { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (k *pkgInst) typ(e ast.Expr) types.Type {
	if tv, ok := k.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := k.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := k.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// findSpec locates the value specification of an initialiser if it is in f.
func (k *pkgInst) findSpec(f *ast.File, in *types.Initializer) (*ast.ValueSpec, int) {
	pos := in.Lhs[0].Pos()
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, s := range gd.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if n.Pos() == pos {
					if len(vs.Values) == 1 {
						return vs, 0
					}
					return vs, i
				}
			}
		}
	}
	return nil, 0
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (k *pkgInst) isBuiltin(e ast.Expr, name string) bool {
	i, ok := unparen(e).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = k.info.Uses[i].(*types.Builtin)
	return ok
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (k *pkgInst) rewrite() {
	// package variables and initialisers first (they refer to original expressions)
	for fi, f := range k.files {
		k.rewriteFile(fi, f)
	}
}

func (k *pkgInst) rewriteFile(fi int, f *ast.File) {
	// package-level variable initialisation order needs expressions; handled in gen() through helper functions
	// rename init functions and main
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil {
			continue
		}
		if fd.Name.Name == "init" {
			n := fmt.Sprintf("verifInit%d_%d", fi, len(k.inits))
			fd.Name = id(n)
			k.inits = append(k.inits, n)
		}
		if fd.Name.Name == "main" && k.p.Name == "main" {
			fd.Name = id("VerifMain")
		}
	}
	// select statements: collect comm statements so that the generic receive rewriting skips them
	commStmt := map[ast.Stmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CommClause); ok && c.Comm != nil {
			commStmt[c.Comm] = true
		}
		return true
	})
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.RangeStmt:
			k.ntype[n] = k.typ(n.X)
		case *ast.CallExpr:
			if len(n.Args) == 1 && k.isBuiltin(n.Fun, "len") {
				k.ntype[n] = k.typ(n.Args[0])
			}
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				// two-value forms are handled by their statement (they see the call produced here)
				c.Replace(call(vs("Recv"), n.X))
			}
		case *ast.AssignStmt:
			if !commStmt[n] && len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				fixRecv2(n.Rhs)
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				fixRecv2(n.Values)
			}
		case *ast.ReturnStmt, *ast.ExprStmt:
		case *ast.SendStmt:
			if !commStmt[n] {
				c.Replace(&ast.ExprStmt{X: call(call(vs("Sender"), n.Chan), n.Value)})
			}
		case *ast.CallExpr:
			if k.isBuiltin(n.Fun, "close") && len(n.Args) == 1 {
				n.Fun = vs("Close")
			} else if k.isBuiltin(n.Fun, "len") && len(n.Args) == 1 && isChan(k.ntype[n]) {
				n.Fun = vs("Len")
			}
		case *ast.GoStmt:
			c.Replace(k.goStmt(n))
		case *ast.RangeStmt:
			if s := k.rangeStmt(n); s != nil {
				c.Replace(s)
			}
		case *ast.SelectStmt:
			c.Replace(k.selectStmt(n))
		}
		return true
	}
	astutil.Apply(f, pre, post)
	// statement points
	for _, d := range f.Decls {
		fname := ""
		if fd, ok := d.(*ast.FuncDecl); ok {
			fname = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				fname = recvName(fd.Recv.List[0].Type) + "." + fname
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				if !switchBody[b] {
					b.List = k.points(b.List, fname)
				}
				if len(b.List) == 0 && !switchBody[b] && !noEmpty[b] {
					b.List = []ast.Stmt{k.point(b.Pos(), fname)}
				}
			case *ast.CaseClause:
				b.Body = k.points(b.Body, fname)
			case *ast.SwitchStmt:
				switchBody[b.Body] = true
			case *ast.TypeSwitchStmt:
				switchBody[b.Body] = true
			case *ast.SelectStmt:
				switchBody[b.Body] = true
			case *ast.CommClause:
				b.Body = k.points(b.Body, fname)
			}
			return true
		})
	}
	// re-initialisers of package variables declared in this file
	for i, in := range k.info.InitOrder {
		spec, vi := k.findSpec(f, in)
		if spec == nil {
			continue
		}
		as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{spec.Values[vi]}}
		for _, v := range in.Lhs {
			as.Lhs = append(as.Lhs, id(v.Name()))
		}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: id(fmt.Sprintf("verifSet%d", i)), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{as}}})
	}
	// imports
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok && i.Name == "vsched__" {
				used = true
			}
		}
		return !used
	})
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		if sh, ok := shims[p]; ok {
			if s.Name == nil {
				base := p[strings.LastIndex(p, "/")+1:]
				if p == "math/rand/v2" {
					base = "rand"
				}
				s.Name = id(base)
			}
			s.Path.Value = strconv.Quote(k.zz + "/" + sh)
			s.EndPos = 0
		}
	}
	if used {
		spec := &ast.ImportSpec{Name: id("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(k.zz + "/vsched")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{gd}, f.Decls...)
	}
	f.Comments = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.GenDecl:
			d.Doc = nil
		case *ast.FuncDecl:
			d.Doc = nil
		case *ast.Field:
			d.Doc, d.Comment = nil, nil
		case *ast.ValueSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.TypeSpec:
			d.Doc, d.Comment = nil, nil
		case *ast.ImportSpec:
			d.Doc, d.Comment = nil, nil
		}
		return true
	})
	f.Doc = nil
}

var switchBody = map[*ast.BlockStmt]bool{}
var noEmpty = map[*ast.BlockStmt]bool{}

func recvName(e ast.Expr) string {
	switch t := e.(type) {
	case *ast.StarExpr:
		return recvName(t.X)
	case *ast.Ident:
		return t.Name
	case *ast.IndexExpr:
		return recvName(t.X)
	}
	return "?"
}

func (k *pkgInst) point(pos token.Pos, fn string) ast.Stmt {
	p := k.fset.Position(pos)
	n := len(sites)
	sites = append(sites, site{k.p.ImportPath, filepath.Base(p.Filename), p.Line, fn})
	return &ast.ExprStmt{X: call(vs("P"), intLit(n))}
}

func (k *pkgInst) points(l []ast.Stmt, fn string) []ast.Stmt {
	var o []ast.Stmt
	for _, s := range l {
		if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
			o = append(o, s)
			continue
		}
		pos := s.Pos()
		o = append(o, k.point(pos, fn), s)
	}
	return o
}

func fixRecv2(rhs []ast.Expr) {
	c, ok := unparen(rhs[0]).(*ast.CallExpr)
	if !ok {
		return
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != "Recv" {
		return
	}
	if i, ok := s.X.(*ast.Ident); ok && i.Name == "vsched__" {
		s.Sel = id("Recv2")
		rhs[0] = c
	}
}

func (k *pkgInst) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		return &ast.ExprStmt{X: call(vs("Go"), fl)}
	}
	var decls []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		if tv, ok := k.info.Types[e]; ok && (tv.Value != nil || tv.IsNil()) {
			return e
		}
		n := k.fresh("g")
		decls = append(decls, &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id(n)
	}
	fun := c.Fun
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		fun = bind(c.Fun)
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok {
			if x.Name == "vsched__" {
				break // rewritten builtin
			}
			if _, ok := k.info.Uses[x].(*types.PkgName); ok {
				break // package function
			}
		}
		fun = bind(c.Fun)
	case *ast.Ident:
		switch k.info.Uses[f].(type) {
		case *types.Func, *types.Builtin, *types.TypeName:
		default:
			fun = bind(c.Fun)
		}
	default:
		if tv, ok := k.info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
			break
		}
		if _, ok := c.Fun.(*ast.IndexExpr); ok { // generic instantiation
			break
		}
		fun = bind(c.Fun)
	}
	var args []ast.Expr
	for _, a := range c.Args {
		args = append(args, bind(a))
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}}
	st := &ast.ExprStmt{X: call(vs("Go"), lit)}
	if len(decls) == 0 {
		return st
	}
	return &ast.BlockStmt{List: append(decls, st)}
}

// rangeStmt rewrites ranges over maps and channels; nil: leave alone.
func (k *pkgInst) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	t := k.ntype[n]
	var start string
	switch {
	case isMap(t):
		start = "MapStart"
	case isChan(t):
		start = "ChanStart"
	default:
		return nil
	}
	it := k.fresh("i")
	init := &ast.AssignStmt{Tok: token.DEFINE, Rhs: []ast.Expr{call(vs(start), n.X)}}
	var next *ast.CallExpr
	addr := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }
	isCh := start == "ChanStart"
	if n.Tok == token.DEFINE {
		lk, lv := ast.Expr(id("_")), ast.Expr(id("_"))
		nk, nv := ast.Expr(id("nil")), ast.Expr(id("nil"))
		if !isBlank(n.Key) {
			lk, nk = n.Key, addr(id(n.Key.(*ast.Ident).Name))
		}
		if !isBlank(n.Value) {
			lv, nv = n.Value, addr(id(n.Value.(*ast.Ident).Name))
		}
		if isCh {
			init.Lhs = []ast.Expr{id(it), lk}
			next = call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, nk)
		} else {
			init.Lhs = []ast.Expr{id(it), lk, lv}
			next = call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, nk, nv)
		}
		return &ast.ForStmt{Init: init, Cond: next, Body: n.Body}
	}
	// assignment form or no variables: use temporaries and assign at the top of the body
	tk, tv := k.fresh("k"), k.fresh("v")
	var pre []ast.Stmt
	lk, lv := ast.Expr(id("_")), ast.Expr(id("_"))
	nk, nv := ast.Expr(id("nil")), ast.Expr(id("nil"))
	if !isBlank(n.Key) {
		lk, nk = id(tk), addr(id(tk))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tk)}})
	}
	if !isBlank(n.Value) {
		lv, nv = id(tv), addr(id(tv))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(tv)}})
	}
	if isCh {
		init.Lhs = []ast.Expr{id(it), lk}
		next = call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, nk)
	} else {
		init.Lhs = []ast.Expr{id(it), lk, lv}
		next = call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, nk, nv)
	}
	body := &ast.BlockStmt{List: append(pre, n.Body.List...)}
	return &ast.ForStmt{Init: init, Cond: next, Body: body}
}

func (k *pkgInst) selectStmt(n *ast.SelectStmt) ast.Stmt {
	if len(n.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(vs("BlockForever"))}, &ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}}
	}
	hasDef := "false"
	var lhs, rhs, cs []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	idx := 0
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		v := k.fresh("c")
		lhs = append(lhs, id(v))
		var pre []ast.Stmt
		recvArg := func(e ast.Expr) ast.Expr {
			c, ok := unparen(e).(*ast.CallExpr)
			if !ok || len(c.Args) != 1 {
				fatal("%s: unexpected select case", k.fset.Position(cc.Pos()))
			}
			return c.Args[0]
		}
		switch st := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(vs("NewSend"), st.Chan), st.Value))
		case *ast.ExprStmt:
			rhs = append(rhs, call(vs("NewRecv"), recvArg(st.X)))
		case *ast.AssignStmt:
			rhs = append(rhs, call(vs("NewRecv"), recvArg(st.Rhs[0])))
			as := &ast.AssignStmt{Lhs: st.Lhs, Tok: st.Tok}
			as.Rhs = []ast.Expr{&ast.SelectorExpr{X: id(v), Sel: id("V")}}
			if len(st.Lhs) == 2 {
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: id(v), Sel: id("OK")})
			}
			allBlank := true
			for _, l := range st.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				as.Tok = token.ASSIGN
			}
			pre = append(pre, as)
		default:
			fatal("%s: unexpected select case %T", k.fset.Position(cc.Pos()), st)
		}
		cs = append(cs, id(v))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(idx)}, Body: append(pre, cc.Body...)})
		idx++
	}
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(vs("Select"), append([]ast.Expr{id(hasDef)}, cs...)...)
	return sw
}

// gen writes VerifReset and VerifVars.
func (k *pkgInst) gen() []byte {
	var b bytes.Buffer
	name := k.p.Name
	if k.pkgName != "" {
		name = k.pkgName
	}
	fmt.Fprintf(&b, "package %s\n\nimport vsched__ %q\n\n", name, k.zz+"/vsched")
	var uninit []string
	inited := map[types.Object]bool{}
	for _, in := range k.info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}
	var all []string
	scope := k.pkg.Scope()
	names := scope.Names()
	sort.Strings(names)
	for _, n := range names {
		v, ok := scope.Lookup(n).(*types.Var)
		if !ok {
			continue
		}
		all = append(all, n)
		if !inited[v] {
			uninit = append(uninit, n)
		}
	}
	fmt.Fprintf(&b, "func VerifReset() {\n")
	for _, n := range uninit {
		fmt.Fprintf(&b, "\tvsched__.Zero(&%s)\n", n)
	}
	for i := range k.info.InitOrder {
		fmt.Fprintf(&b, "\tverifSet%d()\n", i)
	}
	for _, n := range k.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "}\n\nfunc VerifVars() []any {\n\t_ = vsched__.P\n\treturn []any{\n")
	for _, n := range all {
		fmt.Fprintf(&b, "\t\t&%s,\n", n)
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	return b.Bytes()
}
