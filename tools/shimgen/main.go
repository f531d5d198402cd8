// generates pass-through re-exports of a std package except overridden names
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

func main() {
	path, out := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, n := range strings.Split(os.Args[3], ",") {
		skip[n] = true
	}
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	p, err := imp.Import(path)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	base := "x"
	name := out[strings.LastIndex(out, "/")+1:]
	fmt.Fprintf(&b, "// Code generated by tools/shimgen. DO NOT EDIT.\n\npackage %s\n\nimport %s %q\n\n", name, base, path)
	names := p.Scope().Names()
	sort.Strings(names)
	n := 0
	for _, nm := range names {
		if !token.IsExported(nm) || skip[nm] {
			continue
		}
		switch o := p.Scope().Lookup(nm).(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = %s.%s\n", nm, base, nm)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = %s.%s\n", nm, base, nm)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = %s.%s\n", nm, base, nm)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = %s.%s\n", nm, base, nm)
		}
		n++
	}
	os.MkdirAll(out, 0755)
	os.WriteFile(out+"/zz_reexport.go", []byte(b.String()), 0644)
	fmt.Println(path, n)
}
