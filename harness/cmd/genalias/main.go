// genalias writes a file re-exporting every exported identifier of a std package except the given ones.
// usage: genalias <pkgpath> <outpkg> [skip...]
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"sort"
)

func main() {
	path, out := os.Args[1], os.Args[2]
	skip := map[string]bool{}
	for _, s := range os.Args[3:] {
		skip[s] = true
	}
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	fmt.Printf("// Code generated by genalias from package %s; DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", path, out, path)
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			fmt.Printf("type %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams() != nil {
				continue
			}
			fmt.Printf("var %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Printf("var %s = real.%s\n", n, n)
		case *types.Const:
			fmt.Printf("const %s = real.%s\n", n, n)
		}
	}
}
