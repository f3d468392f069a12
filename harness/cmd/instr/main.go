// instr prepares the code under test for the bubble: for every non-test Go file of the package directory it
// writes a copy in which (1) the imports "sync", "net" and "crypto/tls" are the vh stand-ins and (2) a
// vrt.Y(site) call precedes every statement, and it writes the overlay file for `go build -overlay`.
// It looks only at syntax, never at names of the package, so it does not depend on how the code is written.
// usage: instr [-noyield] <pkgdir> <outdir>
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var repl = map[string][2]string{
	"sync":       {"sync", "vh/vsync"},
	"net":        {"net", "vh/vnet"},
	"crypto/tls": {"tls", "vh/vtls"},
}

var site int

func yield() ast.Stmt {
	site++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("vrt_"), Sel: ast.NewIdent("Y")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(site)}},
	}}
}

func instrList(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
		case *ast.CaseClause, *ast.CommClause: // body of switch / select: clauses only
		default:
			out = append(out, yield())
		}
		out = append(out, s)
	}
	return out
}

func main() {
	noyield := flag.Bool("noyield", false, "only redirect imports")
	tags := flag.String("tags", "", "build tags, comma separated")
	flag.Parse()
	dir, out := flag.Arg(0), flag.Arg(1)
	dir, err := filepath.Abs(dir)
	if err != nil {
		panic(err)
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	bc := build.Default
	if *tags != "" {
		bc.BuildTags = strings.Split(*tags, ",")
	}
	overlay := map[string]string{}
	for _, en := range ents {
		n := en.Name()
		if en.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := bc.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(3)
		}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if r, ok := repl[p]; ok {
				if im.Name == nil {
					im.Name = ast.NewIdent(r[0])
				}
				im.Path.Value = strconv.Quote(r[1])
			}
		}
		before := site
		if !*noyield {
			ast.Inspect(f, func(nd ast.Node) bool {
				switch x := nd.(type) {
				case *ast.BlockStmt:
					x.List = instrList(x.List)
				case *ast.CaseClause:
					x.Body = instrList(x.Body)
				case *ast.CommClause:
					x.Body = instrList(x.Body)
				}
				return true
			})
		}
		if site > before {
			spec := &ast.ImportSpec{Name: ast.NewIdent("vrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vh/vrt"`}}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		}
		f.Comments = nil
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, fset, f); err != nil {
			panic(err)
		}
		dst := filepath.Join(out, n)
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			panic(err)
		}
		overlay[filepath.Join(dir, n)] = dst
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("instr: %d files, %d yield points\n", len(overlay), site)
}
