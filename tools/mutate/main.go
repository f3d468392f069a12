// mutate lists and applies small syntactic changes to a Go file (development aid: which changes do the checks miss?).
//
//	mutate list FILE            one line per change: index, line, description
//	mutate apply FILE N > OUT   the file with change N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	a, b int
	s    string
}
type mut struct {
	line  int
	desc  string
	edits []edit
}

func main() {
	src, _ := os.ReadFile(os.Args[2])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[2], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	add := func(n ast.Node, d string, e ...edit) {
		ms = append(ms, mut{fs.Position(n.Pos()).Line, d, e})
	}
	quiet := func(s string) bool {
		return strings.HasPrefix(s, "Logger.") || strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "logger.")
	}
	del := func(n ast.Stmt, d string) {
		add(n, d+": "+strings.SplitN(txt(n), "\n", 2)[0], edit{off(n.Pos()), off(n.End()), ""})
	}
	locks := map[string][]ast.Stmt{}
	fn := ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.ExprStmt:
			s := txt(x)
			if quiet(s) {
				return false
			}
			if strings.HasSuffix(s, "ock()") {
				locks[fn] = append(locks[fn], x)
				return false
			}
			del(x, "delete")
		case *ast.DeferStmt:
			s := txt(x)
			if strings.HasSuffix(s, "ock()") {
				locks[fn] = append(locks[fn], x)
				return false
			}
			del(x, "delete")
		case *ast.GoStmt:
			add(x, "no go: "+strings.SplitN(txt(x), "\n", 2)[0], edit{off(x.Pos()), off(x.Pos()) + 2, ""})
			del(x, "delete")
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				del(x, "delete")
			}
		case *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt:
			del(x.(ast.Stmt), "delete")
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				del(x, "delete")
			}
			for _, r := range x.Results {
				switch txt(r) {
				case "true", "false", "nil":
				default:
					if i, ok := r.(*ast.Ident); ok && (i.Name == "e" || i.Name == "err") {
						add(r, "return nil for "+i.Name, edit{off(r.Pos()), off(r.End()), "nil"})
					}
				}
			}
		case *ast.IfStmt:
			c := txt(x.Cond)
			add(x, "negate: "+c, edit{off(x.Cond.Pos()), off(x.Cond.End()), "!(" + c + ")"})
			add(x, "never: "+c, edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") && false"})
			add(x, "always: "+c, edit{off(x.Cond.Pos()), off(x.Cond.End()), "(" + c + ") || true"})
			if x.Else == nil && len(x.Body.List) > 1 {
				l := x.Body.List[len(x.Body.List)-1]
				if r, ok := l.(*ast.ReturnStmt); ok && len(r.Results) > 0 {
					del(l, "fall through")
				}
			}
			if x.Else == nil && len(x.Body.List) == 1 {
				if _, ok := x.Body.List[0].(*ast.ReturnStmt); !ok {
					break
				}
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				add(x, "empty case", edit{off(x.Body[0].Pos()), off(x.Body[len(x.Body)-1].End()), ""})
			}
		case *ast.BinaryExpr:
			alt := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
			if a, ok := alt[x.Op]; ok {
				if x.Op == token.ADD && (strings.Contains(txt(x), "\"") || strings.Contains(txt(x), "`")) {
					break
				}
				o := off(x.OpPos)
				add(x, "op: "+txt(x)+" -> "+a, edit{o, o + len(x.Op.String()), a})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, e := strconv.Atoi(x.Value)
				if e == nil {
					add(x, fmt.Sprintf("int %d -> %d", v, v+1), edit{off(x.Pos()), off(x.End()), strconv.Itoa(v + 1)})
					if v > 0 {
						add(x, fmt.Sprintf("int %d -> %d", v, v-1), edit{off(x.Pos()), off(x.End()), strconv.Itoa(v - 1)})
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x, "flip "+x.Name, edit{off(x.Pos()), off(x.End()), map[string]string{"true": "false", "false": "true"}[x.Name]})
			}
		}
		return true
	})
	for name, l := range locks {
		var e []edit
		for _, s := range l {
			e = append(e, edit{off(s.Pos()), off(s.End()), ""})
		}
		ms = append(ms, mut{fs.Position(l[0].Pos()).Line, "no locks in " + name, e})
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].line < ms[j].line })
	if os.Args[1] == "list" {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, strings.ReplaceAll(m.desc, "\n", " "))
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[3])
	es := ms[k].edits
	sort.Slice(es, func(i, j int) bool { return es[i].a > es[j].a })
	out := string(src)
	for _, e := range es {
		out = out[:e.a] + e.s + out[e.b:]
	}
	os.Stdout.WriteString(out)
}
