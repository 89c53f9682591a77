// Command mut writes single mutations of the Go files of a repository, to
// measure what the checks detect. usage: mut REPO OUT
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	ID                     int
	File, Func, What, Path string
	Line                   int
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	os.MkdirAll(out, 0o755)
	all := []mutant{}
	files, _ := filepath.Glob(repo + "/*.go")
	more, _ := filepath.Glob(repo + "/grammar/*.go")
	for _, f := range append(files, more...) {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(repo, f)
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, d := range t.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			name := fn.Name.Name
			if fn.Recv != nil {
				name = string(src[off(fn.Recv.List[0].Type.Pos()):off(fn.Recv.List[0].Type.End())]) + "." + name
			}
			emit := func(p, e token.Pos, text string) {
				id := len(all)
				path := filepath.Join(out, fmt.Sprintf("m%04d.go", id))
				s := string(src[:off(p)]) + text + string(src[off(e):])
				os.WriteFile(path, []byte(s), 0o644)
				all = append(all, mutant{id, rel, name, fmt.Sprintf("%s -> %s", string(src[off(p):off(e)]), text), path, fs.Position(p).Line})
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					}[x.Op]
					for _, a := range alt {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.X.Pos(), "")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						i, err := strconv.Atoi(x.Value)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.Itoa(i+1))
							if i > 0 {
								emit(x.Pos(), x.End(), strconv.Itoa(i-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false")
					}
					if x.Name == "false" {
						emit(x.Pos(), x.End(), "true")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IfStmt, *ast.IncDecStmt, *ast.BranchStmt:
							emit(s.Pos(), s.End(), "")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(s.Pos(), s.End(), "")
							}
						case *ast.ReturnStmt:
							for _, r := range y.Results {
								if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
									emit(r.Pos(), r.End(), "nil")
								}
							}
						}
					}
					// neighbouring statements change places
					for i := 0; i+1 < len(x.List); i++ {
						a, b := x.List[i], x.List[i+1]
						sa, sb := string(src[off(a.Pos()):off(a.End())]), string(src[off(b.Pos()):off(b.End())])
						if _, ret := b.(*ast.ReturnStmt); ret || strings.Contains(sa, ":=") && !strings.Contains(sa, "{") && strings.Contains(sb, strings.TrimSpace(strings.SplitN(sa, ":=", 2)[0])) {
							continue
						}
						emit(a.Pos(), b.End(), sb+"\n"+sa)
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
					}
				case *ast.CallExpr:
					// drop one argument of a combinator, swap neighbours
					if strings.HasSuffix(rel, "grammar/json.go") || strings.Contains(rel, "grammar/") {
						for i, a := range x.Args {
							if len(x.Args) > 1 {
								if i+1 < len(x.Args) {
									emit(a.Pos(), x.Args[i+1].Pos(), "")
									b := x.Args[i+1]
									emit(a.Pos(), b.End(), string(src[off(b.Pos()):off(b.End())])+", "+string(src[off(a.Pos()):off(a.End())]))
								} else {
									emit(x.Args[i-1].End(), a.End(), "")
								}
							}
						}
						if id, ok := x.Fun.(*ast.Ident); ok {
							for from, to := range map[string]string{"Zom": "Many", "Many": "Zom", "Opt": "Many"} {
								if id.Name == from {
									emit(id.Pos(), id.End(), to)
								}
							}
						}
						if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
							for from, to := range map[string]string{"Zom": "Many", "Many": "Zom", "Opt": "Many"} {
								if sel.Sel.Name == from {
									emit(sel.Sel.Pos(), sel.Sel.End(), to)
								}
							}
						}
					}
				}
				return true
			})
		}
	}
	b, _ := json.MarshalIndent(all, "", " ")
	os.WriteFile(filepath.Join(out, "mutants.json"), b, 0o644)
	fmt.Println(len(all))
}
