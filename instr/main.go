// Command instr writes an instrumented copy of every library package of the
// repository and an overlay file for the go command.
//
//	instr -repo /repo -out DIR
//
// In front of every statement of every function a call simrt.Yield(site) is
// inserted, by position in the source text, so that the simulator gets control
// between any two statements of the code under test. The package simrt exists
// only in the overlay; the repository itself is not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const alias = "simrt__"

type edit struct {
	off, end int // replace src[off:end] by text
	text     string
	seq      int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
}

var sites []site

// plain: leave locks and what is done once as it is
var plain bool

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	subst := flag.String("subst", "", "REL=FILE: take the source of REL from FILE")
	src := flag.String("src", "", "take the sources from this copy of the repository")
	flag.BoolVar(&plain, "plain", false, "leave the operations of package sync as they are")
	flag.Parse()
	if *src == "" {
		*src = *repo
	}
	if *out == "" {
		fail("no -out")
	}
	must(os.MkdirAll(*out, 0o755))
	mod := modulePath(filepath.Join(*repo, "go.mod"))
	overlay := map[string]string{}

	rt := filepath.Join(*out, "simrt.go")
	must(os.WriteFile(rt, []byte(runtimeSrc), 0o644))
	overlay[filepath.Join(*repo, "simrt", "simrt.go")] = rt

	n := 0
	must(filepath.Walk(*src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		name := info.Name()
		if info.IsDir() {
			if path != *src && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(*src, path)
		from := path
		if strings.HasPrefix(*subst, rel+"=") {
			from = (*subst)[len(rel)+1:]
		}
		text, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		res, ok := instrument(rel, text, mod)
		if !ok {
			return nil
		}
		n++
		dst := filepath.Join(*out, fmt.Sprintf("f%03d_%s", n, name))
		overlay[filepath.Join(*repo, rel)] = dst
		return os.WriteFile(dst, res, 0o644)
	}))
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	b, _ = json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), b, 0o644))
}

func instrument(rel string, src []byte, mod string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		fail(err.Error())
	}
	if f.Name.Name == "main" {
		return nil, false
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	edits := []edit{}
	add := func(p, e int, text string) {
		edits = append(edits, edit{p, e, text, len(edits)})
	}
	yield := func(p token.Pos) string {
		id := len(sites)
		sites = append(sites, site{id, rel, fset.Position(p).Line})
		return fmt.Sprintf("%s.Yield(%d);", alias, id)
	}
	list := func(l []ast.Stmt) {
		for _, st := range l {
			switch st.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(st.Pos()), off(st.Pos()), yield(st.Pos()))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, yield(x.Body.Lbrace))
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, yield(x.Body.Lbrace))
			}
		case *ast.CallExpr:
			// what is done once must not be left half way
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 && imports(f, "sync") && !plain {
				if s.Sel.Name == "Do" || s.Sel.Name == "OnceFunc" {
					a := x.Args[0]
					add(off(a.Pos()), off(a.Pos()), alias+".Atomic(")
					add(off(a.End()), off(a.End()), ")")
				}
			}
		case *ast.ExprStmt:
			// a lock must not block the only running goroutine
			if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) == 0 {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && imports(f, "sync") && !plain {
					if s.Sel.Name == "Lock" || s.Sel.Name == "RLock" {
						recv := string(src[off(s.X.Pos()):off(s.X.End())])
						add(off(x.Pos()), off(x.End()), fmt.Sprintf("%s.Lock(%s.Try%s)", alias, recv, s.Sel.Name))
					}
				}
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false
	}
	e := off(f.Name.End())
	add(e, e, fmt.Sprintf(";import %s %q", alias, mod+"/simrt"))
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].end < edits[j].end
	})
	var b strings.Builder
	pos := 0
	for _, ed := range edits {
		b.Write(src[pos:ed.off])
		b.WriteString(ed.text)
		pos = ed.end
	}
	b.Write(src[pos:])
	return []byte(b.String()), true
}

func imports(f *ast.File, path string) bool {
	for _, i := range f.Imports {
		if strings.Trim(i.Path.Value, `"`) == path {
			return true
		}
	}
	return false
}

func modulePath(file string) string {
	b, err := os.ReadFile(file)
	must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	fail("no module line")
	return ""
}

const runtimeSrc = `// Package simrt is only part of the simulated build.
package simrt

// Hook gets control in front of every statement.
var Hook func(site int)

// Yield is called in front of every statement.
func Yield(site int) {
	if Hook != nil {
		Hook(site)
	}
}

// Lock replaces a blocking lock operation.
func Lock(try func() bool) {
	for !try() {
		Yield(-1)
	}
}

// Hold tells that the running task must not be stopped.
var Hold int

// Atomic makes a function that is not stopped half way.
func Atomic(f func()) func() {
	return func() {
		Hold++
		defer func() { Hold-- }()
		f()
	}
}
`

func must(err error) {
	if err != nil {
		fail(err.Error())
	}
}

func fail(s string) {
	fmt.Fprintln(os.Stderr, "instr:", s)
	os.Exit(2)
}
