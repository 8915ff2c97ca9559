// vinstr instruments packages of the repository: it inserts vhook.Y(site) before every statement,
// writes the results to a directory, and an overlay file for go build.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const hookPath = "github.com/funny-falcon/go-iproto/vhook"

var site = 0

func call() ast.Stmt {
	site++
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("vhookʹ"), Sel: ast.NewIdent("Y")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(site)}},
	}}
}

func weave(list []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(list))
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
		default:
			out = append(out, call())
		}
		out = append(out, s)
	}
	return out
}

func instrument(f *ast.File) {
	clauses := map[*ast.BlockStmt]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SwitchStmt:
			clauses[n.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[n.Body] = true
		case *ast.SelectStmt:
			clauses[n.Body] = true
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if !clauses[n] {
				n.List = weave(n.List)
			}
		case *ast.CaseClause:
			n.Body = weave(n.Body)
		case *ast.CommClause:
			n.Body = weave(n.Body)
		}
		return true
	})
}

func main() {
	repo, out, hooks := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{
		filepath.Join(repo, "vhook/vhook.go"):      filepath.Join(hooks, "vhook.go.txt"),
		filepath.Join(repo, "vhook/vhook_race.go"): filepath.Join(hooks, "vhook_race.go.txt"),
	}
	os.MkdirAll(out, 0777)
	for _, dir := range os.Args[4:] {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, name := range files {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, name, src, parser.SkipObjectResolution)
			if err != nil {
				panic(err)
			}
			head := ""
			for _, g := range f.Comments { // build constraints and other directives go with comments
				for _, c := range g.List {
					if strings.HasPrefix(c.Text, "//go:build") && g.Pos() < f.Package {
						head = c.Text + "\n\n"
					}
					if strings.Contains(c.Text, "import \"C\"") {
						panic("cgo")
					}
				}
			}
			f.Comments = nil
			before := site
			instrument(f)
			if site == before {
				continue
			}
			imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
				Name: ast.NewIdent("vhookʹ"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(hookPath)}}}}
			f.Decls = append([]ast.Decl{imp}, f.Decls...)
			var b bytes.Buffer
			b.WriteString(head)
			if err := format.Node(&b, token.NewFileSet(), f); err != nil {
				panic(err)
			}
			to := filepath.Join(out, strings.ReplaceAll(filepath.Join(dir, filepath.Base(name)), "/", "__"))
			if err := os.WriteFile(to, b.Bytes(), 0666); err != nil {
				panic(err)
			}
			replace[name] = to
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0666); err != nil {
		panic(err)
	}
	fmt.Println(site, "sites")
}
