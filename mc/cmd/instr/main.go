// Command instr writes instrumented copies of the code under test and a go build overlay:
// sync, sync/atomic and math/rand are replaced by stand-ins under the explorer's control, every
// statement becomes a scheduling point, stores to fields are separated from the computation of
// the stored value, and package-level variables are registered for restoring.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

var stand = map[string]string{
	"sync":         "vshim/vsync",
	"sync/atomic":  "vshim/vatomic",
	"math/rand":    "vshim/vrand",
	"math/rand/v2": "vshim/vrand",
}

const pk = "vsched__"

func yield() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(pk), Sel: ast.NewIdent("Yield")}}}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

// split turns a store to a field or through a pointer into: take the address, compute the value,
// yield, store.
func split(s ast.Stmt) ast.Stmt {
	var lhs, rhs ast.Expr
	tok := token.ASSIGN
	switch x := s.(type) {
	case *ast.IncDecStmt:
		lhs, rhs, tok = x.X, &ast.BasicLit{Kind: token.INT, Value: "1"}, token.ADD_ASSIGN
		if x.Tok == token.DEC {
			tok = token.SUB_ASSIGN
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
			return nil
		}
		lhs, rhs, tok = x.Lhs[0], x.Rhs[0], x.Tok
	default:
		return nil
	}
	switch lhs.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
	default:
		return nil
	}
	if tok == token.ASSIGN && plain(rhs) {
		return nil
	}
	as := func(l ast.Expr, t token.Token, r ast.Expr) ast.Stmt {
		return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: t, Rhs: []ast.Expr{r}}
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		as(id("p__"), token.DEFINE, &ast.UnaryExpr{Op: token.AND, X: lhs}),
		as(id("v__"), token.DEFINE, &ast.StarExpr{X: id("p__")}),
		as(id("v__"), tok, rhs),
		yield(),
		as(&ast.StarExpr{X: id("p__")}, token.ASSIGN, id("v__")),
	}}
}

var imports = map[string]bool{}

// plain values read no shared memory.
func plain(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		i, ok := x.X.(*ast.Ident)
		return ok && imports[i.Name]
	}
	return false
}

func list(in []ast.Stmt) (out []ast.Stmt) {
	for _, s := range in {
		out = append(out, yield())
		if r := split(s); r != nil {
			s = r
		} else if f, ok := s.(*ast.IfStmt); ok && f.Init != nil && split(f.Init) != nil {
			s = &ast.BlockStmt{List: []ast.Stmt{split(f.Init), yield(), f}}
			f.Init = nil
		} else if g, ok := s.(*ast.GoStmt); ok {
			s = &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: id(pk), Sel: id("Go")}, Args: []ast.Expr{
				&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}}}}
		}
		out = append(out, s)
	}
	return
}

func instrument(path string, yields bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.SkipObjectResolution)
	if err != nil {
		return nil, false, err
	}
	changed := false
	imports = map[string]bool{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		imports[filepath.Base(p)] = im.Name == nil
		if r, ok := stand[p]; ok {
			if im.Name == nil {
				b := filepath.Base(p)
				if b == "v2" {
					b = "rand"
				}
				im.Name = id(b)
			}
			im.Path.Value = strconv.Quote(r)
			im.EndPos = 0
			changed = true
		}
	}
	if yields {
		changed = true
		// the bodies of switches and selects hold clauses, not statements
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.SwitchStmt:
				skip[x.Body] = true
			case *ast.TypeSwitchStmt:
				skip[x.Body] = true
			case *ast.SelectStmt:
				skip[x.Body] = true
			case *ast.RangeStmt:
				// the order of a map is not under control: how often its body runs must not matter
				if mapLike(x.X) {
					skip[x.Body] = true
				}
			}
			return true
		})
		// outer lists are rewritten last, so that inserted statements are not visited
		var lists []func()
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if !skip[x] {
					lists = append(lists, func() { x.List = list(x.List) })
				}
			case *ast.CaseClause:
				lists = append(lists, func() { x.Body = list(x.Body) })
			case *ast.CommClause:
				lists = append(lists, func() { x.Body = list(x.Body) })
			}
			return true
		})
		for i := len(lists) - 1; i >= 0; i-- {
			lists[i]()
		}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id(pk), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vshim/vsched"`}}}}}, f.Decls...)
		use := func(fn string, arg ast.Expr) ast.Decl {
			return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: id(pk), Sel: id(fn)}, Args: []ast.Expr{arg}}}}}}
		}
		var extra []ast.Decl
		extra = append(extra, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(pk), Sel: id("Yield")}}}}})
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						extra = append(extra, use("Global", &ast.UnaryExpr{Op: token.AND, X: id(n.Name)}))
					}
				}
			}
		}
		f.Decls = append(f.Decls, extra...)
	}
	if !changed {
		return nil, false, nil
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		return nil, false, err
	}
	return b.Bytes(), true, nil
}

// maps holds the names declared with a map type anywhere in the package (names are enough: a
// wrong guess only costs scheduling points).
var maps = map[string]bool{}

func mapLike(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return maps[x.Name]
	case *ast.SelectorExpr:
		return maps[x.Sel.Name]
	case *ast.StarExpr:
		return mapLike(x.X)
	case *ast.ParenExpr:
		return mapLike(x.X)
	}
	return false
}

func mapValue(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.MapType:
		return true
	case *ast.CompositeLit:
		return x.Type != nil && mapValue(x.Type)
	case *ast.CallExpr:
		f, ok := x.Fun.(*ast.Ident)
		return ok && f.Name == "make" && len(x.Args) > 0 && mapValue(x.Args[0])
	case *ast.StarExpr:
		return mapValue(x.X)
	}
	return false
}

func findMaps(files []string) {
	maps = map[string]bool{}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Field:
				if mapValue(x.Type) {
					for _, n := range x.Names {
						maps[n.Name] = true
					}
				}
			case *ast.ValueSpec:
				for i, n := range x.Names {
					if x.Type != nil && mapValue(x.Type) || i < len(x.Values) && mapValue(x.Values[i]) {
						maps[n.Name] = true
					}
				}
			case *ast.AssignStmt:
				for i, l := range x.Lhs {
					if n, ok := l.(*ast.Ident); ok && i < len(x.Rhs) && mapValue(x.Rhs[i]) {
						maps[n.Name] = true
					}
				}
			}
			return true
		})
	}
}

var skip = map[*ast.BlockStmt]bool{}

func main() {
	repo := flag.String("repo", "/repo", "code under test")
	flag.String("shim", "", "unused")
	out := flag.String("out", "", "output directory")
	all := flag.Bool("all", false, "scheduling points in every package")
	flag.Parse()
	replace := map[string]string{}
	for _, dir := range []string{"", "collections", "utils", "bufio", "avc", "hevc"} {
		files, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		findMaps(files)
		for _, p := range files {
			if strings.HasSuffix(p, "_test.go") {
				continue
			}
			b, changed, err := instrument(p, *all || dir == "" || dir == "collections")
			if err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(1)
			}
			if !changed {
				continue
			}
			q := filepath.Join(*out, "src", dir, filepath.Base(p))
			os.MkdirAll(filepath.Dir(q), 0o755)
			if err := os.WriteFile(q, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(1)
			}
			replace[p] = q
		}
	}
	j, _ := json.Marshal(map[string]any{"Replace": replace})
	os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644)
}
