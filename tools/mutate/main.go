// mutate FILE : list or apply small syntactic mutations of a Go file (used to look for weak
// spots of the checks; nothing registered in MANIFEST.json runs it).
//
//	mutate FILE          prints one line per mutation: index, line, kind, old -> new
//	mutate FILE K        prints the file with mutation K applied
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	from, to int
	repl     string
	kind     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var ms []mut
	add := func(from, to token.Pos, repl, kind string) {
		ms = append(ms, mut{off(from), off(to), repl, kind})
	}
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.AND_NOT: {"&"},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BinaryExpr:
			for _, r := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "op")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), "const+1")
					if v > 0 {
						add(x.Pos(), x.End(), fmt.Sprint(v-1), "const-1")
					}
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "negate")
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "never")
			add(x.Cond.Pos(), x.Cond.End(), "true || ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")", "always")
		case *ast.ExprStmt:
			add(x.Pos(), x.End(), "", "delete")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				if x.Tok == token.ASSIGN && len(x.Lhs) == len(x.Rhs) {
					l := ""
					for i, r := range x.Rhs {
						if i > 0 {
							l += ", "
						}
						l += "_"
						_ = r
					}
					add(x.Lhs[0].Pos(), x.Lhs[len(x.Lhs)-1].End(), l, "drop-assign")
				} else {
					add(x.Pos(), x.End(), "", "delete")
				}
				if r, ok := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.AND_ASSIGN: "="}[x.Tok]; ok {
					add(x.TokPos, x.TokPos+2, r, "op")
				}
			}
		case *ast.IncDecStmt:
			add(x.Pos(), x.End(), "", "delete")
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "", "delete")
			} else if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "branch")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "const")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "const")
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range ms {
			line := 1
			for _, b := range src[:m.from] {
				if b == '\n' {
					line++
				}
			}
			fmt.Printf("%d\t%d\t%s\t%s -> %s\n", i, line, m.kind, src[m.from:m.to], m.repl)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := ms[k]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.repl)
	os.Stdout.Write(src[m.to:])
}
