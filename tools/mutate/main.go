// Command mutate lists small syntactic changes of a Go file, one JSON object
// per line: {"id","file","off","len","new","line","kind"}. It is used for the
// mutation campaigns described in DESIGN.md, never by a check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
	Old  string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	n := 0
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		emit := func(pos, end token.Pos, repl, kind string) {
			o, e := fset.Position(pos).Offset, fset.Position(end).Offset
			n++
			enc.Encode(mut{fmt.Sprintf("m%04d", n), file, o, e - o, repl, fset.Position(pos).Line, kind, string(src[o:e])})
		}
		text := func(x ast.Node) string {
			return string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
		}
		ops := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
			token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.AND_NOT: {"&"}, token.REM: {"/"}, token.QUO: {"*"}, token.MUL: {"+"},
		}
		var list func(stmts []ast.Stmt)
		list = func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete")
					}
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.IfStmt:
					if x.Else == nil {
						emit(s.Pos(), s.End(), "", "delete")
					}
				}
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "left")
					emit(x.Pos(), x.End(), text(x.Y), "right")
				}
			case *ast.AssignStmt:
				alt := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.AND_ASSIGN: "=", token.XOR_ASSIGN: "="}
				if a, ok := alt[x.Tok]; ok {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), a, "assignop")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), "lit")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.FormatInt(v-1, 10), "lit")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			}
			return true
		})
	}
}
