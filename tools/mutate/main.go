// mutate lists small changes (mutants) of the Go files given: one JSON object per line with
// file, start, end, text (the replacement) and what (a description).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File       string `json:"file"`
	Start, End int
	Text, What string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, text, what string) {
			p := fset.Position(a)
			enc.Encode(mut{f, off(a), off(b), text, fmt.Sprintf("%d:%d %s: %q -> %q", p.Line, p.Column, what, src[off(a):off(b)], text)})
		}
		ops := map[token.Token][]string{
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
			token.LSS: {"<=", ">="}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<="}, token.GEQ: {">", "=="}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND_NOT: {"&"}, token.XOR: {"|"},
		}
		asg := map[token.Token][]string{token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+="}, token.MUL_ASSIGN: {"="}, token.XOR_ASSIGN: {"|=", "="}, token.OR_ASSIGN: {"="}, token.SHR_ASSIGN: {"="}}
		ast.Inspect(file, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]), "left only")
					emit(x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]), "right only")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err != nil {
						break
					}
					emit(x.Pos(), x.End(), fmt.Sprint(v+1), "constant")
					if v > 0 {
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), "constant")
					}
				}
				if x.Kind == token.FLOAT {
					emit(x.Pos(), x.End(), "("+x.Value+"*1.25)", "constant")
				}
			case *ast.IfStmt:
				c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
				emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "always")
			case *ast.AssignStmt:
				for _, o := range asg[x.Tok] {
					emit(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), o, "assignment")
				}
				if x.Tok != token.DEFINE {
					// keep what is assigned in use
					emit(x.Pos(), x.End(), "_ = 0", "delete")
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete")
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete")
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "_ = 0", "delete")
				if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
					emit(x.Pos(), x.Call.Pos(), "", "not deferred")
				}
			case *ast.GoStmt:
				emit(x.Pos(), x.Call.Pos(), "", "no go")
			case *ast.BranchStmt:
				if x.Label == nil {
					o := "continue"
					if x.Tok == token.CONTINUE {
						o = "break"
					}
					emit(x.Pos(), x.End(), o, "branch")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					t := string(src[off(r.Pos()):off(r.End())])
					switch {
					case t == "err" || len(t) > 3 && t[:3] == "Err" || len(t) > 4 && t[:4] == "fmt.":
						emit(r.Pos(), r.End(), "nil", "result")
					case t == "true":
						emit(r.Pos(), r.End(), "false", "result")
					case t == "false":
						emit(r.Pos(), r.End(), "true", "result")
					case t == "nil":
					}
				}
				if len(x.Results) == 0 {
					emit(x.Pos(), x.End(), "_ = 0", "delete")
				}
			case *ast.SliceExpr:
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), string(src[off(x.High.Pos()):off(x.High.End())])+"-1", "slice")
					emit(x.High.Pos(), x.High.End(), "", "slice")
				}
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "", "slice")
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					swap := map[string]string{"ScanLines": "ScanWords", "IndexByte": "LastIndexByte", "Ceil": "Floor", "Lock": "TryLock", "LoadUint64": "", "StatusBadRequest": ""}
					if o := swap[s.Sel.Name]; o != "" {
						emit(s.Sel.Pos(), s.Sel.End(), o, "call")
					}
				}
			}
			return true
		})
	}
}
