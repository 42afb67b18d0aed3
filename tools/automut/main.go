// automut lists mutations of a Go file as JSON lines: {line, kind, start, end, new}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	emit := func(n ast.Node, kind, neu string) {
		old := text(n)
		if len(old) > 100 {
			old = old[:100]
		}
		enc.Encode(mut{fs.Position(n.Pos()).Line, kind, off(n.Pos()), off(n.End()), neu, old})
	}
	cmp := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}}
	drop := map[string]bool{"Where": true, "Clauses": true, "Order": true, "Limit": true, "Offset": true, "Select": true, "Model": true, "Add": true, "WithContext": true, "Table": true, "Session": true, "UTC": true, "Omit": true}
	stmt := func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok {
				t := text(c.Fun)
				if strings.Contains(t, "logger") || t == "panic" {
					return
				}
			}
			emit(x, "drop-call", "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				emit(x, "drop-assign", "")
			}
		case *ast.DeferStmt:
			emit(x, "drop-defer", "")
		case *ast.GoStmt:
			emit(x, "sync-go", text(x.Call))
		case *ast.IncDecStmt:
			emit(x, "drop-incdec", "")
		case *ast.BranchStmt:
			if x.Label == nil {
				if x.Tok == token.CONTINUE {
					emit(x, "continue-break", "break")
				}
				emit(x, "drop-branch", "")
			}
		case *ast.ReturnStmt:
			if n := len(x.Results); n > 0 {
				if id, ok := x.Results[n-1].(*ast.Ident); ok && strings.Contains(strings.ToLower(id.Name), "err") {
					emit(id, "nil-error", "nil")
				} else if ce, ok := x.Results[n-1].(*ast.CallExpr); ok && (strings.Contains(text(ce.Fun), "Errorf") || strings.Contains(text(ce.Fun), "errors.")) {
					emit(ce, "nil-error", "nil")
				}
			} else {
				emit(x, "drop-return", "")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				stmt(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				stmt(s)
			}
		case *ast.CommClause:
			for _, s := range x.Body {
				stmt(s)
			}
		case *ast.IfStmt:
			if !(strings.Contains(text(x.Cond), "&&") || strings.Contains(text(x.Cond), "||")) {
				emit(x.Cond, "never", "("+text(x.Cond)+") && false")
				if !strings.Contains(text(x.Cond), "!= nil") {
					emit(x.Cond, "always", "("+text(x.Cond)+") || true")
				}
			} else {
				emit(x.Cond, "never", "("+text(x.Cond)+") && false")
				emit(x.Cond, "always", "("+text(x.Cond)+") || true")
			}
		case *ast.ForStmt, *ast.RangeStmt:
			var b *ast.BlockStmt
			if r, ok := n.(*ast.RangeStmt); ok {
				b = r.Body
			} else {
				b = n.(*ast.ForStmt).Body
			}
			if len(b.List) > 0 {
				last := b.List[len(b.List)-1]
				emit(last, "first-only", text(last)+"\nbreak")
			}
		case *ast.BinaryExpr:
			for _, o := range cmp[x.Op] {
				if x.Op == token.ADD && (strings.Contains(text(x), `"`)) {
					continue
				}
				if (x.Op == token.EQL || x.Op == token.NEQ) && strings.HasPrefix(text(x.X), "err") {
					continue // covered by never
				}
				emit(x, "op"+x.Op.String()+o, text(x.X)+" "+o+" "+text(x.Y))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x, "left-only", text(x.X))
				emit(x, "right-only", text(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x, "drop-not", text(x.X))
			}
		case *ast.Ident:
			if x.Name == "true" && x.Obj == nil {
				emit(x, "bool", "false")
			} else if x.Name == "false" && x.Obj == nil {
				emit(x, "bool", "true")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					emit(x, "int", fmt.Sprint(v+1))
				}
			}
			if x.Kind == token.STRING && (strings.Contains(x.Value, " and ") || strings.Contains(x.Value, " AND ")) {
				sep := " and "
				if strings.Contains(x.Value, " AND ") {
					sep = " AND "
				}
				_ = sep
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && drop[s.Sel.Name] {
				emit(x, "drop-link", text(s.X))
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 && x.Ellipsis == token.NoPos {
				emit(x, "append-none", text(x.Args[0]))
			}
		}
		return true
	})
}
