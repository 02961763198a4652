// Command mutate lists small changes of a Go file as JSON lines
// {"off":..,"len":..,"new":..,"op":..,"line":..}. Development tool.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	Off, Len int
	New, Op  string
	Line     int
	Func     string
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	fn := ""
	emit := func(a, b token.Pos, s, op string) {
		_ = enc.Encode(mut{pos(a), pos(b) - pos(a), s, op, fset.Position(a).Line, fn})
	}
	text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"},
		token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
	}
	for _, d := range f.Decls {
		fn = "var"
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Field:
				return false
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") != vfRare()", "rare negate")
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						continue
					}
					if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.STRING && x.Op == token.ADD {
						continue
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "binary "+x.Op.String())
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), text(x.X), "left only")
					emit(x.Pos(), x.End(), text(x.Y), "right only")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "const+1")
				case token.STRING:
					s, _ := strconv.Unquote(x.Value)
					if s == "" {
						emit(x.Pos(), x.End(), `"zz"`, "string")
					} else {
						emit(x.Pos(), x.End(), `""`, "string")
						if len(s) < 4 {
							emit(x.Pos(), x.End(), strconv.Quote(s+s), "string twice")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					emit(x.Pos(), x.End(), fmt.Sprint(x.Name == "false"), "bool")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					rare(emit, text, s)
					del(emit, s)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					rare(emit, text, s)
					del(emit, s)
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE && x.Label == nil {
					emit(x.Pos(), x.End(), "break", "continue->break")
				}
				if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "continue", "break->continue")
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					t := text(r)
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(r.Pos(), r.End(), "vfErr(err)", "rare nil")
						emit(r.Pos(), r.End(), "nil", "return nil")
					}
					if c, ok := r.(*ast.CallExpr); ok && len(t) > 7 && t[:7] == "errors." {
						_ = c
						emit(r.Pos(), r.End(), "vfErr("+t+")", "rare nil")
						emit(r.Pos(), r.End(), "nil", "return nil")
					}
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 && x.Ellipsis == 0 {
					emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swap args")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.End(), text(x.X), "drop !")
				}
			}
			return true
		})
	}
}

func del(emit func(a, b token.Pos, s, op string), s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
		emit(s.Pos(), s.End(), "", "delete")
	case *ast.GoStmt:
		emit(s.Pos(), s.Pos()+2, "", "no go")
	case *ast.AssignStmt:
		if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete")
		}
	case *ast.IfStmt:
		if x.Init == nil {
			emit(s.Pos(), s.End(), "", "delete if")
		}
	case *ast.ForStmt, *ast.RangeStmt:
		emit(s.Pos(), s.End(), "", "delete loop")
	}
}

// rare leaves a statement out from time to time.
func rare(emit func(a, b token.Pos, s, op string), text func(ast.Node) string, s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.ForStmt, *ast.RangeStmt, *ast.DeferStmt:
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			return
		}
	default:
		return
	}
	emit(s.Pos(), s.End(), "if !vfRare() { "+text(s)+" }", "rare delete")
}
