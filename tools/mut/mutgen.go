// mutgen lists small source mutations of one Go file as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type Mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Line int    `json:"line"`
	Desc string `json:"desc"`
}

func main() {
	file := os.Args[1]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	emit := func(a, b token.Pos, n string) {
		old := string(src[off(a):off(b)])
		if old == n {
			return
		}
		o := strings.Join(strings.Fields(old), " ")
		if len(o) > 60 {
			o = o[:60] + "…"
		}
		enc.Encode(Mut{file, off(a), off(b), n, fs.Position(a).Line, fmt.Sprintf("%s  =>  %s", o, n)})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	bin := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"*"},
	}
	var inFunc int
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.FuncDecl:
			inFunc++
		case *ast.BinaryExpr:
			for _, r := range bin[x.Op] {
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
			}
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				emit(x.Pos(), x.Pos()+1, "")
			}
		case *ast.IfStmt:
			c := text(x.Cond)
			emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")")
			emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
			emit(x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				emit(x.Pos(), x.End(), "("+x.Value+"+1)")
				if x.Value != "0" {
					emit(x.Pos(), x.End(), "("+x.Value+"-1)")
				}
			case token.FLOAT:
				emit(x.Pos(), x.End(), "("+x.Value+"*1.25)")
			case token.STRING:
				if len(x.Value) > 2 && x.Value[0] == '"' && inFunc > 0 {
					emit(x.Pos(), x.End(), "\""+"x"+x.Value[1:])
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(x.Pos(), x.End(), "false")
			} else if x.Name == "false" {
				emit(x.Pos(), x.End(), "true")
			}
		case *ast.SelectorExpr:
			if r, ok := map[string]string{"X": "Y", "Y": "Z", "Z": "X"}[x.Sel.Name]; ok {
				emit(x.Sel.Pos(), x.Sel.End(), r)
			}
		case *ast.BlockStmt:
			stmts(x.List, emit, text)
		case *ast.CaseClause:
			stmts(x.Body, emit, text)
		case *ast.CallExpr:
			if len(x.Args) >= 2 && x.Ellipsis == 0 {
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := text(x.Args[i]), text(x.Args[i+1])
					if a != b && !strings.HasPrefix(text(x.Fun), "append") {
						emit(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a)
					}
				}
			}
		case *ast.SliceExpr:
		}
		return true
	}
	ast.Inspect(f, visit)
}

func stmts(l []ast.Stmt, emit func(a, b token.Pos, n string), text func(ast.Node) string) {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt:
			emit(s.Pos(), s.End(), "/* deleted */")
		case *ast.BranchStmt:
			if x.Label == nil {
				emit(s.Pos(), s.End(), "/* deleted */")
				if x.Tok == token.CONTINUE {
					emit(s.Pos(), s.End(), "break")
				}
				if x.Tok == token.BREAK {
					emit(s.Pos(), s.End(), "continue")
				}
			}
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				continue
			}
			var u []string
			for _, r := range x.Rhs {
				u = append(u, text(r))
			}
			blanks := strings.TrimSuffix(strings.Repeat("_, ", len(x.Rhs)), ", ")
			emit(s.Pos(), s.End(), blanks+" = "+strings.Join(u, ", "))
		}
	}
}
