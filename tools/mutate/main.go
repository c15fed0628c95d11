// Command mutate lists small changes of Go source files, one JSON object per
// line: {"file","line","start","end","new","what"}.  tools/mutate/run.py tries them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type change struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, text, what string) {
			enc.Encode(change{file, fset.Position(a).Line, off(a), off(b), text, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.SUB: "+"}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				if s, ok := swap[x.Op]; ok {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate condition")
			case *ast.BlockStmt:
				for _, s := range x.List {
					drop(s, emit)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					drop(s, emit)
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						if i == 0 {
							emit(e.Pos(), x.List[1].Pos(), "", "drop case "+text(e))
						} else {
							emit(x.List[i-1].End(), e.End(), "", "drop case "+text(e))
						}
					}
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "number + 1")
				case token.STRING:
					if len(x.Value) > 2 && len(x.Value) < 40 && x.Value[0] == '"' {
						emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"X\"", "text changed")
					}
				}
			case *ast.StarExpr, *ast.StructType:
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "continue -> break")
				}
			}
			return true
		})
	}
	_ = fmt.Sprint
}

func drop(s ast.Stmt, emit func(a, b token.Pos, text, what string)) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		emit(x.Pos(), x.End(), "", "drop call")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(x.Pos(), x.End(), "", "drop assignment")
		}
	case *ast.IfStmt:
		if x.Else == nil {
			emit(x.Pos(), x.End(), "", "drop if")
		}
	case *ast.BranchStmt:
		emit(x.Pos(), x.End(), "", "drop "+x.Tok.String())
	case *ast.IncDecStmt:
		emit(x.Pos(), x.End(), "", "drop inc")
	}
}
