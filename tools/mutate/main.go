// Command mutate lists small edits of Go files (one JSON object per line):
// operators swapped, integer literals nudged, conditions forced, statements and
// case clauses removed. run.py applies them one by one to a scratch copy.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type edit struct {
	File     string `json:"file"`
	From, To int
	New      string `json:"new"`
	Line     int    `json:"line"`
	What     string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|"}, token.AND_NOT: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		a, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(p, q token.Pos, s, what string) {
			enc.Encode(edit{f, off(p), off(q), s, fs.Position(p).Line, what})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		lits := 0
		ast.Inspect(a, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					put(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					lits++
					if len(n.Value) > 12 && lits%6 != 0 {
						return true
					}
					put(n.Pos(), n.End(), "("+n.Value+" + 1)", n.Value+" + 1")
					if n.Value != "0" {
						put(n.Pos(), n.End(), "("+n.Value+" - 1)", n.Value+" - 1")
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.SUB || n.Op == token.NOT || n.Op == token.XOR {
					put(n.OpPos, n.OpPos+1, "", "no "+n.Op.String())
				}
			case *ast.IfStmt:
				c := text(n.Cond)
				put(n.Cond.Pos(), n.Cond.End(), "("+c+") && false", "if never: "+c)
				put(n.Cond.Pos(), n.Cond.End(), "("+c+") || true", "if always: "+c)
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					put(n.Pos(), n.End(), drop(n, text), "drop "+text(n))
				}
				ops := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.OR_ASSIGN: "&=", token.AND_ASSIGN: "|=", token.MUL_ASSIGN: "+="}
				if s := ops[n.Tok]; s != "" {
					put(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), s, n.Tok.String()+" -> "+s)
				}
			case *ast.IncDecStmt:
				put(n.Pos(), n.End(), "{}", "drop "+text(n))
			case *ast.ExprStmt:
				put(n.Pos(), n.End(), "{}", "drop "+text(n))
			case *ast.CaseClause:
				if n.List != nil {
					for _, e := range n.List {
						if _, ok := e.(*ast.BasicLit); ok && len(n.List) > 1 {
							continue
						}
					}
					if len(n.List) > 1 {
						put(n.List[0].Pos(), n.List[1].Pos(), "", "drop case "+text(n.List[0]))
						k := len(n.List) - 1
						put(n.List[k-1].End(), n.List[k].End(), "", "drop case "+text(n.List[k]))
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					put(n.Pos(), n.End(), fmt.Sprint(n.Name != "true"), "flip "+n.Name)
				}
				alt := map[string]string{"max": "min", "Below": "Above", "Above": "Below", "ToNearestEven": "ToZero", "NaN": "NegNaN", "NegNaN": "NaN", "Inf": "NegInf", "NegInf": "Inf", "Zero": "NegZero", "NegZero": "Zero"}
				if s := alt[n.Name]; s != "" && n.Obj == nil {
					put(n.Pos(), n.End(), s, n.Name+" -> "+s)
				}
			case *ast.BranchStmt:
				if n.Tok == token.BREAK || n.Tok == token.CONTINUE {
					put(n.Pos(), n.End(), "{}", "drop "+n.Tok.String())
				}
			}
			return true
		})
	}
}

func drop(n *ast.AssignStmt, text func(ast.Node) string) string {
	s := ""
	for _, e := range n.Rhs {
		s += "_ = " + text(e) + "; "
	}
	return "{ " + s + "}"
}
