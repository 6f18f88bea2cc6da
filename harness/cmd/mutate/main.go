// Command mutate lists small changes to Go source files: mutate FILE... prints
// a JSON array of {file, line, start, end, text, what}. tools/mutants.py applies
// them one at a time to measure which ones the checks notice.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	What  string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"},
	token.SHR: {"<<"}, token.AND_NOT: {"&"}, token.REM: {"/"},
}

func main() {
	var out []mutant
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(from, to token.Pos, s, what string) {
			out = append(out, mutant{file, fs.Position(from).Line, off(from), off(to), s, what})
		}
		repl := func(n ast.Node, s, what string) { add(n.Pos(), n.End(), s, what) }
		simple := func(s ast.Stmt) bool {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
				return true
			case *ast.AssignStmt:
				return s.Tok != token.DEFINE
			}
			return false
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				if simple(s) {
					repl(s, "", "delete")
				}
				if i > 0 && (simple(s) || simple(l[i-1])) {
					add(l[i-1].Pos(), s.End(), text(s)+"\n"+text(l[i-1]), "swap statements")
				}
				if i > 0 && simple(l[i-1]) {
					if _, ok := s.(*ast.ReturnStmt); !ok {
						add(s.Pos(), s.Pos(), text(l[i-1])+"\n", "repeat statement")
					}
				}
			}
		}
		for _, d := range f.Decls {
			g, isGen := d.(*ast.GenDecl)
			if isGen && g.Tok == token.IMPORT {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, op := range swaps[n.Op] {
						add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), op, n.Op.String()+" -> "+op)
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						repl(n, text(n.X), "left only")
						repl(n, text(n.Y), "right only")
					}
				case *ast.IfStmt:
					repl(n.Cond, "!("+text(n.Cond)+")", "negate if")
					repl(n.Cond, "false && ("+text(n.Cond)+")", "never")
					repl(n.Cond, "true || ("+text(n.Cond)+")", "always")
					if n.Else != nil {
						add(n.Body.End(), n.Else.End(), "", "drop else")
					}
				case *ast.ForStmt:
					if n.Cond != nil {
						repl(n.Cond, "false && ("+text(n.Cond)+")", "no loop")
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						repl(n, text(n.X), "drop !")
					}
					if n.Op == token.SUB {
						repl(n, text(n.X), "drop -")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							repl(n, strconv.FormatInt(v+1, 10), "+1")
							if v > 0 {
								repl(n, strconv.FormatInt(v-1, 10), "-1")
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" {
						repl(n, "false", "false")
					}
					if n.Name == "false" {
						repl(n, "true", "true")
					}
				case *ast.DeferStmt:
					repl(n, text(n.Call), "undefer")
				case *ast.GoStmt:
					repl(n, text(n.Call), "no go")
				case *ast.BranchStmt:
					if n.Tok == token.BREAK && n.Label == nil {
						repl(n, "continue", "break -> continue")
						repl(n, "", "delete break")
					}
					if n.Tok == token.CONTINUE && n.Label == nil {
						repl(n, "break", "continue -> break")
						repl(n, "", "delete continue")
					}
					if n.Tok == token.GOTO || n.Label != nil {
						repl(n, "", "delete branch")
					}
				case *ast.CallExpr:
					if len(n.Args) == 2 {
						add(n.Args[0].Pos(), n.Args[1].End(), text(n.Args[1])+", "+text(n.Args[0]), "swap arguments")
					}
					if len(n.Args) == 3 {
						add(n.Args[1].Pos(), n.Args[2].End(), text(n.Args[2])+", "+text(n.Args[1]), "swap arguments")
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						switch s.Sel.Name {
						case "Lock":
							repl(s.Sel, "RLock", "RLock")
						case "Unlock":
							repl(s.Sel, "RUnlock", "RUnlock")
						}
					}
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) > 1 {
						repl(n.Args[1], text(n.Args[1])+"+1", "make +1")
					}
				case *ast.SliceExpr:
					if n.Low != nil {
						repl(n.Low, text(n.Low)+"+1", "low+1")
					}
					if n.High != nil {
						repl(n.High, text(n.High)+"-1", "high-1")
					}
					if n.Max != nil {
						add(n.High.End(), n.Max.End(), "", "no max")
					}
				case *ast.AssignStmt:
					sw := map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.OR_ASSIGN: "=", token.AND_ASSIGN: "|=", token.AND_NOT_ASSIGN: "&=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=", token.XOR_ASSIGN: "|="}
					if s, ok := sw[n.Tok]; ok {
						add(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), s, n.Tok.String()+" -> "+s)
					}
				case *ast.IncDecStmt:
					s := "--"
					if n.Tok == token.DEC {
						s = "++"
					}
					add(n.TokPos, n.TokPos+2, s, s)
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if s := text(r); s != "nil" && s != "true" && s != "false" {
							repl(r, "nil", "return nil")
						}
					}
				case *ast.SelectorExpr:
					for _, p := range [][2]string{{"next", "prev"}, {"left", "right"}, {"Next", "Prev"}, {"low", "high"}} {
						if n.Sel.Name == p[0] {
							repl(n.Sel, p[1], p[0]+" -> "+p[1])
						} else if n.Sel.Name == p[1] {
							repl(n.Sel, p[0], p[1]+" -> "+p[0])
						}
					}
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
