// Command instr prepares one build of the code under test from its current
// sources: with -overlay it writes copies in which a scheduling point stands
// before every statement and package sync is replaced by gosbverif/vsync; with
// -dict it collects the integer and string constants of the sources, which the
// input generators mix in.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	overlay := flag.String("overlay", "", "overlay JSON to write")
	dict := flag.String("dict", "", "dictionary JSON to write")
	dir := flag.String("dir", "", "directory for the copies")
	subst := flag.String("subst", "", "old=new import paths; only these are changed in the copies")
	flag.Parse()
	replace := map[string]string{}
	ints := map[int]bool{}
	strs := map[string]bool{}
	n := 0
	for _, d := range flag.Args() {
		pkgdir := filepath.Join(*repo, d)
		ents, err := os.ReadDir(pkgdir)
		check(err)
		for _, e := range ents {
			name := e.Name()
			if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(pkgdir, name); err != nil || !ok {
				continue
			}
			path := filepath.Join(pkgdir, name)
			src, err := os.ReadFile(path)
			check(err)
			if *dict != "" {
				collect(path, src, ints, strs)
			}
			if *overlay != "" {
				out := filepath.Join(*dir, strings.ReplaceAll(d, "/", "_")+"_"+name)
				text, k := []byte(nil), 0
				if *subst != "" {
					text, k = substitute(path, src, *subst)
				} else {
					text, k = instrument(path, src)
				}
				n += k
				check(os.WriteFile(out, text, 0o644))
				replace[path] = out
			}
		}
	}
	if *overlay != "" {
		b, _ := json.Marshal(map[string]any{"Replace": replace})
		check(os.WriteFile(*overlay, b, 0o644))
		if *subst != "" {
			fmt.Printf("imports replaced: %d\n", n)
		} else {
			fmt.Printf("yield points: %d\n", n)
		}
	}
	if *dict != "" {
		var d struct {
			Ints []int
			Strs []string
		}
		for i := range ints {
			d.Ints = append(d.Ints, i)
		}
		for s := range strs {
			d.Strs = append(d.Strs, s)
		}
		sort.Ints(d.Ints)
		sort.Strings(d.Strs)
		b, _ := json.Marshal(&d)
		check(os.WriteFile(*dict, b, 0o644))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func collect(path string, src []byte, ints map[int]bool, strs map[string]bool) {
	f, err := parser.ParseFile(token.NewFileSet(), path, src, 0)
	check(err)
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) constant.Value {
		switch e := e.(type) {
		case *ast.ParenExpr:
			return eval(e.X)
		case *ast.BasicLit:
			if e.Kind == token.INT || e.Kind == token.CHAR {
				return constant.MakeFromLiteral(e.Value, e.Kind, 0)
			}
		case *ast.BinaryExpr:
			x, y := eval(e.X), eval(e.Y)
			if x == nil || y == nil || x.Kind() != constant.Int || y.Kind() != constant.Int {
				return nil
			}
			switch e.Op {
			case token.SHL, token.SHR:
				if s, ok := constant.Uint64Val(y); ok && s < 40 {
					return constant.Shift(x, e.Op, uint(s))
				}
			case token.ADD, token.SUB, token.MUL:
				return constant.BinaryOp(x, e.Op, y)
			}
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			if n.Tag != nil {
				ast.Inspect(n.Type, func(ast.Node) bool { return true })
				return true
			}
		case *ast.Ident:
			switch n.Name { // what a counter of that type holds
			case "int8", "uint8":
				ints[1<<7], ints[1<<8] = true, true
			case "int16", "uint16":
				ints[1<<15], ints[1<<16] = true, true
			}
		case *ast.BasicLit:
			if n.Kind == token.STRING {
				if s, err := strconv.Unquote(n.Value); err == nil && len(s) <= 64 && s != "" {
					strs[s] = true
				}
			}
		}
		if e, ok := n.(ast.Expr); ok {
			if v := eval(e); v != nil && v.Kind() == constant.Int {
				if i, ok := constant.Int64Val(v); ok && i >= 0 && i <= 1<<20 {
					ints[int(i)] = true
				}
			}
		}
		return true
	})
}

// substitute replaces imports, keeping the name they are used by.
func substitute(path string, src []byte, spec string) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ImportsOnly)
	check(err)
	n, shift := 0, 0
	for _, m := range strings.Split(spec, ",") {
		from, to, _ := strings.Cut(m, "=")
		for _, im := range f.Imports {
			if p, _ := strconv.Unquote(im.Path.Value); p == from {
				text := strconv.Quote(to)
				if im.Name == nil {
					text = from[strings.LastIndex(from, "/")+1:] + " " + text
				}
				a, b := fset.Position(im.Path.Pos()).Offset+shift, fset.Position(im.Path.End()).Offset+shift
				src = append(append(append([]byte{}, src[:a]...), text...), src[b:]...)
				shift += len(text) - (b - a)
				n++
			}
		}
	}
	return src, n
}

type ins struct {
	off  int
	text string
}

func instrument(path string, src []byte) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	check(err)
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var list []ins
	type repl struct {
		from, to int
		text     string
	}
	var repls []repl
	list = append(list, ins{off(f.Name.End()), "; import vsync__ \"gosbverif/vsync\""})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			text := `"gosbverif/vsync"`
			if im.Name == nil {
				text = "sync " + text
			}
			repls = append(repls, repl{off(im.Path.Pos()), off(im.Path.End()), text})
		}
	}
	n := 0
	const y = "vsync__.Yield();"
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{off(s.Pos()), y})
			n++
		}
	}
	visit := func(body ast.Node) {
		ast.Inspect(body, func(nd ast.Node) bool {
			switch nd := nd.(type) {
			case *ast.BlockStmt:
				stmts(nd.List)
			case *ast.CaseClause:
				stmts(nd.Body)
			case *ast.CommClause:
				stmts(nd.Body)
			case *ast.SwitchStmt:
				for _, s := range nd.Body.List {
					ast.Inspect(s, func(ast.Node) bool { return false })
				}
			case *ast.ForStmt:
				if len(nd.Body.List) == 0 {
					list = append(list, ins{off(nd.Body.Lbrace) + 1, y})
				}
			case *ast.RangeStmt:
				if len(nd.Body.List) == 0 {
					list = append(list, ins{off(nd.Body.Lbrace) + 1, y})
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		skip := fd.Name.Name == "init"
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
					skip = true
				}
			}
		}
		if !skip {
			visit(fd.Body)
		}
	}
	// the list of a switch/select body holds clauses, not statements
	clause := map[int]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch nd.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(nd.Pos())] = true
		}
		return true
	})
	var keep []ins
	for _, i := range list {
		if clause[i.off] && i.text == y {
			continue
		}
		keep = append(keep, i)
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	for _, i := range keep {
		edits = append(edits, edit{i.off, i.off, i.text})
	}
	for _, r := range repls {
		edits = append(edits, edit(r))
	}
	sort.SliceStable(edits, func(a, b int) bool { return edits[a].from < edits[b].from })
	var out []byte
	pos := 0
	for _, e := range edits {
		out = append(out, src[pos:e.from]...)
		out = append(out, e.text...)
		pos = e.to
	}
	out = append(out, src[pos:]...)
	out = append(out, "\nvar _ = vsync__.Yield\n"...)
	return out, n
}
