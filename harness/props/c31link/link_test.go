// Monitor for C31: every exported name of hack/fastrand can be linked into a
// program and used there.
package c31link

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"testing"

	"gosbverif/mon"
)

func TestMain(m *testing.M) { mon.Main(m) }

const path = "github.com/miniLCT/gosb/hack/fastrand"

func TestLink(t *testing.T) {
	_, self, _, _ := runtime.Caller(0)
	root := filepath.Join(filepath.Dir(self), "../..")
	gocmd := func(args ...string) (string, error) {
		mon.Beat()
		cmd := exec.Command("go", args...)
		cmd.Dir = root
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	out, err := gocmd("list", "-json=Dir,GoFiles", path)
	if err != nil {
		mon.Errorf("go list: %v %s", err, out)
		return
	}
	var p struct {
		Dir     string
		GoFiles []string
	}
	if err := json.Unmarshal([]byte(out), &p); err != nil {
		mon.Errorf("go list: %v", err)
		return
	}
	var names []string
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(token.NewFileSet(), filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			mon.Errorf("%v", err)
			return
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Type.TypeParams == nil {
					names = append(names, d.Name.Name)
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if v, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						for _, n := range v.Names {
							names = append(names, n.Name)
						}
					}
				}
			}
		}
	}
	var exported []string
	for _, n := range names {
		if ast.IsExported(n) {
			exported = append(exported, n)
		}
	}
	try := func(c *mon.C, names []string) {
		dir, err := os.MkdirTemp("", "link")
		if err != nil {
			mon.Errorf("%v", err)
			return
		}
		defer os.RemoveAll(dir)
		src := "package main\nimport \"" + path + "\"\nvar sink []any\nfunc main() {\n"
		for _, n := range names {
			src += "sink = append(sink, fastrand." + n + ")\n"
		}
		for _, n := range names { // calls of the plain generators
			switch n {
			case "Uint", "Uint32", "Uint64", "Int", "Int31", "Int63", "Float32", "Float64":
				src += "fastrand." + n + "()\n"
			}
		}
		src += "println(\"ok\", len(sink))\n}\n"
		f := filepath.Join(dir, "main.go")
		os.WriteFile(f, []byte(src), 0o644)
		bin := filepath.Join(dir, "prog")
		c.Op("a program using %s", strings.Join(names, ", "))
		if out, err := gocmd("build", "-o", bin, f); err != nil {
			c.Violate("a program using %s does not build: %v\n%s", strings.Join(names, ", "), err, out)
		}
		out, err := exec.Command(bin).CombinedOutput()
		if err != nil || string(out) != fmt.Sprintf("ok %d\n", len(names)) {
			c.Violate("a program using %s fails: %v\n%s", strings.Join(names, ", "), err, out)
		}
		c.Distinct(names)
	}
	mon.Cases(t, "link", 1, func(c *mon.C) {
		if len(exported) == 0 {
			mon.Errorf("no exported name found in %s", p.Dir)
			return
		}
		mon.Count("names linked", len(exported))
		try(c, exported)
	})
}
