package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Instrumented builds: the current sources of the library are copied with counting or scheduling calls put in, and the
// checker is built again with the copies through a build overlay. The repository itself is not touched.

const repoDir = "/repo"

var instrPackages = []string{".", "sqltoken", "sqlast", "sqlastutil", "dialect"}

const rtSource = `// Package verifrt is added by the verification build.
package verifrt

// Steps counts the functions entered and loop bodies begun; above Limit (if set) the run is cut off.
var Steps, Limit uint64

// Cut is what a run that exceeds the limit panics with.
type Cut struct{}

func Step() {
	Steps++
	if Limit != 0 && Steps > Limit {
		panic(Cut{})
	}
}

// Hook is called at every scheduling point: class 0 at a statement that mentions a package variable or imports of
// sync, 1 at function entries and loop bodies, 2 at any other statement.
var Hook func(class int)

func Point(class int) {
	if h := Hook; h != nil {
		h(class)
	}
}
`

type insertion struct {
	off  int
	text string
}

// instrument copies a source with calls put in.
func instrument(src []byte, mode string, globals map[string]bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	put := func(p token.Pos, s string) { ins = append(ins, insertion{off(p), s}) }
	put(f.Name.End(), `; import verifrt "github.com/akito0107/xsqlparser/verifrt"`)
	mentions := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return x == n
			case *ast.Ident:
				found = found || globals[x.Name]
			}
			return !found
		})
		return found
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			class := 2
			if mentions(s) {
				class = 0
			}
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			put(s.Pos(), fmt.Sprintf("verifrt.Point(%d); ", class))
			if class == 0 {
				switch s.(type) {
				case *ast.AssignStmt, *ast.IncDecStmt, *ast.ExprStmt:
					put(s.End(), "; verifrt.Point(0)")
				}
			}
		}
	}
	body := func(b *ast.BlockStmt) {
		if b == nil {
			return
		}
		if mode == "steps" {
			put(b.Lbrace+1, " verifrt.Step(); ")
		} else {
			put(b.Lbrace+1, " verifrt.Point(1); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			body(n.Body)
		case *ast.FuncLit:
			body(n.Body)
		case *ast.ForStmt:
			body(n.Body)
		case *ast.RangeStmt:
			body(n.Body)
		}
		if mode == "sched" {
			switch n := n.(type) {
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					if _, ok := n.List[0].(*ast.CaseClause); ok {
						return true
					}
					if _, ok := n.List[0].(*ast.CommClause); ok {
						return true
					}
				}
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
		}
		return true
	})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var out []byte
	at := 0
	for _, i := range ins {
		out = append(out, src[at:i.off]...)
		out = append(out, i.text...)
		at = i.off
	}
	out = append(out, src[at:]...)
	return append(out, "\nvar _ = verifrt.Steps\n"...), nil
}

// sources lists the Go files of the library (tests excepted).
func sources() []string {
	var out []string
	for _, d := range instrPackages {
		l, err := filepath.Glob(filepath.Join(repoDir, d, "*.go"))
		if err != nil {
			fatal("%v", err)
		}
		for _, f := range l {
			if !strings.HasSuffix(f, "_test.go") {
				out = append(out, f)
			}
		}
	}
	return out
}

// globalNames are the names of all package variables, and of the packages that synchronise.
func globalNames(files []string) map[string]bool {
	m := map[string]bool{"sync": true, "atomic": true}
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	return m
}

// buildVariant builds the checker with the instrumented library, or with the race detector, and gives its path.
func buildVariant(mode string) string {
	dir := filepath.Join(workDir(), mode)
	if err := os.MkdirAll(dir, 0o777); err != nil {
		fatal("%v", err)
	}
	exe := filepath.Join(dir, "mc")
	args := []string{"build", "-o", exe}
	if mode == "race" {
		args = append(args, "-race", ".")
	} else {
		repl := map[string]string{}
		files := sources()
		globals := globalNames(files)
		for i, p := range files {
			src, err := os.ReadFile(p)
			if err != nil {
				fatal("%v", err)
			}
			out, err := instrument(src, mode, globals)
			if err != nil {
				fatal("%s: %v", p, err)
			}
			q := filepath.Join(dir, fmt.Sprintf("%d_%s", i, filepath.Base(p)))
			if err := os.WriteFile(q, out, 0o666); err != nil {
				fatal("%v", err)
			}
			repl[p] = q
		}
		rt := filepath.Join(dir, "rt.go")
		if err := os.WriteFile(rt, []byte(rtSource), 0o666); err != nil {
			fatal("%v", err)
		}
		repl[filepath.Join(repoDir, "verifrt", "rt.go")] = rt
		ov := filepath.Join(dir, "overlay.json")
		b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		if err := os.WriteFile(ov, b, 0o666); err != nil {
			fatal("%v", err)
		}
		args = append(args, "-overlay", ov, "-tags", "verifrt", ".")
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir(), "mc")
	if out, err := cmd.CombinedOutput(); err != nil {
		fatal("building the %s variant: %v\n%s", mode, err, out)
	}
	return exe
}
