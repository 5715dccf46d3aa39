package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// the generator of marker interfaces

type genCase struct {
	name     string
	hasName  bool
	embed    string
	hasEmbed bool
	pkgFlag  string // "" and !hasPkg: not given
	hasPkg   bool
	pkgEnv   string
	out      string
	hasOut   bool
	place    int
}

// the places of the output
const (
	placeNew = iota
	placeLonger
	placeSame
	placeDir
	placeFull
	placeLink
	nPlaces
)

var placeNames = []string{"a new file", "over a longer file", "over a shorter file", "where a directory is", "to a full device", "through a link"}

const embedHelper = `
type Node interface{ nodeM(); NodeX() int }
type Other interface{ otherM() }
type Third interface{ thirdM(Node) Other }
type lower interface{ lowerM() }
type Über interface{ M() }
type SubNode interface{ subM() }
type NodeList interface{ listM() }
type No interface{ noM() }
type Stm interface{ stmM() }
type StmtList interface{ stmtListM() }
type NODE interface{ loudM() }
`

func goName(s string) bool { return token.IsIdentifier(s) }

func privateName(s string) string {
	if strings.HasPrefix(s, "SQL") {
		return "sql" + s[3:]
	}
	r := []rune(s)
	r[0] = unicode.ToLower(r[0])
	return string(r)
}

// snakeOK says whether a file name is the snake case of a type name: the same letters in lower case, with underscores
// between words only, and where a capital follows a lower case letter in any case.
func snakeOK(file, name string) bool {
	re := "^"
	r := []rune(name)
	for i, c := range r {
		switch {
		case c == '_':
			if r[i-1] != '_' {
				re += "_+"
			}
			continue
		case i > 0 && unicode.IsUpper(c) && unicode.IsLower(r[i-1]):
			re += "_"
		case i > 0 && unicode.IsUpper(c) && r[i-1] != '_':
			re += "_?"
		}
		re += regexp.QuoteMeta(string(unicode.ToLower(c)))
	}
	return regexp.MustCompile(re + "$").MatchString(file)
}

func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[rel] = "directory"
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link to " + t
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

func diffListing(a, b map[string]string) []string {
	var out []string
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, k)
		}
	}
	for k, v := range b {
		if w, ok := a[k]; !ok || v != w {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func (g *genCase) run(dir string) runResult {
	cmd := exec.Command(tool("tools/genmark"))
	cmd.Dir = dir
	if g.hasName {
		cmd.Args = append(cmd.Args, "-t", g.name)
	}
	if g.hasEmbed {
		cmd.Args = append(cmd.Args, "-e", g.embed)
	}
	if g.hasPkg {
		cmd.Args = append(cmd.Args, "-pkg="+g.pkgFlag)
	}
	if g.hasOut {
		cmd.Args = append(cmd.Args, "-o", g.out)
	}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOPACKAGE=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	if g.pkgEnv != "" {
		cmd.Env = append(cmd.Env, "GOPACKAGE="+g.pkgEnv)
	}
	return runTool(cmd)
}

func (g *genCase) pkg() string {
	if g.hasPkg {
		return g.pkgFlag
	}
	return g.pkgEnv
}

// embeds lists the interfaces to embed; fine is false if it is no proper list of names.
func (g *genCase) embeds() (l []string, fine bool) {
	fine = true
	if !g.hasEmbed || g.embed == "" {
		return nil, true
	}
	for _, e := range strings.Split(g.embed, ",") {
		e = strings.TrimSpace(e)
		if !goName(e) {
			fine = false
		}
		l = append(l, e)
	}
	return l, fine
}

func (g *genCase) describe() string {
	s := "genmark"
	if g.hasName {
		s += fmt.Sprintf(" -t %q", g.name)
	}
	if g.hasEmbed {
		s += fmt.Sprintf(" -e %q", g.embed)
	}
	if g.hasPkg {
		s += fmt.Sprintf(" -pkg %q", g.pkgFlag)
	}
	if g.hasOut {
		s += fmt.Sprintf(" -o %q", g.out)
	}
	return s + fmt.Sprintf(" GOPACKAGE=%q %s", g.pkgEnv, placeNames[g.place])
}

func (g *genCase) check() *Fail {
	dir := scratch()
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0o777)
	os.WriteFile(filepath.Join(dir, "other_gen.go"), []byte("package other\n"), 0o666)
	nameOK := g.hasName && g.name != "Init" && !(g.name == "Main" && g.pkg() == "main") && goName(g.name) && unicode.IsUpper([]rune(g.name)[0]) && privateName(g.name) != g.name && goName(privateName(g.name))
	embeds, embedOK := g.embeds()
	pkgOK := goName(g.pkg()) && g.pkg() != "_"
	good := nameOK && embedOK && pkgOK && g.place != placeDir && g.place != placeFull && !(g.hasOut && strings.HasPrefix(g.out, "none/"))
	file := "" // known only if it is named
	if g.hasOut && g.out != "" {
		file = g.out + "_gen.go"
	} else if g.place != placeNew {
		panic("an existing output needs a name")
	}
	target := filepath.Join(dir, file)
	switch g.place {
	case placeLonger:
		os.WriteFile(target, []byte(strings.Repeat("// old\n", 500)), 0o666)
	case placeSame:
		os.WriteFile(target, []byte("old"), 0o666)
	case placeDir:
		os.Mkdir(target, 0o777)
	case placeFull:
		os.Symlink("/dev/full", target)
	case placeLink:
		os.WriteFile(filepath.Join(dir, "linked.txt"), []byte("old"), 0o666)
		os.Symlink(filepath.Join(dir, "linked.txt"), target)
	}
	before := listing(dir)
	r := g.run(dir)
	after := listing(dir)
	changed := diffListing(before, after)
	if r.crashed() {
		return failf("crash or hang: %v", r)
	}
	if !good {
		if r.code == 0 {
			if !embedOK && nameOK && pkgOK {
				return nil // left open
			}
			return failf("no error: %v; files %v", r, after)
		}
		if strings.TrimSpace(r.errOut) == "" {
			return failf("no error message: %v", r)
		}
		if len(changed) > 0 {
			return failf("failed, but changed %v: %v", changed, r)
		}
		return nil
	}
	if r.code != 0 {
		return failf("refused: %v", r)
	}
	if file == "" {
		if len(changed) != 1 {
			return failf("changed %v, want one file: %v", changed, r)
		}
		file = changed[0]
		if base := strings.TrimSuffix(file, "_gen.go"); base == file || !snakeOK(base, g.name) {
			return failf("the file of %s is named %s", g.name, file)
		}
		target = filepath.Join(dir, file)
	} else {
		want := file
		if g.place == placeLink {
			want = "linked.txt"
		}
		if len(changed) != 1 || changed[0] != filepath.Clean(want) {
			return failf("changed %v, want %s: %v", changed, want, r)
		}
	}
	src, err := os.ReadFile(target)
	if err != nil {
		return failf("no file %s: %v", file, err)
	}
	if f := c25Source(src, g.name, g.pkg(), embeds); f != nil {
		f.Msg += "\n" + string(src)
		return f
	}
	// again
	if r := g.run(dir); r.code != 0 {
		return failf("refused the second time: %v", r)
	}
	if changed := diffListing(after, listing(dir)); len(changed) > 0 {
		return failf("the second run changed %v", changed)
	}
	return nil
}

// c25Source checks a generated file.
func c25Source(src []byte, name, pkg string, embeds []string) *Fail {
	fmted, err := format.Source(src)
	if err != nil {
		return failf("does not parse: %v", err)
	}
	if !bytes.Equal(fmted, src) {
		return failf("not formatted")
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, parser.ParseComments)
	if err != nil {
		return failf("does not parse: %v", err)
	}
	if f.Name.Name != pkg {
		return failf("package %s, want %s", f.Name.Name, pkg)
	}
	generated := false
	for _, g := range f.Comments {
		for _, c := range g.List {
			generated = generated || strings.HasPrefix(c.Text, "// Code generated ") && strings.HasSuffix(c.Text, " DO NOT EDIT.")
		}
	}
	if !generated {
		return failf("not marked as generated")
	}
	h, err := parser.ParseFile(fset, "helper.go", "package "+pkg+"\n"+embedHelper, 0)
	if err != nil {
		return failf("helper: %v", err)
	}
	conf := types.Config{}
	p, err := conf.Check("p", fset, []*ast.File{f, h}, nil)
	if err != nil {
		return failf("does not compile: %v", err)
	}
	priv := privateName(name)
	known := map[string]bool{"Node": true, "Other": true, "Third": true, "lower": true, "Über": true, "SubNode": true, "NodeList": true, "No": true, "Stm": true, "StmtList": true, "NODE": true, name: true, priv: true}
	for _, n := range p.Scope().Names() {
		if !known[n] {
			return failf("declares %s", n)
		}
	}
	it, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return failf("does not declare %s", name)
	}
	iface, ok := it.Type().Underlying().(*types.Interface)
	if !ok || it.IsAlias() {
		return failf("%s is no interface", name)
	}
	if iface.NumExplicitMethods() != 1 {
		return failf("%s has %d methods of its own", name, iface.NumExplicitMethods())
	}
	m := iface.ExplicitMethod(0)
	sig := m.Type().(*types.Signature)
	if m.Exported() || sig.Params().Len() != 0 || sig.Results().Len() != 0 {
		return failf("the marker of %s is %v", name, m)
	}
	want := map[string]bool{}
	for _, e := range embeds {
		want[e] = true
	}
	got := map[string]bool{}
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		n, ok := iface.EmbeddedType(i).(*types.Named)
		if !ok || !want[n.Obj().Name()] {
			return failf("%s embeds %v", name, iface.EmbeddedType(i))
		}
		got[n.Obj().Name()] = true
	}
	if len(got) != len(want) {
		return failf("%s embeds %v, want %v", name, got, want)
	}
	mt, ok := p.Scope().Lookup(priv).(*types.TypeName)
	if !ok || mt.IsAlias() {
		return failf("does not declare %s", priv)
	}
	if _, ok := mt.Type().Underlying().(*types.Interface); ok {
		return failf("%s is an interface", priv)
	}
	for _, t := range []types.Type{mt.Type(), types.NewPointer(mt.Type())} {
		set := types.NewMethodSet(t)
		if set.Len() != 1 || set.At(0).Obj().Name() != m.Name() || !types.Identical(set.At(0).Obj().Type().(*types.Signature), sig) {
			return failf("the methods of %v are %v, the marker is %v", t, set, m)
		}
	}
	return nil
}

var (
	genNames = []string{"Stmt", "A", "AB", "SQLSetExpr", "SQL", "SQLs", "SQLSQL", "MySQLType", "HTTPServer", "TypeABC", "Type2Name", "X1", "MyDataTypeDecoration", "A_B", "A_b", "A__B", "Ärger", "SÜdPol", "String", "Error", "Any", "Len", "Main", "Init", "Linux", "FooTest", "FooLinuxAmd64", "T", "K2x",
		"Type", "Func", "Interface", "Package", "Var", "For", "Go",
		"", "stmt", "_A", "1A", "äb", "ǅx", "𝐀b", "A B", " A", "A ", "A.B", "A-B", "A\nB", "A/b", "../A", "A;", "*A", "A*", "[]A", "A[T any]", "A{}", "A//", "A/*", "A`", "A\"", "\xffA", "A\xff", "A=B", "A struct{}; type B", "日本"}
	genEmbeds = []string{"Node", "", "Node,Other", "Third,Node,Other", "Node,Node", " Node , Other ", "Über", "lower", "Node,", ",Node", ",", "No de", "1x", "No-de", "type", "Node Other", "Node\nOther", "{", "}", "Node //", "\""}
	genOuts   = []string{"out", "", "sub/out", "none/out", "out put", "Out", "out.go", "./out", "sub/../out", "日本"}
	genPkgs   = []string{"p", "main", "über", "", "func", "1x", "a b", "_", "a-b", "a.b", "sqlast"}
	genChars  = []string{"a", "B", "1", "_", " ", "\n", "\t", ";", "{", "}", "(", ")", "[", "]", "/", "*", ".", ",", "=", "|", "~", "`", "\"", "'", "é", "É", "//", "/*", "*/", "\xff", "\r"}
)

func init() {
	register(&Check{
		ID:    "C25",
		Level: "exploration",
		Rule:  "one case per invocation of the built command (run twice in a scratch directory, the file type-checked); distinct invocations counted",
		Assumptions: []string{
			"the embedded interfaces are of the package the file is for; embed lists with entries that are no names are only required not to crash",
			"go/types decides whether the generated file compiles and what it declares",
		},
		Spaces: func(tier string) []*Space {
			prep := func() { tool("tools/genmark") }
			chars := 2
			if tier == "thorough" {
				chars = 3
			}
			return []*Space{
				{Name: "options", Prepare: prep, Bound: 2, Thorough: 3, Rule: "every name, list to embed, package and output, in deviations from an ordinary invocation", Run: func(c *Chooser) *Fail {
					g := &genCase{hasName: true, name: genNames[c.Pick(len(genNames))], hasEmbed: true, embed: genEmbeds[c.Pick(len(genEmbeds))], pkgEnv: "p"}
					if g.name == "" && c.Flag() {
						g.hasName = false
					}
					if g.embed == "" && c.Flag() {
						g.hasEmbed = false
					}
					if k := c.Pick(2 * len(genPkgs)); k > 0 {
						if k%2 == 0 {
							g.pkgEnv = genPkgs[k/2]
						} else {
							g.hasPkg, g.pkgFlag = true, genPkgs[k/2]
							g.pkgEnv = []string{"p", "", "q"}[c.Free(3)]
							if g.pkgFlag == "" && g.pkgEnv != "" {
								// an empty flag: none
								c.Skip = true
								return nil
							}
						}
					}
					if k := c.Pick(len(genOuts) + 1); k > 0 {
						g.hasOut, g.out = true, genOuts[k-1]
						if g.out != "" && !strings.HasPrefix(g.out, "none/") {
							g.place = c.Free(nPlaces)
						}
					}
					c.Desc = g.describe()
					return g.check()
				}},
				{Name: "names", Prepare: prep, Bound: chars, Thorough: chars, Rule: "a capital letter and up to two (thorough three) characters of every class that means something in Go", Run: func(c *Chooser) *Fail {
					n := "A"
					for i := 0; i < chars; i++ {
						k := c.Pick(len(genChars) + 1)
						if k == 0 {
							break
						}
						n += genChars[k-1]
					}
					g := &genCase{hasName: true, name: n, hasEmbed: true, embed: "Node", pkgEnv: "p"}
					if strings.ContainsAny(n, "\x00") {
						c.Skip = true // no argument holds it
						return nil
					}
					c.Desc = g.describe()
					return g.check()
				}},
				{Name: "lists of interfaces", Prepare: prep, Bound: 4, Thorough: 4, Rule: "every list of up to three (thorough four) interfaces to embed, whose names contain each other, the type and words of the file, in any order and repeated", Run: func(c *Chooser) *Fail {
					names := []string{"Node", "SubNode", "NodeList", "No", "NODE", "Stm", "StmtList", "lower"}
					var l []string
					for len(l) < chars+1 {
						k := c.Pick(len(names) + 1)
						if k == 0 {
							break
						}
						l = append(l, names[k-1])
					}
					g := &genCase{hasName: true, name: "Stmt", hasEmbed: true, embed: strings.Join(l, ","), pkgEnv: "p"}
					c.Desc = g.describe()
					return g.check()
				}},
				{Name: "several in one package", Prepare: prep, Bound: 2, Thorough: 3, Rule: "the files of three names compile together and each leaves the others as they are", Run: c25Several},
			}
		},
	})
}

// c25Several generates several interfaces into one directory.
func c25Several(c *Chooser) *Fail {
	names := []string{"Stmt", "SQLSetExpr", "TableFactor"}
	if k := c.Pick(len(genNames)); k > 0 && genNames[k] != "Init" && goName(genNames[k]) && goName(privateName(genNames[k])) && unicode.IsUpper([]rune(genNames[k])[0]) && privateName(genNames[k]) != genNames[k] {
		names[1] = genNames[k]
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	emb := []string{"Node", []string{"Node", "Stmt"}[c.Pick(2)], []string{"Node", "Stmt,Other", names[1]}[c.Pick(3)]}
	c.Desc = fmt.Sprint(names, emb)
	before := listing(dir)
	var files []*ast.File
	fset := token.NewFileSet()
	for i, n := range names {
		for j := 0; j < i; j++ {
			if names[j] == n {
				c.Skip = true
				return nil
			}
		}
		g := &genCase{hasName: true, name: n, hasEmbed: true, embed: emb[i], pkgEnv: "p"}
		if r := g.run(dir); r.code != 0 {
			return failf("%s: %v", g.describe(), r)
		}
		after := listing(dir)
		ch := diffListing(before, after)
		if len(ch) != 1 {
			return failf("%s changed %v", g.describe(), ch)
		}
		before = after
		f, err := parser.ParseFile(fset, filepath.Join(dir, ch[0]), nil, 0)
		if err != nil {
			return failf("%v", err)
		}
		files = append(files, f)
	}
	h, err := parser.ParseFile(fset, "helper.go", "package p\n"+embedHelper+fmt.Sprintf(`
type x struct { %s }
type y struct { %s; %s }
func use(a %s) { a.%sMarker() }
`, privateName(names[0]), privateName(names[1]), privateName(names[2]), names[0], privateName(names[0])), 0)
	if err != nil {
		return failf("helper: %v", err)
	}
	if _, err := (&types.Config{}).Check("p", fset, append(files, h), nil); err != nil {
		return failf("the files do not compile together: %v", err)
	}
	return nil
}
