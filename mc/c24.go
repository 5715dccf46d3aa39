package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/k0kubun/pp"
)

// the command that prints trees

const (
	srcPipe = iota
	srcRedirect
	srcFile
	srcRelative
	srcPipeFile
	nSrc
)

func c24Run(src string, how int) runResult {
	dir := scratch()
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "in put.sql")
	if how == srcRedirect || how == srcFile || how == srcRelative {
		if err := os.WriteFile(p, []byte(src), 0o666); err != nil {
			panic(err)
		}
	}
	cmd := exec.Command(tool("cmd/astprinter"))
	cmd.Dir = dir
	switch how {
	case srcPipe:
		cmd.Stdin = strings.NewReader(src)
	case srcRedirect:
		f, err := os.Open(p)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdin = f
	case srcFile:
		cmd.Args = append(cmd.Args, "-f", p)
	case srcRelative:
		cmd.Args = append(cmd.Args, "-f=in put.sql")
	case srcPipeFile:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		defer r.Close()
		go func() {
			w.WriteString(src)
			w.Close()
		}()
		cmd.ExtraFiles = []*os.File{r}
		cmd.Args = append(cmd.Args, "-f", "/dev/fd/3")
	}
	return runTool(cmd)
}

// c24Judge compares what the command did with what the library says about the input.
func c24Judge(r runResult, stmts []sqlast.Stmt, err error) *Fail {
	if r.crashed() {
		return failf("crash or hang: %v", r)
	}
	if err != nil || len(stmts) == 0 {
		if r.code == 0 {
			return failf("the input is no list of statements (%v), but: %v", err, r)
		}
		if strings.TrimSpace(r.errOut) == "" {
			return failf("no error message: %v", r)
		}
		return nil
	}
	if r.code != 0 {
		return failf("the input parses, but: %v", r)
	}
	var want []string
	rest := r.errOut
	for _, st := range stmts {
		want = append(want, pp.Sprint(st))
		sql := st.ToSQLString() + "\n"
		i := strings.Index(rest, sql)
		if i < 0 {
			return failf("the SQL %q is not shown: %v", sql, r)
		}
		rest = rest[i+len(sql):]
	}
	if got, want := plainText(r.out), plainText(strings.Join(want, "\n")); got != want {
		return failf("stdout shows\n%s\nthe tree is\n%s", got, want)
	}
	return nil
}

func c24Input(c *Chooser, src string) *Fail {
	stmts, err := parseSQL(src, generic)
	for how := 0; how < nSrc; how++ {
		if f := c24Judge(c24Run(src, how), stmts, err); f != nil {
			f.Msg = []string{"from a pipe", "from a redirected file", "from a file", "from a file in the directory", "from a pipe given as a file"}[how] + ": " + f.Msg
			return f
		}
	}
	c.Evals = nSrc
	return nil
}

var c24Tails = []string{"", ";", ";\n", " -- end", "/* end */;", " x y", "; SELECT", ";;", "; SELECT 'a", " )", " /*", "; select 2", ";\n\nDELETE FROM t;\n", " +", "\x00", "\xff"}

var c24Pieces = []string{"\r\n", "\r", "\n", "\t", "  ", "a", "\x00", "\xff", "\x1b[31m", "\x1a", "\x04", "\u00e9", "\u8a9e", "\ufeff", "\u0085", "\u2028", "%s", "%", "\\n", ";", "''", "--"}

var c24Frames = []string{"SELECT '?'", "SELECT \"?\" FROM t", "SELECT 1 --?", "SELECT /*?*/ 1", "?SELECT a", "SELECT a?"}

var c24Words = []string{"SELECT", "a", "1", "*", ",", "FROM", "(", ")", "'s'", ";", "DELETE", "WITH", "-- c\n", "/* c */", "\"", "CREATE", "AS", "=", "é", "CASE", "%"}

func init() {
	register(&Check{
		ID:    "C24",
		Level: "exploration",
		Rule:  "one case per input, one evaluation per run of the built command; distinct inputs counted",
		Assumptions: []string{
			"what a statement's tree and its SQL are is what the library in the same tree of /repo says (its own correctness is the matter of other checks)",
			"the tree is shown with github.com/k0kubun/pp; colours and white space are left open",
		},
		Spaces: func(tier string) []*Space {
			prep := func() { tool("cmd/astprinter") }
			words := 2
			if tier == "thorough" {
				words = 3
			}
			return []*Space{
				{Name: "places", Prepare: prep, Rule: "files that cannot be read, outputs that cannot be written, odd options", Run: c24Places},
				{Name: "words", Prepare: prep, Bound: 2, Thorough: 3, Rule: "every list of up to two (thorough three) words of a small vocabulary, from all sources", Run: func(c *Chooser) *Fail {
					src := ""
					for i := 0; i < words; i++ {
						k := c.Pick(len(c24Words) + 1)
						if k == 0 {
							break
						}
						src += c24Words[k-1] + " "
					}
					c.Desc = src
					return c24Input(c, src)
				}},
				{Name: "statements", Prepare: prep, Bound: 1, Thorough: 2, Rule: "every generated statement, from all sources", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits = true
					g.any()
					c.Desc = render(g.L) + c24Tails[c.Pick(len(c24Tails))]
					return c24Input(c, c.Desc)
				}},
				{Name: "lists of statements", Prepare: prep, Bound: 1, Thorough: 2, Rule: "two statements and every tail", Run: func(c *Chooser) *Fail {
					k := c.Free(nStmts)
					var s [2]string
					for i := range s {
						g := newG(c)
						g.plainLits, g.plainIdents = true, true
						g.stmt((k + 7*i) % nStmts)
						s[i] = render(g.L)
					}
					c.Desc = s[0] + ";" + s[1] + c24Tails[c.Pick(len(c24Tails))]
					return c24Input(c, c.Desc)
				}},
				{Name: "texts", Prepare: prep, Rule: "literals, names and comments of up to two (thorough three) of 22 pieces: line ends, tabs, blanks, other controls, bytes that are no text, signs with a meaning elsewhere", Run: func(c *Chooser) *Fail {
					text := ""
					for n := c.Free(words + 1); n > 0; n-- {
						text += c24Pieces[c.Free(len(c24Pieces))]
					}
					frame := c24Frames[c.Free(len(c24Frames))]
					c.Desc = strings.Replace(frame, "?", text, 1)
					return c24Input(c, c.Desc)
				}},
				{Name: "big inputs", Prepare: prep, Rule: "inputs of many statements, long lines and deep nesting", Run: func(c *Chooser) *Fail {
					n := []int{10, 100, 1000, 3000}[c.Free(words+1)]
					k := c.Free(5)
					src := ""
					switch k {
					case 0:
						src = strings.Repeat("SELECT a FROM t WHERE b = 'c';\n", n/10)
					case 1:
						src = "SELECT " + strings.Repeat("a, ", n) + "b"
					case 2:
						src = "SELECT " + strings.Repeat("(", n/30+1) + "a" + strings.Repeat(")", n/30+1)
					case 3:
						src = "SELECT '" + strings.Repeat("x\n", n*20) + "'"
					case 4:
						src = "SELECT " + strings.Repeat("(", n/30+1) + "a" + strings.Repeat(")", n/30)
					}
					c.Desc = "big input " + itoa(k) + " of size " + itoa(n)
					return c24Input(c, src)
				}},
			}
		},
	})
}

func c24Places(c *Chooser) *Fail {
	dir := scratch()
	defer os.RemoveAll(dir)
	good := filepath.Join(dir, "good.sql")
	os.WriteFile(good, []byte("SELECT 1"), 0o666)
	os.WriteFile(filepath.Join(dir, "empty.sql"), nil, 0o666)
	os.Mkdir(filepath.Join(dir, "dir.sql"), 0o777)
	os.Symlink("loop.sql", filepath.Join(dir, "loop.sql"))
	os.Symlink("none.sql", filepath.Join(dir, "dangling.sql"))
	os.Symlink("good.sql", filepath.Join(dir, "link.sql"))
	os.WriteFile(filepath.Join(dir, "bin.sql"), []byte{0, 1, 2, 0xff, 0xfe}, 0o666)
	os.WriteFile(filepath.Join(dir, "-f"), []byte("SELECT 1"), 0o666)
	type place struct {
		name string
		ok   bool
		mod  func(cmd *exec.Cmd)
	}
	arg := func(a ...string) func(cmd *exec.Cmd) {
		return func(cmd *exec.Cmd) { cmd.Args = append(cmd.Args, a...) }
	}
	in := func(name string) func(cmd *exec.Cmd) {
		return func(cmd *exec.Cmd) {
			f, err := os.Open(filepath.Join(dir, name))
			if err != nil {
				panic(err)
			}
			cmd.Stdin = f
		}
	}
	full := func(cmd *exec.Cmd) {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		cmd.Stdout = f
	}
	places := []place{
		{"a good file", true, arg("-f", "good.sql")},
		{"a good file by its full path", true, arg("--f", good)},
		{"a link to a good file", true, arg("-f", "link.sql")},
		{"a file named -f", true, arg("-f", "-f")},
		{"standard input named", true, func(cmd *exec.Cmd) { arg("-f", "stdin")(cmd); cmd.Stdin = strings.NewReader("SELECT 1") }},
		{"standard input", true, func(cmd *exec.Cmd) { cmd.Stdin = strings.NewReader("SELECT 1") }},
		{"standard input, with a file named", true, func(cmd *exec.Cmd) {
			arg("-f", "good.sql")(cmd)
			cmd.Stdin = strings.NewReader("SELEC")
		}},
		{"a wrong file, with good standard input", false, func(cmd *exec.Cmd) {
			arg("-f", "bin.sql")(cmd)
			cmd.Stdin = strings.NewReader("SELECT 1")
		}},
		{"a missing file, with good standard input", false, func(cmd *exec.Cmd) {
			arg("-f", "none.sql")(cmd)
			cmd.Stdin = strings.NewReader("SELECT 1")
		}},
		{"a missing file", false, arg("-f", "none.sql")},
		{"a file in a missing directory", false, arg("-f", "none/good.sql")},
		{"a file below a file", false, arg("-f", "good.sql/x")},
		{"a directory", false, arg("-f", "dir.sql")},
		{"a loop of links", false, arg("-f", "loop.sql")},
		{"a dangling link", false, arg("-f", "dangling.sql")},
		{"an empty file", false, arg("-f", "empty.sql")},
		{"an empty file name", false, arg("-f", "")},
		{"a name too long", false, arg("-f", strings.Repeat("x", 5000))},
		{"a binary file", false, arg("-f", "bin.sql")},
		{"an option without its value", false, arg("-f")},
		{"an unknown option", false, arg("-unknown")},
		{"no standard input", false, func(cmd *exec.Cmd) {}},
		{"a directory as standard input", false, in("dir.sql")},
		{"an empty file as standard input", false, in("empty.sql")},
		{"standard output that is full", false, func(cmd *exec.Cmd) { arg("-f", "good.sql")(cmd); full(cmd) }},
		{"standard output that is full, standard input", false, func(cmd *exec.Cmd) { full(cmd); cmd.Stdin = strings.NewReader("SELECT 1") }},
	}
	pl := places[c.Free(len(places))]
	c.Desc = pl.name
	cmd := exec.Command(tool("cmd/astprinter"))
	cmd.Dir = dir
	pl.mod(cmd)
	r := runTool(cmd)
	for _, f := range []interface{}{cmd.Stdin, cmd.Stdout} {
		if f, ok := f.(*os.File); ok {
			f.Close()
		}
	}
	if pl.ok {
		stmts, err := parseSQL("SELECT 1", generic)
		return c24Judge(r, stmts, err)
	}
	return c24Judge(r, nil, nil)
}
