package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// Operations that call what the caller gave them (reader, dialect, writer, visitor, rewrite function), and in one of these
// calls another operation is made: both must give what each one gives alone.

// calledReader gives n bytes a time and reports each read.
type calledReader struct {
	data string
	n    int
	at   func()
}

func (r *calledReader) Read(p []byte) (int, error) {
	r.at()
	if r.data == "" {
		return 0, io.EOF
	}
	n := copy(p, r.data[:min(r.n, len(r.data))])
	r.data = r.data[n:]
	return n, nil
}

type calledDialect struct {
	dialect.Dialect
	at func()
}

func (d calledDialect) IsIdentifierStart(r rune) bool {
	d.at()
	return d.Dialect.IsIdentifierStart(r)
}

func (d calledDialect) IsIdentifierPart(r rune) bool {
	d.at()
	return d.Dialect.IsIdentifierPart(r)
}

func (d calledDialect) IsDelimitedIdentifierStart(r rune) bool {
	d.at()
	return d.Dialect.IsDelimitedIdentifierStart(r)
}

type calledWriter struct {
	strings.Builder
	at func()
}

func (w *calledWriter) Write(p []byte) (int, error) {
	w.Builder.Write(p)
	w.at()
	return len(p), nil
}

func (w *calledWriter) WriteString(s string) (int, error) {
	w.Builder.WriteString(s)
	w.at()
	return len(s), nil
}

// calledPlain has no method but Write.
type calledPlain struct {
	b  *strings.Builder
	at func()
}

func (w calledPlain) Write(p []byte) (int, error) {
	w.at()
	w.b.Write(p)
	return len(p), nil
}

type calledVisitor struct {
	b     *strings.Builder
	depth int
	at    func()
}

func (v *calledVisitor) Visit(n sqlast.Node) sqlast.Visitor {
	fmt.Fprintf(v.b, "%d:%T ", v.depth, n)
	v.at()
	if n == nil {
		return nil
	}
	return &calledVisitor{v.b, v.depth + 1, v.at}
}

func cursorFacts(b *strings.Builder, c *sqlastutil.Cursor) {
	fmt.Fprintf(b, "%T in %T at %s %d ", c.Node(), c.Parent(), c.Name(), c.Index())
}

// nestOuter are the operations that make calls: text of the result; f is the parsed input (never changed, unless it is a copy).
var nestOuter = []struct {
	name string
	run  func(in string, at func()) string
}{
	{"tokenize from a reader", func(in string, at func()) string {
		ts, err := sqltoken.NewTokenizer(&calledReader{in, 3, at}, generic).Tokenize()
		return dumpOf(ts) + fmt.Sprint(err != nil)
	}},
	{"parse from a reader", func(in string, at func()) string {
		p, err := xsqlparser.NewParser(&calledReader{in, 16, at}, generic, xsqlparser.ParseComment())
		if err != nil {
			return "no parser"
		}
		f, err := p.ParseFile()
		return dumpOf(f) + fmt.Sprint(err != nil)
	}},
	{"tokenize with a dialect", func(in string, at func()) string {
		ts, err := sqltoken.NewTokenizer(strings.NewReader(in), calledDialect{mysql, at}).Tokenize()
		return dumpOf(ts) + fmt.Sprint(err != nil)
	}},
	{"parse with a dialect", func(in string, at func()) string {
		p, err := xsqlparser.NewParser(strings.NewReader(in), calledDialect{postgres, at})
		if err != nil {
			return "no parser"
		}
		ss, err := p.ParseSQL()
		return dumpOf(ss) + fmt.Sprint(err != nil)
	}},
	{"print", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			w := &calledWriter{at: at}
			n, err := f.WriteTo(w)
			return fmt.Sprint(w.String(), n, err)
		})
	}},
	{"print to a writer with Write only", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			var sum int64
			for _, s := range f.Stmts {
				n, err := s.WriteTo(calledPlain{&b, at})
				sum += n
				if err != nil {
					return err.Error()
				}
			}
			return fmt.Sprint(b.String(), sum)
		})
	}},
	{"walk", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			sqlast.Walk(&calledVisitor{&b, 0, at}, f)
			return b.String()
		})
	}},
	{"inspect, leaving out some", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			n := 0
			sqlast.Inspect(f, func(x sqlast.Node) bool {
				fmt.Fprintf(&b, "%T ", x)
				at()
				n++
				return n%7 != 0
			})
			return b.String()
		})
	}},
	{"rewrite", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			r := sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
				at()
				cursorFacts(&b, c)
				return true
			}, func(c *sqlastutil.Cursor) bool {
				at()
				cursorFacts(&b, c)
				return true
			})
			return b.String() + dumpOf(r)
		})
	}},
	{"rewrite with edits", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			n := 0
			r := sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
				cursorFacts(&b, c)
				if c.Index() < 0 {
					return true
				}
				if _, ok := c.Node().(*sqlast.Ident); !ok {
					return true
				}
				n++
				switch n % 4 {
				case 0:
					c.InsertBefore(&sqlast.Ident{Value: "before"})
				case 1:
					c.InsertAfter(&sqlast.Ident{Value: "after"})
				case 2:
					c.Replace(&sqlast.Ident{Value: "instead"})
				}
				at()
				cursorFacts(&b, c)
				return true
			}, nil)
			return b.String() + dumpOf(r)
		})
	}},
	{"rewrite, stopped", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			n := 0
			r := sqlastutil.Apply(f, nil, func(c *sqlastutil.Cursor) bool {
				at()
				cursorFacts(&b, c)
				n++
				return n < 20
			})
			return b.String() + dumpOf(r)
		})
	}},
}

var errNested = errors.New("nested")

func nestTree(in string, f func(*sqlast.File) string) string {
	t, err := parseFile(in, generic, true)
	if err != nil {
		return "rejected"
	}
	return f(t)
}

func none() {}

// nestInner are the operations made within: the ones above, and some that end in other ways.
var nestInner = append(nestOuter[:len(nestOuter):len(nestOuter)], []struct {
	name string
	run  func(in string, at func()) string
}{
	{"tokenize what is wrong", func(in string, at func()) string {
		_, err := realTokens(in+" 'abc", generic)
		return fmt.Sprint(err != nil)
	}},
	{"parse what is wrong", func(in string, at func()) string {
		_, err := parseSQL(in+" SELECT FROM (", generic)
		return fmt.Sprint(err != nil)
	}},
	{"print to a writer that fails", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			w := limitWriter(30)
			n, err := f.WriteTo(&w)
			return fmt.Sprint(n, err != nil)
		})
	}},
	{"to text", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string { return f.ToSQLString() })
	}},
	{"walk to a panic", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			v := panicVisitor(9)
			guarded(func() { sqlast.Walk(&v, f) })
			return fmt.Sprint(int(v))
		})
	}},
	{"rewrite to a panic", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			n := 0
			guarded(func() {
				sqlastutil.Apply(f, func(*sqlastutil.Cursor) bool {
					n++
					if n == 9 {
						panic(errNested)
					}
					return true
				}, nil)
			})
			return fmt.Sprint(n)
		})
	}},
	{"map comments", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			m := sqlast.NewCommentMap(f)
			var b strings.Builder
			for _, n := range refNodes(f) {
				if gs := m[n]; gs != nil {
					fmt.Fprintf(&b, "%T %v: %s", n, n.Pos(), dumpOf(gs))
				}
			}
			return b.String()
		})
	}},
	{"take positions", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			var b strings.Builder
			for _, n := range refNodes(f) {
				fmt.Fprint(&b, n.Pos(), n.End(), " ")
			}
			return b.String()
		})
	}},
	{"compare", func(in string, at func()) string {
		return nestTree(in, func(f *sqlast.File) string {
			return nestTree(in, func(g *sqlast.File) string {
				same := xsqlparser.CompareWithoutMarker(f, g) == ""
				if len(g.Stmts) == 0 {
					return fmt.Sprint(same)
				}
				g.Stmts = g.Stmts[1:]
				return fmt.Sprint(same, xsqlparser.CompareWithoutMarker(f, g) == "")
			})
		})
	}},
}...)

var nestInputs = []string{
	"SELECT a.b, c AS x FROM t AS u /* c */ WHERE a NOT IN (1, 'x''y') OR b IS NULL ORDER BY a -- d",
	"CREATE TABLE \"t\" (a INT PRIMARY KEY, -- c\nb VARCHAR(10) NOT NULL); UPDATE t SET a = CASE b WHEN 1 THEN 2 END",
	"INSERT INTO t (a, b) VALUES (1, N'x'), (true, NULL)",
}

// c20Nested makes one operation in one call (or in every call) of another.
func c20Nested(c *Chooser, all bool) *Fail {
	o, in := c.Free(len(nestOuter)), c.Free(len(nestInputs))
	i, in2 := c.Free(len(nestInner)), c.Free(len(nestInputs))
	outer, inner := nestOuter[o], nestInner[i]
	calls := 0
	wantOuter := outer.run(nestInputs[in], func() { calls++ })
	wantInner := inner.run(nestInputs[in2], none)
	k := -1
	if !all {
		if calls == 0 {
			c.Skip = true
			return nil
		}
		k = c.Free(calls)
	}
	c.Desc = fmt.Sprintf("%s of %q; in call %d of %d: %s of %q", outer.name, nestInputs[in], k, calls, inner.name, nestInputs[in2])
	n := 0
	var bad string
	got := outer.run(nestInputs[in], func() {
		if n == k || all {
			if r := inner.run(nestInputs[in2], none); r != wantInner {
				bad = r
			}
		}
		n++
	})
	if bad != "" {
		return failf("%s within %s gives %.2000s and not %.2000s", inner.name, outer.name, bad, wantInner)
	}
	if got != wantOuter {
		return failf("%s gives %.2000s and not %.2000s", outer.name, got, wantOuter)
	}
	return nil
}
