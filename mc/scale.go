package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// Statements with one part that is large: the n-th list, name, literal, expression, … of a statement gets a size
// beyond what the deviations reach, so that behaviour that changes with a size is seen.

type bigKind int

const (
	bigNone bigKind = iota
	bigList
	bigName
	bigString
	bigNumber
	bigParts
	bigJoins
	bigWith
	bigSet
	bigExpr
	nBig = bigExpr
)

type scale struct {
	kind bigKind
	at   int // the how-manieth of its kind
	n    int
	form int // of an expression or a query
	done bool
}

// skipped leaves a case that is outside the space.
type skipped struct{}

// extent is the size of a part of kind k that is n by default.
func (g *G) extent(k bigKind, n int) int {
	if g.big.kind != k || g.big.done {
		return n
	}
	if g.big.at > 0 {
		g.big.at--
		return n
	}
	g.big.done = true
	return g.big.n
}

// times generates n parts; those in the middle of many are the plain ones.
func (g *G) times(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		middle := n > 24 && i > 0 && i < n-1
		if middle {
			g.c.mute++
		}
		f(i)
		if middle {
			g.c.mute--
		}
	}
}

func (g *G) commas(n int, f func()) {
	g.times(n, func(i int) {
		if i > 0 {
			g.sym(",")
		}
		f()
	})
}

func longName(prefix string, n int) string {
	var b strings.Builder
	b.WriteString(prefix)
	for i := 0; b.Len() < n; i++ {
		b.WriteByte("abcdefghij_0123456789"[i%21])
	}
	return b.String()
}

// longString has quotes and characters of several bytes in it.
func longString(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch i % 7 {
		case 3:
			b.WriteByte('\'')
		case 5:
			b.WriteRune('語')
		default:
			b.WriteByte("abcdefghijklm"[i%13])
		}
	}
	return b.String()
}

// longNumber has n digits.
func longNumber(n int) string {
	if n%2 == 0 {
		return strings.Repeat("0", n-1) + "7"
	}
	return "0." + strings.Repeat("12345678", n/8+1)[:n]
}

var exprForms = []struct {
	o  sqlast.OperatorType
	s  string
	kw bool
}{{sqlast.Plus, "+", false}, {sqlast.And, "AND", true}, {sqlast.Or, "OR", true}, {sqlast.Multiply, "*", false}}

const nExprForms = 4 + 5

// bigExpr is a chain of operators or a nest of n levels.
func (g *G) bigExpr(n int) sqlast.Node {
	s := g.here()
	f := g.big.form
	g.c.mute++
	defer func() { g.c.mute-- }()
	if f < len(exprForms) {
		var l sqlast.Node = g.ident()
		for i := 0; i < n; i++ {
			os := g.here()
			o := op(exprForms[f].o)
			g.L = append(g.L, Lex{exprForms[f].s, kSym})
			if exprForms[f].kw {
				g.L[os].K = kKw
			}
			g.mark(o, os)
			b := &sqlast.BinaryExpr{Left: l, Op: o, Right: g.ident()}
			g.mark(b, s)
			l = b
		}
		return l
	}
	if n > 300 {
		n = 300
	}
	return g.nest(f-len(exprForms), n)
}

func (g *G) nest(f, n int) sqlast.Node {
	s := g.here()
	if n == 0 {
		return g.ident()
	}
	var e sqlast.Node
	switch f {
	case 0:
		g.sym("(")
		e = &sqlast.Nested{AST: g.nest(f, n-1)}
		g.sym(")")
	case 1:
		fn := &sqlast.Function{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{g.ident()}}}
		g.mark(fn.Name, s)
		g.sym("(")
		fn.Args = []sqlast.Node{g.nest(f, n-1)}
		g.sym(",")
		fn.Args = append(fn.Args, g.ident())
		g.sym(")")
		e = fn
	case 2:
		g.kw("CASE", "WHEN")
		c := &sqlast.CaseExpr{Conditions: []sqlast.Node{g.ident()}}
		g.kw("THEN")
		c.Results = []sqlast.Node{g.nest(f, n-1)}
		g.kw("END")
		e = c
	case 3:
		g.sym("(")
		q := &sqlast.QueryStmt{}
		qs := g.here()
		g.kw("SELECT")
		is := g.here()
		it := &sqlast.UnnamedSelectItem{Node: g.nest(f, n-1)}
		g.mark(it, is)
		sel := &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{it}}
		g.mark(sel, qs)
		q.Body = sel
		g.mark(q, qs)
		g.sym(")")
		e = &sqlast.SubQuery{Query: q}
	default:
		x := g.nest(f, n-1)
		g.sym("::")
		ts := g.here()
		g.kw("INT")
		t := &sqlast.Int{}
		g.mark(t, ts)
		e = &sqlast.Cast{Expr: x, DataType: t}
	}
	g.mark(e, s)
	return e
}

// bigSet is a chain of n set operations or n parentheses.
func (g *G) bigSet(n int) sqlast.SQLSetExpr {
	s := g.here()
	g.c.mute++
	defer func() { g.c.mute-- }()
	if g.big.form == 0 {
		if n > 300 {
			n = 300
		}
		return g.nestSet(n)
	}
	var l sqlast.SQLSetExpr = g.selectExpr(true)
	for i := 0; i < n; i++ {
		os := g.here()
		so := &sqlast.SetOperationExpr{Left: l}
		if g.big.form == 1 {
			g.kw("UNION")
			so.Op = &sqlast.UnionOperator{}
		} else {
			g.kw("INTERSECT")
			so.Op = &sqlast.IntersectOperator{}
		}
		g.mark(so.Op, os)
		so.Right = g.selectExpr(true)
		g.mark(so, s)
		l = so
	}
	return l
}

func (g *G) nestSet(n int) sqlast.SQLSetExpr {
	if n == 0 {
		return g.selectExpr(true)
	}
	s := g.here()
	g.sym("(")
	qs := g.here()
	q := &sqlast.QueryStmt{Body: g.nestSet(n - 1)}
	g.mark(q, qs)
	g.sym(")")
	e := &sqlast.QueryExpr{Query: q}
	g.mark(e, s)
	return e
}

var (
	sizesA = []int{9, 17, 33, 65, 129, 257}
	sizesC = []int{65537, 65536, 32769, 131073}
	sizesB = []int{7, 8, 10, 11, 12, 13, 15, 16, 20, 21, 24, 25, 31, 32, 40, 50, 51, 63, 64, 100, 101, 127, 128, 200, 255, 256, 300, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097}
)

// scaled generates a statement with one large part; the deviations are free for the statement.
func (g *G) scaled(max int) sqlast.Stmt {
	g.big.kind = 1 + bigKind(g.c.Free(int(nBig)))
	g.big.at = g.c.Free(8)
	switch g.big.kind {
	case bigExpr:
		g.big.form = g.c.Free(nExprForms)
	case bigSet:
		g.big.form = g.c.Free(3)
	}
	if g.c.Flag() {
		g.big.n = sizesB[g.c.Free(len(sizesB))]
	} else {
		g.big.n = sizesA[g.c.Free(len(sizesA))]
	}
	if g.big.n > max {
		g.c.Skip = true
		panic(skipped{})
	}
	st := g.any()
	if !g.big.done {
		g.c.Skip = true
		panic(skipped{})
	}
	return st
}

// upTo generates statements with a part as large as max.
func upTo(max int) func(g *G) sqlast.Stmt {
	return func(g *G) sqlast.Stmt { return g.scaled(max) }
}

func pickSize(c *Chooser, max int) int {
	n := 0
	if c.Flag() {
		n = sizesB[c.Free(len(sizesB))]
	} else {
		n = sizesA[c.Free(len(sizesA))]
	}
	if n > max {
		c.Skip = true
		panic(skipped{})
	}
	return n
}

func repeated(s string) func(n int) string {
	return func(n int) string { return strings.Repeat(s, n) }
}

func between(a, s, b string) func(n int) string {
	return func(n int) string { return a + strings.Repeat(s, n) + b }
}

// largeBlanks are blanks and comments, large in some way.
var largeBlanks = []func(n int) string{
	repeated(" "), repeated("\t"), repeated("\n"), repeated("\r\n"), repeated("\r"), repeated(" \n"),
	between("-- ", "c", "\n"), between("--", "-", "\r\n"), between("/*", " x", "*/"), between("/*", "*", "*/"), between("/*", "\n", "*/"),
	between("/*", "a\r\n", "*/"), between("/*", "é", "*/"), repeated("/**/"), repeated("-- c\n"), repeated("/* a */ -- b\n"),
}

// hugeBlanks are blanks of 65536 lines, columns or comments and more.
func hugeBlanks(c *Chooser) string {
	return largeBlanks[c.Free(len(largeBlanks))](sizesC[c.Free(2)*2])
}

// largePieces are texts of the lexer, large in some way.
var largePieces = append([]func(n int) string{
	func(n int) string { return longName("w", n) },
	func(n int) string { return strings.ToUpper(longName("select_", n)) },
	repeated("é"), repeated("7"), between("0.", "1", ""), between("", "1", "."), repeated("0"),
	func(n int) string { return quoteSQL(longString(n)) },
	between("'", "''", "'"), between("'", "\n", "'"), between("'", "a\r\n", "'"), between("N'", "x", "'"), between("'", "é", "'"),
	between(`"`, "d", `"`), between(`"`, "d\n", `"`), between("`", "é ", "`"), between("[", "x", "]"),
	between("'", "x", ""), between(`"`, "x", ""), between("/*", "x", ""), between("--", "x", ""),
	repeated("("), repeated("+"), repeated("."), repeated("::"), repeated("<"), repeated("a "), repeated("1,"), repeated("'s' "), repeated("x.y\n"), repeated("select "),
}, largeBlanks...)

// largeTextSpaces: one large piece of any size, and two large pieces, among others.
func largeTextSpaces(run func(src string, di int) *Fail) []*Space {
	check := func(c *Chooser, src string) *Fail {
		c.Desc, c.Evals = src, len(dialects)
		for di := range dialects {
			if f := run(src, di); f != nil {
				return f
			}
		}
		return nil
	}
	small := []string{"", " ", "\n", "a", "1", "'s'", "-", "*/", "\"d\"", "."}
	return []*Space{
		{Name: "one large piece", Rule: "a word, number, literal, name, comment, run of blanks or of lexemes of each size up to 300, between others", Run: func(c *Chooser) *Fail {
			p := largePieces[c.Free(len(largePieces))](1 + c.Free(300))
			return check(c, small[c.Free(4)]+p+small[c.Free(len(small))]+"b\nc")
		}},
		{Name: "one huge piece", Rule: "a piece of about 32768, 65536 or 131072 parts, between others", Run: func(c *Chooser) *Fail {
			p := largePieces[c.Free(len(largePieces))](sizesC[c.Free(len(sizesC))])
			return check(c, small[c.Free(2)]+p+"a\nb")
		}},
		{Name: "two large pieces", Bound: 0, Thorough: 1, Rule: "two large pieces of sizes up to 4097 next to each other", Run: func(c *Chooser) *Fail {
			p := largePieces[c.Free(len(largePieces))](pickSize(c, 5000))
			q := largePieces[c.Free(len(largePieces))](pickSize(c, 5000))
			return check(c, p+small[c.Free(3)]+q+" z")
		}},
	}
}
