package main

// The reference grammar: it generates statements of the supported SQL together with the tree each of them denotes.
// It shares nothing with the parser but the tree types, and it is driven by a Chooser, so that the explorer can
// enumerate every statement within a number of deviations from the plainest one.

import (
	"strconv"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

type kind byte

const (
	kKw    kind = 'k' // keyword: letter case is free
	kIdent kind = 'i' // name, delimited or not
	kNum   kind = 'n'
	kStr   kind = 's' // string literal with its quotes
	kSym   kind = 'p' // punctuation and operators
)

// Lex is one lexeme of a generated statement.
type Lex struct {
	S string
	K kind
}

type span struct {
	node sqlast.Node
	s, e int // lexemes [s, e)
}

// G generates one statement.
type G struct {
	c     *Chooser
	L     []Lex
	spans []span
	nid   int
	depth int

	// ident overrides the default choice of names if set
	plainIdents bool // names have no alternatives
	plainLits   bool // literals have no alternatives
	maxList     int  // longest list
	maxDepth    int
	recordSpans bool
	noSub       bool // no subqueries in expressions

	freeClauses bool // the optional clauses of the statement itself cost nothing
	inner       int  // how many expressions and inner queries the generator is in
	freeKinds   int  // so many of the next choices of a kind cost nothing

	big scale // what is to be large
}

func newG(c *Chooser) *G { return &G{c: c, maxList: 3, maxDepth: 6} }

func (g *G) kw(words ...string) {
	for _, w := range words {
		g.L = append(g.L, Lex{w, kKw})
	}
}
func (g *G) sym(s string) { g.L = append(g.L, Lex{s, kSym}) }
func (g *G) here() int    { return len(g.L) }
func (g *G) mark(n sqlast.Node, s int) {
	if g.recordSpans {
		g.spans = append(g.spans, span{n, s, len(g.L)})
	}
}

// flag chooses whether an optional part is there.
func (g *G) flag() bool {
	if g.freeClauses && g.inner == 0 {
		return g.c.Free(2) == 1
	}
	return g.c.Flag()
}

// kind chooses among n kinds of a construct.
func (g *G) kind(n int) int {
	if g.freeKinds > 0 {
		g.freeKinds--
		return g.c.Free(n)
	}
	return g.c.Pick(n)
}

// list chooses a length from 1 to maxList.
func (g *G) list() int { return g.extent(bigList, 1+g.c.Pick(g.maxList)) }

var identForms = []func(n string) string{
	func(n string) string { return n },
	func(n string) string { return `"` + n + `"` },
	func(n string) string { return `"Select"` },
	func(n string) string { return "Year" },
	func(n string) string { return "N" + n },
	func(n string) string { return "_" + n },
	func(n string) string { return `"` + n + ` - 'b'"` },
}

// the generic dialect has no identifiers starting with _, so the form is replaced there
func init() {
	identForms[5] = func(n string) string { return "X_" + n + "_9" }
}

func (g *G) name() string {
	g.nid++
	n := "c" + strconv.Itoa(g.nid)
	if m := g.extent(bigName, 0); m > 0 {
		return longName(n, m)
	}
	if g.plainIdents {
		return n
	}
	return identForms[g.c.Pick(len(identForms))](n)
}

func (g *G) ident() *sqlast.Ident {
	s := g.here()
	v := g.name()
	g.L = append(g.L, Lex{v, kIdent})
	id := &sqlast.Ident{Value: v}
	g.mark(id, s)
	return id
}

func (g *G) idents() []*sqlast.Ident {
	var ids []*sqlast.Ident
	g.commas(g.list(), func() { ids = append(ids, g.ident()) })
	return ids
}

func (g *G) parenIdents() []*sqlast.Ident {
	g.sym("(")
	ids := g.idents()
	g.sym(")")
	return ids
}

// objname is a possibly qualified name.
func (g *G) objname() *sqlast.ObjectName {
	s := g.here()
	o := &sqlast.ObjectName{Idents: []*sqlast.Ident{g.ident()}}
	g.times(g.extent(bigParts, g.c.Pick(3)), func(int) {
		g.sym(".")
		o.Idents = append(o.Idents, g.ident())
	})
	g.mark(o, s)
	return o
}

var numForms = []string{"1", "0", "42", "9223372036854775807", "1.5", "10.0", "0.25", "007", "1."}

func (g *G) number() sqlast.Node {
	s := g.here()
	f := "1"
	if m := g.extent(bigNumber, 0); m > 0 {
		f = longNumber(m)
	} else if !g.plainLits {
		f = numForms[g.c.Pick(len(numForms))]
	}
	g.L = append(g.L, Lex{f, kNum})
	var n sqlast.Node
	if strings.Contains(f, ".") {
		d, err := strconv.ParseFloat(f, 64)
		if err != nil {
			panic(err)
		}
		n = &sqlast.DoubleValue{Double: d}
	} else {
		i, err := strconv.ParseInt(f, 10, 64)
		if err != nil {
			panic(err)
		}
		n = &sqlast.LongValue{Long: i}
	}
	g.mark(n, s)
	return n
}

var intForms = []string{"3", "0", "255", "2147483648", "010"}

// size is a non-negative integer where the grammar asks for one.
func (g *G) size() uint64 {
	f := intForms[0]
	if !g.plainLits {
		f = intForms[g.c.Pick(len(intForms))]
	}
	g.L = append(g.L, Lex{f, kNum})
	n, err := strconv.ParseUint(f, 10, 63)
	if err != nil {
		panic(err)
	}
	return n
}

func (g *G) long() *sqlast.LongValue {
	s := g.here()
	n := &sqlast.LongValue{Long: int64(g.size())}
	g.mark(n, s)
	return n
}

var strForms = []string{"s", "", "it's", "'", "--x", "/* a */", "a;b", "日本", "x\ny", `"q"`, `\`}

func quoteSQL(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (g *G) str() sqlast.Node {
	s := g.here()
	f := "s"
	if m := g.extent(bigString, 0); m > 0 {
		f = longString(m)
	} else if !g.plainLits {
		f = strForms[g.c.Pick(len(strForms))]
	}
	g.L = append(g.L, Lex{quoteSQL(f), kStr})
	n := &sqlast.SingleQuotedString{String: f}
	g.mark(n, s)
	return n
}

func (g *G) natstr() sqlast.Node {
	s := g.here()
	f := "s"
	if !g.plainLits {
		f = strForms[g.c.Pick(4)]
	}
	g.L = append(g.L, Lex{"N" + quoteSQL(f), kStr})
	n := &sqlast.NationalStringLiteral{String: f}
	g.mark(n, s)
	return n
}

func (g *G) boolOrNull(k int) sqlast.Node {
	s := g.here()
	var n sqlast.Node
	switch k {
	case 0:
		g.kw("TRUE")
		n = &sqlast.BooleanValue{Boolean: true}
	case 1:
		g.kw("FALSE")
		n = &sqlast.BooleanValue{Boolean: false}
	default:
		g.kw("NULL")
		n = &sqlast.NullValue{}
	}
	g.mark(n, s)
	return n
}

func op(t sqlast.OperatorType) *sqlast.Operator { return &sqlast.Operator{Type: t} }

// binding levels of the operators, loosest first
const (
	lvAny  = 0
	lvOr   = 5
	lvAnd  = 10
	lvNot  = 15
	lvIs   = 17
	lvCmp  = 20
	lvAdd  = 30
	lvMul  = 40
	lvCast = 50
	lvPrim = 60
)

var cmpOps = []struct {
	s string
	t sqlast.OperatorType
}{{"=", sqlast.Eq}, {"!=", sqlast.NotEq}, {"<>", sqlast.NotEq}, {"<", sqlast.Lt}, {"<=", sqlast.LtEq}, {">", sqlast.Gt}, {">=", sqlast.GtEq}}

type exprKind int

const (
	xIdent exprKind = iota
	xNumber
	xString
	xCompound
	xBool
	xNested
	xFunc
	xCase
	xCast
	xExists
	xSubq
	xOr
	xAnd
	xNot
	xIs
	xCmp
	xLike
	xInList
	xInSub
	xBetween
	xAdd
	xUnary
	xMul
	xPgCast
	xNational
	xKinds
)

var exprLevel = [xKinds]int{xOr: lvOr, xAnd: lvAnd, xNot: lvNot, xIs: lvIs, xCmp: lvCmp, xLike: lvCmp, xInList: lvCmp, xInSub: lvCmp, xBetween: lvCmp, xAdd: lvAdd, xUnary: lvAdd, xMul: lvMul, xPgCast: lvCast}

func init() {
	for k := range exprLevel {
		if exprLevel[k] == 0 {
			exprLevel[k] = lvPrim
		}
	}
}

func (g *G) expr() sqlast.Node { return g.exprAt(lvAny) }

// exprAt generates an expression all of whose unparenthesised operators bind at least as tight as level lv.
func (g *G) exprAt(lv int) sqlast.Node {
	if lv == lvAny {
		if n := g.extent(bigExpr, 0); n > 0 {
			return g.bigExpr(n)
		}
	}
	g.depth++
	g.inner++
	defer func() { g.depth--; g.inner-- }()
	if g.depth > g.maxDepth {
		return g.identExpr()
	}
	var kinds [xKinds]exprKind
	n := 0
	for k := exprKind(0); k < xKinds; k++ {
		if exprLevel[k] < lv {
			continue
		}
		if g.noSub && (k == xExists || k == xSubq || k == xInSub) {
			continue
		}
		kinds[n] = k
		n++
	}
	return g.exprKind(kinds[g.kind(n)])
}

func (g *G) identExpr() sqlast.Node { return g.ident() }

func (g *G) binary(lv int, o func() sqlast.OperatorType) sqlast.Node {
	s := g.here()
	l := g.exprAt(lv)
	os := g.here()
	t := o()
	oper := op(t)
	g.mark(oper, os)
	r := g.exprAt(lv + 1)
	n := &sqlast.BinaryExpr{Left: l, Op: oper, Right: r}
	g.mark(n, s)
	return n
}

func (g *G) not() bool {
	if g.flag() {
		g.kw("NOT")
		return true
	}
	return false
}

func (g *G) exprKind(k exprKind) sqlast.Node {
	s := g.here()
	switch k {
	case xIdent:
		return g.identExpr()
	case xNumber:
		return g.number()
	case xString:
		return g.str()
	case xNational:
		return g.natstr()
	case xCompound:
		c := &sqlast.CompoundIdent{}
		g.times(g.extent(bigParts, 2+g.c.Pick(2)), func(i int) {
			if i > 0 {
				g.sym(".")
			}
			c.Idents = append(c.Idents, g.ident())
		})
		g.mark(c, s)
		return c
	case xBool:
		return g.boolOrNull(g.c.Pick(3))
	case xNested:
		g.sym("(")
		e := g.expr()
		g.sym(")")
		n := &sqlast.Nested{AST: e}
		g.mark(n, s)
		return n
	case xFunc:
		return g.function()
	case xCase:
		return g.caseExpr()
	case xCast:
		g.kw("CAST")
		g.sym("(")
		e := g.expr()
		g.kw("AS")
		t := g.dataType()
		g.sym(")")
		n := &sqlast.Cast{Expr: e, DataType: t}
		g.mark(n, s)
		return n
	case xExists:
		neg := g.not()
		g.kw("EXISTS")
		g.sym("(")
		q := g.query()
		g.sym(")")
		n := &sqlast.Exists{Negated: neg, Query: q}
		g.mark(n, s)
		return n
	case xSubq:
		g.sym("(")
		q := g.queryStarting()
		g.sym(")")
		n := &sqlast.SubQuery{Query: q}
		g.mark(n, s)
		return n
	case xOr:
		return g.binary(lvOr, func() sqlast.OperatorType { g.kw("OR"); return sqlast.Or })
	case xAnd:
		return g.binary(lvAnd, func() sqlast.OperatorType { g.kw("AND"); return sqlast.And })
	case xNot:
		g.kw("NOT")
		oper := op(sqlast.Not)
		g.mark(oper, s)
		b := g.here()
		e := g.exprAt(lvNot + 1)
		if g.L[b].S == "EXISTS" {
			g.c.Skip = true // NOT EXISTS is the negated EXISTS
		}
		n := &sqlast.UnaryExpr{Op: oper, Expr: e}
		g.mark(n, s)
		return n
	case xIs:
		e := g.exprAt(lvIs)
		g.kw("IS")
		neg := g.not()
		g.kw("NULL")
		var n sqlast.Node
		if neg {
			n = &sqlast.IsNotNull{X: e}
		} else {
			n = &sqlast.IsNull{X: e}
		}
		g.mark(n, s)
		return n
	case xCmp:
		return g.binary(lvCmp, func() sqlast.OperatorType {
			o := cmpOps[g.c.Pick(len(cmpOps))]
			g.sym(o.s)
			return o.t
		})
	case xLike:
		return g.binary(lvCmp, func() sqlast.OperatorType {
			if g.not() {
				g.kw("LIKE")
				return sqlast.NotLike
			}
			g.kw("LIKE")
			return sqlast.Like
		})
	case xInList:
		e := g.exprAt(lvCmp)
		neg := g.not()
		g.kw("IN")
		g.sym("(")
		l := g.exprList()
		g.sym(")")
		n := &sqlast.InList{Expr: e, List: l, Negated: neg}
		g.mark(n, s)
		return n
	case xInSub:
		e := g.exprAt(lvCmp)
		neg := g.not()
		g.kw("IN")
		g.sym("(")
		q := g.queryStarting()
		g.sym(")")
		n := &sqlast.InSubQuery{Expr: e, SubQuery: q, Negated: neg}
		g.mark(n, s)
		return n
	case xBetween:
		e := g.exprAt(lvCmp)
		neg := g.not()
		g.kw("BETWEEN")
		lo := g.exprAt(lvCmp + 1)
		g.kw("AND")
		hi := g.exprAt(lvCmp + 1)
		n := &sqlast.Between{Expr: e, Negated: neg, Low: lo, High: hi}
		g.mark(n, s)
		return n
	case xAdd:
		return g.binary(lvAdd, func() sqlast.OperatorType {
			if g.flag() {
				g.sym("-")
				return sqlast.Minus
			}
			g.sym("+")
			return sqlast.Plus
		})
	case xUnary:
		t := sqlast.Minus
		if g.flag() {
			t = sqlast.Plus
			g.sym("+")
		} else {
			g.sym("-")
		}
		oper := op(t)
		g.mark(oper, s)
		e := g.exprAt(lvAdd + 1)
		n := &sqlast.UnaryExpr{Op: oper, Expr: e}
		g.mark(n, s)
		return n
	case xMul:
		return g.binary(lvMul, func() sqlast.OperatorType {
			switch g.c.Pick(3) {
			case 1:
				g.sym("/")
				return sqlast.Divide
			case 2:
				g.sym("%")
				return sqlast.Modulus
			}
			g.sym("*")
			return sqlast.Multiply
		})
	case xPgCast:
		e := g.exprAt(lvCast)
		g.sym("::")
		t := g.dataType()
		n := &sqlast.Cast{Expr: e, DataType: t}
		g.mark(n, s)
		return n
	}
	panic("unknown expression kind")
}

func (g *G) exprList() []sqlast.Node {
	var l []sqlast.Node
	g.commas(g.list(), func() { l = append(l, g.expr()) })
	return l
}

func (g *G) caseExpr() sqlast.Node {
	s := g.here()
	n := &sqlast.CaseExpr{}
	g.kw("CASE")
	if g.flag() {
		n.Operand = g.expr()
	}
	g.times(g.list(), func(int) {
		g.kw("WHEN")
		n.Conditions = append(n.Conditions, g.expr())
		g.kw("THEN")
		n.Results = append(n.Results, g.expr())
	})
	if g.flag() {
		g.kw("ELSE")
		n.ElseResult = g.expr()
	}
	g.kw("END")
	g.mark(n, s)
	return n
}

func (g *G) function() sqlast.Node {
	s := g.here()
	f := &sqlast.Function{Name: g.objname()}
	g.sym("(")
	// one argument by default; then none, two, three, `*`, `t.*`
	switch k := g.kind(g.maxList + 3); k {
	case 1:
	case g.maxList + 1:
		w := &sqlast.Wildcard{}
		ws := g.here()
		g.sym("*")
		g.mark(w, ws)
		f.Args = []sqlast.Node{w}
	case g.maxList + 2:
		ws := g.here()
		q := &sqlast.QualifiedWildcard{Idents: []*sqlast.Ident{g.ident()}}
		g.sym(".")
		g.sym("*")
		g.mark(q, ws)
		f.Args = []sqlast.Node{q}
	default:
		if k == 0 {
			k = 1
		}
		g.commas(g.extent(bigList, k), func() { f.Args = append(f.Args, g.expr()) })
	}
	g.sym(")")
	if g.flag() {
		g.kw("OVER")
		g.sym("(")
		f.Over = g.window()
		g.sym(")")
	}
	g.mark(f, s)
	return f
}

func (g *G) window() *sqlast.WindowSpec {
	s := g.here()
	w := &sqlast.WindowSpec{}
	if g.flag() {
		g.kw("PARTITION", "BY")
		w.PartitionBy = g.exprList()
	}
	if g.flag() {
		w.OrderBy = g.orderBy()
	}
	if g.flag() {
		fs := g.here()
		fr := &sqlast.WindowFrame{}
		u := g.c.Pick(3)
		us := g.here()
		g.kw([]string{"ROWS", "RANGE", "GROUPS"}[u])
		fr.Units = &sqlast.WindowFrameUnit{Type: []sqlast.WindowFrameUnitType{sqlast.RowsUnit, sqlast.RangeUnit, sqlast.GroupsUnit}[u]}
		g.mark(fr.Units, us)
		if g.flag() {
			g.kw("BETWEEN")
			fr.StartBound = g.bound()
			g.kw("AND")
			fr.EndBound = g.bound()
		} else {
			fr.StartBound = g.bound()
		}
		w.WindowsFrame = fr
		g.mark(fr, fs)
	}
	g.mark(w, s)
	return w
}

func (g *G) bound() sqlast.SQLWindowFrameBound {
	s := g.here()
	var b sqlast.SQLWindowFrameBound
	switch g.kind(5) {
	case 0:
		g.kw("CURRENT", "ROW")
		b = &sqlast.CurrentRow{}
	case 1:
		g.kw("UNBOUNDED", "PRECEDING")
		b = &sqlast.UnboundedPreceding{}
	case 2:
		g.kw("UNBOUNDED", "FOLLOWING")
		b = &sqlast.UnboundedFollowing{}
	case 3:
		n := g.size()
		g.kw("PRECEDING")
		b = &sqlast.Preceding{Bound: &n}
	default:
		n := g.size()
		g.kw("FOLLOWING")
		b = &sqlast.Following{Bound: &n}
	}
	g.mark(b, s)
	return b
}

func (g *G) orderBy() []*sqlast.OrderByExpr {
	g.kw("ORDER", "BY")
	var l []*sqlast.OrderByExpr
	g.commas(g.list(), func() {
		s := g.here()
		o := &sqlast.OrderByExpr{Expr: g.expr()}
		switch g.c.Pick(3) {
		case 1:
			g.kw("ASC")
			b := true
			o.ASC = &b
		case 2:
			g.kw("DESC")
			b := false
			o.ASC = &b
		}
		g.mark(o, s)
		l = append(l, o)
	})
	return l
}

// ---- data types

func (g *G) optSize() *uint {
	if g.flag() {
		g.sym("(")
		n := uint(g.size())
		g.sym(")")
		return &n
	}
	return nil
}

func (g *G) unsigned() bool {
	if g.flag() {
		g.kw("UNSIGNED")
		return true
	}
	return false
}

const nTypes = 24

func (g *G) dataType() sqlast.Type {
	s := g.here()
	var t sqlast.Type
	switch g.kind(nTypes) {
	case 0:
		g.kw("INT")
		t = &sqlast.Int{IsUnsigned: g.unsigned()}
	case 1:
		g.kw("INTEGER")
		t = &sqlast.Int{IsUnsigned: g.unsigned()}
	case 2:
		g.kw("SMALLINT")
		t = &sqlast.SmallInt{IsUnsigned: g.unsigned()}
	case 3:
		g.kw("BIGINT")
		t = &sqlast.BigInt{IsUnsigned: g.unsigned()}
	case 4:
		g.kw("BOOLEAN")
		t = &sqlast.Boolean{}
	case 5:
		g.kw("FLOAT")
		f := &sqlast.Float{Size: g.optSize()}
		f.IsUnsigned = g.unsigned()
		t = f
	case 6:
		g.kw("REAL")
		t = &sqlast.Real{IsUnsigned: g.unsigned()}
	case 7:
		g.kw("DOUBLE", "PRECISION")
		t = &sqlast.Double{}
	case 8:
		g.kw("VARCHAR")
		t = &sqlast.VarcharType{Size: g.optSize()}
	case 9:
		g.kw("CHAR")
		t = &sqlast.CharType{Size: g.optSize()}
	case 10:
		g.kw("CHARACTER")
		t = &sqlast.CharType{Size: g.optSize()}
	case 11:
		g.kw([]string{"CHARACTER", "CHAR"}[g.c.Pick(2)], "VARYING")
		t = &sqlast.VarcharType{Size: g.optSize()}
	case 12:
		g.kw("UUID")
		t = &sqlast.UUID{}
	case 13:
		g.kw("DATE")
		t = &sqlast.Date{}
	case 14:
		g.kw("TIMESTAMP")
		t = &sqlast.Timestamp{WithTimeZone: g.zone()}
	case 15:
		g.kw("TIME")
		t = &sqlast.Time{WithTimeZone: g.zone()}
	case 16:
		g.kw("REGCLASS")
		t = &sqlast.Regclass{}
	case 17:
		g.kw("TEXT")
		t = &sqlast.Text{}
	case 18:
		g.kw("TEXT")
		x := &sqlast.Text{}
		g.mark(x, s)
		g.sym("[")
		g.sym("]")
		t = &sqlast.Array{Ty: x}
	case 19:
		g.kw("BYTEA")
		t = &sqlast.Bytea{}
	case 20:
		g.kw("NUMERIC")
		d := &sqlast.Decimal{}
		d.IsUnsigned = g.unsigned()
		t = d
	case 21:
		g.kw("NUMERIC")
		g.sym("(")
		p := uint(g.size())
		d := &sqlast.Decimal{Precision: &p}
		if g.flag() {
			g.sym(",")
			sc := uint(g.size())
			d.Scale = &sc
		}
		g.sym(")")
		d.IsUnsigned = g.unsigned()
		t = d
	case 22:
		t = &sqlast.Custom{Ty: g.objname()}
	case 23:
		g.kw("FLOAT")
		g.sym("(")
		n := uint(g.size())
		g.sym(")")
		t = &sqlast.Float{Size: &n, IsUnsigned: g.unsigned()}
	}
	g.mark(t, s)
	return t
}

func (g *G) zone() bool {
	switch g.c.Pick(3) {
	case 1:
		g.kw("WITH", "TIME", "ZONE")
		return true
	case 2:
		g.kw("WITHOUT", "TIME", "ZONE")
	}
	return false
}

// ---- queries

// queryStarting is a query that begins with SELECT or WITH (where a parenthesis would mean something else).
func (g *G) queryStarting() *sqlast.QueryStmt {
	b := g.here()
	q := g.query()
	if g.L[b].S == "(" {
		g.c.Skip = true
	}
	return q
}

func (g *G) innerQuery() *sqlast.QueryStmt {
	g.inner++
	defer func() { g.inner-- }()
	return g.query()
}

func (g *G) query() *sqlast.QueryStmt {
	g.depth++
	defer func() { g.depth-- }()
	s := g.here()
	q := &sqlast.QueryStmt{}
	if n := g.extent(bigWith, g.c.Pick(g.maxList)); n > 0 {
		g.kw("WITH")
		g.commas(n, func() {
			cs := g.here()
			c := &sqlast.CTE{Alias: g.ident()}
			g.kw("AS")
			g.sym("(")
			c.Query = g.innerQuery()
			g.sym(")")
			g.mark(c, cs)
			q.CTEs = append(q.CTEs, c)
		})
	}
	q.Body = g.setExpr(0)
	if g.flag() {
		q.OrderBy = g.orderBy()
	}
	g.limit(q)
	g.mark(q, s)
	return q
}

// limit is a LIMIT, or none.
func (g *G) limit(q *sqlast.QueryStmt) {
	if k := g.kind(4); k > 0 {
		g.kw("LIMIT")
		ls := g.here() - 1
		l := &sqlast.LimitExpr{}
		switch k {
		case 1:
			l.LimitValue = g.long()
		case 2:
			g.kw("ALL")
			l.All = true
		case 3:
			l.LimitValue = g.long()
			g.kw("OFFSET")
			l.OffsetValue = g.long()
		}
		g.mark(l, ls)
		q.Limit = l
	}
}

const (
	setUnion     = 10
	setIntersect = 20
)

func (g *G) setExpr(lv int) sqlast.SQLSetExpr {
	if lv == 0 {
		if n := g.extent(bigSet, 0); n > 0 {
			return g.bigSet(n)
		}
	}
	g.depth++
	defer func() { g.depth-- }()
	s := g.here()
	n := 4
	if lv > setUnion {
		n = 3
	}
	if lv > setIntersect {
		n = 2
	}
	if g.depth > g.maxDepth {
		return g.selectExpr(true)
	}
	k := g.kind(n)
	if k >= 2 && n == 3 {
		k = 3 // intersect
	} else if k == 2 {
		k = 2 // union or except
	}
	switch k {
	case 0:
		return g.selectExpr(false)
	case 1:
		g.sym("(")
		q := g.innerQuery()
		g.sym(")")
		e := &sqlast.QueryExpr{Query: q}
		g.mark(e, s)
		return e
	}
	p := setUnion
	if k == 3 {
		p = setIntersect
	}
	so := &sqlast.SetOperationExpr{Left: g.setExpr(p)}
	os := g.here()
	if k == 3 {
		g.kw("INTERSECT")
		so.Op = &sqlast.IntersectOperator{}
	} else if g.flag() {
		g.kw("EXCEPT")
		so.Op = &sqlast.ExceptOperator{}
	} else {
		g.kw("UNION")
		so.Op = &sqlast.UnionOperator{}
	}
	g.mark(so.Op, os)
	if g.flag() {
		g.kw("ALL")
		so.All = true
	}
	so.Right = g.setExpr(p + 1)
	g.mark(so, s)
	return so
}

func (g *G) selectExpr(plain bool) *sqlast.SQLSelect {
	s := g.here()
	g.kw("SELECT")
	sel := &sqlast.SQLSelect{}
	if plain {
		is := g.here()
		it := &sqlast.UnnamedSelectItem{Node: g.ident()}
		g.mark(it, is)
		sel.Projection = []sqlast.SQLSelectItem{it}
		g.mark(sel, s)
		return sel
	}
	if g.flag() {
		g.kw("DISTINCT")
		sel.Distinct = true
	}
	g.commas(g.list(), func() { sel.Projection = append(sel.Projection, g.selectItem()) })
	// FROM with one reference by default, then none, two, three
	n := g.c.Pick(g.maxList + 1)
	if n < 2 {
		n = 1 - n
	}
	if n > 0 {
		g.kw("FROM")
		g.commas(g.extent(bigList, n), func() { sel.FromClause = append(sel.FromClause, g.tableRef()) })
	}
	if g.flag() {
		g.kw("WHERE")
		sel.WhereClause = g.expr()
	}
	if g.flag() {
		g.kw("GROUP", "BY")
		sel.GroupByClause = g.exprList()
	}
	if g.flag() {
		g.kw("HAVING")
		sel.HavingClause = g.expr()
	}
	g.mark(sel, s)
	return sel
}

func (g *G) selectItem() sqlast.SQLSelectItem {
	s := g.here()
	var it sqlast.SQLSelectItem
	switch g.kind(5) {
	case 0:
		it = &sqlast.UnnamedSelectItem{Node: g.expr()}
	case 1:
		e := g.expr()
		g.kw("AS")
		it = &sqlast.AliasSelectItem{Expr: e, Alias: g.ident()}
	case 2:
		e := g.expr()
		it = &sqlast.AliasSelectItem{Expr: e, Alias: g.ident()}
	case 3:
		w := &sqlast.Wildcard{}
		g.sym("*")
		g.mark(w, s)
		it = &sqlast.UnnamedSelectItem{Node: w}
	case 4:
		o := g.objname()
		g.sym(".")
		g.sym("*")
		it = &sqlast.QualifiedWildcardSelectItem{Prefix: o}
	}
	g.mark(it, s)
	return it
}

func (g *G) optAlias() *sqlast.Ident {
	switch g.c.Pick(3) {
	case 1:
		g.kw("AS")
		return g.ident()
	case 2:
		return g.ident()
	}
	return nil
}

func (g *G) tableFactor() sqlast.TableFactor {
	s := g.here()
	if k := g.c.Pick(3); k > 0 {
		d := &sqlast.Derived{}
		if k == 2 {
			g.kw("LATERAL")
			d.Lateral = true
		}
		g.sym("(")
		d.SubQuery = g.innerQuery()
		g.sym(")")
		d.Alias = g.optAlias()
		g.mark(d, s)
		return d
	}
	t := &sqlast.Table{Name: g.objname()}
	if k := g.c.Pick(3); k > 0 {
		g.sym("(")
		if k == 1 {
			t.Args = []sqlast.Node{}
		} else {
			t.Args = g.exprList()
		}
		g.sym(")")
	}
	t.Alias = g.optAlias()
	if g.flag() {
		g.kw("WITH")
		g.sym("(")
		t.WithHints = g.exprList()
		g.sym(")")
	}
	g.mark(t, s)
	return t
}

var joinTypes = []struct {
	words []string
	t     sqlast.JoinTypeCondition
}{
	{nil, sqlast.IMPLICIT},
	{[]string{"INNER"}, sqlast.INNER},
	{[]string{"LEFT"}, sqlast.LEFT},
	{[]string{"RIGHT"}, sqlast.RIGHT},
	{[]string{"FULL"}, sqlast.FULL},
	{[]string{"LEFT", "OUTER"}, sqlast.LEFTOUTER},
	{[]string{"RIGHT", "OUTER"}, sqlast.RIGHTOUTER},
	{[]string{"FULL", "OUTER"}, sqlast.FULLOUTER},
}

func (g *G) joinType() *sqlast.JoinType {
	s := g.here()
	j := joinTypes[g.kind(len(joinTypes))]
	g.kw(j.words...)
	t := &sqlast.JoinType{Condition: j.t}
	if len(j.words) > 0 {
		g.mark(t, s)
	}
	g.kw("JOIN")
	return t
}

func (g *G) joinElement(f func() sqlast.TableReference) *sqlast.TableJoinElement {
	s := g.here()
	e := &sqlast.TableJoinElement{Ref: f()}
	g.mark(e, s)
	return e
}

func (g *G) tableRef() sqlast.TableReference { return g.tableRefJoins(0) }

func (g *G) tableRefJoins(atLeast int) sqlast.TableReference {
	g.depth++
	defer func() { g.depth-- }()
	s := g.here()
	var ref sqlast.TableReference = g.tableFactor()
	n := atLeast
	if g.depth <= g.maxDepth {
		n += g.c.Pick(3)
	}
	g.times(g.extent(bigJoins, n), func(int) {
		left := &sqlast.TableJoinElement{Ref: ref}
		switch g.kind(3) {
		case 0:
			g.mark(left, s)
			j := &sqlast.QualifiedJoin{LeftElement: left, Type: g.joinType()}
			j.RightElement = g.joinElement(func() sqlast.TableReference {
				if g.depth <= g.maxDepth && g.c.Flag() {
					return g.tableRefJoins(1)
				}
				return g.tableFactor()
			})
			js := g.here()
			if g.flag() {
				g.kw("USING")
				j.Spec = &sqlast.NamedColumnsJoin{ColumnList: g.parenIdents()}
			} else {
				g.kw("ON")
				j.Spec = &sqlast.JoinCondition{SearchCondition: g.expr()}
			}
			g.mark(j.Spec, js)
			g.mark(j, s)
			ref = j
		case 1:
			g.kw("CROSS", "JOIN")
			j := &sqlast.CrossJoin{Reference: ref, Factor: g.tableFactor()}
			g.mark(j, s)
			ref = j
		case 2:
			g.mark(left, s)
			g.kw("NATURAL")
			j := &sqlast.NaturalJoin{LeftElement: left, Type: g.joinType()}
			j.RightElement = g.joinElement(func() sqlast.TableReference { return g.tableFactor() })
			g.mark(j, s)
			ref = j
		}
	})
	return ref
}

// ---- statements

const nStmts = 19

// stmt generates a statement of kind k.
func (g *G) stmt(k int) sqlast.Stmt {
	s := g.here()
	var st sqlast.Stmt
	switch k {
	case 0:
		return g.queryStarting()
	case 1:
		st = g.insert()
	case 2:
		g.kw("UPDATE")
		u := &sqlast.UpdateStmt{TableName: g.objname()}
		g.kw("SET")
		u.Assignments = g.assignments()
		if g.flag() {
			g.kw("WHERE")
			u.Selection = g.expr()
		}
		st = u
	case 3:
		g.kw("DELETE", "FROM")
		d := &sqlast.DeleteStmt{TableName: g.objname()}
		if g.flag() {
			g.kw("WHERE")
			d.Selection = g.expr()
		}
		st = d
	case 4:
		st = g.createTable()
	case 5:
		g.kw("CREATE")
		v := &sqlast.CreateViewStmt{}
		if g.flag() {
			g.kw("MATERIALIZED")
			v.Materialized = true
		}
		g.kw("VIEW")
		v.Name = g.objname()
		g.kw("AS")
		v.Query = g.query()
		st = v
	case 6:
		g.kw("CREATE")
		i := &sqlast.CreateIndexStmt{}
		if g.flag() {
			g.kw("UNIQUE")
			i.IsUnique = true
		}
		g.kw("INDEX")
		if !g.flag() {
			i.IndexName = g.ident()
		}
		g.kw("ON")
		i.TableName = g.objname()
		if g.flag() {
			g.kw("USING")
			i.MethodName = g.ident()
		}
		if !g.flag() {
			i.ColumnNames = g.parenIdents()
		}
		if g.flag() {
			g.kw("WHERE")
			i.Selection = g.expr()
		}
		st = i
	case 7:
		g.kw("DROP", "TABLE")
		d := &sqlast.DropTableStmt{}
		if g.flag() {
			g.kw("IF", "EXISTS")
			d.IfExists = true
		}
		d.TableNames = []*sqlast.ObjectName{g.objname()}
		if g.flag() {
			g.kw("CASCADE")
			d.Cascade = true
		}
		st = d
	case 8:
		g.kw("DROP", "INDEX")
		st = &sqlast.DropIndexStmt{IndexNames: g.idents()}
	case 9:
		g.kw("EXPLAIN")
		st = &sqlast.ExplainStmt{Stmt: g.stmt(g.c.Pick(nStmts))}
	default:
		a := &sqlast.AlterTableStmt{}
		g.kw("ALTER", "TABLE")
		a.TableName = g.objname()
		a.Action = g.alterAction(k - 10)
		st = a
	}
	g.mark(st, s)
	return st
}

func (g *G) alterAction(k int) sqlast.AlterTableAction {
	s := g.here()
	var a sqlast.AlterTableAction
	switch k {
	case 0:
		g.kw("ADD", "COLUMN")
		a = &sqlast.AddColumnTableAction{Column: g.columnDef()}
	case 1:
		g.kw("ADD")
		a = &sqlast.AddConstraintTableAction{Constraint: g.tableConstraint()}
	case 2:
		g.kw("DROP", "CONSTRAINT")
		d := &sqlast.DropConstraintTableAction{Name: g.ident()}
		if g.flag() {
			g.kw("CASCADE")
			d.Cascade = true
		}
		a = d
	case 3:
		g.kw("DROP", "COLUMN")
		d := &sqlast.RemoveColumnTableAction{Name: g.ident()}
		if g.flag() {
			g.kw("CASCADE")
			d.Cascade = true
		}
		a = d
	default:
		g.kw("ALTER", "COLUMN")
		ac := &sqlast.AlterColumnTableAction{ColumnName: g.ident()}
		as := g.here()
		switch k {
		case 4:
			g.kw("SET", "DEFAULT")
			ac.Action = &sqlast.SetDefaultColumnAction{Default: g.defaultExpr()}
		case 5:
			g.kw("SET", "NOT", "NULL")
			ac.Action = &sqlast.PGSetNotNullColumnAction{}
		case 6:
			g.kw("DROP", "DEFAULT")
			ac.Action = &sqlast.DropDefaultColumnAction{}
		case 7:
			g.kw("DROP", "NOT", "NULL")
			ac.Action = &sqlast.PGDropNotNullColumnAction{}
		case 8:
			g.kw("TYPE")
			ac.Action = &sqlast.PGAlterDataTypeColumnAction{DataType: g.dataType()}
		}
		g.mark(ac.Action, as)
		a = ac
	}
	g.mark(a, s)
	return a
}

func (g *G) assignments() []*sqlast.Assignment {
	var l []*sqlast.Assignment
	g.commas(g.list(), func() {
		s := g.here()
		a := &sqlast.Assignment{ID: g.ident()}
		g.sym("=")
		a.Value = g.expr()
		g.mark(a, s)
		l = append(l, a)
	})
	return l
}

func (g *G) insert() sqlast.Stmt {
	ins := &sqlast.InsertStmt{}
	g.kw("INSERT", "INTO")
	ins.TableName = g.objname()
	if k := g.c.Pick(2); k == 0 {
		ins.Columns = g.parenIdents()
	}
	s := g.here()
	if g.flag() {
		q := g.query()
		if len(ins.Columns) == 0 && g.L[s].S == "(" {
			g.c.Skip = true // reads as a column list
		}
		ins.Source = &sqlast.SubQuerySource{SubQuery: q}
	} else {
		g.kw("VALUES")
		src := &sqlast.ConstructorSource{}
		g.commas(g.list(), func() {
			rs := g.here()
			g.sym("(")
			r := &sqlast.RowValueExpr{Values: g.exprList()}
			g.sym(")")
			g.mark(r, rs)
			src.Rows = append(src.Rows, r)
		})
		ins.Source = src
	}
	g.mark(ins.Source, s)
	if g.flag() {
		g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
		ins.UpdateAssignments = g.assignments()
	}
	return ins
}

func (g *G) createTable() sqlast.Stmt {
	g.kw("CREATE", "TABLE")
	t := &sqlast.CreateTableStmt{}
	if g.flag() {
		g.kw("IF", "NOT", "EXISTS")
		t.NotExists = true
	}
	t.Name = g.objname()
	// one element by default, then none, two, three
	n := g.c.Pick(g.maxList + 1)
	if n < 2 {
		n = 1 - n
	}
	if n > 0 {
		g.sym("(")
		g.commas(g.extent(bigList, n), func() {
			if g.flag() {
				t.Elements = append(t.Elements, g.tableConstraint())
			} else {
				t.Elements = append(t.Elements, g.columnDef())
			}
		})
		g.sym(")")
	}
	g.times(g.extent(bigWith, g.c.Pick(3)), func(i int) {
		if i > 0 && g.flag() {
			g.sym(",")
		}
		t.Options = append(t.Options, g.tableOption())
	})
	return t
}

func (g *G) tableOption() sqlast.TableOption {
	s := g.here()
	var o sqlast.TableOption
	eq := func() bool {
		if g.flag() {
			g.sym("=")
			return true
		}
		return false
	}
	switch g.c.Pick(3) {
	case 0:
		g.kw("ENGINE")
		e := &sqlast.MyEngine{Equal: eq()}
		e.Name = g.ident()
		o = e
	case 1:
		g.kw("DEFAULT", "CHARSET")
		e := &sqlast.MyCharset{IsDefault: true, Equal: eq()}
		e.Name = g.ident()
		o = e
	case 2:
		g.kw("CHARSET")
		e := &sqlast.MyCharset{Equal: eq()}
		e.Name = g.ident()
		o = e
	}
	g.mark(o, s)
	return o
}

func (g *G) tableConstraint() *sqlast.TableConstraint {
	s := g.here()
	t := &sqlast.TableConstraint{}
	if g.flag() {
		g.kw("CONSTRAINT")
		t.Name = g.ident()
	}
	ss := g.here()
	switch g.kind(5) {
	case 0:
		g.kw("PRIMARY", "KEY")
		t.Spec = &sqlast.UniqueTableConstraint{IsPrimary: true, Columns: g.parenIdents()}
	case 1:
		g.kw("UNIQUE")
		t.Spec = &sqlast.UniqueTableConstraint{Columns: g.parenIdents()}
	case 2:
		g.kw("UNIQUE", "KEY")
		t.Spec = &sqlast.UniqueTableConstraint{Columns: g.parenIdents()}
	case 3:
		g.kw("FOREIGN", "KEY")
		r := &sqlast.ReferentialTableConstraint{Columns: g.parenIdents()}
		g.kw("REFERENCES")
		ks := g.here()
		r.KeyExpr = &sqlast.ReferenceKeyExpr{TableName: g.ident(), Columns: nil}
		r.KeyExpr.Columns = g.parenIdents()
		g.mark(r.KeyExpr, ks)
		t.Spec = r
	case 4:
		g.kw("CHECK")
		g.sym("(")
		t.Spec = &sqlast.CheckTableConstraint{Expr: g.expr()}
		g.sym(")")
	}
	g.mark(t.Spec, ss)
	g.mark(t, s)
	return t
}

// defaultExpr is the expression of a DEFAULT: it ends before NOT or NULL words at its top level.
func (g *G) defaultExpr() sqlast.Node {
	s := g.here()
	switch g.kind(12) {
	case 0:
		return g.number()
	case 1:
		return g.str()
	case 2:
		return g.ident()
	case 3:
		return g.function()
	case 4:
		return g.exprKind(xNested)
	case 5:
		return g.boolOrNull(g.c.Pick(3))
	case 6:
		g.sym("-")
		o := op(sqlast.Minus)
		g.mark(o, s)
		n := &sqlast.UnaryExpr{Op: o, Expr: g.number()}
		g.mark(n, s)
		return n
	case 7:
		l := g.ident()
		os := g.here()
		g.sym("+")
		o := op(sqlast.Plus)
		g.mark(o, os)
		r := g.number()
		n := &sqlast.BinaryExpr{Left: l, Op: o, Right: r}
		g.mark(n, s)
		return n
	case 8:
		e := g.str()
		g.sym("::")
		n := &sqlast.Cast{Expr: e, DataType: g.dataType()}
		g.mark(n, s)
		return n
	case 9:
		return g.exprKind(xCast)
	case 10:
		return g.exprKind(xCase)
	default:
		return g.natstr()
	}
}

func (g *G) columnDef() *sqlast.ColumnDef {
	s := g.here()
	c := &sqlast.ColumnDef{Name: g.ident()}
	c.DataType = g.dataType()
	g.columnParts(c, 0)
	g.mark(c, s)
	return c
}

// columnParts are the defaults, constraints and decorations of a column.
func (g *G) columnParts(c *sqlast.ColumnDef, atLeast int) {
	n := atLeast + g.c.Pick(4-atLeast)
	for i := 0; i < n; i++ {
		k := g.kind(7)
		ms := g.here()
		switch k {
		case 0:
			if c.Default != nil {
				g.c.Skip = true
				continue
			}
			g.kw("DEFAULT")
			c.Default = g.defaultExpr()
		case 6:
			g.kw("AUTO_INCREMENT")
			a := &sqlast.AutoIncrement{}
			g.mark(a, ms)
			c.MyDataTypeDecoration = append(c.MyDataTypeDecoration, a)
		default:
			cc := &sqlast.ColumnConstraint{}
			if g.flag() {
				g.kw("CONSTRAINT")
				cc.Name = g.ident()
			}
			ss := g.here()
			switch k {
			case 1:
				g.kw("NOT", "NULL")
				cc.Spec = &sqlast.NotNullColumnSpec{}
			case 2:
				g.kw("UNIQUE")
				cc.Spec = &sqlast.UniqueColumnSpec{}
			case 3:
				g.kw("PRIMARY", "KEY")
				cc.Spec = &sqlast.UniqueColumnSpec{IsPrimaryKey: true}
			case 4:
				g.kw("REFERENCES")
				r := &sqlast.ReferencesColumnSpec{TableName: g.objname()}
				r.Columns = g.parenIdents()
				cc.Spec = r
			case 5:
				g.kw("CHECK")
				g.sym("(")
				cc.Spec = &sqlast.CheckColumnSpec{Expr: g.expr()}
				g.sym(")")
			}
			g.mark(cc.Spec, ss)
			g.mark(cc, ms)
			c.Constraints = append(c.Constraints, cc)
		}
	}
}

// ---- rendering

func wordChar(r byte) bool {
	return r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r == '@' || r == '$' || r >= 0x80
}

// needSpace reports whether lexemes a and b would merge or change meaning without a blank between them.
func needSpace(a, b Lex) bool {
	x, y := a.S[len(a.S)-1], b.S[0]
	switch {
	case wordChar(x) && wordChar(y):
		return true
	case b.K == kStr && wordChar(x): // N'...'
		return x == 'N' || wordChar(y)
	case b.K == kStr && x == '\'': // doubled quote
		return true
	case b.K == kIdent && y == x && (y == '"' || y == '`'):
		return true
	case a.K == kNum && y == '.', a.S == "." && b.K == kNum:
		return true
	}
	if a.K == kSym && b.K == kSym {
		switch a.S + b.S {
		case "--", "/*", "<=", "<>", ">=", "!=", "::", ":::":
			return true
		}
		if a.S == "-" && y == '-' || a.S == "/" && y == '*' || (a.S == "<" || a.S == ">") && (y == '=' || y == '>') || a.S == ":" && y == ':' {
			return true
		}
	}
	return false
}

func render(L []Lex) string {
	var b strings.Builder
	for i, l := range L {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(l.S)
	}
	return b.String()
}

func renderTight(L []Lex) string {
	var b strings.Builder
	for i, l := range L {
		if i > 0 && needSpace(L[i-1], l) {
			b.WriteByte(' ')
		}
		b.WriteString(l.S)
	}
	return b.String()
}
