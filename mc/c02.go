package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// The reference grouping: operators with their levels, and an operator-precedence reduction of its own (a stack, where
// the parser descends recursively).

type refItem struct {
	prefix string      // prefix operator, or
	infix  *refOp      // infix/postfix operator, or
	node   sqlast.Node // operand
	text   string
}

type refOp struct {
	name  string
	level int
	post  bool // postfix
	text  string
	build func(l, r sqlast.Node) sqlast.Node
}

func binOp(text string, level int, t sqlast.OperatorType) *refOp {
	return &refOp{name: text, level: level, text: text, build: func(l, r sqlast.Node) sqlast.Node {
		return &sqlast.BinaryExpr{Left: l, Op: op(t), Right: r}
	}}
}

func inOp(text string, neg, sub bool) *refOp {
	return &refOp{name: text, level: lvCmp, post: true, text: text, build: func(l, _ sqlast.Node) sqlast.Node {
		if sub {
			return &sqlast.InSubQuery{Expr: l, Negated: neg, SubQuery: simpleQuery("p")}
		}
		return &sqlast.InList{Expr: l, Negated: neg, List: []sqlast.Node{id("p"), id("q")}}
	}}
}

func id(s string) *sqlast.Ident { return &sqlast.Ident{Value: s} }

func simpleQuery(s string) *sqlast.QueryStmt {
	return &sqlast.QueryStmt{Body: &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: id(s)}}}}
}

type lowForm struct {
	text string
	node func() sqlast.Node
}

var lowForms = []lowForm{
	{"p", func() sqlast.Node { return id("p") }},
	{"p + q", func() sqlast.Node { return bin(id("p"), sqlast.Plus, id("q")) }},
	{"p * q - 1", func() sqlast.Node {
		return bin(bin(id("p"), sqlast.Multiply, id("q")), sqlast.Minus, &sqlast.LongValue{Long: 1})
	}},
	{"- p", func() sqlast.Node { return &sqlast.UnaryExpr{Op: op(sqlast.Minus), Expr: id("p")} }},
	{"p :: INT", func() sqlast.Node { return &sqlast.Cast{Expr: id("p"), DataType: &sqlast.Int{}} }},
	{"( p AND q )", func() sqlast.Node { return &sqlast.Nested{AST: bin(id("p"), sqlast.And, id("q"))} }},
}

func bin(l sqlast.Node, t sqlast.OperatorType, r sqlast.Node) sqlast.Node {
	return &sqlast.BinaryExpr{Left: l, Op: op(t), Right: r}
}

func betweenOp(neg bool, low lowForm) *refOp {
	text := "BETWEEN " + low.text + " AND"
	if neg {
		text = "NOT " + text
	}
	return &refOp{name: "between", level: lvCmp, text: text, build: func(l, r sqlast.Node) sqlast.Node {
		return &sqlast.Between{Expr: l, Negated: neg, Low: low.node(), High: r}
	}}
}

var refOps = []*refOp{
	binOp("OR", lvOr, sqlast.Or),
	binOp("AND", lvAnd, sqlast.And),
	{name: "IS NULL", level: lvIs, post: true, text: "IS NULL", build: func(l, _ sqlast.Node) sqlast.Node { return &sqlast.IsNull{X: l} }},
	{name: "IS NOT NULL", level: lvIs, post: true, text: "IS NOT NULL", build: func(l, _ sqlast.Node) sqlast.Node { return &sqlast.IsNotNull{X: l} }},
	binOp("=", lvCmp, sqlast.Eq),
	binOp("<>", lvCmp, sqlast.NotEq),
	binOp("!=", lvCmp, sqlast.NotEq),
	binOp("<", lvCmp, sqlast.Lt),
	binOp("<=", lvCmp, sqlast.LtEq),
	binOp(">", lvCmp, sqlast.Gt),
	binOp(">=", lvCmp, sqlast.GtEq),
	binOp("LIKE", lvCmp, sqlast.Like),
	binOp("NOT LIKE", lvCmp, sqlast.NotLike),
	inOp("IN ( p , q )", false, false),
	inOp("NOT IN ( p , q )", true, false),
	inOp("IN ( SELECT p )", false, true),
	inOp("NOT IN ( SELECT p )", true, true),
	betweenOp(false, lowForms[0]),
	betweenOp(true, lowForms[0]),
	binOp("+", lvAdd, sqlast.Plus),
	binOp("-", lvAdd, sqlast.Minus),
	binOp("*", lvMul, sqlast.Multiply),
	binOp("/", lvMul, sqlast.Divide),
	binOp("%", lvMul, sqlast.Modulus),
	{name: "::", level: lvCast, post: true, text: ":: INT", build: func(l, _ sqlast.Node) sqlast.Node {
		return &sqlast.Cast{Expr: l, DataType: &sqlast.Int{}}
	}},
}

// one operator of each level and kind, for longer sequences
var refOpsShort = func() []*refOp {
	var l []*refOp
	for _, n := range []string{"OR", "AND", "IS NULL", "=", "NOT LIKE", "IN ( p , q )", "between", "+", "-", "*", "/", "::"} {
		for _, o := range refOps {
			if o.name == n {
				l = append(l, o)
				break
			}
		}
	}
	return l
}()

func prefixLevel(p string) int {
	if p == "NOT" {
		return lvNot
	}
	return lvAdd
}

func prefixNode(p string, e sqlast.Node) sqlast.Node {
	t := map[string]sqlast.OperatorType{"NOT": sqlast.Not, "-": sqlast.Minus, "+": sqlast.Plus}[p]
	return &sqlast.UnaryExpr{Op: op(t), Expr: e}
}

// refGroup gives the tree of a flat sequence, by reducing an operator stack.
func refGroup(items []refItem) sqlast.Node {
	type pending struct {
		level  int
		prefix string
		o      *refOp
	}
	var ops []pending
	var out []sqlast.Node
	reduce := func(level int) {
		for len(ops) > 0 && ops[len(ops)-1].level >= level {
			p := ops[len(ops)-1]
			ops = ops[:len(ops)-1]
			n := len(out) - 1
			if p.o == nil {
				out[n] = prefixNode(p.prefix, out[n])
				continue
			}
			out[n-1] = p.o.build(out[n-1], out[n])
			out = out[:n]
		}
	}
	for _, it := range items {
		switch {
		case it.prefix != "":
			ops = append(ops, pending{level: prefixLevel(it.prefix), prefix: it.prefix})
		case it.infix == nil:
			out = append(out, it.node)
		default:
			reduce(it.infix.level)
			if it.infix.post {
				out[len(out)-1] = it.infix.build(out[len(out)-1], nil)
			} else {
				ops = append(ops, pending{level: it.infix.level, o: it.infix})
			}
		}
	}
	reduce(0)
	if len(out) != 1 {
		panic("refGroup: operands left")
	}
	return out[0]
}

var operandForms = []lowForm{
	{"", nil},
	{"( x OR y )", func() sqlast.Node { return &sqlast.Nested{AST: bin(id("x"), sqlast.Or, id("y"))} }},
	{"( x + y * z )", func() sqlast.Node {
		return &sqlast.Nested{AST: bin(id("x"), sqlast.Plus, bin(id("y"), sqlast.Multiply, id("z")))}
	}},
	{"f ( x AND y )", func() sqlast.Node {
		return &sqlast.Function{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{id("f")}}, Args: []sqlast.Node{bin(id("x"), sqlast.And, id("y"))}}
	}},
	{"CASE x WHEN y OR z THEN 1 END", func() sqlast.Node {
		return &sqlast.CaseExpr{Operand: id("x"), Conditions: []sqlast.Node{bin(id("y"), sqlast.Or, id("z"))}, Results: []sqlast.Node{&sqlast.LongValue{Long: 1}}}
	}},
	{"CAST ( x OR y AS INT )", func() sqlast.Node {
		return &sqlast.Cast{Expr: bin(id("x"), sqlast.Or, id("y")), DataType: &sqlast.Int{}}
	}},
	{"NOT EXISTS ( SELECT p )", func() sqlast.Node { return &sqlast.Exists{Negated: true, Query: simpleQuery("p")} }},
}

var prefixForms = []string{"", "NOT", "-", "+", "NOT NOT", "- -", "NOT -", "- +"}

// exprSequence chooses a flat sequence with n operators.
func exprSequence(c *Chooser, n int, ops []*refOp, freePrefix bool) ([]refItem, string) {
	var items []refItem
	var text []string
	operand := func(i int) {
		var p string
		if freePrefix {
			p = prefixForms[c.Free(4)]
		} else {
			p = prefixForms[c.Pick(len(prefixForms))]
		}
		for _, w := range strings.Fields(p) {
			items = append(items, refItem{prefix: w})
			text = append(text, w)
		}
		f := operandForms[c.Pick(len(operandForms))]
		if f.text == "" {
			v := string(rune('a' + i))
			items = append(items, refItem{node: id(v)})
			text = append(text, v)
		} else {
			if strings.HasPrefix(f.text, "NOT EXISTS") && strings.HasSuffix(p, "NOT") {
				c.Skip = true
			}
			items = append(items, refItem{node: f.node()})
			text = append(text, f.text)
		}
	}
	operand(0)
	for i := 1; i <= n; i++ {
		o := ops[c.Free(len(ops))]
		if o.name == "between" {
			if k := c.Pick(len(lowForms)); k > 0 {
				o = betweenOp(strings.HasPrefix(o.text, "NOT"), lowForms[k])
			}
		}
		items = append(items, refItem{infix: o})
		text = append(text, o.text)
		if !o.post {
			operand(i)
		}
	}
	return items, strings.Join(text, " ")
}

// a prefix operator inside the right operand of a tighter operator hides what follows from that operator only; the
// sequences where a postfix operator would follow a captured group are well defined as well.
func c02Expr(c *Chooser, src string, want sqlast.Node, inStmt bool) *Fail {
	if inStmt {
		c.Desc = "SELECT a FROM t WHERE " + src
		got, err := parseOne(c.Desc, generic)
		if err != nil {
			return failf("rejected: %v", err)
		}
		w := simpleQuery("a")
		sel := w.Body.(*sqlast.SQLSelect)
		sel.FromClause = []sqlast.TableReference{&sqlast.Table{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{id("t")}}}}
		sel.WhereClause = want
		if d := diff(got, w); d != "" {
			return failf("tree%s", d)
		}
		return nil
	}
	c.Desc = src
	got, err := parseExpr(src, generic)
	if err != nil {
		return failf("rejected: %v", err)
	}
	if d := diff(got, want); d != "" {
		return failf("tree%s", d)
	}
	return nil
}

// ---- set operations and joins

var setOps = []struct {
	text  string
	level int
	all   bool
	op    func() sqlast.SQLSetOperator
}{
	{"UNION", setUnion, false, func() sqlast.SQLSetOperator { return &sqlast.UnionOperator{} }},
	{"UNION ALL", setUnion, true, func() sqlast.SQLSetOperator { return &sqlast.UnionOperator{} }},
	{"EXCEPT", setUnion, false, func() sqlast.SQLSetOperator { return &sqlast.ExceptOperator{} }},
	{"EXCEPT ALL", setUnion, true, func() sqlast.SQLSetOperator { return &sqlast.ExceptOperator{} }},
	{"INTERSECT", setIntersect, false, func() sqlast.SQLSetOperator { return &sqlast.IntersectOperator{} }},
	{"INTERSECT ALL", setIntersect, true, func() sqlast.SQLSetOperator { return &sqlast.IntersectOperator{} }},
}

func foldSet(operands []sqlast.SQLSetExpr, ops []int) sqlast.SQLSetExpr {
	if len(ops) == 0 {
		return operands[0]
	}
	best := 0
	for i, o := range ops {
		if setOps[o].level <= setOps[ops[best]].level {
			best = i
		}
	}
	o := setOps[ops[best]]
	return &sqlast.SetOperationExpr{Op: o.op(), All: o.all, Left: foldSet(operands[:best+1], ops[:best]), Right: foldSet(operands[best+1:], ops[best+1:])}
}

func c02Set(c *Chooser, n int) *Fail {
	var text []string
	var operands []sqlast.SQLSetExpr
	var ops []int
	operand := func(i int) {
		v := string(rune('a' + i))
		switch c.Pick(4) {
		case 0:
			text = append(text, "SELECT "+v)
			operands = append(operands, simpleQuery(v).Body)
		case 1:
			text = append(text, "( SELECT "+v+" )")
			operands = append(operands, &sqlast.QueryExpr{Query: simpleQuery(v)})
		case 2:
			text = append(text, "( SELECT "+v+" UNION SELECT z )")
			operands = append(operands, &sqlast.QueryExpr{Query: &sqlast.QueryStmt{Body: &sqlast.SetOperationExpr{Op: &sqlast.UnionOperator{}, Left: simpleQuery(v).Body, Right: simpleQuery("z").Body}}})
		case 3:
			text = append(text, "SELECT "+v+" FROM t")
			q := simpleQuery(v).Body.(*sqlast.SQLSelect)
			q.FromClause = []sqlast.TableReference{&sqlast.Table{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{id("t")}}}}
			operands = append(operands, q)
		}
	}
	operand(0)
	for i := 1; i <= n; i++ {
		o := c.Free(len(setOps))
		ops = append(ops, o)
		text = append(text, setOps[o].text)
		operand(i)
	}
	want := &sqlast.QueryStmt{Body: foldSet(operands, ops)}
	src := strings.Join(text, " ")
	switch c.Pick(3) {
	case 1:
		src += " ORDER BY a"
		want.OrderBy = []*sqlast.OrderByExpr{{Expr: id("a")}}
	case 2:
		src += " LIMIT 1"
		want.Limit = &sqlast.LimitExpr{LimitValue: &sqlast.LongValue{Long: 1}}
	}
	if strings.HasPrefix(src, "(") {
		src = "WITH w AS ( SELECT a ) " + src
		want.CTEs = []*sqlast.CTE{{Alias: id("w"), Query: simpleQuery("a")}}
	}
	c.Desc = src
	got, err := parseOne(src, generic)
	if err != nil {
		return failf("rejected: %v", err)
	}
	if d := diff(got, want); d != "" {
		return failf("tree%s", d)
	}
	return nil
}

type joinForm struct {
	text  string
	build func(l sqlast.TableReference, r sqlast.TableFactor) sqlast.TableReference
	spec  string
}

var joinForms = func() []joinForm {
	var l []joinForm
	for _, j := range joinTypes {
		j := j
		w := strings.TrimSpace(strings.Join(j.words, " ") + " JOIN")
		l = append(l, joinForm{w, func(a sqlast.TableReference, b sqlast.TableFactor) sqlast.TableReference {
			return &sqlast.QualifiedJoin{LeftElement: &sqlast.TableJoinElement{Ref: a}, Type: &sqlast.JoinType{Condition: j.t}, RightElement: &sqlast.TableJoinElement{Ref: b}, Spec: &sqlast.JoinCondition{SearchCondition: bin(id("x"), sqlast.Eq, id("y"))}}
		}, "ON x = y"})
		l = append(l, joinForm{"NATURAL " + w, func(a sqlast.TableReference, b sqlast.TableFactor) sqlast.TableReference {
			return &sqlast.NaturalJoin{LeftElement: &sqlast.TableJoinElement{Ref: a}, Type: &sqlast.JoinType{Condition: j.t}, RightElement: &sqlast.TableJoinElement{Ref: b}}
		}, ""})
	}
	l = append(l, joinForm{"CROSS JOIN", func(a sqlast.TableReference, b sqlast.TableFactor) sqlast.TableReference {
		return &sqlast.CrossJoin{Reference: a, Factor: b}
	}, ""})
	l = append(l, joinForm{"JOIN", func(a sqlast.TableReference, b sqlast.TableFactor) sqlast.TableReference {
		return &sqlast.QualifiedJoin{LeftElement: &sqlast.TableJoinElement{Ref: a}, Type: &sqlast.JoinType{Condition: sqlast.IMPLICIT}, RightElement: &sqlast.TableJoinElement{Ref: b}, Spec: &sqlast.NamedColumnsJoin{ColumnList: []*sqlast.Ident{id("x"), id("y")}}}
	}, "USING ( x , y )"})
	return l
}()

// c02Join: a chain of n joins, each the left operand of the next.
func c02Join(c *Chooser, n int) *Fail {
	var text []string
	factor := func(i int) sqlast.TableFactor {
		v := fmt.Sprintf("t%d", i)
		switch c.Pick(3) {
		case 1:
			text = append(text, v+" AS a")
			return &sqlast.Table{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{id(v)}}, Alias: id("a")}
		case 2:
			text = append(text, "( SELECT "+v+" )")
			return &sqlast.Derived{SubQuery: simpleQuery(v)}
		}
		text = append(text, v)
		return &sqlast.Table{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{id(v)}}}
	}
	var ref sqlast.TableReference = factor(0)
	for i := 1; i <= n; i++ {
		j := joinForms[c.Free(len(joinForms))]
		text = append(text, j.text)
		ref = j.build(ref, factor(i))
		if j.spec != "" {
			text = append(text, j.spec)
		}
	}
	src := "SELECT a FROM " + strings.Join(text, " ")
	want := simpleQuery("a")
	want.Body.(*sqlast.SQLSelect).FromClause = []sqlast.TableReference{ref}
	if c.Flag() {
		src += " WHERE b"
		want.Body.(*sqlast.SQLSelect).WhereClause = id("b")
	}
	c.Desc = src
	got, err := parseOne(src, generic)
	if err != nil {
		return failf("rejected: %v", err)
	}
	if d := diff(got, want); d != "" {
		return failf("tree%s", d)
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "C02",
		Level: "exploration",
		Rule:  "one case per sequence of operators (all of them at each place), prefixes and operand forms; distinct texts counted",
		Assumptions: []string{
			"the operator table and the grouping rule of mc/c02.go are the documented ones",
			"longer sequences than the stated ones behave as the enumerated ones",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			var sps []*Space
			seq := func(n, q, t int, ops []*refOp, free bool, inStmt bool) {
				name := fmt.Sprintf("expr-%d-of-%d", n, len(ops))
				if free {
					name += "-prefixes"
				}
				if inStmt {
					name += "-where"
				}
				sps = append(sps, &Space{Name: name, Bound: q, Thorough: t, Rule: "all operator sequences of this length", Run: func(c *Chooser) *Fail {
					items, src := exprSequence(c, n, ops, free)
					c.Desc = src
					if c.Skip {
						return nil
					}
					return c02Expr(c, src, refGroup(items), inStmt)
				}})
			}
			seq(1, 3, 3, refOps, false, false)
			seq(2, 2, 3, refOps, false, false)
			seq(3, 1, 2, refOps, false, false)
			seq(3, 0, 1, refOps, true, false)
			seq(4, 0, 1, refOps, false, false)
			seq(2, 1, 2, refOps, false, true)
			seq(4, 1, 2, refOpsShort, false, false)
			seq(5, 0, 1, refOpsShort, false, false)
			if th {
				seq(4, 0, 0, refOpsShort, true, false)
				seq(6, 0, 0, refOpsShort, false, false)
			}
			sps = append(sps, &Space{Name: "long chains", Bound: 1, Thorough: 1, Rule: "chains of 6 to 300 operators that repeat a pattern of three, and of prefixes", Run: func(c *Chooser) *Fail {
				ops := [3]*refOp{refOpsShort[c.Free(len(refOpsShort))], refOpsShort[c.Free(len(refOpsShort))], refOpsShort[c.Free(len(refOpsShort))]}
				m := pickSize(c, 300)
				pre := ""
				if c.Flag() {
					pre = prefixForms[c.Free(len(prefixForms))]
				}
				var items []refItem
				var text []string
				operand := func(i int) {
					if i == m/2 || i == m {
						for _, w := range strings.Fields(pre) {
							items = append(items, refItem{prefix: w})
							text = append(text, w)
						}
					}
					v := "c" + itoa(i)
					items = append(items, refItem{node: id(v)})
					text = append(text, v)
				}
				operand(0)
				for i := 1; i <= m; i++ {
					o := ops[i%3]
					items = append(items, refItem{infix: o})
					text = append(text, o.text)
					if !o.post {
						operand(i)
					}
				}
				c.Desc = strings.Join(text, " ")
				return c02Expr(c, c.Desc, refGroup(items), false)
			}})
			for n := 1; n <= 4; n++ {
				n := n
				sps = append(sps, &Space{Name: fmt.Sprintf("set-%d", n), Bound: 2, Thorough: 4, Rule: "all chains of set operators of this length", Run: func(c *Chooser) *Fail { return c02Set(c, n) }})
			}
			for n := 1; n <= 3; n++ {
				n := n
				b := 2
				if n == 3 {
					b = 1
				}
				sps = append(sps, &Space{Name: fmt.Sprintf("joins-%d", n), Bound: b, Thorough: b + 1, Rule: "all chains of joins of this length", Run: func(c *Chooser) *Fail { return c02Join(c, n) }})
			}
			if th {
				sps = append(sps, &Space{Name: "joins-4", Thorough: 1, Run: func(c *Chooser) *Fail { return c02Join(c, 4) }})
			}
			return sps
		},
	})
}
