package main

import "github.com/akito0107/xsqlparser/sqlast"

// Statements with one construct that is otherwise out of reach of the deviations a space allows: the way to the
// construct costs one.

const nFocus = 17

// any generates a statement of any kind or, for one deviation, one with a construct in the focus.
func (g *G) any() sqlast.Stmt {
	if g.c.Flag() {
		return g.focus(g.c.Free(nFocus))
	}
	return g.stmt(g.c.Free(nStmts))
}

// clauses generates a statement of any kind all of whose optional clauses cost nothing: all combinations of them.
func (g *G) clauses() sqlast.Stmt {
	g.freeClauses = true
	defer func() { g.freeClauses = false }()
	return g.stmt(g.c.Free(nStmts))
}

// focused generates a statement with a construct in the focus, at no cost.
func (g *G) focused() sqlast.Stmt { return g.focus(g.c.Free(nFocus)) }

// wide generates a statement by clauses or focused.
func (g *G) wide() sqlast.Stmt {
	if g.c.Free(2) == 1 {
		return g.focused()
	}
	return g.clauses()
}

// selectOf is SELECT with what f generates.
func (g *G) selectOf(f func() sqlast.Node) *sqlast.QueryStmt {
	return g.queryOf(func(sel *sqlast.SQLSelect) {
		is := g.here()
		it := &sqlast.UnnamedSelectItem{Node: f()}
		g.mark(it, is)
		sel.Projection = []sqlast.SQLSelectItem{it}
	}, nil)
}

// queryOf is a query whose select and tail f and tail generate.
func (g *G) queryOf(f func(sel *sqlast.SQLSelect), tail func(q *sqlast.QueryStmt)) *sqlast.QueryStmt {
	s := g.here()
	q := &sqlast.QueryStmt{}
	g.kw("SELECT")
	sel := &sqlast.SQLSelect{}
	f(sel)
	g.mark(sel, s)
	q.Body = sel
	if tail != nil {
		tail(q)
	}
	g.mark(q, s)
	return q
}

func (g *G) plainItem(sel *sqlast.SQLSelect) {
	s := g.here()
	it := &sqlast.UnnamedSelectItem{Node: g.ident()}
	g.mark(it, s)
	sel.Projection = []sqlast.SQLSelectItem{it}
}

func (g *G) tableOf(f func(t *sqlast.CreateTableStmt)) sqlast.Stmt {
	s := g.here()
	g.kw("CREATE", "TABLE")
	t := &sqlast.CreateTableStmt{Name: g.objname()}
	g.sym("(")
	f(t)
	g.sym(")")
	g.mark(t, s)
	return t
}

func (g *G) overFunction(free int, w func() *sqlast.WindowSpec) sqlast.Node {
	s := g.here()
	os := g.here()
	f := &sqlast.Function{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{g.ident()}}}
	g.mark(f.Name, os)
	g.sym("(")
	g.sym(")")
	g.kw("OVER")
	g.sym("(")
	g.freeKinds = free
	f.Over = w()
	g.freeKinds = 0
	g.sym(")")
	g.mark(f, s)
	return f
}

func (g *G) focus(k int) sqlast.Stmt {
	defer func() { g.freeKinds, g.freeClauses = 0, false }()
	switch k {
	case 0: // windows
		return g.selectOf(func() sqlast.Node {
			g.freeClauses = true
			return g.overFunction(0, g.window)
		})
	case 1: // window bounds
		return g.selectOf(func() sqlast.Node {
			return g.overFunction(2, func() *sqlast.WindowSpec {
				s := g.here()
				fr := &sqlast.WindowFrame{}
				g.kw("RANGE")
				fr.Units = &sqlast.WindowFrameUnit{Type: sqlast.RangeUnit}
				g.mark(fr.Units, s)
				g.kw("BETWEEN")
				fr.StartBound = g.bound()
				g.kw("AND")
				fr.EndBound = g.bound()
				g.mark(fr, s)
				w := &sqlast.WindowSpec{WindowsFrame: fr}
				g.mark(w, s)
				return w
			})
		})
	case 2: // expressions in a select list
		return g.selectOf(func() sqlast.Node {
			g.freeKinds = 1
			return g.expr()
		})
	case 3: // conditions
		return g.queryOf(func(sel *sqlast.SQLSelect) {
			g.plainItem(sel)
			g.kw("WHERE")
			g.freeKinds = 1
			sel.WhereClause = g.expr()
		}, nil)
	case 4: // functions
		return g.selectOf(func() sqlast.Node {
			g.freeKinds = 1
			return g.function()
		})
	case 5: // CASE
		return g.selectOf(func() sqlast.Node {
			g.freeClauses = true
			return g.caseExpr()
		})
	case 6: // joins
		return g.queryOf(func(sel *sqlast.SQLSelect) {
			g.plainItem(sel)
			g.kw("FROM")
			g.freeKinds = 2
			sel.FromClause = []sqlast.TableReference{g.tableRefJoins(1)}
		}, nil)
	case 7: // derived tables
		return g.queryOf(func(sel *sqlast.SQLSelect) {
			g.plainItem(sel)
			g.kw("FROM")
			s := g.here()
			d := &sqlast.Derived{}
			g.sym("(")
			d.SubQuery = g.innerQuery()
			g.sym(")")
			d.Alias = g.optAlias()
			g.mark(d, s)
			sel.FromClause = []sqlast.TableReference{d}
		}, nil)
	case 8: // WITH
		s := g.here()
		q := &sqlast.QueryStmt{}
		g.kw("WITH")
		cs := g.here()
		c := &sqlast.CTE{Alias: g.ident()}
		g.kw("AS")
		g.sym("(")
		c.Query = g.innerQuery()
		g.sym(")")
		g.mark(c, cs)
		q.CTEs = []*sqlast.CTE{c}
		q.Body = g.selectExpr(true)
		g.mark(q, s)
		return q
	case 9: // set operations
		s := g.here()
		q := &sqlast.QueryStmt{}
		so := &sqlast.SetOperationExpr{Left: g.selectExpr(true)}
		os := g.here()
		switch g.c.Free(3) {
		case 0:
			g.kw("UNION")
			so.Op = &sqlast.UnionOperator{}
		case 1:
			g.kw("EXCEPT")
			so.Op = &sqlast.ExceptOperator{}
		default:
			g.kw("INTERSECT")
			so.Op = &sqlast.IntersectOperator{}
		}
		g.mark(so.Op, os)
		if g.c.Free(2) == 1 {
			g.kw("ALL")
			so.All = true
		}
		if g.c.Free(2) == 1 {
			so.Right = g.selectExpr(false)
		} else {
			rs := g.here()
			g.sym("(")
			e := &sqlast.QueryExpr{Query: g.innerQuery()}
			g.sym(")")
			g.mark(e, rs)
			so.Right = e
		}
		g.mark(so, s)
		q.Body = so
		if g.c.Free(2) == 1 {
			q.OrderBy = g.orderBy()
		}
		g.limit(q)
		g.mark(q, s)
		return q
	case 10: // the tail of a query
		return g.queryOf(g.plainItem, func(q *sqlast.QueryStmt) {
			q.OrderBy = g.orderBy()
			g.freeKinds = 1
			g.limit(q)
		})
	case 11: // column types
		return g.tableOf(func(t *sqlast.CreateTableStmt) {
			g.freeKinds = 1
			t.Elements = []sqlast.TableElement{g.columnDef()}
		})
	case 12: // column constraints
		return g.tableOf(func(t *sqlast.CreateTableStmt) {
			s := g.here()
			c := &sqlast.ColumnDef{Name: g.ident()}
			ts := g.here()
			g.kw("INT")
			c.DataType = &sqlast.Int{}
			g.mark(c.DataType, ts)
			g.freeKinds = 1
			g.columnParts(c, 1)
			g.mark(c, s)
			t.Elements = []sqlast.TableElement{c}
		})
	case 13: // table constraints
		return g.tableOf(func(t *sqlast.CreateTableStmt) {
			g.freeKinds = 1
			t.Elements = []sqlast.TableElement{g.tableConstraint()}
		})
	case 14: // INSERT of a query, with what to do about duplicates
		s := g.here()
		g.kw("INSERT", "INTO")
		ins := &sqlast.InsertStmt{TableName: g.objname()}
		ins.Columns = g.parenIdents()
		ss := g.here()
		ins.Source = &sqlast.SubQuerySource{SubQuery: g.innerQuery()}
		g.mark(ins.Source, ss)
		g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
		ins.UpdateAssignments = g.assignments()
		g.mark(ins, s)
		return ins
	case 15: // GROUP BY and HAVING
		return g.queryOf(func(sel *sqlast.SQLSelect) {
			g.plainItem(sel)
			g.kw("GROUP", "BY")
			sel.GroupByClause = g.exprList()
			g.kw("HAVING")
			sel.HavingClause = g.expr()
		}, nil)
	default: // defaults
		return g.tableOf(func(t *sqlast.CreateTableStmt) {
			s := g.here()
			c := &sqlast.ColumnDef{Name: g.ident()}
			ts := g.here()
			g.kw("INT")
			c.DataType = &sqlast.Int{}
			g.mark(c.DataType, ts)
			g.freeKinds = 1
			g.kw("DEFAULT")
			c.Default = g.defaultExpr()
			g.freeKinds = 0
			g.columnParts(c, 0)
			g.mark(c, s)
			t.Elements = []sqlast.TableElement{c}
		})
	}
}
