package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// lexPositions gives the start and end of each lexeme of a text, which is made of the lexemes and blanks or comments
// between them.
func lexPositions(src string, L []Lex) (from, to []sqltoken.Pos) {
	toks, ok := refLex(decode(src), builtinClasses[0])
	if !ok {
		panic("lexPositions: " + src)
	}
	i := 0
	for _, l := range L {
		for toks[i].kind == sqltoken.Whitespace || toks[i].kind == sqltoken.Comment {
			i++
		}
		from = append(from, toPos(toks[i].from))
		text := ""
		for text != l.S {
			text += toks[i].src
			i++
			if len(text) > len(l.S) {
				panic(fmt.Sprintf("lexPositions: lexeme %q in %q", l.S, src))
			}
		}
		to = append(to, toPos(toks[i-1].to))
	}
	return from, to
}

var c18Unmarked sync.Map

// c18Key names a known wrong position. It is "" for any other.
func c18Key(n sqlast.Node, start bool, got, want sqltoken.Pos) string {
	zero := got == sqltoken.Pos{}
	switch x := n.(type) {
	case *sqlast.QueryStmt:
		if start && zero && len(x.CTEs) > 0 {
			return "QueryStmt.Pos with WITH"
		}
	case *sqlast.CTE:
		if !start && zero {
			return "CTE.End"
		}
	case *sqlast.LimitExpr:
		if start && zero {
			return "LimitExpr.Pos"
		}
	case *sqlast.ConstructorSource:
		if start && zero {
			return "ConstructorSource.Pos"
		}
	case *sqlast.CreateTableStmt:
		if !start && len(x.Options) == 0 && len(x.Elements) > 0 && got == x.Elements[len(x.Elements)-1].End() {
			return "CreateTableStmt.End"
		}
	case *sqlast.QualifiedWildcardSelectItem:
		if e := x.Prefix.End(); !start && got == (sqltoken.Pos{Line: e.Line, Col: e.Col + 2}) {
			return "QualifiedWildcardSelectItem.End"
		}
	case *sqlast.WindowSpec:
		if zero && len(x.PartitionBy) == 0 && len(x.OrderBy) == 0 && x.WindowsFrame == nil {
			return "empty WindowSpec"
		}
	}
	return ""
}

// c18Check compares the positions of all nodes with the places of their lexemes.
func c18Check(src string, g *G, want sqlast.Node) *Fail {
	st, err := parseOne(src, generic)
	if err != nil {
		return failf("rejected: %v", err)
	}
	from, to := lexPositions(src, g.L)
	return c18Tree(st, want, g, from, to)
}

func c18Tree(st, want sqlast.Node, g *G, from, to []sqltoken.Pos) *Fail {
	if d := diff(st, want); d != "" {
		return failf("tree%s", d)
	}
	where := map[sqlast.Node]span{}
	for _, s := range g.spans {
		where[s.node] = s
	}
	got, ref := refNodes(st), refNodes(want)
	if len(got) != len(ref) {
		return failf("%d nodes, want %d", len(got), len(ref))
	}
	var known *Fail
	inherited := map[sqlast.Node]string{}
	// children first: a wrong position a node takes over from a child is a consequence
	for i := len(got) - 1; i >= 0; i-- {
		n := got[i]
		s, ok := where[ref[i]]
		if !ok {
			if os.Getenv("MC_V") != "" {
				c18Unmarked.Store(nodeName(n), true)
			}
			continue
		}
		for _, start := range []bool{true, false} {
			p, w, what := n.Pos(), from[s.s], "starts"
			if !start {
				p, w, what = n.End(), to[s.e-1], "ends"
			}
			if p == w {
				continue
			}
			k := c18Key(n, start, p, w)
			if k == "" {
				// taken over from a child at the same place
				for _, c := range refChildren(n) {
					if ck, ok := inherited[c.node]; ok {
						cp := c.node.Pos()
						if ck[0] == 'e' {
							cp = c.node.End()
						}
						if cp == p && (ck[0] == 's') == start {
							k = ck[1:]
						}
					}
				}
			}
			f := &Fail{Key: k, Msg: fmt.Sprintf("%s %q %s at %d:%d, want %d:%d", nodeName(n), n.ToSQLString(), what, p.Line, p.Col, w.Line, w.Col)}
			if k == "" {
				return f
			}
			inherited[n] = what[:1] + k
			if known == nil {
				known = f
			}
		}
	}
	return known
}

// layouts put the lexemes into a text.
var layouts = []func(L []Lex) string{
	render,
	renderTight,
	func(L []Lex) string { return "\n\t" + joinWith(L, "\n") },
	func(L []Lex) string { return joinWith(L, "\r\n  ") + ";" },
	func(L []Lex) string { return " " + joinWith(L, "\t/* é\n */ ") + "\n;" },
	func(L []Lex) string { return "-- x\n" + joinWith(L, " -- ü世\r") },
	func(L []Lex) string {
		var b strings.Builder
		seps := []string{" ", "\n", "\t", "/**/", "  \n ", "\r"}
		for i, l := range L {
			b.WriteString(seps[i*7%len(seps)])
			b.WriteString(l.S)
		}
		return b.String()
	},
}

func joinWith(L []Lex, sep string) string {
	return strings.Join(lexTexts(L), sep)
}

func init() {
	register(&Check{
		ID:    "C18",
		Level: "exploration",
		Rule:  "one case per statement and layout; distinct texts counted",
		Assumptions: []string{
			"the text of a node is that of the lexemes the reference grammar generates for it; lexeme positions are those of the reference lexer",
		},
		Spaces: func(tier string) []*Space {
			run := func(c *Chooser, plain bool, layout int, stmt func(g *G) sqlast.Stmt) *Fail {
				g := newG(c)
				g.recordSpans = true
				g.plainIdents, g.plainLits = plain, plain
				want := stmt(g)
				if c.Skip {
					return nil
				}
				if layout < 0 {
					layout = c.Free(len(layouts))
				}
				c.Desc = layouts[layout](g.L)
				return c18Check(c.Desc, g, want)
			}
			return []*Space{
				{Name: "all layouts", Bound: 2, Thorough: 3, Rule: "every statement in every layout", Run: func(c *Chooser) *Fail { return run(c, true, -1, (*G).any) }},
				{Name: "clauses and constructs", Bound: 1, Thorough: 2, Rule: "every combination of the optional clauses of every statement, and statements that begin at a construct deep in the grammar, mixed layout", Run: func(c *Chooser) *Fail { return run(c, true, 6, (*G).wide) }},
				{Name: "large parts", Bound: 1, Thorough: 2, Rule: "statements with one large part: list, name, literal, chain, nest; mixed layout", Run: func(c *Chooser) *Fail { return run(c, true, 6, upTo(5000)) }},
				{Name: "names and literals", Bound: 3, Thorough: 4, Rule: "every statement with all name and literal forms, mixed layout", Run: func(c *Chooser) *Fail { return run(c, false, 6, (*G).any) }},
				{Name: "gaps", Bound: 2, Thorough: 3, Rule: "every statement, one gap filled in every way", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.recordSpans = true
					g.plainIdents, g.plainLits = true, true
					want := g.any()
					at := c.Free(len(g.L) + 1)
					fl := fillers[c.Free(len(fillers))]
					var b strings.Builder
					for i := 0; i <= len(g.L); i++ {
						if i == at {
							b.WriteString(" " + fl)
						} else if i > 0 {
							b.WriteByte(' ')
						}
						if i < len(g.L) {
							b.WriteString(g.L[i].S)
						}
					}
					c.Desc = b.String()
					return c18Check(c.Desc, g, want)
				}},
				{Name: "scripts", Bound: 0, Thorough: 1, Rule: "scripts of two statements in every layout, with and without comment collection", Run: func(c *Chooser) *Fail {
					var L []Lex
					var gs []*G
					var wants []sqlast.Node
					var at []int
					for i := 0; i < 2; i++ {
						g := newG(c)
						g.recordSpans = true
						g.plainIdents, g.plainLits = true, true
						wants = append(wants, g.any())
						gs = append(gs, g)
						if i > 0 {
							L = append(L, Lex{";", kSym})
						}
						at = append(at, len(L))
						L = append(L, g.L...)
					}
					c.Desc = layouts[c.Free(len(layouts))](L)
					f, err := parseFile(c.Desc, generic, c.Free(2) == 1)
					if err != nil || len(f.Stmts) != 2 {
						return failf("rejected or not two statements: %v", err)
					}
					from, to := lexPositions(c.Desc, L)
					var known *Fail
					for i, st := range f.Stmts {
						x := c18Tree(st, wants[i], gs[i], from[at[i]:], to[at[i]:])
						if x != nil && x.Key == "" {
							return x
						}
						if x != nil {
							known = x
						}
					}
					return known
				}},
				{Name: "statements", Bound: 3, Thorough: 4, Rule: "every statement in the mixed layout", Run: func(c *Chooser) *Fail { return run(c, true, 6, (*G).any) }},
			}
		},
		Extra: func(r *Runner) {
			if os.Getenv("MC_V") != "" {
				c18Unmarked.Range(func(k, v interface{}) bool {
					fmt.Fprintln(realStdout, "# not marked:", k)
					return true
				})
			}
		},
	})
}
