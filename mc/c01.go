package main

import (
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
)

func c01Check(src string, want sqlast.Stmt) *Fail {
	got, err := parseOne(src, generic)
	if err != nil {
		return failf("rejected: %v", err)
	}
	if d := diff(got, want); d != "" {
		return failf("tree%s", d)
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "C01",
		Level: "exploration",
		Rule:  "one case per choice sequence of the reference grammar within the deviation bound; a case is non-trivial if its text is distinct",
		Assumptions: []string{
			"the reference grammar (mc/gram.go) is the specification of the supported SQL",
			"sequences of choices with more deviations than the bound are not explored",
		},
		Spaces: func(tier string) []*Space {
			var sps []*Space
			add := func(name string, q, th int, rule string, run func(c *Chooser) *Fail) {
				sps = append(sps, &Space{Name: name, Bound: q, Thorough: th, Run: run, Rule: rule})
			}
			add("statements", 3, 4, "every statement kind, names and literals plain, compared with the reference tree", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				want := g.any()
				c.Desc = render(g.L)
				return c01Check(c.Desc, want)
			})
			add("clauses", 1, 2, "every combination of the optional clauses of every statement", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				want := g.clauses()
				c.Desc = render(g.L)
				return c01Check(c.Desc, want)
			})
			add("constructs in focus", 2, 3, "statements that begin at a construct deep in the grammar", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				want := g.focused()
				c.Desc = render(g.L)
				return c01Check(c.Desc, want)
			})
			add("large parts", 1, 2, "statements with one large part: list, name, literal, chain, nest", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				want := g.scaled(5000)
				c.Desc = render(g.L)
				return c01Check(c.Desc, want)
			})
			add("long lists", 2, 3, "lists of up to 20 elements", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.maxList = 20
				want := g.any()
				c.Desc = render(g.L)
				return c01Check(c.Desc, want)
			})
			add("names-and-literals", 3, 4, "every statement kind with all name and literal forms", func(c *Chooser) *Fail {
				g := newG(c)
				want := g.any()
				c.Desc = render(g.L)
				return c01Check(c.Desc, want)
			})
			add("tight", 3, 4, "no blanks but the necessary ones", func(c *Chooser) *Fail {
				g := newG(c)
				want := g.any()
				c.Desc = renderTight(g.L)
				return c01Check(c.Desc, want)
			})
			add("entry points", 2, 2, "ParseStatement, ParseSQL and ParseFile give the same tree", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents = true
				want := g.any()
				c.Desc = render(g.L)
				p, err := xsqlparser.NewParser(strings.NewReader(c.Desc), dialects[c.Free(3)])
				if err != nil {
					return failf("rejected: %v", err)
				}
				got, err := p.ParseStatement()
				if err != nil {
					return failf("ParseStatement: %v", err)
				}
				if d := diff(got, want); d != "" {
					return failf("ParseStatement: tree%s", d)
				}
				f, err := parseFile(c.Desc, generic, true)
				if err != nil {
					return failf("ParseFile: %v", err)
				}
				if len(f.Stmts) != 1 {
					return failf("ParseFile: %d statements", len(f.Stmts))
				}
				if d := diff(f.Stmts[0], want); d != "" {
					return failf("ParseFile: tree%s", d)
				}
				return nil
			})
			return sps
		},
	})
}
