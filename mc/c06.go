package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

type countVisitor struct{ n int }

func (v *countVisitor) Visit(n sqlast.Node) sqlast.Visitor { v.n++; return v }

// useTree does with a tree whatever may be done with one without changing it.
func useTree(n sqlast.Node) {
	for _, x := range refNodes(n) {
		x.Pos()
		x.End()
	}
	_ = n.ToSQLString()
	sqlast.Walk(&countVisitor{}, n)
	sqlast.Inspect(n, func(sqlast.Node) bool { return true })
	sqlastutil.Apply(n, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { return true })
}

// robust runs every entry point on a text. Panics surface by themselves.
func robust(src string, d dialect.Dialect, deep bool) (accepted bool, f *Fail) {
	newP := func(opts ...xsqlparser.ParserOption) *xsqlparser.Parser {
		p, err := xsqlparser.NewParser(strings.NewReader(src), d, opts...)
		if p == nil && err == nil {
			f = failf("NewParser gave (%v, %v)", p, err)
		}
		if err != nil {
			return nil
		}
		return p
	}
	for _, comments := range []bool{false, true} {
		var opts []xsqlparser.ParserOption
		if comments {
			opts = append(opts, xsqlparser.ParseComment())
		}
		if p := newP(opts...); p != nil {
			file, err := p.ParseFile()
			if err == nil && file == nil {
				return false, failf("ParseFile gave (%v, %v)", file, err)
			}
			if err == nil {
				accepted = accepted || len(file.Stmts) > 0
				for _, s := range file.Stmts {
					if isNilNode(reflect.ValueOf(&s).Elem()) {
						return false, failf("ParseFile gave a nil statement")
					}
				}
				useTree(file)
				sqlast.NewCommentMap(file)
				for _, g := range file.Comments {
					g.ToSQLString()
					g.Pos()
					g.End()
				}
			}
		}
		if !deep {
			continue
		}
		if p := newP(opts...); p != nil {
			ss, err := p.ParseSQL()
			if err == nil {
				for _, s := range ss {
					useTree(s)
				}
			}
		}
	}
	if p := newP(); p != nil {
		// statement by statement until nothing is accepted
		for i := 0; i <= len(src)+1; i++ {
			s, err := p.ParseStatement()
			if err == nil && isNilNode(reflect.ValueOf(&s).Elem()) {
				return false, failf("ParseStatement gave (%v, %v)", s, err)
			}
			if err != nil {
				break
			}
			useTree(s)
			if i > len(src) {
				return false, failf("ParseStatement goes on giving statements")
			}
		}
	}
	if p := newP(); p != nil {
		e, err := p.ParseExpr()
		if err == nil && isNilNode(reflect.ValueOf(&e).Elem()) {
			return false, failf("ParseExpr gave (%v, %v)", e, err)
		}
		if err == nil {
			useTree(e)
		}
	}
	if p := newP(); p != nil {
		t, err := p.ParseDataType()
		if err == nil && isNilNode(reflect.ValueOf(&t).Elem()) {
			return false, failf("ParseDataType gave (%v, %v)", t, err)
		}
		if err == nil {
			useTree(t)
		}
	}
	if deep {
		for _, o := range [][]sqltoken.TokenizerOption{{sqltoken.Dialect(d)}, {sqltoken.Dialect(d), sqltoken.DisableParseComment()}} {
			set, err := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), o...).Tokenize()
			if err != nil {
				continue
			}
			p := xsqlparser.NewParserWithOptions(xsqlparser.ParseComment())
			p.SetTokens(set)
			if file, err := p.ParseFile(); err == nil {
				useTree(file)
				sqlast.NewCommentMap(file)
			}
		}
	}
	return accepted, f
}

func init() {
	run := func(c *Chooser, src string, all bool) *Fail {
		c.Desc = src
		if !all {
			ok, f := robust(src, generic, false)
			_ = ok
			return f
		}
		c.Evals = 3
		for i, d := range dialects {
			if _, f := robust(src, d, true); f != nil {
				return failf("%s: %s", dnames[i], f.Msg)
			}
		}
		return nil
	}
	register(&Check{
		ID:    "C06",
		Level: "exploration",
		Rule:  "one case per text; all public parsing entry points are run on it, and everything is done with the trees they give",
		Assumptions: []string{
			"deep nesting is explored for every construct that can hold itself, not for all their mixtures",
			"a case that takes over 25 s (twice, the second time alone) counts as one that does not end",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			chars := append(append([]string(nil), alphaAll...), alphaBlank...)
			chars = append(chars, "\x00", "\xff")
			text := func(name string, alpha []string, k int) *Space {
				return &Space{Name: name, Rule: fmt.Sprintf("all texts of up to %d pieces out of %d", k, len(alpha)), Run: func(c *Chooser) *Fail {
					var b strings.Builder
					for i, m := 0, c.Free(k+1); i < m; i++ {
						b.WriteString(alpha[c.Free(len(alpha))])
					}
					return run(c, b.String(), true)
				}}
			}
			starts := []string{"SELECT", "a", "1", "'s'", "(", ")", ",", ".", "*", "-", "/* c */", "-- d\n", ";", "=", "::", "NOT", "NULL", "CASE", "WHEN", "THEN", "END", "CAST", "AS", "INT", "EXISTS", "IN", "BETWEEN", "AND", "IS", "LIKE", "OVER", "FROM", "JOIN", "N'x'", "INTERVAL", "DATE", "TIMESTAMP", "TIME", "DOUBLE", "VARCHAR", "[", "]", "WITH", "CREATE", "DROP", "INSERT", "UPDATE", "DELETE", "ALTER", "EXPLAIN", "COPY", "UNION", "ALL", "ANY", "ROW", "ARRAY", "EXTRACT"}
			more := c05More("quick", 0, func(c *Chooser, src string) *Fail { return run(c, src, false) })[:2]
			return append(append(deepSpaces(th), more...), []*Space{
				text("characters", chars, n(3, 4)),
				text("lexemes", starts, n(3, 4)),
				soupSpaces("soups", n(3, 4), func(c *Chooser, src string) *Fail { return run(c, src, false) })[0],
				{Name: "prefixes", Bound: 2, Thorough: 3, Rule: "every character prefix of the statements of the grammar, with three kinds of blanks", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.any()
					if c.Skip {
						return nil
					}
					sep := []string{" ", "\n", "/* x */"}[c.Pick(3)]
					src := strings.Join(lexTexts(g.L), sep)
					cut := c.Free(len(src) + 1)
					c.Desc = src[:len(src)-cut]
					_, f := robust(c.Desc, generic, false)
					return f
				}},
				{Name: "suffixes", Bound: 1, Thorough: 2, Rule: "every lexeme suffix of the statements of the grammar", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.any()
					if c.Skip {
						return nil
					}
					return run(c, strings.Join(lexTexts(g.L)[c.Free(len(g.L)):], " "), true)
				}},
				{Name: "mutations", Bound: n(1, 2), Thorough: 2, Rule: "statements of the grammar with one lexeme deleted, doubled, swapped, inserted or replaced", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.any()
					if c.Skip {
						return nil
					}
					m, ok := mutate(c, lexTexts(g.L))
					if !ok {
						c.Skip = true
						return nil
					}
					return run(c, strings.Join(m, " "), false)
				}},
				{Name: "large parts", Bound: 1, Thorough: 1, Rule: "statements with one large part: list, name, literal, chain, nest; whole or cut in two ways", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.scaled(n(300, 5000))
					L := lexTexts(g.L)
					switch c.Free(3) {
					case 1:
						L = L[:len(L)-1]
					case 2:
						L = L[:len(L)/2]
					}
					return run(c, strings.Join(L, " "), false)
				}},
				{Name: "large pieces", Bound: 0, Thorough: 1, Rule: "two large pieces of text: words, numbers, literals, names, comments, runs of blanks or of lexemes", Run: func(c *Chooser) *Fail {
					pre := []string{"", "SELECT ", "SELECT a FROM t WHERE "}[c.Free(3)]
					return run(c, pre+largePieces[c.Free(len(largePieces))](pickSize(c, 1025))+" "+largePieces[c.Free(len(largePieces))](pickSize(c, 1025)), false)
				}},
				{Name: "mutated prefixes", Rule: "plain statements with one lexeme changed, cut after every lexeme", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.any()
					if c.Skip {
						return nil
					}
					m, ok := mutate(c, lexTexts(g.L))
					if !ok || len(m) == 0 {
						c.Skip = true
						return nil
					}
					return run(c, strings.Join(m[:c.Free(len(m))], " "), false)
				}},
				{Name: "commented", Bound: 2, Thorough: 3, Rule: "statements with two comments anywhere, also cut short", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.any()
					if c.Skip {
						return nil
					}
					L := lexTexts(g.L)
					if c.Flag() {
						L = append(append(append([]string(nil), L...), ";"), L...)
					}
					i := c.Free(len(L) + 1)
					j := i + c.Free(len(L)+1-i)
					cm := []string{"-- c\n", "/* c */", "\n/* c\n */\n"}
					a, b := cm[c.Pick(3)], cm[c.Pick(3)]
					src := strings.Join(L[:i], " ") + " " + a + strings.Join(L[i:j], " ") + " " + b + strings.Join(L[j:], " ")
					if c.Flag() {
						src = strings.Join(L[:i], " ") + " " + a + strings.Join(L[i:j], " ") + " " + b
					}
					return run(c, src, false)
				}},
			}...)
		},
	})
}
