package main

import (
	"math/big"
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// The significant lexemes of a text: what must be found again in the printed tree.

// noise are words the tree need not hold: they come with what is next to them.
var noise = map[string]bool{"AS": true, "CAST": true}

// significant reduces a text to its significant lexemes, in canonical spelling.
func significant(src string) ([]string, bool) {
	toks, ok := refLex(decode(src), builtinClasses[0])
	if !ok {
		return nil, false
	}
	var ts []rTok
	for _, t := range toks {
		if t.kind != sqltoken.Whitespace && t.kind != sqltoken.Comment {
			ts = append(ts, t)
		}
	}
	word := func(i int) string {
		if i < 0 || i >= len(ts) || ts[i].kind != sqltoken.SQLKeyword || ts[i].quote != 0 {
			return ""
		}
		return strings.ToUpper(ts[i].val)
	}
	var out []string
	inTable := false // elsewhere UNIQUE KEY is a name and its alias
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		if i == 0 || ts[i-1].kind == sqltoken.Semicolon {
			k := i
			for word(k) == "EXPLAIN" {
				k++
			}
			inTable = (word(k) == "CREATE" || word(k) == "ALTER") && word(k+1) == "TABLE"
		}
		switch t.kind {
		case sqltoken.SQLKeyword:
			if t.quote != 0 {
				out = append(out, string(t.quote)+t.val)
				continue
			}
			w := strings.ToUpper(t.val)
			if !isKeyword(w) && w != "UNSIGNED" {
				out = append(out, t.val)
				continue
			}
			switch w {
			case "INTEGER":
				w = "INT"
			case "CHARACTER", "CHAR":
				w = "CHAR"
			case "VARCHAR":
				out = append(out, "CHAR", "VARYING")
				continue
			case "WITHOUT":
				if word(i+1) == "TIME" && word(i+2) == "ZONE" {
					i += 2
					continue
				}
			case "KEY":
				if word(i-1) == "UNIQUE" && inTable {
					continue
				}
			}
			if noise[w] {
				continue
			}
			out = append(out, w)
		case sqltoken.Number:
			v, ok := numberValue(t.val)
			if !ok {
				v = "number " + t.val
			}
			if strings.HasPrefix(v, "decimal") {
				r, _ := new(big.Rat).SetString(strings.TrimPrefix(v, "decimal "))
				v = "decimal " + r.String()
			}
			out = append(out, v)
		case sqltoken.SingleQuotedString:
			out = append(out, "'"+t.val)
		case sqltoken.NationalStringLiteral:
			out = append(out, "N'"+t.val)
		case sqltoken.Neq:
			out = append(out, "!=")
		case sqltoken.Comma:
			// table options are listed with or without commas
			if w := word(i + 1); w == "ENGINE" || w == "CHARSET" || w == "DEFAULT" && word(i+2) == "CHARSET" {
				continue
			}
			out = append(out, ",")
		case sqltoken.DoubleColon:
			out = append(out, "(", ")") // prints as CAST ( )
		default:
			out = append(out, t.val)
		}
	}
	sort.Strings(out)
	return out, true
}

func sameLexemes(a, b []string) string {
	i, j := 0, 0
	var lost, extra []string
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			lost = append(lost, a[i])
			i++
		case i == len(a) || a[i] > b[j]:
			extra = append(extra, b[j])
			j++
		default:
			i++
			j++
		}
	}
	if len(lost)+len(extra) == 0 {
		return ""
	}
	return "lost [" + strings.Join(lost, " ") + "] added [" + strings.Join(extra, " ") + "]"
}

func printStmts(ss []sqlast.Stmt) string {
	var l []string
	for _, s := range ss {
		l = append(l, s.ToSQLString())
	}
	return strings.Join(l, " ; ")
}

// lossless: what is accepted is represented.
func lossless(src string) (accepted bool, f *Fail) {
	ss, err := parseSQL(src, generic)
	file, err2 := parseFile(src, generic, true)
	if (err == nil) != (err2 == nil) {
		return false, failf("ParseSQL: %v, ParseFile: %v", err, err2)
	}
	if err != nil {
		return false, nil
	}
	text := printStmts(ss)
	want, ok := significant(strings.Trim(strings.TrimSpace(src), "; \t\r\n"))
	if !ok {
		return true, failf("a lexically wrong text is accepted as %q", text)
	}
	for i, t := range []string{text, printStmts(file.Stmts)} {
		got, ok := significant(t)
		if !ok {
			return true, failf("printed as %q, which is lexically wrong", t)
		}
		if d := sameLexemes(want, got); d != "" {
			return true, failf("accepted (%s) as %q: %s", []string{"ParseSQL", "ParseFile"}[i], t, d)
		}
	}
	return true, nil
}

// mutations of the lexemes of a statement: one lexeme deleted, doubled, swapped with the next or replaced or preceded
// by another one.
var mutLexemes = []string{"a", "1", "'s'", "(", ")", ",", ".", "*", "=", "-", ";", "NOT", "NULL", "AS", "SELECT", "FROM", "WHERE", "ON", "AND", "OR", "ALL", "DISTINCT", "BY", "KEY", "UNIQUE", "IF", "EXISTS", "CASCADE", "DEFAULT", "WITH", "LIMIT", "UNION", "JOIN", "INT", "::", "IN", "IS", "CASE", "END", "TABLE", "SET", "ASC", "RESTRICT", "OUTER", "INNER", "LATERAL", "USING", "RECURSIVE", "CONSTRAINT", `"q"`, "[", "]", "||", "&", "%", "<", ":"}

func mutate(c *Chooser, L []string) ([]string, bool) {
	n := len(L)
	i := c.Free(n + 1)
	k := c.Free(3 + 2*len(mutLexemes))
	cp := append([]string(nil), L...)
	switch {
	case k == 0: // delete
		if i == n {
			return nil, false
		}
		return append(cp[:i], cp[i+1:]...), true
	case k == 1: // double
		if i == n {
			return nil, false
		}
		r := append([]string(nil), L[:i+1]...)
		return append(r, L[i:]...), true
	case k == 2: // swap
		if i+1 >= n {
			return nil, false
		}
		cp[i], cp[i+1] = cp[i+1], cp[i]
		return cp, true
	case k < 3+len(mutLexemes): // insert
		r := append([]string(nil), L[:i]...)
		r = append(r, mutLexemes[k-3])
		return append(r, L[i:]...), true
	default: // replace
		if i == n {
			return nil, false
		}
		cp[i] = mutLexemes[k-3-len(mutLexemes)]
		return cp, true
	}
}

// moveRun repeats a run of lexemes at a place (0), moves it there (1), or leaves it out (2).
func moveRun(c *Chooser, L []string) ([]string, bool) {
	n := len(L)
	i := c.Free(n)
	k := 2 + c.Free(5)
	if i+k > n {
		return nil, false
	}
	part := L[i : i+k]
	rest := append(append([]string(nil), L[:i]...), L[i+k:]...)
	switch c.Free(3) {
	case 0:
		rest = L
	case 2:
		return rest, true
	}
	j := c.Free(len(rest) + 1)
	m := append([]string(nil), rest[:j]...)
	m = append(m, part...)
	return append(m, rest[j:]...), true
}

func lexTexts(L []Lex) []string {
	var l []string
	for _, x := range L {
		l = append(l, x.S)
	}
	return l
}

func init() {
	register(&Check{
		ID:    "C05",
		Level: "exploration",
		Rule:  "one case per lexeme sequence; only accepted ones are counted as non-trivial",
		Assumptions: []string{
			"words that stand for no content of their own (AS, the :: that prints as CAST, type synonyms, WITHOUT TIME ZONE, the KEY of UNIQUE KEY, commas between table options) are not counted",
		},
		Spaces: func(tier string) []*Space {
			var sps []*Space
			n := func(q, t int) int {
				if tier == "thorough" {
					return t
				}
				return q
			}
			k := 3
			if tier == "thorough" {
				k = 4
			}
			run := func(c *Chooser, src string) *Fail {
				c.Desc = src
				ok, f := lossless(src)
				c.Triv = !ok
				return f
			}
			sps = append(sps, &Space{Name: "statements", Bound: 3, Thorough: 4, Rule: "all statements of the reference grammar", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents = true
				g.any()
				return run(c, render(g.L))
			}})
			sps = append(sps, &Space{Name: "clauses and constructs", Bound: 1, Thorough: 2, Rule: "every combination of the optional clauses of every statement, and statements that begin at a construct deep in the grammar", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.wide()
				return run(c, render(g.L))
			}})
			sps = append(sps, &Space{Name: "large parts", Bound: 1, Thorough: 1, Rule: "statements with one large part: list, name, literal, chain, nest", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.scaled(5000)
				return run(c, render(g.L))
			}})
			sps = append(sps, &Space{Name: "mutated large parts", Bound: 0, Thorough: 0, Rule: "statements with one large part, one lexeme deleted, doubled, swapped, inserted or replaced", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.scaled(n(17, 33))
				m, ok := mutate(c, lexTexts(g.L))
				if c.Skip || !ok {
					c.Skip = true
					return nil
				}
				return run(c, strings.Join(m, " "))
			}})
			sps = append(sps, &Space{Name: "mutations", Bound: 1, Thorough: 2, Rule: "statements of the reference grammar with one lexeme deleted, doubled, swapped, inserted or replaced", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.any()
				if c.Skip {
					return nil
				}
				m, ok := mutate(c, lexTexts(g.L))
				if !ok {
					c.Skip = true
					return nil
				}
				return run(c, strings.Join(m, " "))
			}})
			sps = append(sps, &Space{Name: "moved clauses", Bound: 1, Thorough: 2, Rule: "statements of the reference grammar with a run of up to 6 lexemes repeated or moved to a later or earlier place, or left out", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.any()
				if c.Skip {
					return nil
				}
				m, ok := moveRun(c, lexTexts(g.L))
				if !ok {
					c.Skip = true
					return nil
				}
				return run(c, strings.Join(m, " "))
			}})
			sps = append(sps, &Space{Name: "moved clauses of full statements", Bound: 0, Thorough: 1, Rule: "the same for every combination of the optional clauses of every statement", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = true, true
				g.wide()
				if c.Skip {
					return nil
				}
				m, ok := moveRun(c, lexTexts(g.L))
				if !ok {
					c.Skip = true
					return nil
				}
				return run(c, strings.Join(m, " "))
			}})
			sps = append(sps, c05More(tier, 1, run)...)
			sps = append(sps, soupSpaces("soups", k, run)...)
			return sps
		},
	})
}
