package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

var fillers = []string{" ", "  ", "\t", "\n", "\r", "\r\n", " \n\t ", "/**/", "/* c */", "/* a\n * b\r\n */", "-- c\n", "--\r", "-- x\r\n", " -- c\n\n/* d */ ", "/* ; */", "-- SELECT ; ' \" /*\n", "/* -- ' */", "/***/", "\n\n\n"}

// fill puts a filler between two lexemes so that it cannot run into them.
func fill(b *strings.Builder, filler string) {
	s := b.String()
	if strings.HasPrefix(filler, "-") && strings.HasSuffix(s, "-") {
		b.WriteByte(' ')
	}
	b.WriteString(filler)
}

func c10Same(src string, want sqlast.Stmt) *Fail {
	for _, comments := range []bool{false, true} {
		f, err := parseFile(src, generic, comments)
		if err != nil {
			return failf("comments %v: rejected: %v", comments, err)
		}
		if len(f.Stmts) != 1 {
			return failf("comments %v: %d statements", comments, len(f.Stmts))
		}
		if d := diff(f.Stmts[0], want); d != "" {
			return failf("comments %v: tree%s", comments, d)
		}
	}
	got, err := parseOne(src, generic)
	if err != nil {
		return failf("ParseSQL: rejected: %v", err)
	}
	if d := diff(got, want); d != "" {
		return failf("ParseSQL: tree%s", d)
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "C10",
		Level: "exploration",
		Rule:  "one case per statement and filling of its gaps; distinct texts counted",
		Assumptions: []string{
			"gaps are those between the lexemes of the reference grammar",
		},
		Spaces: func(tier string) []*Space {
			base := func(c *Chooser, plain bool) ([]string, sqlast.Stmt, *Fail) {
				g := newG(c)
				g.plainLits, g.plainIdents = plain, plain
				g.any()
				if c.Skip {
					return nil, nil, nil
				}
				st, err := parseOne(render(g.L), generic)
				if err != nil {
					return nil, nil, failf("%q is rejected: %v", render(g.L), err)
				}
				return lexTexts(g.L), st, nil
			}
			build := func(L []string, fills map[int]string, def string) string {
				var b strings.Builder
				for i := 0; i <= len(L); i++ {
					f, ok := fills[i]
					switch {
					case ok:
						fill(&b, f)
					case i > 0 && i < len(L):
						fill(&b, def)
					}
					if i < len(L) {
						b.WriteString(L[i])
					}
				}
				return b.String()
			}
			// rejected sequences stay rejected
			reject := func(c *Chooser, L []string, fills map[int]string, def string) *Fail {
				_, err := parseSQL(joinLex(L), generic)
				c.Desc = build(L, fills, def)
				_, err2 := parseSQL(c.Desc, generic)
				_, err3 := parseFile(c.Desc, generic, true)
				if (err == nil) != (err2 == nil) || (err == nil) != (err3 == nil) {
					return failf("with blanks: %v; filled: %v; with comments: %v", err, err2, err3)
				}
				return nil
			}
			two := []string{"\n", "\r\n", "/**/", "/* a\n * b\r\n */", "-- c\n"}
			if tier == "thorough" {
				two = fillers[3:]
			}
			sps := []*Space{
				{Name: "one gap", Bound: 2, Thorough: 3, Rule: "every statement, every gap (also before the first and after the last lexeme), every filling", Run: func(c *Chooser) *Fail {
					L, want, f := base(c, true)
					if c.Skip || f != nil {
						return f
					}
					c.Desc = build(L, map[int]string{c.Free(len(L) + 1): fillers[c.Free(len(fillers))]}, " ")
					return c10Same(c.Desc, want)
				}},
				{Name: "all gaps", Bound: 2, Thorough: 3, Rule: "every statement, one filling in all gaps", Run: func(c *Chooser) *Fail {
					L, want, f := base(c, false)
					if c.Skip || f != nil {
						return f
					}
					x := fillers[c.Free(len(fillers))]
					c.Desc = build(L, map[int]string{0: x, len(L): x}, x)
					return c10Same(c.Desc, want)
				}},
				{Name: "two gaps", Bound: 1, Thorough: 2, Rule: "every statement, every two gaps, every two fillings", Run: func(c *Chooser) *Fail {
					L, want, f := base(c, true)
					if c.Skip || f != nil {
						return f
					}
					i := c.Free(len(L) + 1)
					j := i + c.Free(len(L)+1-i)
					x, y := two[c.Free(len(two))], two[c.Free(len(two))]
					if i == j {
						c.Desc = build(L, map[int]string{i: x + y}, " ")
					} else {
						c.Desc = build(L, map[int]string{i: x, j: y}, " ")
					}
					return c10Same(c.Desc, want)
				}},
				{Name: "clauses and constructs", Bound: 0, Thorough: 1, Rule: "every combination of the optional clauses of every statement, and statements that begin at a construct deep in the grammar, with every filling in one or all gaps", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.wide()
					if c.Skip {
						return nil
					}
					want, err := parseOne(render(g.L), generic)
					if err != nil {
						return failf("%q is rejected: %v", render(g.L), err)
					}
					x := fillers[c.Free(len(fillers))]
					k := c.Free(len(g.L) + 1)
					if k == len(g.L) {
						c.Desc = build(lexTexts(g.L), map[int]string{}, x)
					} else {
						c.Desc = build(lexTexts(g.L), map[int]string{k: x}, " ")
					}
					return c10Same(c.Desc, want)
				}},
				{Name: "large fillings", Bound: 1, Thorough: 2, Rule: "every statement, every gap, blanks and comments that are long or many", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.stmt(c.Free(nStmts))
					if c.Skip {
						return nil
					}
					want, err := parseOne(render(g.L), generic)
					if err != nil {
						return failf("%q is rejected: %v", render(g.L), err)
					}
					x := " " + largeBlanks[c.Free(len(largeBlanks))](pickSize(c, 5000))
					L := lexTexts(g.L)
					c.Desc = strings.Join(L, " ")
					k := c.Free(len(L) + 1)
					c.Desc = strings.Join(L[:k], " ") + x + strings.Join(L[k:], " ")
					return c10Same(c.Desc, want)
				}},
				{Name: "large parts", Bound: 0, Thorough: 1, Rule: "statements with one large part, one filling in all gaps", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.scaled(5000)
					want, err := parseOne(render(g.L), generic)
					if err != nil {
						return failf("%q is rejected: %v", render(g.L), err)
					}
					c.Desc = build(lexTexts(g.L), map[int]string{}, fillers[c.Free(len(fillers))])
					return c10Same(c.Desc, want)
				}},
				{Name: "no blank", Bound: 2, Thorough: 3, Rule: "every statement without any blank but the necessary ones, one gap filled", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.any()
					if c.Skip {
						return nil
					}
					want, err := parseOne(render(g.L), generic)
					if err != nil {
						return failf("%q is rejected: %v", render(g.L), err)
					}
					k := c.Free(len(g.L) + 1)
					x := []string{"", " ", "/* c */", "-- c\n"}[c.Free(4)]
					var b strings.Builder
					for i, l := range g.L {
						if i == k {
							fill(&b, x)
						} else if i > 0 && needSpace(g.L[i-1], l) {
							b.WriteByte(' ')
						}
						if i == k && x == "" && i > 0 && needSpace(g.L[i-1], l) {
							b.WriteByte(' ')
						}
						b.WriteString(l.S)
					}
					c.Desc = b.String()
					return c10Same(c.Desc, want)
				}},
				{Name: "rejected", Bound: 0, Thorough: 1, Rule: "mutated statements, valid or not, with a filling in one or all gaps", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.any()
					if c.Skip {
						return nil
					}
					m, ok := mutate(c, lexTexts(g.L))
					if !ok {
						c.Skip = true
						return nil
					}
					x := []string{"\n", "/* c */", "-- c\n", "\t"}[c.Free(4)]
					i := c.Free(len(m) + 2)
					if i == len(m)+1 {
						return reject(c, m, map[int]string{0: x, len(m): x}, x)
					}
					return reject(c, m, map[int]string{i: x}, " ")
				}},
				{Name: "scripts", Bound: 0, Thorough: 1, Rule: "two statements with a filling in any gap, also around the semicolons", Run: func(c *Chooser) *Fail {
					L, a, f := base(c, true)
					if c.Skip || f != nil {
						return f
					}
					M, b, f := base(c, true)
					if c.Skip || f != nil {
						return f
					}
					L = append(append(append([]string(nil), L...), ";"), M...)
					if c.Flag() {
						L = append(L, ";")
					}
					c.Desc = build(L, map[int]string{c.Free(len(L) + 1): fillers[c.Free(len(fillers))]}, " ")
					for _, comments := range []bool{false, true} {
						file, err := parseFile(c.Desc, generic, comments)
						if err != nil {
							return failf("comments %v: rejected: %v", comments, err)
						}
						if len(file.Stmts) != 2 {
							return failf("comments %v: %d statements", comments, len(file.Stmts))
						}
						for i, want := range []sqlast.Stmt{a, b} {
							if d := diff(file.Stmts[i], want); d != "" {
								return failf("comments %v: statement %d: tree%s", comments, i, d)
							}
						}
					}
					return nil
				}},
			}
			return append(sps, c05More("quick", 0, func(c *Chooser, src string) *Fail {
				L := strings.Fields(src)
				x := []string{"\n", "/* c */", "-- c\n", "\t"}[c.Free(4)]
				return reject(c, L, map[int]string{0: x, len(L): x}, x)
			})[:2]...)
		},
	})
}
