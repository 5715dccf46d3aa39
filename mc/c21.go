package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// badStmts are rejected alone.
var badStmts = []string{"SELECT", "FROM t", "DROP TABLE", "SELECT a b c", "INSERT INTO t", "x", "SELECT (a", "CREATE TABLE t (", "1", "UPDATE t", "DELETE t", "SELECT a FROM t WHERE", "ALTER TABLE t", "SELECT a)", "EXPLAIN", "WITH a AS SELECT 1"}

// scriptSeps stand between two statements.
var scriptSeps = []string{"; ", ";", " ;\n", "\n;-- c ;\n", " /* ; */ ; /* x */ ", ";\r\n\t"}

// scriptEnds stand after the last statement.
var scriptEnds = []string{"", ";", " ; \n", "\n-- c", "; /* end */", " -- c\n;"}

// c21Check: the script is the sequence of the statements it was made of.
func c21Check(src string, alone []sqlast.Stmt) *Fail {
	same := func(what string, got []sqlast.Stmt, err error) *Fail {
		if err != nil {
			return failf("%s: rejected: %v", what, err)
		}
		if len(got) != len(alone) {
			return failf("%s: %d statements, want %d", what, len(got), len(alone))
		}
		for i := range got {
			if d := diff(got[i], alone[i]); d != "" {
				return failf("%s: statement %d%s", what, i, d)
			}
		}
		return nil
	}
	got, err := parseSQL(src, generic)
	if f := same("ParseSQL", got, err); f != nil {
		return f
	}
	for _, comments := range []bool{false, true} {
		file, err := parseFile(src, generic, comments)
		if err != nil {
			return failf("ParseFile: rejected: %v", err)
		}
		if f := same("ParseFile", file.Stmts, nil); f != nil {
			return f
		}
		text, f := printAll(file)
		if f != nil {
			return f
		}
		got, err := parseSQL(text, generic)
		if f := same("the printed file "+text, got, err); f != nil {
			return f
		}
		again, err := parseFile(text, generic, comments)
		if err != nil {
			return failf("the printed file %q is rejected: %v", text, err)
		}
		if t := again.ToSQLString(); t != text {
			return failf("the file is printed as %q, then as %q", text, t)
		}
	}
	return nil
}

func rejected(src string) *Fail {
	if _, err := parseSQL(src, generic); err == nil {
		return failf("ParseSQL accepts the script")
	}
	for _, comments := range []bool{false, true} {
		if _, err := parseFile(src, generic, comments); err == nil {
			return failf("ParseFile accepts the script")
		}
	}
	return nil
}

// manyStmts is a script of k statements: a and others in turn.
func manyStmts(a string, sa sqlast.Stmt, k int) (string, []sqlast.Stmt) {
	var l []string
	var alone []sqlast.Stmt
	for i := 0; i < k; i++ {
		if i%2 == 0 {
			l, alone = append(l, a), append(alone, sa)
			continue
		}
		t := "SELECT c" + itoa(i)
		st, err := parseOne(t, generic)
		if err != nil {
			panic(err)
		}
		l, alone = append(l, t), append(alone, st)
	}
	return strings.Join(l, ";"), alone
}

func init() {
	register(&Check{
		ID:    "C21",
		Level: "exploration",
		Rule:  "one case per script; distinct texts counted",
		Assumptions: []string{
			"the trees of the statements alone are those of the real parser (decided by C01)",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			stmt := func(c *Chooser) (string, sqlast.Stmt) {
				src := joinLex(plainStmt(c))
				st, err := parseOne(src, generic)
				if err != nil {
					panic("rejected: " + src + ": " + err.Error())
				}
				return src, st
			}
			script := func(c *Chooser, max int) *Fail {
				var b strings.Builder
				var alone []sqlast.Stmt
				k := 1 + c.Free(max)
				b.WriteString([]string{"", " \n", "-- c\n", "/* ; */"}[c.Free(4)])
				sep := c.Free(len(scriptSeps))
				for i := 0; i < k; i++ {
					if i > 0 {
						b.WriteString(scriptSeps[(sep+i)%len(scriptSeps)])
					}
					src, st := stmt(c)
					b.WriteString(src)
					alone = append(alone, st)
				}
				b.WriteString(scriptEnds[c.Free(len(scriptEnds))])
				c.Desc = b.String()
				return c21Check(c.Desc, alone)
			}
			// lexeme sequences: a script of two is accepted exactly if both parts are
			soup := []string{"SELECT", "a", "1", ",", "FROM", "DROP", "TABLE", "t", "(", ")", "AS", "WITH", "CASCADE", "EXPLAIN", "DEFAULT"}
			return []*Space{
				{Name: "no statement", Rule: "scripts of blanks and comments only", Run: func(c *Chooser) *Fail {
					c.Desc = []string{"", " ", "\n\t\r\n", "-- c", "/* ; */", "-- c\n/* d */ "}[c.Free(6)]
					return c21Check(c.Desc, nil)
				}},
				{Name: "scripts", Rule: "all sequences of statement kinds, all separators and ends", Run: func(c *Chooser) *Fail { return script(c, n(2, 3)) }},
				{Name: "statements in scripts", Bound: 1, Thorough: 2, Rule: "scripts of two statements with deviations in them", Run: func(c *Chooser) *Fail {
					a, sa := stmt(c)
					b, sb := stmt(c)
					c.Desc = a + scriptSeps[c.Free(len(scriptSeps))] + b + scriptEnds[c.Free(len(scriptEnds))]
					return c21Check(c.Desc, []sqlast.Stmt{sa, sb})
				}},
				{Name: "many statements", Rule: "scripts of up to 12 (40) statements, and of some sizes up to 4097, of two kinds in turn, whole or with a wrong statement at the end", Run: func(c *Chooser) *Fail {
					a, sa := stmt(c)
					m := n(12, 40)
					k := 1 + c.Free(m+len(sizesA)+len(sizesB))
					if k > m+len(sizesA) {
						k = sizesB[k-1-m-len(sizesA)]
					} else if k > m {
						k = sizesA[k-1-m]
					}
					src, alone := manyStmts(a, sa, k)
					end := c.Free(3)
					c.Desc = src + []string{"", ";", "; " + badStmts[0]}[end]
					if end == 2 {
						return rejected(c.Desc)
					}
					return c21Check(c.Desc, alone)
				}},
				{Name: "very many statements", Rule: "scripts of 16385 and of 65537 statements", Run: func(c *Chooser) *Fail {
					k := []int{16385, 65537}[c.Free(2)]
					a := []string{"DELETE FROM t", "SELECT 'x;y' -- c\n"}[c.Free(2)]
					sa, err := parseOne(a, generic)
					if err != nil {
						panic(err)
					}
					src, alone := manyStmts(a, sa, k)
					c.Desc = itoa(k) + " statements: " + a
					return c21Check(src, alone)
				}},
				{Name: "rejected scripts", Rule: "a wrong statement at every place of scripts of up to three", Run: func(c *Chooser) *Fail {
					bad := badStmts[c.Free(len(badStmts))]
					if _, err := parseSQL(bad, generic); err == nil {
						return failf("%q is accepted", bad)
					}
					a, _ := stmt(c)
					b, _ := stmt(c)
					l := [][]string{{bad}, {bad, a}, {a, bad}, {bad, a, b}, {a, bad, b}, {a, b, bad}}[c.Free(6)]
					c.Desc = strings.Join(l, scriptSeps[c.Free(len(scriptSeps))]) + scriptEnds[c.Free(len(scriptEnds))]
					return rejected(c.Desc)
				}},
				{Name: "missing separators", Bound: 1, Thorough: 2, Rule: "two statements with no semicolon between them are accepted only if they are one statement", Run: func(c *Chooser) *Fail {
					a, sa := stmt(c)
					b, sb := stmt(c)
					c.Desc = a + " " + b
					got, err := parseSQL(c.Desc, generic)
					if err != nil {
						return nil
					}
					if len(got) != 1 {
						return failf("%d statements without a semicolon: %q and %q", len(got), sa.ToSQLString(), sb.ToSQLString())
					}
					return nil
				}},
				{Name: "lexeme sequences", Rule: "two sequences of lexemes joined by a semicolon are accepted exactly if both are", Run: func(c *Chooser) *Fail {
					part := func() (string, []sqlast.Stmt, error) {
						var l []string
						for i, k := 0, 1+c.Free(n(3, 4)); i < k; i++ {
							l = append(l, soup[c.Free(len(soup))])
						}
						s := strings.Join(l, " ")
						st, err := parseSQL(s, generic)
						return s, st, err
					}
					a, sa, ea := part()
					c.Triv = ea != nil
					b, eb := "SELECT a", error(nil)
					var sb []sqlast.Stmt
					if ea == nil {
						b, sb, eb = part()
					} else {
						sb, eb = parseSQL(b, generic)
					}
					c.Desc = a + ";" + b
					if ea != nil || eb != nil {
						return rejected(c.Desc)
					}
					return c21Check(c.Desc, append(append([]sqlast.Stmt(nil), sa...), sb...))
				}},
			}
		},
	})
}
