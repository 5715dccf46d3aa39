package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
)

// roundTrip: the printed text of a parsed statement parses to an equal tree and prints the same again.
func roundTrip(st sqlast.Stmt, d dialect.Dialect) *Fail {
	text, f := printAll(st)
	if f != nil {
		return f
	}
	again, err := parseOne(text, d)
	if err != nil {
		return failf("the printed text %q is rejected: %v", text, err)
	}
	if x := diff(again, st); x != "" {
		return failf("the printed text %q parses to another tree%s", text, x)
	}
	if t2 := again.ToSQLString(); t2 != text {
		return failf("printed %q, then %q", text, t2)
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "C03",
		Level: "exploration",
		Rule:  "one case per generated statement and dialect, or per accepted lexeme sequence; distinct texts counted",
		Assumptions: []string{
			"trees are those of the statements of the reference grammar and of all short lexeme sequences the parser accepts",
		},
		Spaces: func(tier string) []*Space {
			var sps []*Space
			add := func(name string, q, th int, rule string, run func(c *Chooser) *Fail) {
				sps = append(sps, &Space{Name: name, Bound: q, Thorough: th, Run: run, Rule: rule})
			}
			gen := func(c *Chooser, plain bool, d dialect.Dialect, stmt func(g *G) sqlast.Stmt) *Fail {
				g := newG(c)
				g.plainIdents, g.plainLits = plain, plain
				stmt(g)
				if c.Skip {
					return nil
				}
				c.Desc = render(g.L)
				st, err := parseOne(c.Desc, d)
				if err != nil {
					return failf("rejected: %v", err)
				}
				return roundTrip(st, d)
			}
			add("statements", 3, 4, "every statement kind, names and literals plain", func(c *Chooser) *Fail { return gen(c, true, generic, (*G).any) })
			add("clauses", 1, 2, "every combination of the optional clauses of every statement", func(c *Chooser) *Fail { return gen(c, true, generic, (*G).clauses) })
			add("constructs in focus", 2, 3, "statements that begin at a construct deep in the grammar", func(c *Chooser) *Fail { return gen(c, true, generic, (*G).focused) })
			add("large parts", 1, 2, "statements with one large part: list, name, literal, chain, nest", func(c *Chooser) *Fail { return gen(c, true, generic, upTo(5000)) })
			add("long lists", 2, 3, "lists of up to 20 elements", func(c *Chooser) *Fail {
				return gen(c, true, generic, func(g *G) sqlast.Stmt {
					g.maxList = 20
					return g.any()
				})
			})
			add("names-and-literals", 3, 4, "all name and literal forms, three dialects", func(c *Chooser) *Fail {
				d := dialects[c.Free(3)]
				return gen(c, false, d, (*G).any)
			})
			add("operators", 1, 2, "sequences of three operators with prefixes and operand forms, as they come and parenthesised", func(c *Chooser) *Fail {
				_, src := exprSequence(c, 3, refOps, false)
				if c.Skip {
					return nil
				}
				c.Desc = "SELECT " + src
				st, err := parseOne(c.Desc, generic)
				if err != nil {
					return failf("rejected: %v", err)
				}
				return roundTrip(st, generic)
			})
			add("sets and joins", 1, 2, "chains of set operations and joins", func(c *Chooser) *Fail {
				var f *Fail
				if c.Free(2) == 0 {
					f = c02Set(c, 3)
				} else {
					f = c02Join(c, 3)
				}
				if f != nil {
					return failf("not the expected tree, see C02: %s", f.Msg)
				}
				st, err := parseOne(c.Desc, generic)
				if err != nil {
					return failf("rejected: %v", err)
				}
				return roundTrip(st, generic)
			})
			add("expressions", 3, 4, "every node of an expression printed alone, and the expression parsed again", func(c *Chooser) *Fail {
				g := newG(c)
				g.plainIdents = true
				g.expr()
				c.Desc = render(g.L)
				if c.Skip {
					return nil
				}
				e, err := parseExpr(c.Desc, generic)
				if err != nil {
					return failf("rejected: %v", err)
				}
				for _, n := range refNodes(e) {
					if _, f := printAll(n); f != nil {
						return f
					}
				}
				e2, err := parseExpr(e.ToSQLString(), generic)
				if err != nil {
					return failf("the printed text %q is rejected: %v", e.ToSQLString(), err)
				}
				if x := diff(e2, e); x != "" {
					return failf("the printed text %q parses to another tree%s", e.ToSQLString(), x)
				}
				return nil
			})
			add("all nodes", 2, 3, "every node of a statement is printed the same in all ways, the file too", func(c *Chooser) *Fail {
				g := newG(c)
				g.any()
				if c.Skip {
					return nil
				}
				c.Desc = render(g.L)
				f, err := parseFile(c.Desc+";"+c.Desc, generic, true)
				if err != nil {
					return failf("rejected: %v", err)
				}
				for _, n := range refNodes(f) {
					if _, x := printAll(n); x != nil {
						return x
					}
				}
				text := f.ToSQLString()
				f2, err := parseFile(text, generic, true)
				if err != nil {
					return failf("the printed file %q is rejected: %v", text, err)
				}
				if x := diff(f2, f); x != "" {
					return failf("the printed file %q parses to another%s", text, x)
				}
				return nil
			})
			k := 3
			if tier == "thorough" {
				k = 4
			}
			accepted := func(c *Chooser, src string) *Fail {
				ss, err := parseSQL(src, generic)
				if err != nil {
					c.Triv = true
					return nil
				}
				for _, st := range ss {
					if f := roundTrip(st, generic); f != nil {
						return f
					}
				}
				return nil
			}
			sps = append(sps, soupSpaces("soups", k, accepted)...)
			sps = append(sps, c05More(tier, 0, func(c *Chooser, src string) *Fail {
				c.Desc = src
				return accepted(c, src)
			})...)
			return sps
		},
	})
}

// soupFrames are the places where lexeme sequences are put.
var soupFrames = []struct{ pre, post string }{
	{"", ""},
	{"SELECT", ""},
	{"SELECT a FROM", ""},
	{"SELECT a FROM t WHERE", ""},
	{"SELECT a FROM t", ""},
	{"SELECT a , ", "FROM t"},
	{"CREATE TABLE t ( c", ")"},
	{"CREATE TABLE t (", ")"},
	{"CREATE TABLE t ( c INT )", ""},
	{"CREATE", ""},
	{"CREATE INDEX i ON t", ""},
	{"INSERT INTO t", ""},
	{"INSERT INTO t ( a ) VALUES", ""},
	{"UPDATE t SET", ""},
	{"DELETE FROM t", ""},
	{"ALTER TABLE t", ""},
	{"ALTER TABLE t ALTER COLUMN c", ""},
	{"DROP", ""},
	{"WITH", "SELECT a"},
	{"SELECT a", "UNION SELECT b"},
	{"SELECT f ( a ) OVER (", ")"},
	{"SELECT CASE", "END"},
	{"SELECT CAST ( a AS", ")"},
	{"EXPLAIN", ""},
}

// soupLexemes are the lexemes the sequences are made of, per frame; all frames share the common ones.
var soupCommon = []string{"a", "1", "'s'", "(", ")", ",", "*", ".", "=", "-", ";", "NULL", "AS", "SELECT"}

var soupOwn = [][]string{
	{"FROM", "WITH", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "VIEW", "INDEX", "ON", "DROP", "ALTER", "EXPLAIN", "INT"},
	{"FROM", "DISTINCT", "ALL", "NOT", "AND", "IS", "CASE", "WHEN", "THEN", "ELSE", "END", "::", "INT", "EXISTS", "OVER", "N'x'", "1.5", `"q"`, "+", "||"},
	{"JOIN", "LEFT", "RIGHT", "FULL", "OUTER", "INNER", "CROSS", "NATURAL", "ON", "USING", "LATERAL", "WHERE", "GROUP", "BY", "ORDER", "LIMIT", "UNION", "WITH"},
	{"NOT", "AND", "OR", "IS", "IN", "LIKE", "BETWEEN", "EXISTS", "TRUE", "+", "/", "%", "<", ">=", "<>", "::", "INT", "GROUP", "ORDER"},
	{"WHERE", "GROUP", "BY", "HAVING", "ORDER", "ASC", "DESC", "LIMIT", "ALL", "OFFSET", "ROWS", "UNION", "EXCEPT", "INTERSECT", "JOIN", "CROSS", "ON"},
	{"FROM", "b", "NOT", "OVER", "CASE", "END", "DISTINCT", "UNION", "LIMIT"},
	{"INT", "VARCHAR", "NOT", "DEFAULT", "UNIQUE", "PRIMARY", "KEY", "REFERENCES", "CHECK", "CONSTRAINT", "AUTO_INCREMENT", "TIMESTAMP", "WITH", "WITHOUT", "TIME", "ZONE", "UNSIGNED", "DECIMAL", "[", "]", "DOUBLE", "PRECISION", "CHARACTER", "VARYING", "ARRAY"},
	{"INT", "CONSTRAINT", "PRIMARY", "KEY", "UNIQUE", "FOREIGN", "REFERENCES", "CHECK", "INDEX", "LIKE"},
	{"ENGINE", "DEFAULT", "CHARSET", "SET", "CHARACTER", "AUTO_INCREMENT", "COMMENT"},
	{"TABLE", "OR", "REPLACE", "MATERIALIZED", "VIEW", "UNIQUE", "INDEX", "ON", "IF", "NOT", "EXISTS", "TEMPORARY", "INT"},
	{"USING", "WHERE", "ASC", "btree", "ON"},
	{"VALUES", "ON", "DUPLICATE", "KEY", "UPDATE", "DEFAULT", "WITH"},
	{"ON", "DUPLICATE", "KEY", "UPDATE", "DEFAULT"},
	{"WHERE", "AND", "OR", "FROM", "DEFAULT", "LIMIT", "ORDER", "BY"},
	{"WHERE", "AND", "OR", "USING", "LIMIT", "ORDER", "BY"},
	{"ADD", "COLUMN", "DROP", "CONSTRAINT", "CASCADE", "RESTRICT", "ALTER", "PRIMARY", "KEY", "UNIQUE", "INT", "RENAME", "TO", "CHECK", "FOREIGN"},
	{"SET", "DROP", "DEFAULT", "NOT", "TYPE", "DATA", "INT", "USING", "VARCHAR"},
	{"TABLE", "INDEX", "IF", "EXISTS", "CASCADE", "RESTRICT", "VIEW", "ON"},
	{"RECURSIVE", "w", "b", "UNION", "INSERT"},
	{"UNION", "ALL", "EXCEPT", "INTERSECT", "DISTINCT", "ORDER", "BY", "LIMIT", "FROM", "VALUES"},
	{"PARTITION", "BY", "ORDER", "ROWS", "RANGE", "GROUPS", "BETWEEN", "AND", "UNBOUNDED", "PRECEDING", "FOLLOWING", "CURRENT", "ROW", "DESC"},
	{"WHEN", "THEN", "ELSE", "END", "CASE", "AND", "NOT"},
	{"INT", "VARCHAR", "TIMESTAMP", "DECIMAL", "DOUBLE", "PRECISION", "UNSIGNED", "[", "]", "WITH", "TIME", "ZONE", "CHARACTER", "VARYING", "NUMERIC", "FLOAT", "UUID", "BIGINT", "CHAR"},
	{"INSERT", "UPDATE", "DELETE", "FROM", "CREATE", "DROP", "TABLE", "INDEX", "ANALYZE", "SET", "EXPLAIN"},
}

// soupSpaces: every sequence of up to k lexemes in every frame.
func soupSpaces(name string, k int, run func(c *Chooser, src string) *Fail) []*Space {
	return []*Space{{Name: name, Rule: "every sequence of up to " + itoa(k) + " lexemes in each of the " + itoa(len(soupFrames)) + " frames", Run: func(c *Chooser) *Fail {
		fi := c.Free(len(soupFrames))
		own := soupOwn[fi]
		n := c.Free(k + 1)
		parts := []string{soupFrames[fi].pre}
		for i := 0; i < n; i++ {
			j := c.Free(len(own) + len(soupCommon))
			if j < len(own) {
				parts = append(parts, own[j])
			} else {
				parts = append(parts, soupCommon[j-len(own)])
			}
		}
		parts = append(parts, soupFrames[fi].post)
		src := strings.TrimSpace(strings.Join(parts, " "))
		c.Desc = src
		return run(c, src)
	}}}
}
