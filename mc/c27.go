package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// the work done for growing inputs

// works are the things whose work is measured.
var works = []workKind{
	{"tokenize", func(src string) { sqltoken.NewTokenizer(strings.NewReader(src), generic).Tokenize() }},
	{"parse", func(src string) { parseSQL(src, generic) }},
	{"parse with comments", func(src string) { parseFile(src, generic, true) }},
	{"parse one statement (MySQL)", func(src string) {
		if p, err := xsqlparser.NewParser(strings.NewReader(src), mysql); err == nil {
			p.ParseStatement()
		}
	}},
	{"parse an expression (PostgreSQL)", func(src string) { parseExpr(strings.TrimPrefix(src, "SELECT "), postgres) }},
	{"parse and print", func(src string) {
		ss, _ := parseSQL(src, generic)
		for _, s := range ss {
			s.ToSQLString()
		}
	}},
	{"parse, traverse and take positions", func(src string) {
		f, err := parseFile(src, generic, true)
		if err != nil {
			return
		}
		sqlast.Inspect(f, func(n sqlast.Node) bool { return true })
		sqlastutil.Apply(f, func(*sqlastutil.Cursor) bool { return true }, func(*sqlastutil.Cursor) bool { return true })
		if len(f.Stmts) > 0 {
			f.Pos()
			f.End()
		}
	}},
	{"parse and map comments", func(src string) {
		if f, err := parseFile(src, generic, true); err == nil {
			sqlast.NewCommentMap(f)
		}
	}},
}

type workKind struct {
	name string
	do   func(src string)
}

// fewWorks measure most of it at once.
var fewWorks = []workKind{
	{"parse with comments, print, traverse and map comments", func(src string) {
		f, err := parseFile(src, generic, true)
		if err != nil {
			return
		}
		for _, s := range f.Stmts {
			s.ToSQLString()
		}
		sqlast.Inspect(f, func(n sqlast.Node) bool { return true })
		sqlast.NewCommentMap(f)
	}},
	works[4],
}

const (
	growth    = 9.0     // doubling the size may multiply the work by this (cubic growth gives 8)
	stepSlack = 3000    // steps that do not count
	memSlack  = 1 << 20 // bytes that do not count
)

// grow measures the work for sizes and judges it.
func grow(c *Chooser, gen func(n int) string, sizes []int, works []workKind) *Fail {
	for _, w := range works {
		steps := map[int]float64{}
		mem := map[int]float64{}
		for _, n := range sizes {
			src := gen(n)
			limit := uint64(0)
			h, half := steps[n/2]
			half = half && n%2 == 0
			if half {
				limit = uint64(growth*h) + growth*stepSlack
			} else {
				limit = uint64(2000*n*(len(src)+10)) + 1000000
			}
			var m0, m1 runtime.MemStats
			runtime.ReadMemStats(&m0)
			s, cut := countSteps(limit, func() { w.do(src) })
			runtime.ReadMemStats(&m1)
			steps[n], mem[n] = float64(s), float64(m1.TotalAlloc-m0.TotalAlloc)
			c.Evals++
			if cut {
				return failf("%s takes more than %d steps for size %d (%q), after %s", w.name, limit, n, clip(src), showGrowth(steps, sizes, n))
			}
			if half && mem[n] > growth*mem[n/2]+memSlack {
				return failf("%s allocates %.0f bytes for size %d (%q), after %s", w.name, mem[n], n, clip(src), showGrowth(mem, sizes, n))
			}
		}
		if os.Getenv("MC_GROWTH") != "" {
			k, l := sizes[len(sizes)-1], sizes[len(sizes)-3]
			fmt.Fprintf(realStdout, "%.2f %.2f steps %.0f mem %.0f %s: %s\n", steps[k]/(steps[l]+100), mem[k]/(mem[l]+10000), steps[k], mem[k], w.name, c.Desc)
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func showGrowth(m map[int]float64, sizes []int, upTo int) string {
	var out []string
	for _, n := range sizes {
		if n >= upTo {
			break
		}
		out = append(out, fmt.Sprintf("%.0f for %d", m[n], n))
	}
	return strings.Join(out, ", ")
}

// nests are constructs with a place for a further expression.
var nests = []string{
	"(%)", "NOT %", "- %", "+%", "% + 1", "1 * %", "% AND a", "a OR %", "% = 1", "a < %", "% || b", "f(%)", "f(a, %, b)", "f(%, 1) OVER (PARTITION BY %)",
	"CAST(% AS int)", "%::int", "CASE WHEN % THEN 1 END", "CASE WHEN a THEN % ELSE b END", "CASE % WHEN 1 THEN 2 END", "CASE a WHEN 1 THEN 2 ELSE % END",
	"% IS NULL", "% IS NOT NULL", "a IN (%)", "a NOT IN (1, %)", "% IN (1)", "a IN (SELECT %)", "% BETWEEN 1 AND 2", "a BETWEEN % AND 2", "a BETWEEN (%) AND 2", "a BETWEEN 1 AND %",
	"EXISTS (SELECT %)", "NOT EXISTS (SELECT 1 WHERE %)", "(SELECT %)", "(SELECT a FROM (SELECT %) AS t)", "(SELECT a FROM t JOIN u ON %)", "(SELECT a FROM t WHERE % GROUP BY b)",
	"(SELECT a FROM t GROUP BY %)", "(SELECT a FROM t GROUP BY a HAVING %)", "(SELECT a FROM t ORDER BY %)", "(SELECT 1 UNION SELECT %)", "(SELECT % UNION ALL SELECT 2)", "((SELECT %) INTERSECT (SELECT 2))",
	"(WITH w AS (SELECT %) SELECT 1)", "sum(a) OVER (ORDER BY %)", "a LIKE %", "% NOT LIKE b", "(SELECT % LIMIT 1)", "(SELECT a FROM t, (SELECT %) AS u)", "(SELECT a FROM (t JOIN u ON %))", "(SELECT a, % AS b)",
}

// stmtNests are statements with a place for an expression.
var stmtNests = []string{
	"SELECT %", "SELECT a FROM t WHERE %", "INSERT INTO t VALUES (%)", "INSERT INTO t (SELECT %)", "UPDATE t SET a = % WHERE b", "DELETE FROM t WHERE %", "CREATE TABLE t (a int DEFAULT %)", "CREATE TABLE t (a int CHECK(%), CHECK(%))",
	"CREATE VIEW v AS SELECT %", "EXPLAIN SELECT %", "ALTER TABLE t ALTER COLUMN a SET DEFAULT %", "CREATE INDEX i ON t (a) WHERE %", "WITH w AS (SELECT %) SELECT 1",
}

// queries are constructs with a place for a further query.
var queryNests = []string{
	"(%)", "SELECT a FROM (%) AS t", "SELECT a FROM t, (%) AS u", "SELECT a FROM t JOIN (%) AS u ON a", "SELECT a FROM (t JOIN (%) AS u ON a)", "% UNION SELECT 1", "SELECT 1 UNION ALL %", "SELECT 1 INTERSECT (%)", "(%) EXCEPT SELECT 1",
	"WITH w AS (%) SELECT 1", "WITH w AS (SELECT 1) %", "SELECT (%)", "SELECT a WHERE a IN (%)", "SELECT 1 WHERE EXISTS (%)", "SELECT CASE WHEN (%) THEN 1 END", "SELECT f((%))", "% ORDER BY a", "% LIMIT 1", "EXPLAIN %", "CREATE VIEW v AS %", "INSERT INTO t %", "INSERT INTO t (%)",
}

// repeats are lists: before, item, separator, after.
var repeats = [][4]string{
	{"SELECT ", "a", ", ", ""}, {"SELECT ", "a b", ", ", ""}, {"SELECT ", "a AS b", ", ", " FROM t"}, {"SELECT ", "*", ", ", ""}, {"SELECT ", "t.*", ", ", ""}, {"SELECT ", "'s'", ", ", ""}, {"SELECT ", "1.5e3", ", ", ""},
	{"SELECT ", "a", ".", ""}, {"SELECT ", "a", ".", ".*"}, {"SELECT a FROM ", "a", ".", ""}, {"SELECT f(", "a", ", ", ")"}, {"SELECT ", "f()", " + ", ""}, {"SELECT ", "a", " + ", ""}, {"SELECT ", "a", " AND ", ""}, {"SELECT ", "a", " OR NOT ", ""},
	{"SELECT ", "a = 1", " AND ", ""}, {"SELECT ", "a BETWEEN 1 AND 2", " AND ", ""}, {"SELECT a", "::int", "", ""}, {"SELECT a", " IS NULL", "", ""}, {"SELECT CASE ", "WHEN a THEN b", " ", " END"}, {"SELECT CASE ", "WHEN a THEN b", " ", ""},
	{"SELECT a IN (", "1", ", ", ")"}, {"SELECT a IN (", "1", ", ", ""}, {"SELECT a FROM ", "t", ", ", ""}, {"SELECT a FROM ", "t AS u", ", ", ""}, {"SELECT a FROM t ", "JOIN u ON a", " ", ""}, {"SELECT a FROM t ", "LEFT OUTER JOIN u USING (a, b)", " ", ""}, {"SELECT a FROM t ", "NATURAL JOIN u", " ", ""},
	{"SELECT a FROM t ", "CROSS JOIN u", " ", ""}, {"SELECT a FROM ", "(SELECT 1) AS t", ", ", ""}, {"SELECT a FROM f(", "a", ", ", ")"}, {"SELECT a FROM t WITH (", "a", ", ", ")"}, {"SELECT a GROUP BY ", "a", ", ", ""}, {"SELECT a ORDER BY ", "a DESC", ", ", ""}, {"", "SELECT 1", " UNION ", ""}, {"", "(SELECT 1)", " INTERSECT ", ""},
	{"WITH ", "w AS (SELECT 1)", ", ", " SELECT 1"}, {"SELECT f() OVER (PARTITION BY ", "a", ", ", ")"}, {"SELECT f() OVER (ORDER BY ", "a", ", ", " ROWS UNBOUNDED PRECEDING)"}, {"SELECT ", "f() OVER ()", ", ", ""},
	{"", "SELECT 1", "; ", ""}, {"", "SELECT 1", ";\n\n", ";"}, {"", "DELETE FROM t WHERE a", ";", ""}, {"", "INSERT INTO t VALUES (1)", "; ", ""}, {"", "SELECT 1", "; ", "; SELECT"}, {"", ";", "", ""},
	{"INSERT INTO t VALUES ", "(1)", ", ", ""}, {"INSERT INTO t VALUES (", "1", ", ", ")"}, {"INSERT INTO t (", "a", ", ", ") VALUES (1)"}, {"INSERT INTO t VALUES (1) ON DUPLICATE KEY UPDATE ", "a = 1", ", ", ""}, {"UPDATE t SET ", "a = 1", ", ", " WHERE b"},
	{"CREATE TABLE t (", "a int", ", ", ")"}, {"CREATE TABLE t (", "a int NOT NULL DEFAULT 1 PRIMARY KEY", ", ", ")"}, {"CREATE TABLE t (a int ", "NOT NULL", " ", ")"}, {"CREATE TABLE t (a int ", "CHECK(a)", " ", ")"}, {"CREATE TABLE t (a int ", "REFERENCES u(b)", " ", ")"},
	{"CREATE TABLE t (", "PRIMARY KEY (a)", ", ", ")"}, {"CREATE TABLE t (UNIQUE (", "a", ", ", "))"}, {"CREATE TABLE t (FOREIGN KEY (", "a", ", ", ") REFERENCES u (b))"}, {"CREATE TABLE t (", "CONSTRAINT c CHECK(a)", ", ", ")"}, {"CREATE TABLE t (a int) ", "ENGINE=InnoDB", " ", ""}, {"CREATE TABLE t (a int) ", "CHARSET=utf8", ", ", ""},
	{"CREATE TABLE t (a int", "[]", "", ")"}, {"CREATE VIEW v AS SELECT ", "a", ", ", ""}, {"CREATE INDEX i ON t (", "a", ", ", ")"}, {"DROP TABLE ", "t", ", ", " CASCADE"}, {"ALTER TABLE t ADD CONSTRAINT c PRIMARY KEY (", "a", ", ", ")"}, {"DROP INDEX ", "i", ", ", ""}, {"", "EXPLAIN", " ", " SELECT 1"},
	{"SELECT a ", "/* c */", " ", ""}, {"SELECT a ", "-- c", "\n", "\n"}, {"", "-- c", "\n", "\nSELECT 1"}, {"", "-- c", "\n\n", "\n\nSELECT 1"}, {"", "/* c */", "\n", "\nSELECT 1"}, {"SELECT ", "a -- c", ",\n", ""}, {"SELECT ", "/* c */ a", ", ", ""}, {"SELECT ", "/* c */ a /* d */", " + ", ""}, {"", "SELECT 1 -- c", ";\n", ""}, {"", "-- c\nSELECT 1", ";\n", ""}, {"", "/* a */ SELECT 1 /* b */", "; ", ";"},
	{"SELECT a /*", "*", "", "/"}, {"SELECT a /*", "/*", "", "*/"}, {"SELECT a /*", "c\n", "", "*/"}, {"SELECT a /*", "c", "", ""}, {"SELECT a --", "c", "", ""}, {"SELECT a", " ", "", ""}, {"SELECT a", "\n", "", " FROM t"}, {"", "\t", "", "SELECT a"}, {"SELECT a FROM", "\r\n", "", "t"},
	{"SELECT '", "a", "", "'"}, {"SELECT '", "''", "", "'"}, {"SELECT '", "\n", "", "'"}, {"SELECT '", "a", "", ""}, {"SELECT \"", "a", "", "\""}, {"SELECT \"", "a", "", ""}, {"SELECT `", "é", "", "`"}, {"SELECT ", "a", "", ""}, {"SELECT ", "1", "", ""}, {"SELECT 1.", "1", "", ""}, {"SELECT N'", "a", "", "'"}, {"SELECT X'", "a", "", "'"},
	{"SELECT ", "(", "", ""}, {"SELECT ", ")", "", ""}, {"SELECT ", "f(", "", ""}, {"SELECT ", "(SELECT ", "", ""}, {"SELECT a FROM ", "(", "", ""}, {"SELECT a FROM ", "(SELECT a FROM ", "", ""}, {"SELECT a FROM ", "(t JOIN ", "", ""}, {"", "(", "", ""}, {"", "(SELECT 1 UNION ", "", ""}, {"", "WITH a AS (", "", ""}, {"CREATE TABLE t ", "(", "", ""}, {"SELECT ", "CASE ", "", ""}, {"SELECT ", "CASE WHEN ", "", ""}, {"SELECT ", "CAST(", "", ""}, {"SELECT ", "NOT ", "", ""}, {"SELECT ", "-", " ", ""}, {"SELECT ", "EXISTS (", "", ""}, {"SELECT a ", "IN (", "", ""}, {"SELECT a ", "BETWEEN ", "", ""}, {"SELECT a ", "IS NOT ", "", ""}, {"SELECT ", "a IN (SELECT ", "", ""},
}

// growthLexemes are repeated in all combinations.
var growthLexemes = []string{"a", "1", "'s'", "(", ")", ",", ".", "*", "+", "-", "=", "<", "::", "||", ";", "\"q\"", "/*c*/", "--c\n", "\n", "[", "]", "@", "!", "SELECT", "FROM", "WHERE", "AND", "NOT", "CASE", "WHEN", "THEN", "ELSE", "END", "IN", "BETWEEN", "IS", "NULL", "EXISTS", "UNION", "ALL", "WITH", "AS", "JOIN", "ON", "CAST", "GROUP", "ORDER", "BY", "OVER", "CREATE", "TABLE", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "PRIMARY", "KEY", "CHECK", "int", "DATE", "TIMESTAMP", "INTERVAL", "LIMIT", "DISTINCT", "LIKE"}

var growthStarts = []string{"SELECT ", "", "SELECT a FROM ", "CREATE TABLE t (", "SELECT a FROM t WHERE ", "INSERT INTO t ", "CREATE TABLE t (a ", "SELECT CASE ", "ALTER TABLE t "}

// nested nests the given constructs in one another, the first outermost, to a depth; how 0: whole, 1: the innermost
// expression missing, 2: cut off after it, 3: its last character missing, 4: something more inside.
func nested(w []string, core string, depth, how int) string {
	switch how {
	case 1:
		core = ""
	case 4:
		core += " " + core + " )"
	}
	// the holes of a level, built from the outside: texts before and after
	var pre, post []string
	for i := 0; i < depth; i++ {
		t := w[i%len(w)]
		k := strings.IndexByte(t, '%')
		pre = append(pre, t[:k])
		post = append(post, strings.ReplaceAll(t[k+1:], "%", "1"))
	}
	var b strings.Builder
	for _, p := range pre {
		b.WriteString(p)
	}
	b.WriteString(core)
	if how != 2 {
		for i := len(post) - 1; i >= 0; i-- {
			b.WriteString(post[i])
		}
	}
	s := b.String()
	if how == 3 && len(s) > 0 {
		s = s[:len(s)-1]
	}
	return s
}

var hows = []string{"", ", the innermost missing", ", cut off in the middle", ", without the last character", ", wrong in the middle"}

func init() {
	register(&Check{
		ID:      "C27",
		Level:   "exploration",
		Rule:    "one case per construct or combination of constructs, one evaluation per measured run; distinct combinations counted",
		Variant: "steps",
		Assumptions: []string{
			"work is the number of functions entered and loop bodies begun in the library (counted by calls put into the current sources through a build overlay) and the bytes allocated; both are deterministic, no time is measured",
			"work within the standard library is seen by its allocations only",
			"low polynomial: doubling the depth or number multiplies the work by at most 9, a small constant aside",
		},
		Spaces: func(tier string) []*Space {
			doubled := []int{1, 2, 4, 8, 16, 32}
			deep := []int{1, 2, 3, 4, 6, 8, 12, 16, 24, 32}
			long := []int{1, 2, 4, 8, 16, 32, 64, 128}
			if tier == "thorough" {
				deep = append(deep, 48, 64, 96, 128)
				doubled = append(doubled, 64)
				long = append(long, 256, 512)
			}
			nest := func(c *Chooser, stmts, w []string, core string, sizes []int, works []workKind) *Fail {
				how := c.Free(len(hows))
				st := stmts[c.Pick(len(stmts))]
				c.Desc = strings.Join(w, " within ") + " within " + st + hows[how]
				return grow(c, func(n int) string {
					k := strings.IndexByte(st, '%')
					s := st[:k] + nested(w, core, n, how)
					if how != 2 {
						s += strings.ReplaceAll(st[k+1:], "%", "1")
					}
					return s
				}, sizes, works)
			}
			spaces := []*Space{
				{Name: "lists", Serial: true, Shards: runtime.NumCPU(), Rule: "every list and repetition", Run: func(c *Chooser) *Fail {
					r := repeats[c.Free(len(repeats))]
					tail := c.Free(2)
					c.Desc = fmt.Sprintf("%s(%s%s)*%s", r[0], r[1], r[2], r[3]) + []string{"", ", wrong at the end"}[tail]
					return grow(c, func(n int) string {
						return r[0] + strings.Repeat(r[1]+r[2], n-1) + r[1] + r[3] + []string{"", " ) x"}[tail]
					}, long, works)
				}},
				{Name: "expressions", Serial: true, Shards: runtime.NumCPU(), Bound: 1, Thorough: 1, Rule: "every construct with an expression nested in itself, in every statement", Run: func(c *Chooser) *Fail {
					return nest(c, stmtNests, []string{nests[c.Free(len(nests))]}, "a", deep, works)
				}},
				{Name: "queries", Serial: true, Shards: runtime.NumCPU(), Bound: 0, Thorough: 0, Rule: "every two constructs with a query nested in turn", Run: func(c *Chooser) *Fail {
					return nest(c, []string{"%", "EXPLAIN %", "INSERT INTO t (%)"}, []string{queryNests[c.Free(len(queryNests))], queryNests[c.Free(len(queryNests))]}, "SELECT a", doubled, fewWorks)
				}},
				{Name: "two expressions", Serial: true, Shards: runtime.NumCPU(), Bound: 0, Thorough: 0, Rule: "every two constructs with an expression nested in turn", Run: func(c *Chooser) *Fail {
					return nest(c, stmtNests, []string{nests[c.Free(len(nests))], nests[c.Free(len(nests))]}, "a", doubled, fewWorks)
				}},
				{Name: "lexemes", Serial: true, Shards: runtime.NumCPU(), Bound: 1, Thorough: 2, Rule: "every one or two (thorough three) lexemes repeated, at the start of every kind of clause", Run: func(c *Chooser) *Fail {
					l := growthLexemes[c.Free(len(growthLexemes))]
					st := growthStarts[c.Free(len(growthStarts))]
					for i := 0; i < 2; i++ {
						k := c.Pick(len(growthLexemes) + 1)
						if k == 0 {
							break
						}
						l += " " + growthLexemes[k-1]
					}
					c.Desc = st + "(" + l + ")*"
					return grow(c, func(n int) string { return st + strings.Repeat(l+" ", n) }, long, fewWorks)
				}},
			}
			if tier == "thorough" {
				spaces = append(spaces, &Space{Name: "three expressions", Serial: true, Shards: runtime.NumCPU(), Rule: "every three constructs with an expression nested in turn, in a SELECT", Run: func(c *Chooser) *Fail {
					w := []string{nests[c.Free(len(nests))], nests[c.Free(len(nests))], nests[c.Free(len(nests))]}
					how := c.Free(2) * 4
					c.Desc = strings.Join(w, " within ") + hows[how]
					return grow(c, func(n int) string { return "SELECT " + nested(w, "a", n, how) }, []int{1, 2, 4, 8, 16, 32}, fewWorks[:1])
				}})
			}
			return spaces
		},
	})
}
