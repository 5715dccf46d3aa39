package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// c12Check parses a script and checks its comment map. start and end are the positions of the first and after the
// last code lexeme of each statement.
func c12Check(c *Chooser, src string) *Fail {
	f, err := parseFile(src, generic, true)
	if err != nil {
		return failf("rejected: %v", err)
	}
	cm := sqlast.NewCommentMap(f)
	if len(f.Comments) == 0 {
		if len(cm) != 0 {
			return failf("a map of no comments has %d entries", len(cm))
		}
		return nil
	}
	// the statements of the file and where their text is
	toks, _ := refLex(decode(src), builtinClasses[0])
	type stmtText struct{ from, to rPos }
	var texts []stmtText
	open := false
	for _, t := range toks {
		switch t.kind {
		case sqltoken.Whitespace, sqltoken.Comment:
		case sqltoken.Semicolon:
			open = false
		default:
			if !open {
				texts = append(texts, stmtText{t.from, t.to})
				open = true
			}
			texts[len(texts)-1].to = t.to
		}
	}
	if len(texts) != len(f.Stmts) {
		return failf("%d statements, want %d", len(f.Stmts), len(texts))
	}
	owner := map[sqlast.Node]int{f: -1} // node -> statement
	for i, s := range f.Stmts {
		for _, n := range refNodes(s) {
			owner[n] = i
		}
	}
	where := map[*sqlast.CommentGroup]sqlast.Node{}
	for n, l := range cm {
		if _, ok := owner[n]; !ok {
			return failf("%T %q in the map is no node of the file", n, n.ToSQLString())
		}
		for _, g := range l {
			if _, dup := where[g]; dup {
				return failf("group %q is associated twice", g.ToSQLString())
			}
			where[g] = n
		}
	}
	known := map[*sqlast.CommentGroup]bool{}
	for _, g := range f.Comments {
		known[g] = true
		n, ok := where[g]
		if !ok {
			return failf("group %q is not in the map", g.ToSQLString())
		}
		own := owner[n]
		// the statements before, around and after the group
		prev, in, next := -1, -1, -1
		for i, t := range texts {
			switch {
			case before(toPos(t.to), g.Pos()):
				prev = i
			case before(g.End(), toPos(t.from)):
				if next < 0 {
					next = i
				}
			default:
				in = i
			}
		}
		what := func() string {
			return fmt.Sprintf("group %q (%v to %v) is associated with %s %q of statement %d", g.ToSQLString(), g.Pos(), g.End(), nodeName(n), n.ToSQLString(), own)
		}
		key := ""
		switch {
		case next >= 0 && own == next && strings.HasPrefix(f.Stmts[next].ToSQLString(), "WITH "):
			key = "comment before WITH"
		case in >= 0 && own == in+1 && isCreateTable(f.Stmts[in]) && before(f.Stmts[in].End(), g.Pos()):
			key = "comment before the last parenthesis of CREATE TABLE"
		}
		if own >= 0 && (in >= 0 && own != in || in < 0 && own != prev && own != next) {
			return &Fail{Key: key, Msg: what() + ", an unrelated one"}
		}
		switch {
		case in >= 0:
			if own < 0 {
				return failf("%s, and not with a node of its own statement", what())
			}
		case prev >= 0 && texts[prev].to.line == g.Pos().Line:
			if own != prev {
				return failf("%s, and not with the preceding statement, which ends on its line", what())
			}
		case next >= 0 && g.End().Line+1 >= texts[next].from.line:
			if n != sqlast.Node(f.Stmts[next]) {
				return &Fail{Key: key, Msg: what() + ", and not with the following statement"}
			}
		}
	}
	for g := range where {
		if !known[g] {
			return failf("group %q of the map is none of the file", g.ToSQLString())
		}
	}
	return nil
}

func before(a, b sqltoken.Pos) bool { return sqltoken.ComparePos(a, b) <= 0 }

func isCreateTable(s sqlast.Stmt) bool {
	_, ok := s.(*sqlast.CreateTableStmt)
	return ok
}

var tableElements = []string{"a INT", "b INT PRIMARY KEY", "CONSTRAINT x CHECK ( b > 1 )", "UNIQUE ( a )", "c CHAR ( 3 ) DEFAULT 'x' NOT NULL"}

// c12Elements checks the groups around the elements of a table: a group that starts on the line where an element ends
// belongs to that element, one that starts on a line of its own and ends on the line before or on which an element starts
// belongs to that one.
func c12Elements(src string, elems int) *Fail {
	f, err := parseFile(src, generic, true)
	if err != nil {
		return failf("rejected: %v", err)
	}
	ct := f.Stmts[0].(*sqlast.CreateTableStmt)
	if len(ct.Elements) != elems {
		return failf("%d elements, want %d", len(ct.Elements), elems)
	}
	cm := sqlast.NewCommentMap(f)
	where := map[*sqlast.CommentGroup]sqlast.Node{}
	for n, l := range cm {
		for _, g := range l {
			where[g] = n
		}
	}
	toks, _ := refLex(decode(src), builtinClasses[0])
	depth, open := 0, false
	code := map[int]rPos{} // where the first code lexeme on a line ends
	var first, last []rPos
	for _, t := range toks {
		if t.kind == sqltoken.Whitespace || t.kind == sqltoken.Comment {
			continue
		}
		if _, ok := code[t.to.line]; !ok {
			code[t.to.line] = t.to
		}
		switch t.src {
		case "(":
			depth++
			if depth == 1 {
				continue
			}
		case ")":
			depth--
			if depth == 0 {
				continue
			}
		case ",":
			if depth == 1 {
				open = false
				continue
			}
		}
		if depth == 0 {
			continue
		}
		if !open {
			first = append(first, t.from)
			last = append(last, t.to)
			open = true
		}
		last[len(last)-1] = t.to
	}
	for _, g := range f.Comments {
		n := where[g]
		want := -1
		for i := range first {
			if sqltoken.ComparePos(toPos(last[i]), g.Pos()) <= 0 && last[i].line == g.Pos().Line {
				want = i
			}
		}
		key := ""
		if want == elems-1 && n == sqlast.Node(ct) {
			key = "comment before the last parenthesis of CREATE TABLE"
		}
		if cp, ok := code[g.Pos().Line]; want < 0 && (!ok || before(g.End(), toPos(cp))) {
			for i := range first {
				if sqltoken.ComparePos(g.End(), toPos(first[i])) <= 0 && g.End().Line+1 >= first[i].line {
					want = i
					break
				}
			}
		}
		if want >= 0 && n != sqlast.Node(ct.Elements[want]) {
			return &Fail{Key: key, Msg: fmt.Sprintf("group %q (%v to %v) is associated with %T %q, and not with element %d", g.ToSQLString(), g.Pos(), g.End(), n, n.ToSQLString(), want)}
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "C12",
		Level: "exploration",
		Rule:  "one case per script and placement of comments; distinct texts counted",
		Assumptions: []string{
			"which statement a group stands before, in or after is decided by the reference lexer",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			run := func(c *Chooser, L []string, gaps map[int]string) *Fail {
				if c.Skip {
					return nil
				}
				c.Desc = withGaps(L, gaps)
				return c12Check(c, c.Desc)
			}
			short := [][]string{
				strings.Fields("SELECT a ;"),
				strings.Fields("SELECT a , b FROM t"),
				strings.Fields("SELECT a ; SELECT b"),
				strings.Fields("DROP TABLE t ; DROP TABLE u ;"),
				strings.Fields("CREATE TABLE t ( a INT , b INT )"),
				{},
			}
			shape := func(c *Chooser, k int) string {
				return strings.ReplaceAll(commentShapes[c.Free(len(commentShapes))], "#", itoa(k))
			}
			return []*Space{
				{Name: "one gap, all texts", Rule: "every gap of a few scripts with all sequences of gap elements", Run: func(c *Chooser) *Fail {
					L := short[c.Free(len(short))]
					var g gapText
					return run(c, L, map[int]string{c.Free(len(L) + 1): g.choose(c, n(4, 5))})
				}},
				{Name: "two gaps, all texts", Rule: "every two gaps of a few scripts with all short sequences of gap elements", Run: func(c *Chooser) *Fail {
					L := short[c.Free(len(short))]
					var g gapText
					i := c.Free(len(L) + 1)
					j := c.Free(len(L) + 1)
					if j <= i {
						c.Skip = true
						return nil
					}
					return run(c, L, map[int]string{i: g.choose(c, 2), j: g.choose(c, n(2, 3))})
				}},
				{Name: "all gaps of every statement", Bound: 2, Thorough: 3, Rule: "one comment shape in all gaps", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					k := c.Free(len(commentShapes))
					gaps := map[int]string{}
					for i := 0; i <= len(L); i++ {
						gaps[i] = strings.ReplaceAll(commentShapes[k], "#", itoa(i))
					}
					return run(c, L, gaps)
				}},
				{Name: "large comments", Bound: 1, Thorough: 1, Rule: "every gap of a few scripts with comments and blanks that are long or many", Run: func(c *Chooser) *Fail {
					L := short[c.Free(len(short))]
					i := c.Free(len(L) + 1)
					return run(c, L, map[int]string{i: largeBlanks[c.Free(len(largeBlanks))](pickSize(c, 2048)) + shape(c, 9)})
				}},
				{Name: "huge blanks", Rule: "every gap of a few scripts with blanks or comments of 65537 lines, columns or comments, and a comment", Run: func(c *Chooser) *Fail {
					L := short[c.Free(len(short))]
					i := c.Free(len(L) + 1)
					t := hugeBlanks(c)
					x := []string{"-- c\n", "/* c */", "\n-- c\n\n"}[c.Free(3)]
					if c.Free(2) == 1 {
						return run(c, L, map[int]string{i: x + t})
					}
					return run(c, L, map[int]string{i: t + x})
				}},
				{Name: "many statements", Bound: 1, Thorough: 1, Rule: "scripts of up to 1025 statements with comments in each, of one shape", Run: func(c *Chooser) *Fail {
					k := pickSize(c, 1025)
					L := short[c.Free(2)]
					var all []string
					gaps := map[int]string{}
					x, at := c.Free(len(commentShapes)), c.Free(4)
					for j := 0; j < k; j++ {
						if all = append(all, L...); L[len(L)-1] != ";" {
							all = append(all, ";")
						}
						gaps[len(all)-at] = strings.ReplaceAll(commentShapes[x], "#", itoa(j))
					}
					return run(c, all, gaps)
				}},
				{Name: "large parts", Bound: 0, Thorough: 1, Rule: "statements with one large part, comments in all gaps", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.scaled(257)
					k := c.Free(len(commentShapes))
					gaps := map[int]string{}
					for i := 0; i <= len(g.L); i++ {
						gaps[i] = strings.ReplaceAll(commentShapes[k], "#", itoa(i))
					}
					return run(c, lexTexts(g.L), gaps)
				}},
				{Name: "table elements", Rule: "tables of some elements with all texts in the gaps before, after and between them", Run: func(c *Chooser) *Fail {
					k := 1 + c.Free(n(2, 3))
					gap := func() string {
						i := c.Free(len(commentShapes) + 2)
						if i == 0 {
							return " "
						}
						if i == 1 {
							return "\n"
						}
						return strings.ReplaceAll(commentShapes[i-2], "#", itoa(len(c.vals)))
					}
					src := "CREATE TABLE t ("
					if c.Free(2) == 1 {
						src += "\n"
					}
					for i := 0; i < k; i++ {
						if i > 0 {
							src += gap() + "," + gap()
						} else {
							src += gap()
						}
						src += strings.Replace(tableElements[c.Free(n(len(tableElements), 3))], " ", "\n"[:c.Free(2)]+" ", 1)
					}
					c.Desc = src + gap() + ");"
					return c12Elements(c.Desc, k)
				}},
				{Name: "scripts", Bound: 0, Thorough: 1, Rule: "scripts of two statements, two comment shapes in two gaps", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					L = append(append(L, ";"), plainStmt(c)...)
					if c.Flag() {
						L = append(L, ";")
					}
					i := c.Free(len(L) + 1)
					return run(c, L, map[int]string{i: shape(c, 1), len(L) - c.Free(3): shape(c, 2)})
				}},
				{Name: "every gap of every statement", Bound: 2, Thorough: 3, Rule: "one comment shape in one gap", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					if c.Flag() {
						L = append(L, ";")
					}
					return run(c, L, map[int]string{c.Free(len(L) + 1): shape(c, 1)})
				}},
			}
		},
	})
}
