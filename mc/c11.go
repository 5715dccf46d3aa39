package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

type refComment struct {
	text     string
	from, to sqltoken.Pos
}

func toPos(p rPos) sqltoken.Pos { return sqltoken.Pos{Line: p.line, Col: p.col} }

// refGroups gives the comment groups of a text: comments with no code between them, parted at the end of a line that
// holds code.
func refGroups(src string, di int) [][]refComment {
	toks, ok := refLex(decode(src), builtinClasses[di])
	if !ok {
		panic("refGroups: lexically wrong text")
	}
	var out [][]refComment
	var cur []refComment
	end := func() {
		if len(cur) > 0 {
			out = append(out, cur)
			cur = nil
		}
	}
	code := false // the current line holds code
	for _, t := range toks {
		switch t.kind {
		case sqltoken.Comment:
			cur = append(cur, refComment{t.val, toPos(t.from), toPos(t.to)})
			if t.to.line > t.from.line {
				code = false
			}
		case sqltoken.Whitespace:
			if t.val == "\n" {
				if code {
					end()
				}
				code = false
			}
		default:
			end()
			code = true
		}
	}
	end()
	return out
}

func showGroups(l [][]refComment) string {
	var b strings.Builder
	for _, g := range l {
		b.WriteString("{")
		for _, c := range g {
			fmt.Fprintf(&b, "%q %d:%d-%d:%d ", c.text, c.from.Line, c.from.Col, c.to.Line, c.to.Col)
		}
		b.WriteString("} ")
	}
	return b.String()
}

func fileGroups(f *sqlast.File) [][]refComment {
	var l [][]refComment
	for _, g := range f.Comments {
		var r []refComment
		for _, c := range g.List {
			r = append(r, refComment{c.Text, c.Pos(), c.End()})
		}
		l = append(l, r)
	}
	return l
}

func c11Check(src string) *Fail {
	f, err := parseFile(src, generic, true)
	if err != nil {
		return failf("rejected: %v", err)
	}
	want := refGroups(src, 0)
	if a, b := showGroups(fileGroups(f)), showGroups(want); a != b {
		return failf("comments %s, want %s", a, b)
	}
	for i, g := range f.Comments {
		w := want[i]
		if g.Pos() != w[0].from || g.End() != w[len(w)-1].to {
			return failf("group %d spans %v to %v, want %v to %v", i, g.Pos(), g.End(), w[0].from, w[len(w)-1].to)
		}
	}
	f, err = parseFile(src, generic, false)
	if err != nil {
		return failf("rejected without comments: %v", err)
	}
	if len(f.Comments) != 0 {
		return failf("comments recorded without being asked for: %s", showGroups(fileGroups(f)))
	}
	return nil
}

// gapElements are what the text between two code lexemes is made of; # is replaced by a running number.
var gapElements = []string{"/*#*/", "--#\n", "\n", " ", "/*#\n*/", "\r\n", "\t", "--\n", "/**/"}

type gapText struct{ n int }

func (g *gapText) choose(c *Chooser, k int) string {
	var b strings.Builder
	for i, m := 0, c.Free(k+1); i < m; i++ {
		g.n++
		b.WriteString(strings.Replace(gapElements[c.Free(len(gapElements))], "#", itoa(g.n), 1))
	}
	return b.String()
}

// withGaps puts texts between the lexemes, and a blank where the text is empty.
func withGaps(L []string, gaps map[int]string) string {
	var b strings.Builder
	for i := 0; i <= len(L); i++ {
		g, ok := gaps[i]
		if !ok || g == "" || strings.HasSuffix(b.String(), "-") {
			if i > 0 && i < len(L) || ok && g != "" {
				b.WriteByte(' ')
			}
		}
		b.WriteString(g)
		if i < len(L) {
			b.WriteString(L[i])
		}
	}
	return b.String()
}

func plainStmt(c *Chooser) []string {
	g := newG(c)
	g.plainLits, g.plainIdents = true, true
	g.any()
	return lexTexts(g.L)
}

var commentShapes = []string{"/* # */", "-- #\n", "\n-- #\n", "\n/* # */\n", " /* #\n\n*/ ", "--#\n\n--b#\n", "/*a#*/\n/*b#*/"}

func init() {
	register(&Check{
		ID:    "C11",
		Level: "exploration",
		Rule:  "one case per statement or script and placement of comments; distinct texts counted",
		Assumptions: []string{
			"comments and their positions are those of the reference lexer (mc/lex.go)",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			run := func(c *Chooser, L []string, gaps map[int]string) *Fail {
				if c.Skip {
					return nil
				}
				c.Desc = withGaps(L, gaps)
				return c11Check(c.Desc)
			}
			short := [][]string{
				strings.Fields("SELECT a ;"),
				strings.Fields("SELECT a , b FROM t"),
				strings.Fields("SELECT a ; SELECT b"),
				strings.Fields("DROP TABLE t ; DROP TABLE u ;"),
				strings.Fields("CREATE TABLE t ( a INT , b INT )"),
				{},
			}
			script := func(c *Chooser) []string {
				return short[c.Free(len(short))]
			}
			shape := func(c *Chooser, k int) string {
				return strings.ReplaceAll(commentShapes[c.Free(len(commentShapes))], "#", itoa(k))
			}
			return []*Space{
				{Name: "one gap, all texts", Rule: "every gap of a few scripts with all sequences of gap elements", Run: func(c *Chooser) *Fail {
					L := script(c)
					var g gapText
					return run(c, L, map[int]string{c.Free(len(L) + 1): g.choose(c, n(4, 5))})
				}},
				{Name: "two gaps, all texts", Rule: "every two gaps of a few scripts with all short sequences of gap elements", Run: func(c *Chooser) *Fail {
					L := script(c)
					var g gapText
					i := c.Free(len(L) + 1)
					j := c.Free(len(L) + 1)
					if j <= i {
						c.Skip = true
						return nil
					}
					return run(c, L, map[int]string{i: g.choose(c, 2), j: g.choose(c, n(2, 3))})
				}},
				{Name: "long runs", Rule: "every gap of a few scripts with up to 24 (80) of one gap element, a comment, and up to that many of one gap element again", Run: func(c *Chooser) *Fail {
					L := script(c)
					most := n(24, 80)
					runs := []string{" ", "\n", "\r\n", "\t", "--#\n", "/*#*/"}
					var g gapText
					text := func(el string, k int) string {
						var b strings.Builder
						for ; k > 0; k-- {
							g.n++
							b.WriteString(strings.Replace(el, "#", itoa(g.n), 1))
						}
						return b.String()
					}
					i := c.Free(len(L) + 1)
					el1, el2 := runs[c.Free(len(runs))], runs[c.Free(len(runs))]
					a, b := 0, 0
					if c.Free(2) == 1 {
						a, b = c.Free(4), c.Free(most+1)
					} else {
						a = c.Free(most + 1)
					}
					return run(c, L, map[int]string{i: text(el1, a) + shape(c, 999) + text(el2, b)})
				}},
				{Name: "large comments", Bound: 1, Thorough: 1, Rule: "every gap of a few scripts with comments and blanks that are long or many", Run: func(c *Chooser) *Fail {
					L := short[c.Free(len(short))]
					i := c.Free(len(L) + 1)
					return run(c, L, map[int]string{i: largeBlanks[c.Free(len(largeBlanks))](pickSize(c, 2048)) + shape(c, 9)})
				}},
				{Name: "huge blanks", Rule: "every gap of a few scripts with blanks or comments of 65537 lines, columns or comments, and a comment", Run: func(c *Chooser) *Fail {
					L := short[c.Free(len(short))]
					i := c.Free(len(L) + 1)
					t := hugeBlanks(c)
					x := []string{"-- c\n", "/* c */", "\n-- c\n\n"}[c.Free(3)]
					if c.Free(2) == 1 {
						return run(c, L, map[int]string{i: x + t})
					}
					return run(c, L, map[int]string{i: t + x})
				}},
				{Name: "many statements", Bound: 1, Thorough: 1, Rule: "scripts of up to 1025 statements with comments in each, of one shape", Run: func(c *Chooser) *Fail {
					k := pickSize(c, 1025)
					L := short[c.Free(2)]
					var all []string
					gaps := map[int]string{}
					x, at := c.Free(len(commentShapes)), c.Free(4)
					for j := 0; j < k; j++ {
						if all = append(all, L...); L[len(L)-1] != ";" {
							all = append(all, ";")
						}
						gaps[len(all)-at] = strings.ReplaceAll(commentShapes[x], "#", itoa(j))
					}
					return run(c, all, gaps)
				}},
				{Name: "large parts", Bound: 0, Thorough: 1, Rule: "statements with one large part, comments in all gaps", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.scaled(257)
					k := c.Free(len(commentShapes))
					gaps := map[int]string{}
					for i := 0; i <= len(g.L); i++ {
						gaps[i] = strings.ReplaceAll(commentShapes[k], "#", itoa(i))
					}
					return run(c, lexTexts(g.L), gaps)
				}},
				{Name: "every gap of every statement", Bound: 2, Thorough: 3, Rule: "one comment shape in one gap", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					if c.Flag() {
						L = append(L, ";")
					}
					return run(c, L, map[int]string{c.Free(len(L) + 1): shape(c, 1)})
				}},
				{Name: "all gaps of every statement", Bound: 2, Thorough: 3, Rule: "one comment shape in all gaps", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					k := c.Free(len(commentShapes))
					gaps := map[int]string{}
					for i := 0; i <= len(L); i++ {
						gaps[i] = strings.ReplaceAll(commentShapes[k], "#", itoa(i))
					}
					return run(c, L, gaps)
				}},
				{Name: "two gaps of every statement", Bound: 1, Thorough: 2, Rule: "two comment shapes in two gaps", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					i := c.Free(len(L) + 1)
					j := c.Free(len(L) + 1)
					if j <= i {
						c.Skip = true
						return nil
					}
					return run(c, L, map[int]string{i: shape(c, 1), j: shape(c, 2)})
				}},
				{Name: "scripts", Bound: 0, Thorough: 1, Rule: "scripts of two statements, two comment shapes in two gaps", Run: func(c *Chooser) *Fail {
					L := plainStmt(c)
					L = append(append(L, ";"), plainStmt(c)...)
					if c.Flag() {
						L = append(L, ";")
					}
					i := c.Free(len(L) + 1)
					return run(c, L, map[int]string{i: shape(c, 1), len(L) - c.Free(3): shape(c, 2)})
				}},
			}
		},
	})
}
