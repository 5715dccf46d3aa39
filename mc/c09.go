package main

import (
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
)

func joinLex(L []string) string { return strings.Join(L, " ") }

// identsOf lists the identifiers of a tree, and the texts of what holds names otherwise.
func identsOf(n sqlast.Node) []*sqlast.Ident {
	var l []*sqlast.Ident
	for _, x := range refNodes(n) {
		if i, ok := x.(*sqlast.Ident); ok {
			l = append(l, i)
		}
	}
	return l
}

func init() {
	register(&Check{
		ID:    "C09",
		Level: "exploration",
		Rule:  "one case per statement with respelled keywords, or per delimited name in a name position; distinct texts counted",
		Assumptions: []string{
			"the words of the reference grammar (mc/gram.go) are its keywords, and its names the places where a name may stand",
		},
		Spaces: func(tier string) []*Space {
			kws := sortedKeywords()
			n := func(q, t int) int {
				if tier == "thorough" {
					return t
				}
				return q
			}
			base := func(c *Chooser) (*G, sqlast.Stmt, *Fail) {
				g := newG(c)
				g.plainLits = true
				g.any()
				if c.Skip {
					return g, nil, nil
				}
				st, err := parseOne(render(g.L), generic)
				if err != nil {
					return g, nil, failf("%q is rejected: %v", render(g.L), err)
				}
				return g, st, nil
			}
			same := func(c *Chooser, src string, want sqlast.Stmt) *Fail {
				c.Desc = src
				got, err := parseOne(src, generic)
				if err != nil {
					return failf("rejected: %v", err)
				}
				if d := diff(got, want); d != "" {
					return failf("tree%s", d)
				}
				return nil
			}
			sps := []*Space{
				{Name: "all keywords of a statement", Bound: 2, Thorough: 3, Rule: "every statement with all its keywords in one of four other spellings", Run: func(c *Chooser) *Fail {
					g, want, f := base(c)
					if c.Skip || f != nil {
						return f
					}
					v := 1 + c.Free(4)
					L := lexTexts(g.L)
					for i, l := range g.L {
						if l.K == kKw {
							L[i] = spellings(l.S)[v]
						}
					}
					return same(c, joinLex(L), want)
				}},
				{Name: "large parts", Bound: n(0, 1), Thorough: 1, Rule: "statements with one large part, all keywords in one of four other spellings", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.scaled(5000)
					want, err := parseOne(render(g.L), generic)
					if err != nil {
						return failf("%q is rejected: %v", render(g.L), err)
					}
					v := 1 + c.Free(4)
					L := lexTexts(g.L)
					for i, l := range g.L {
						if l.K == kKw {
							L[i] = spellings(l.S)[v]
						}
					}
					return same(c, joinLex(L), want)
				}},
				{Name: "one keyword of a statement", Bound: 2, Thorough: 3, Rule: "every statement with one of its keywords in another spelling", Run: func(c *Chooser) *Fail {
					g, want, f := base(c)
					if c.Skip || f != nil {
						return f
					}
					k := c.Free(len(g.L))
					if g.L[k].K != kKw {
						c.Skip = true
						return nil
					}
					L := lexTexts(g.L)
					L[k] = spellings(L[k])[1+c.Free(4)]
					return same(c, joinLex(L), want)
				}},
				{Name: "spelling masks", Bound: 1, Thorough: 2, Rule: "every upper/lower mask over the keywords of a statement", Run: func(c *Chooser) *Fail {
					g, want, f := base(c)
					if c.Skip || f != nil {
						return f
					}
					L := lexTexts(g.L)
					for i, l := range g.L {
						if l.K == kKw && c.Free(2) == 1 {
							L[i] = strings.ToLower(l.S)
						}
					}
					return same(c, joinLex(L), want)
				}},
				{Name: "delimited keywords", Bound: 1, Thorough: 2, Rule: "every keyword, in three spellings and two delimiters, as each of the names of every statement", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.any()
					if c.Skip {
						return nil
					}
					k := c.Free(len(g.L))
					if g.L[k].K != kIdent {
						c.Skip = true
						return nil
					}
					plain := g.L[k].S
					w := kws[c.Free(len(kws))]
					w = []string{w, strings.ToLower(w), spellings(w)[3]}[c.Pick(3)]
					d, q := generic, `"`
					if c.Flag() {
						d, q = mysql, "`"
					}
					name := q + w + q
					want, err := parseOne(render(g.L), d)
					if err != nil {
						return failf("%q is rejected: %v", render(g.L), err)
					}
					L := lexTexts(g.L)
					L[k] = name
					c.Desc = joinLex(L)
					got, err := parseOne(c.Desc, d)
					if err != nil {
						return failf("rejected: %v", err)
					}
					n := 0
					for _, i := range identsOf(want) {
						if i.Value == plain {
							i.Value = name
							n++
						}
					}
					if n != 1 {
						return failf("%q has %d identifiers %s", render(g.L), n, plain)
					}
					if x := diff(got, want); x != "" {
						return failf("not the name %s: tree%s", name, x)
					}
					return nil
				}},
				{Name: "words as names", Bound: n(0, 1), Thorough: 1, Rule: "every keyword as each of the names of every statement, in five spellings: accepted in all or none, and the tree holds the name as spelled", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					if c.Free(2) == 1 {
						g.focused()
					} else {
						g.stmt(c.Free(nStmts))
					}
					if c.Skip {
						return nil
					}
					k := c.Free(len(g.L))
					if g.L[k].K != kIdent {
						c.Skip = true
						return nil
					}
					sp := spellings(kws[c.Free(len(kws))])
					L := lexTexts(g.L)
					c.Hash = sp[0] + " " + joinLex(L)
					var first sqlast.Stmt
					for i, w := range sp {
						L[k] = w
						c.Desc = joinLex(L)
						got, err := parseOne(c.Desc, generic)
						c.Evals++
						if i == 0 {
							first = got
							if err != nil {
								first = nil
							}
							continue
						}
						if (err == nil) != (first != nil) {
							return failf("accepted: %v; with %s: %v", err == nil, sp[0], first != nil)
						}
						if err != nil {
							continue
						}
						for _, id := range identsOf(first) {
							if id.Value == sp[i-1] {
								id.Value = w
							}
						}
						if d := diff(got, first); d != "" {
							return failf("tree%s", d)
						}
					}
					c.Triv = first == nil
					return nil
				}},
				{Name: "delimited for a keyword", Bound: 2, Thorough: 3, Rule: "every statement with one of its keywords delimited: rejected, or a name", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.any()
					if c.Skip {
						return nil
					}
					k := c.Free(len(g.L))
					if g.L[k].K != kKw {
						c.Skip = true
						return nil
					}
					w := g.L[k].S
					w = []string{w, strings.ToLower(w)}[c.Pick(2)]
					d, q := generic, `"`
					if c.Flag() {
						d, q = mysql, "`"
					}
					L := lexTexts(g.L)
					L[k] = q + w + q
					c.Desc = joinLex(L)
					ss, err := parseSQL(c.Desc, d)
					if err != nil {
						c.Triv = true
						return nil
					}
					n := 0
					for _, s := range ss {
						for _, i := range identsOf(s) {
							if i.Value == L[k] {
								n++
							}
						}
					}
					if n != 1 {
						return failf("accepted as %q with %d names %s", printStmts(ss), n, L[k])
					}
					return nil
				}},
				{Name: "delimited contents", Rule: "names with all contents of up to three characters in both delimiters", Run: func(c *Chooser) *Fail {
					alpha := []string{"a", "A", " ", "'", "`", "\"", "-", "/", "*", ".", ";", "(", "\n", "é", "1", "\\", "[", "N", "\t"}
					var b strings.Builder
					for i, m := 0, 1+c.Free(3); i < m; i++ {
						b.WriteString(alpha[c.Free(len(alpha))])
					}
					q := []string{`"`, "`"}[c.Free(2)]
					if strings.Contains(b.String(), q) {
						c.Skip = true
						return nil
					}
					name := q + b.String() + q
					frames := []string{"SELECT $ FROM t", "SELECT a AS $", "SELECT a FROM $ WHERE b", "SELECT x . $", "INSERT INTO t ( $ ) VALUES ( 1 )", "CREATE TABLE $ ( a INT )", "CREATE TABLE t ( $ INT )"}
					c.Hash = name
					c.Evals = len(frames)
					for _, fr := range frames {
						c.Desc = strings.Replace(fr, "$", name, 1)
						got, err := parseOne(c.Desc, mysql)
						if err != nil {
							return failf("rejected: %v", err)
						}
						want, err := parseOne(strings.Replace(fr, "$", "zzz", 1), mysql)
						if err != nil {
							return failf("rejected: %v", err)
						}
						for _, i := range identsOf(want) {
							if i.Value == "zzz" {
								i.Value = name
							}
						}
						if x := diff(got, want); x != "" {
							return failf("not the name %s: tree%s", name, x)
						}
					}
					return nil
				}},
			}
			return append(sps, c05More("quick", 0, func(c *Chooser, src string) *Fail {
				L := strings.Fields(src)
				want, err := parseSQL(src, generic)
				v := 1 + c.Free(4)
				for i, w := range L {
					if _, ok := dialect.Keywords[w]; ok {
						L[i] = spellings(w)[v]
					}
				}
				c.Desc = joinLex(L)
				got, err2 := parseSQL(c.Desc, generic)
				if (err == nil) != (err2 == nil) {
					return failf("accepted: %v; %q: %v", err2 == nil, src, err == nil)
				}
				if err != nil {
					c.Triv = true
					return nil
				}
				// a word that is taken for a name keeps its spelling
				if a, b := printStmts(got), printStmts(want); !strings.EqualFold(a, b) {
					return failf("read as %q, %q as %q", a, src, b)
				}
				return nil
			})[:2]...)
		},
	})
}
