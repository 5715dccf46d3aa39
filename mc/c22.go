package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// setDialect is a dialect of the user: three sets of characters.
type setDialect struct {
	start, part, delim string
	bad                bool // asked about something that is no character
}

func (d *setDialect) in(set string, r rune) bool {
	if r < 0 {
		d.bad = true
		return true
	}
	return strings.ContainsRune(set, r)
}
func (d *setDialect) IsIdentifierStart(r rune) bool          { return d.in(d.start, r) }
func (d *setDialect) IsIdentifierPart(r rune) bool           { return d.in(d.part, r) }
func (d *setDialect) IsDelimitedIdentifierStart(r rune) bool { return d.in(d.delim, r) }
func (d *setDialect) classes() charClasses {
	return charClasses{oneOf(d.start), oneOf(d.part), oneOf(d.delim)}
}
func (d *setDialect) String() string {
	return fmt.Sprintf("start %q part %q delimiters %q", d.start, d.part, d.delim)
}

// refTokens makes the tokens of the reference lexer.
func refTokens(in []rune, cc charClasses) ([]*sqltoken.Token, bool) {
	ref, ok := refLex(in, cc)
	var l []*sqltoken.Token
	for _, t := range ref {
		tok := &sqltoken.Token{Kind: t.kind, Value: t.val, From: sqltoken.Pos{Line: t.from.line, Col: t.from.col}, To: sqltoken.Pos{Line: t.to.line, Col: t.to.col}}
		if t.kind == sqltoken.SQLKeyword {
			w := &sqltoken.SQLWord{Value: t.val, QuoteStyle: t.quote, Keyword: asciiUpper(t.val)}
			tok.Value = w
		}
		l = append(l, tok)
	}
	return l, ok
}

// c22Text: tokenizing gives the tokens of the reference lexer, and parsing what the parser makes of those tokens.
func c22Text(src string, d *setDialect) *Fail {
	got, err := realTokens(src, d)
	want, ok := refLex(decode(src), d.classes())
	if d.bad {
		return failf("the dialect is asked about something that is no character")
	}
	if ok != (err == nil) {
		return failf("tokenized as %s with error %v, want %s, accepted %v", showToks(got), err, showRef(want), ok)
	}
	if ok {
		if x := sameTokens(got, want); x != "" {
			return failf("%s", x)
		}
	}
	return nil
}

func c22Parse(src string, d *setDialect) *Fail {
	if f := c22Text(src, d); f != nil {
		return f
	}
	toks, ok := refTokens(decode(src), d.classes())
	got, err := parseSQL(src, d)
	if !ok {
		if err == nil {
			return failf("accepted, though lexically wrong")
		}
		return nil
	}
	p, perr := xsqlparser.NewParser(strings.NewReader(""), generic)
	if perr != nil {
		return failf("empty input: %v", perr)
	}
	p.SetTokens(toks)
	want, werr := p.ParseSQL()
	if (err == nil) != (werr == nil) {
		return failf("parsed with error %v, its tokens with error %v", err, werr)
	}
	if err != nil {
		return nil
	}
	if len(got) != len(want) {
		return failf("%d statements, its tokens give %d", len(got), len(want))
	}
	for i := range got {
		if x := diffPos(got[i], want[i]); x != "" {
			return failf("statement %d differs from that of its tokens%s", i, x)
		}
	}
	return nil
}

// dialectKinds are dialects of other types than setDialect: each with the sets that tell what it answers.
var dialectKinds = []struct {
	name   string
	mk     func(d *setDialect) (dialect.Dialect, *setDialect)
	varies bool
}{
	{"a pointer", func(d *setDialect) (dialect.Dialect, *setDialect) { return d, d }, true},
	{"a value that cannot be compared", func(d *setDialect) (dialect.Dialect, *setDialect) {
		return funcDialect{
			func(r rune) bool { return d.IsIdentifierStart(r) }, func(r rune) bool { return d.IsIdentifierPart(r) },
			func(r rune) bool { return d.IsDelimitedIdentifierStart(r) },
		}, d
	}, true},
	{"a slice", func(d *setDialect) (dialect.Dialect, *setDialect) {
		return sliceDialect{d.start, d.part, d.delim}, d
	}, false},
	{"an empty value", func(*setDialect) (dialect.Dialect, *setDialect) {
		return emptyDialect{}, &setDialect{start: "a_", part: "a$", delim: "`"}
	}, false},
	{"generic within", func(*setDialect) (dialect.Dialect, *setDialect) {
		return &withinGeneric{}, &setDialect{start: letters + "$", part: letters + digits + "@_", delim: "\""}
	}, false},
	{"MySQL within", func(*setDialect) (dialect.Dialect, *setDialect) {
		return &withinMySQL{}, &setDialect{start: letters + "_$@", part: letters + digits + "_$@", delim: "["}
	}, false},
	{"PostgreSQL within", func(*setDialect) (dialect.Dialect, *setDialect) {
		return withinPostgres{&dialect.PostgresqlDialect{}}, &setDialect{start: letters + "_", part: letters + digits + "_", delim: "\"`"}
	}, false},
	{"generic behind a pointer", func(*setDialect) (dialect.Dialect, *setDialect) {
		var d dialect.Dialect = &dialect.GenericSQLDialect{}
		return &indirect{&d}, &setDialect{start: letters + "@", part: letters + digits + "@_", delim: "\""}
	}, false},
}

type funcDialect struct{ start, part, delim func(rune) bool }

func (d funcDialect) IsIdentifierStart(r rune) bool          { return d.start(r) }
func (d funcDialect) IsIdentifierPart(r rune) bool           { return d.part(r) }
func (d funcDialect) IsDelimitedIdentifierStart(r rune) bool { return d.delim(r) }

type sliceDialect []string

func (d sliceDialect) IsIdentifierStart(r rune) bool          { return strings.ContainsRune(d[0], r) }
func (d sliceDialect) IsIdentifierPart(r rune) bool           { return strings.ContainsRune(d[1], r) }
func (d sliceDialect) IsDelimitedIdentifierStart(r rune) bool { return strings.ContainsRune(d[2], r) }

type emptyDialect struct{}

func (emptyDialect) IsIdentifierStart(r rune) bool          { return r == 'a' || r == '_' }
func (emptyDialect) IsIdentifierPart(r rune) bool           { return r == 'a' || r == '$' }
func (emptyDialect) IsDelimitedIdentifierStart(r rune) bool { return r == '`' }

type withinGeneric struct{ dialect.GenericSQLDialect }

func (*withinGeneric) IsIdentifierStart(r rune) bool { return strings.ContainsRune(letters+"$", r) }

type withinMySQL struct{ dialect.MySQLDialect }

func (*withinMySQL) IsIdentifierStart(r rune) bool { return strings.ContainsRune(letters+"_$@", r) }
func (*withinMySQL) IsIdentifierPart(r rune) bool {
	return strings.ContainsRune(letters+digits+"_$@", r)
}
func (*withinMySQL) IsDelimitedIdentifierStart(r rune) bool { return r == '[' }

type withinPostgres struct{ *dialect.PostgresqlDialect }

func (withinPostgres) IsIdentifierStart(r rune) bool { return strings.ContainsRune(letters+"_", r) }
func (withinPostgres) IsIdentifierPart(r rune) bool {
	return strings.ContainsRune(letters+digits+"_", r)
}

type indirect struct{ d *dialect.Dialect }

func (d *indirect) IsIdentifierStart(r rune) bool { return (*d.d).IsIdentifierStart(r) }
func (d *indirect) IsIdentifierPart(r rune) bool  { return (*d.d).IsIdentifierPart(r) }
func (d *indirect) IsDelimitedIdentifierStart(r rune) bool {
	return (*d.d).IsDelimitedIdentifierStart(r)
}

// subset picks a subset of chars at no cost.
func subset(c *Chooser, chars []string) string {
	s := ""
	for _, x := range chars {
		if c.Free(2) == 1 {
			s += x
		}
	}
	return s
}

func textOf(c *Chooser, alpha []string, n int) string {
	var b strings.Builder
	for i, k := 0, c.Free(n+1); i < k; i++ {
		b.WriteString(alpha[c.Free(len(alpha))])
	}
	return b.String()
}

// richDialects take more characters for identifiers than any built-in one, or fewer.
var neutralDialects = []dialect.Dialect{
	mysql, postgres,
	&setDialect{start: letters + "_@#$é", part: letters + digits + "_@#$é", delim: "\"`"},
	&setDialect{start: letters, part: letters + digits + "_", delim: `"`},
	&setDialect{start: letters, part: letters + digits + "_", delim: "\"#"},
}

func init() {
	register(&Check{
		ID:    "C22",
		Level: "exploration",
		Rule:  "one case per dialect and text; distinct pairs counted",
		Assumptions: []string{
			"the lexical rules are those of the reference lexer (mc/lex.go), which takes the dialect's answers from three sets",
			"blanks, `'` and `N'` come before the dialect's delimiters; the NUL character and `N` are no delimiters",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			run := func(c *Chooser, src string, d *setDialect, f func(string, *setDialect) *Fail) *Fail {
				c.Desc = fmt.Sprintf("%s | %s", src, d)
				return f(src, d)
			}
			pools := [][]string{{"$", "#", "["}, {"@", "é", "`"}, {"_", "\"", "%"}, {":", "-", "]"}, {"*", "/", "😀"}, {"<", "!", "="}, {".", "'", "("}}
			var odd []string
			for r := rune(1); r < 0x180; r++ {
				odd = append(odd, string(r))
			}
			odd = append(odd, "\u2028", "\ufffe", "日", "😀", "\u0300", "٣")
			shapes := []string{"x", "ax", "xa", "xx", "1x", "x1", "x a x", "a x b x c", "x\nx", "(x)", "x.x", "N'x'", "Nx'", "'x'x", "xNx", "--x\nx", "/*x*/x", "-x-", "xselectx", "select", "x;x", "xax1x"}
			neutral := func(c *Chooser) *Fail {
				want, err := parseSQL(c.Desc, generic)
				if err != nil {
					return failf("generic: rejected: %v", err)
				}
				for i, d := range neutralDialects {
					got, err := parseSQL(c.Desc, d)
					if err != nil {
						return failf("dialect %d: rejected: %v", i, err)
					}
					if len(got) != len(want) {
						return failf("dialect %d: %d statements, generic %d", i, len(got), len(want))
					}
					for j := range got {
						if x := diffPos(got[j], want[j]); x != "" {
							return failf("dialect %d%s", i, x)
						}
					}
				}
				return nil
			}
			sps := []*Space{
				{Name: "three characters", Rule: "pools of three characters, each an identifier start, part or delimiter or not: all 512 dialects and all short texts", Run: func(c *Chooser) *Fail {
					pool := pools[c.Free(len(pools))]
					d := &setDialect{letters + subset(c, pool), letters + digits + subset(c, pool), subset(c, pool), false}
					alpha := append([]string{"a", " "}, pool...)
					return run(c, textOf(c, alpha, n(4, 6)), d, c22Text)
				}},
				{Name: "letters and digits", Rule: "dialects that refuse letters or take digits: all sets over six characters and all short texts", Run: func(c *Chooser) *Fail {
					pool := []string{"a", "N", "1", "_"}
					d := &setDialect{subset(c, pool), subset(c, pool), []string{"", "\""}[c.Free(2)], false}
					return run(c, textOf(c, []string{"a", "N", "1", "_", " ", ".", "'", "\""}, n(4, 6)), d, c22Text)
				}},
				{Name: "every character", Rule: "each of about 390 characters as start, part, delimiter in all combinations, in 22 texts", Run: func(c *Chooser) *Fail {
					x := odd[c.Free(len(odd))]
					one := []string{x}
					d := &setDialect{letters, letters + digits, `"`, false}
					if c.Free(2) == 1 {
						d.start, d.part, d.delim = "a", "b", ""
					}
					d.start += subset(c, one)
					d.part += subset(c, one)
					if x != "N" {
						d.delim += subset(c, one)
					}
					src := strings.ReplaceAll(shapes[c.Free(len(shapes))], "x", x)
					return run(c, src, d, c22Text)
				}},
				{Name: "kinds of dialects", Rule: "dialects of many dynamic types, built-in ones within others, values and types that cannot be compared, one that changes between inputs: all short texts", Run: func(c *Chooser) *Fail {
					pool := [][]string{{"a", " ", "@", "_", "\"", "$"}, {"a", " ", "`", "[", "]", "1"}}[c.Free(2)]
					k := c.Free(len(dialectKinds))
					src := textOf(c, pool, n(4, 5))
					d := &setDialect{letters + "$", letters + digits + "_", "[`", false}
					real, sets := dialectKinds[k].mk(d)
					c.Desc = fmt.Sprintf("%s | %s, %s", src, dialectKinds[k].name, sets)
					for round := 0; round < 2; round++ {
						got, err := realTokens(src, real)
						want, ok := refLex(decode(src), sets.classes())
						if ok != (err == nil) {
							return failf("tokenized as %s with error %v, want %s, accepted %v", showToks(got), err, showRef(want), ok)
						}
						if ok {
							if x := sameTokens(got, want); x != "" {
								return failf("%s", x)
							}
						}
						// the same dialect, which now has other rules
						sets.start, sets.part, sets.delim = letters+"@", letters+digits+"$", "\""
						if !dialectKinds[k].varies {
							break
						}
					}
					return nil
				}},
				{Name: "parsing", Rule: "the tree of a text is the tree of its tokens, for all dialects over a pool", Run: func(c *Chooser) *Fail {
					pool := pools[c.Free(len(pools))]
					d := &setDialect{letters + subset(c, pool), letters + digits + "_" + subset(c, pool), subset(c, pool), false}
					text := textOf(c, append([]string{"a", " "}, pool...), n(3, 4))
					src := []string{"SELECT " + text + " FROM t", "SELECT a FROM " + text, "SELECT 1 AS " + text, text}[c.Free(4)]
					return run(c, src, d, c22Parse)
				}},
				{Name: "names of statements", Bound: 1, Thorough: 2, Rule: "every statement with one of its names spelled with dialect-specific characters", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.any()
					if c.Skip {
						return nil
					}
					k := c.Free(len(g.L))
					if g.L[k].K != kIdent {
						c.Skip = true
						return nil
					}
					names := []string{"$a", "a$", "a#b", "@a", "_a", "é", "`a b`", "[a b]", "\"a b\"", "#a b#", "aéa", "1a", "`select`", "[from]"}
					L := lexTexts(g.L)
					L[k] = names[c.Free(len(names))]
					if c.Free(2) == 1 {
						d := &setDialect{letters + "$@_é", letters + digits + "$#_é", "\"`[#", false}
						return run(c, joinLex(L), d, c22Parse)
					}
					d := &setDialect{letters, letters + digits + "_", "[", false}
					return run(c, joinLex(L), d, c22Parse)
				}},
				{Name: "words like keywords", Bound: n(0, 1), Rule: "dialects with all letters: words that have ſ, ı or K in place of letters of a keyword, as every name and in place of every keyword of a statement", Run: c22Lookalikes},
				{Name: "neutral statements", Bound: 3, Thorough: 4, Rule: "statements free of dialect-specific characters: equal trees in eight dialects", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents = true
					g.any()
					if c.Skip {
						return nil
					}
					for _, l := range g.L {
						if strings.ContainsAny(l.S, "@#$é`[") && l.K == kIdent {
							c.Skip = true
							return nil
						}
					}
					c.Desc = render(g.L)
					return neutral(c)
				}},
				{Name: "large parts", Bound: 1, Rule: "neutral statements with one large part: equal trees in eight dialects", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainIdents, g.plainLits = true, true
					g.scaled(5000)
					c.Desc = render(g.L)
					return neutral(c)
				}},
				{Name: "neutral lexeme sequences", Rule: "sequences of neutral lexemes, accepted or not: equal outcomes in eight dialects", Run: func(c *Chooser) *Fail {
					var l []string
					for i, k := 0, 1+c.Free(n(4, 5)); i < k; i++ {
						l = append(l, neutralLexemes[c.Free(len(neutralLexemes))])
					}
					c.Desc = strings.Join(l, " ")
					return equalOutcomes(c, c.Desc)
				}},
			}
			return append(sps, c05More("quick", 0, func(c *Chooser, src string) *Fail {
				c.Desc = src
				if strings.ContainsAny(src, "@\"[?:") {
					c.Skip = true
					return nil
				}
				return equalOutcomes(c, src)
			})[:2]...)
		},
	})
}

var neutralLexemes = []string{"SELECT", "a", "1.5", ",", "FROM", "t", "(", ")", "AS", "WHERE", "NOT", "'x'", "=", "*", ".", ";", "DROP", "TABLE", "N'y'", "/* c */"}

// equalOutcomes parses a text in the neutral dialects.
func equalOutcomes(c *Chooser, src string) *Fail {
	want, err := parseSQL(src, generic)
	for i, d := range neutralDialects {
		got, derr := parseSQL(src, d)
		if (err == nil) != (derr == nil) || len(got) != len(want) {
			return failf("dialect %d: error %v, generic: %v", i, derr, err)
		}
		for j := range got {
			if x := diffPos(got[j], want[j]); x != "" {
				return failf("dialect %d%s", i, x)
			}
		}
	}
	c.Triv = err != nil
	return nil
}
