package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// tokenRun is one way to tokenize an input.
type tokenRun struct {
	name string
	toks []tokRec
	err  error // nil if the end was reached
}

func drain(name string, tk *sqltoken.Tokenizer, reuse bool) (tokenRun, *Fail) {
	r := tokenRun{name: name}
	var one sqltoken.Token
	for {
		var t *sqltoken.Token
		var err error
		if reuse {
			t, err = tk.Scan(&one)
			if t != nil && t != &one {
				return r, failf("%s: the token given is not the one handed over", name)
			}
		} else {
			t, err = tk.NextToken()
		}
		if err == io.EOF {
			if t != nil {
				return r, failf("%s: a token at the end", name)
			}
			// the end stays the end
			for i := 0; i < 2; i++ {
				if t, err := tk.NextToken(); t != nil || err != io.EOF {
					return r, failf("%s: after the end token %v, error %v", name, t, err)
				}
				if t, err := tk.Scan(&one); t != nil || err != io.EOF {
					return r, failf("%s: after the end Scan gives token %v, error %v", name, t, err)
				}
			}
			if ts, err := tk.Tokenize(); len(ts) != 0 || err != nil {
				return r, failf("%s: after the end Tokenize gives %d tokens, error %v", name, len(ts), err)
			}
			return r, nil
		}
		if err != nil {
			r.err = err
			return r, nil
		}
		if t != nil {
			r.toks = append(r.toks, recToken(t))
		}
	}
}

func blankOrComment(k sqltoken.Kind) bool { return k == sqltoken.Whitespace || k == sqltoken.Comment }

// c23Tokens compares the ways to tokenize.
func c23Tokens(src string, d dialect.Dialect) *Fail {
	rd := func() io.Reader { return strings.NewReader(src) }
	all := func(name string, tk *sqltoken.Tokenizer) tokenRun {
		ts, err := tk.Tokenize()
		r := tokenRun{name: name, err: err}
		for _, t := range ts {
			r.toks = append(r.toks, recToken(t))
		}
		return r
	}
	ref := all("Tokenize", sqltoken.NewTokenizer(rd(), d))
	same := func(r tokenRun, want []tokRec) *Fail {
		if (r.err == nil) != (ref.err == nil) {
			return failf("%s: error %v, Tokenize: %v", r.name, r.err, ref.err)
		}
		if r.err != nil {
			return nil
		}
		if len(r.toks) != len(want) {
			return failf("%s: tokens %v, want %v", r.name, r.toks, want)
		}
		for i := range want {
			if r.toks[i] != want[i] {
				return failf("%s: token %d is %v, want %v", r.name, i, r.toks[i], want[i])
			}
		}
		return nil
	}
	var kept []tokRec
	for _, t := range ref.toks {
		if !blankOrComment(t.kind) {
			kept = append(kept, t)
		}
	}
	if ref.err != nil && len(ref.toks) != 0 {
		return failf("Tokenize gives tokens and an error")
	}
	opt := func(o ...sqltoken.TokenizerOption) *sqltoken.Tokenizer {
		return sqltoken.NewTokenizerWithOptions(rd(), o...)
	}
	var part [2][]tokRec // the tokens before an error
	for i, mk := range []func(no bool) *sqltoken.Tokenizer{
		func(no bool) *sqltoken.Tokenizer {
			if no {
				tk := sqltoken.NewTokenizer(rd(), d)
				sqltoken.DisableParseComment()(tk)
				return tk
			}
			return sqltoken.NewTokenizer(rd(), d)
		},
		func(no bool) *sqltoken.Tokenizer {
			if no {
				return opt(sqltoken.Dialect(d), sqltoken.DisableParseComment())
			}
			return opt(sqltoken.Dialect(d))
		},
		func(no bool) *sqltoken.Tokenizer {
			if no {
				return opt(sqltoken.DisableParseComment(), sqltoken.Dialect(d))
			}
			return opt(sqltoken.Dialect(mysql), sqltoken.Dialect(postgres), sqltoken.Dialect(d))
		},
		func(no bool) *sqltoken.Tokenizer {
			if no {
				return opt(sqltoken.DisableParseComment(), sqltoken.Dialect(d), sqltoken.DisableParseComment())
			}
			tk := opt()
			tk.Dialect = d
			return tk
		},
	} {
		for k, no := range []bool{false, true} {
			want := ref.toks
			if no {
				want = kept
			}
			name := fmt.Sprintf("options %d, comments off %v, ", i, no)
			if f := same(all(name+"Tokenize", mk(no)), want); f != nil {
				return f
			}
			for _, reuse := range []bool{false, true} {
				what := "NextToken"
				if reuse {
					what = "Scan"
				}
				r, f := drain(name+what, mk(no), reuse)
				if f != nil {
					return f
				}
				if f := same(r, want); f != nil {
					return f
				}
				if r.err != nil {
					if i == 0 && !reuse {
						part[k] = r.toks
					} else if fmt.Sprint(part[k]) != fmt.Sprint(r.toks) {
						return failf("%s: tokens %v before the error, NextToken gives %v", r.name, r.toks, part[k])
					}
				}
			}
			// all at once after the first tokens were taken singly
			for _, skip := range []int{1, 2} {
				tk := mk(no)
				r := tokenRun{name: name + "NextToken, then Tokenize"}
				for i := 0; i < skip && r.err == nil; i++ {
					var t *sqltoken.Token
					if t, r.err = tk.NextToken(); t != nil && r.err == nil {
						r.toks = append(r.toks, recToken(t))
					}
				}
				if r.err == io.EOF {
					r.err = nil
				} else if r.err == nil {
					rest := all("", tk)
					r.toks, r.err = append(r.toks, rest.toks...), rest.err
				}
				if f := same(r, want); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

// parseRun is what a sequence of calls on a parser gave.
type parseRun struct {
	name  string
	nodes []interface{}
	err   error
	file  *sqlast.File
	late  string // what is wrong after the end
}

type feed struct {
	name     string
	comments bool // comments are collected
	blank    bool // the parser sees comments
	mk       func() (*xsqlparser.Parser, error)
}

func feedsOf(src string, d dialect.Dialect, toks []*sqltoken.Token) []feed {
	drop := func(f func(k sqltoken.Kind) bool) func() []*sqltoken.Token {
		return func() []*sqltoken.Token {
			var l []*sqltoken.Token
			for _, t := range toks {
				if !f(t.Kind) {
					c := *t
					l = append(l, &c)
				}
			}
			return l
		}
	}
	var fs []feed
	for _, comments := range []bool{false, true} {
		var opts []xsqlparser.ParserOption
		if comments {
			opts = append(opts, xsqlparser.ParseComment())
		}
		fs = append(fs, feed{fmt.Sprintf("reader, comments %v", comments), comments, true, func() (*xsqlparser.Parser, error) {
			return xsqlparser.NewParser(strings.NewReader(src), d, opts...)
		}})
		for _, v := range []struct {
			name  string
			blank bool
			toks  func() []*sqltoken.Token
		}{
			{"all tokens", true, drop(func(sqltoken.Kind) bool { return false })},
			{"tokens without blanks and comments", false, drop(blankOrComment)},
			{"tokens without comments", false, drop(func(k sqltoken.Kind) bool { return k == sqltoken.Comment })},
			{"tokens without blanks", true, drop(func(k sqltoken.Kind) bool { return k == sqltoken.Whitespace })},
		} {
			fs = append(fs, feed{fmt.Sprintf("%s, comments %v", v.name, comments), comments, v.blank, func() (*xsqlparser.Parser, error) {
				p := xsqlparser.NewParserWithOptions(opts...)
				p.SetTokens(v.toks())
				return p, nil
			}})
		}
		fs = append(fs, feed{fmt.Sprintf("tokenizer without comments, comments %v", comments), comments, false, func() (*xsqlparser.Parser, error) {
			ts, err := sqltoken.NewTokenizerWithOptions(strings.NewReader(src), sqltoken.Dialect(d), sqltoken.DisableParseComment()).Tokenize()
			if err != nil {
				return nil, err
			}
			p := xsqlparser.NewParserWithOptions(opts...)
			p.SetTokens(ts)
			return p, nil
		}})
		fs = append(fs, feed{fmt.Sprintf("second tokens of a parser, comments %v", comments), comments, true, func() (*xsqlparser.Parser, error) {
			p, err := xsqlparser.NewParser(strings.NewReader("SELECT a -- c\n FROM t; SELECT"), generic, opts...)
			if err != nil {
				return nil, err
			}
			p.ParseSQL()
			ts, err := sqltoken.NewTokenizer(strings.NewReader(src), d).Tokenize()
			if err != nil {
				return nil, err
			}
			p.SetTokens(ts)
			return p, nil
		}})
	}
	return fs
}

const nCalls = 6

func callName(k int) string {
	return []string{"ParseSQL", "ParseFile", "ParseStatement", "ParseExpr", "ParseDataType", "ParseExpr, ParseDataType and ParseStatement in turn"}[k]
}

// after: where all was read there is nothing more.
func (r *parseRun) after(p *xsqlparser.Parser) {
	if r.err != nil {
		return
	}
	for i := 0; i < 2; i++ {
		if ss, err := p.ParseSQL(); len(ss) != 0 || err != nil {
			r.late = fmt.Sprintf("after the end ParseSQL gives %d statements, error %v", len(ss), err)
		}
		if f, err := p.ParseFile(); err != nil || len(f.Stmts) != 0 {
			r.late = fmt.Sprintf("after the end ParseFile gives %v, error %v", f, err)
		}
		if st, err := p.ParseStatement(); st != nil || err == nil {
			r.late = fmt.Sprintf("after the end ParseStatement gives %v, error %v", st, err)
		}
	}
}

// calls makes a sequence of calls until the first error.
func calls(f feed, k int) parseRun {
	r := parseRun{name: f.name}
	p, err := f.mk()
	if err != nil {
		r.err = err
		return r
	}
	switch k {
	case 0:
		ss, err := p.ParseSQL()
		r.err = err
		for _, s := range ss {
			r.nodes = append(r.nodes, s)
		}
		r.after(p)
	case 1:
		r.file, r.err = p.ParseFile()
		if r.err == nil {
			for _, s := range r.file.Stmts {
				r.nodes = append(r.nodes, s)
			}
		}
		r.after(p)
	default:
		for i := 0; i < 6 && r.err == nil; i++ {
			var n interface{}
			c := k
			if k == 5 {
				c = 2 + (i+1)%3
			}
			switch c {
			case 2:
				n, r.err = p.ParseStatement()
			case 3:
				n, r.err = p.ParseExpr()
			case 4:
				n, r.err = p.ParseDataType()
			}
			if r.err == nil {
				r.nodes = append(r.nodes, n)
			}
		}
	}
	return r
}

// c23Parse compares the ways to feed a parser.
func c23Parse(c *Chooser, src string, d dialect.Dialect, kinds ...int) *Fail {
	toks, err := realTokens(src, d)
	if err != nil {
		for _, f := range feedsOf(src, d, nil) {
			if strings.HasPrefix(f.name, "reader") || strings.HasPrefix(f.name, "tokenizer") {
				if _, e := f.mk(); e == nil {
					return failf("%s: accepted, Tokenize reports %v", f.name, err)
				}
			}
		}
		c.Triv = true
		return nil
	}
	feeds := feedsOf(src, d, toks)
	for _, k := range kinds {
		ref := calls(feeds[0], k)
		if ref.late != "" {
			return failf("%s: %s: %s", callName(k), ref.name, ref.late)
		}
		var comments *parseRun
		for _, f := range feeds[1:] {
			r := calls(f, k)
			if r.late != "" {
				return failf("%s: %s: %s", callName(k), f.name, r.late)
			}
			if (r.err == nil) != (ref.err == nil) || len(r.nodes) != len(ref.nodes) {
				return failf("%s: %s gives %d results and error %v, %s %d results and error %v", callName(k), ref.name, len(ref.nodes), ref.err, r.name, len(r.nodes), r.err)
			}
			for i := range r.nodes {
				if x := diffPos(r.nodes[i], ref.nodes[i]); x != "" {
					return failf("%s: %s: result %d differs from that of %s%s", callName(k), r.name, i, ref.name, x)
				}
			}
			if k != 1 || r.err != nil {
				continue
			}
			switch {
			case !f.comments || !f.blank:
				if len(r.file.Comments) != 0 {
					return failf("%s: %d comment groups", r.name, len(r.file.Comments))
				}
			case strings.HasPrefix(f.name, "tokens without blanks"): // other groups
			case comments == nil:
				comments = &r
			default:
				if x := diffPos(r.file.Comments, comments.file.Comments); x != "" {
					return failf("comments of %s differ from those of %s%s", r.name, comments.name, x)
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "C23",
		Level: "exploration",
		Rule:  "one case per text, for every entry point, option and way to hand over the tokens; distinct texts counted",
		Assumptions: []string{
			"what the entry points have in common is decided by C01 to C12: this check compares them with one another",
			"longer texts behave as the enumerated ones",
		},
		Spaces: func(tier string) []*Space {
			th := tier == "thorough"
			n := func(q, t int) int {
				if th {
					return t
				}
				return q
			}
			tokens := func(src string, di int) *Fail { return c23Tokens(src, dialects[di]) }
			all := append(append([]string(nil), alphaAll...), alphaBlank...)
			soup := []string{"SELECT", "a", "1", ",", "FROM", "(", ")", ";", "/* c */", "-- d\n", "\n", "NOT", "INT", "'x'"}
			exprs := []string{"a", "1", "+", "*", "NOT", "(", ")", ".", "IN", "BETWEEN", "AND", "::", "INT", "/* c */", "-- d\n", "CASE", "WHEN", "END", ",", "IS", "NULL", "LIKE"}
			types := []string{"INT", "NUMERIC", "(", ")", "1", ",", "CHARACTER", "VARYING", "TIMESTAMP", "WITH", "TIME", "ZONE", "[", "]", "/* c */", "-- d\n", "a", "DOUBLE", "PRECISION"}
			lexSoup := func(l []string, k int, kinds ...int) func(c *Chooser) *Fail {
				return func(c *Chooser) *Fail {
					var b []string
					for i, m := 0, 1+c.Free(k); i < m; i++ {
						b = append(b, l[c.Free(len(l))])
					}
					c.Desc = strings.Join(b, " ")
					return c23Parse(c, c.Desc, generic, kinds...)
				}
			}
			sps := []*Space{
				textSpace("tokens: characters", all, n(3, 4), ", ten option combinations, three ways each", tokens),
				textSpace("tokens: quotes and comments", alphaQuotes, n(4, 5), ", ten option combinations, three ways each", tokens),
				textSpace("tokens: odd bytes", alphaBytes, n(3, 4), ", ten option combinations, three ways each", tokens),
				textSpace("tokens: lexemes", textLexemes, n(3, 4), ", ten option combinations, three ways each", tokens),
				{Name: "scripts of lexemes", Rule: "all sequences of up to 5 (6) of 14 lexemes, comments among them: all calls, 14 ways to feed the parser", Run: lexSoup(soup, n(5, 6), 0, 1, 2)},
				{Name: "expressions of lexemes", Rule: "all sequences of up to 4 (5) of 22 lexemes: ParseExpr", Run: lexSoup(exprs, n(4, 5), 3, 5)},
				{Name: "types of lexemes", Rule: "all sequences of up to 4 (5) of 19 lexemes: ParseDataType", Run: lexSoup(types, n(4, 5), 4)},
				{Name: "statements", Bound: 2, Thorough: 3, Rule: "all generated statements with blanks and comments in their gaps: all calls", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.any()
					if c.Skip {
						return nil
					}
					var b strings.Builder
					v := c.Free(3)
					for i, l := range g.L {
						if i > 0 {
							fill(&b, [][]string{{" "}, {" ", "-- c\n", "\n", "/* d */"}, {"/* a\n*/", "\n\n-- c\n\n", "\r\n", "/* d */ -- e\n"}}[v][i%[]int{1, 4, 4}[v]])
						}
						b.WriteString(l.S)
					}
					b.WriteString([]string{"", " -- end", ";\n/* end */"}[v])
					c.Desc = b.String()
					return c23Parse(c, c.Desc, generic, 0, 1, 2)
				}},
				{Name: "large parts", Bound: n(0, 1), Thorough: 1, Rule: "statements with one large part: list, name, literal, chain, nest: all calls", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.scaled(5000)
					c.Desc = render(g.L) + " -- end"
					return c23Parse(c, c.Desc, generic, 0, 1, 2)
				}},
				{Name: "large pieces", Rule: "large comments and blanks in three statements: all calls", Bound: 1, Run: func(c *Chooser) *Fail {
					x := largeBlanks[c.Free(len(largeBlanks))](pickSize(c, 5000))
					c.Desc = []string{x + "SELECT 1 /* e */", "SELECT 1 " + x + " + /* f */ 2", "SELECT 1; " + x + " DELETE FROM t", "SELECT 1;" + x, "SELECT 1" + x + ")"}[c.Free(5)]
					return c23Parse(c, c.Desc, generic, 0, 1, 2)
				}},
				{Name: "cut statements", Bound: 1, Thorough: 2, Rule: "all generated statements cut short, with one lexeme dropped or doubled, or one gap with a comment: all calls", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.plainLits, g.plainIdents = true, true
					g.any()
					if c.Skip {
						return nil
					}
					L := lexTexts(g.L)
					k := c.Free(len(L))
					switch c.Free(5) {
					case 0:
						L = L[:k]
					case 1:
						L = append(append([]string(nil), L[:k]...), L[k+1:]...)
					case 2:
						L = append(append(append([]string(nil), L[:k]...), L[k]), L[k:]...)
					case 3:
						L[k] += " /* c */"
					case 4:
						L[k] += " -- c\n"
					}
					c.Desc = joinLex(L)
					return c23Parse(c, c.Desc, generic, 0, 1, 2)
				}},
				{Name: "expressions", Bound: 2, Thorough: 3, Rule: "all generated expressions with comments: ParseExpr", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.expr()
					if c.Skip {
						return nil
					}
					c.Desc = strings.Join(lexTexts(g.L), []string{" ", " -- c\n", "/* d */\n"}[c.Free(3)])
					return c23Parse(c, c.Desc, generic, 3)
				}},
				{Name: "types", Bound: 3, Thorough: 4, Rule: "all generated types with comments: ParseDataType", Run: func(c *Chooser) *Fail {
					g := newG(c)
					g.dataType()
					if c.Skip {
						return nil
					}
					c.Desc = strings.Join(lexTexts(g.L), []string{" ", " -- c\n", "/* d */\n"}[c.Free(3)])
					return c23Parse(c, c.Desc, generic, 4)
				}},
			}
			return append(sps, c05More("quick", 0, func(c *Chooser, src string) *Fail {
				c.Desc = src + " /* c */"
				return c23Parse(c, c.Desc, generic, 0, 1, 2)
			})[:2]...)
		},
	})
}
