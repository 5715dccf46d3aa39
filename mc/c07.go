package main

import (
	"fmt"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

var userDialects = []*setDialect{
	{start: letters + "é", part: letters + digits + "é日😀", delim: "\""},
	{start: letters + "日#", part: letters + "é#", delim: "[é"},
	{start: "😀", part: "a😀\"", delim: "日#"},
}

func realTokens(src string, d dialect.Dialect) ([]*sqltoken.Token, error) {
	return sqltoken.NewTokenizer(strings.NewReader(src), d).Tokenize()
}

func showToks(ts []*sqltoken.Token) string {
	var b strings.Builder
	for _, t := range ts {
		v, q, _ := tokValue(t)
		fmt.Fprintf(&b, "%v(%q", t.Kind, v)
		if q != 0 {
			fmt.Fprintf(&b, " in %c", q)
		}
		b.WriteString(") ")
	}
	return b.String()
}

func showRef(ts []rTok) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%v(%q", t.kind, t.val)
		if t.quote != 0 {
			fmt.Fprintf(&b, " in %c", t.quote)
		}
		b.WriteString(") ")
	}
	return b.String()
}

// sameTokens compares kinds and values.
func sameTokens(got []*sqltoken.Token, want []rTok) string {
	if len(got) == len(want) {
		same := true
		for i, t := range got {
			v, q, ok := tokValue(t)
			w := want[i]
			if !ok || t.Kind != w.kind || v != w.val || q != w.quote {
				same = false
				break
			}
			if t.Kind == sqltoken.SQLKeyword {
				// a word tells the keyword it is
				kw := t.Value.(*sqltoken.SQLWord).Keyword
				if q == 0 && isKeyword(v) && kw != asciiUpper(v) {
					return fmt.Sprintf("word %q stands for keyword %q", v, kw)
				}
			}
		}
		if same {
			return ""
		}
	}
	return fmt.Sprintf("tokens %s, want %s", showToks(got), showRef(want))
}

func c07Check(src string, di int) *Fail {
	got, err := realTokens(src, dialects[di])
	want, ok := refLex(decode(src), builtinClasses[di])
	if !ok {
		if err == nil {
			return failf("%s: accepted as %s, want an error after %s", dnames[di], showToks(got), showRef(want))
		}
		return nil
	}
	if err != nil {
		return failf("%s: error %v, want %s", dnames[di], err, showRef(want))
	}
	if x := sameTokens(got, want); x != "" {
		return failf("%s: %s", dnames[di], x)
	}
	return nil
}

func c08Check(src string, di int) *Fail {
	return c08Positions(src, dnames[di], dialects[di], builtinClasses[di])
}

func c08Positions(src, name string, d dialect.Dialect, cc charClasses) *Fail {
	in := decode(src)
	got, err := realTokens(src, d)
	want, ok := refLex(in, cc)
	if err != nil || !ok {
		if err == nil {
			return failf("%s: accepted a wrong input", name)
		}
		return nil
	}
	at := sqltoken.Pos{Line: 1, Col: 1}
	for i, t := range got {
		if t.From != at {
			return failf("%s: token %d of %s starts at %v, want %v", name, i, showToks(got), t.From, at)
		}
		at = t.To
	}
	if len(got) != len(want) {
		return failf("%s: tokens %s, want %s", name, showToks(got), showRef(want))
	}
	for i, t := range got {
		f, e := want[i].from, want[i].to
		if t.From != (sqltoken.Pos{Line: f.line, Col: f.col}) || t.To != (sqltoken.Pos{Line: e.line, Col: e.col}) {
			return failf("%s: token %d of %s spans %v to %v, want %v to %v", name, i, showToks(got), t.From, t.To, f, e)
		}
	}
	return nil
}

var (
	alphaAll    = strings.Split("a N S _ @ $ 1 . ' \" ` [ ] - * / + ! < > = : ; ( ) , % \\ & { } # é", " ")
	alphaBlank  = []string{" ", "\t", "\n", "\r"}
	alphaQuotes = []string{"a", "'", "\"", "`", "N", "-", "*", "/", "\n", "\r", " ", "\t"}
	alphaOps    = []string{"a", "1", ".", "<", ">", "=", "!", ":", "-", "/", "*", " ", "\n"}
	alphaMarks  = []string{"'", "N", "-", "*", "/", "\n", "\r"}
	alphaBytes  = []string{"a", " ", "'", "\"", "-", "\n", "\x00", "\xff", "\xc3", "\xa9", "\xef\xbb\xbf", "\ufffd", "\u2028", "\v", "\f", "\u00a0", "😀", "é", "٣", "'"}
)

func textSpace(name string, alpha []string, n int, rule string, run func(src string, di int) *Fail) *Space {
	return &Space{Name: name, Rule: fmt.Sprintf("all texts of up to %d characters out of %d, for three dialects%s", n, len(alpha), rule), Run: func(c *Chooser) *Fail {
		k := c.Free(n + 1)
		var b strings.Builder
		for i := 0; i < k; i++ {
			b.WriteString(alpha[c.Free(len(alpha))])
		}
		c.Desc = b.String()
		c.Evals = 3
		for di := range dialects {
			if f := run(c.Desc, di); f != nil {
				return f
			}
		}
		return nil
	}}
}

// lexemes are what longer texts are put together from.
var textLexemes = []string{"a", "select", "N'x'", "'it''s'", "'a\nb'", `"q w"`, "\"x\ty\"", "`b`", "[c]", "12.5", "-- c\n", "--c\r\n", "--", "/* d */", "/*\n**\r\n*/", "/**/", "<>", "<=", "::", "!=", "-", "/", "*", ".", ";", "(", "\t", "\r\n", " ", "é", "_z", "@v", "$1", "\\", "'", "/*", "'''"}

func textSpaces(tier string, run func(src string, di int) *Fail) []*Space {
	all := append(append([]string(nil), alphaAll...), alphaBlank...)
	th := tier == "thorough"
	n := func(q, t int) int {
		if th {
			return t
		}
		return q
	}
	sps := []*Space{
		textSpace("characters", all, n(4, 5), "", run),
		textSpace("quotes and comments", alphaQuotes, n(5, 6), "", run),
		textSpace("comment marks", alphaMarks, n(7, 8), "", run),
		textSpace("operators", alphaOps, n(5, 6), "", run),
		textSpace("odd bytes", alphaBytes, n(4, 5), "", run),
		textSpace("lexemes", textLexemes, n(3, 4), "", run),
	}
	return sps
}

func init() {
	register(&Check{
		ID:    "C07",
		Level: "exploration",
		Rule:  "one case per text, evaluated for three dialects; distinct texts counted",
		Assumptions: []string{
			"the lexical rules are those of the reference lexer (mc/lex.go)",
			"longer texts behave as the enumerated ones",
		},
		Spaces: func(tier string) []*Space {
			sps := textSpaces(tier, c07Check)
			sps = append(sps, wordSpaces(c07Check)...)
			sps = append(sps, largeTextSpaces(c07Check)...)
			return sps
		},
	})
	register(&Check{
		ID:    "C08",
		Level: "exploration",
		Rule:  "one case per text, evaluated for three dialects; distinct texts counted",
		Assumptions: []string{
			"the lexical rules are those of the reference lexer (mc/lex.go)",
			"longer texts behave as the enumerated ones",
		},
		Spaces: func(tier string) []*Space {
			sps := textSpaces(tier, c08Check)
			sps = append(sps, wordSpaces(c08Check)...)
			sps = append(sps, largeTextSpaces(c08Check)...)
			k := 4
			if tier == "thorough" {
				k = 6
			}
			sps = append(sps, &Space{Name: "user dialects", Rule: "all texts of up to 4 (6) of 13 pieces, for three dialects that take characters beyond ASCII for identifiers and delimiters", Run: func(c *Chooser) *Fail {
				d := userDialects[c.Free(len(userDialects))]
				src := textOf(c, []string{"a", "é", "😀", "日", "#", " ", "\n", "\t", "\"", "'", "[", "]", "-"}, k)
				c.Desc = fmt.Sprintf("%s | %s", src, d)
				return c08Positions(src, "user dialect", d, d.classes())
			}})
			sps = append(sps, &Space{Name: "statements", Bound: 2, Thorough: 3, Rule: "statements over several lines", Run: func(c *Chooser) *Fail {
				g := newG(c)
				g.any()
				gaps := []string{" ", "\n", "\r\n\t", " -- c\n", "/* a\n b */"}
				k := c.Free(len(gaps))
				var b strings.Builder
				for i, l := range g.L {
					if i > 0 {
						b.WriteString(gaps[k])
					}
					b.WriteString(l.S)
				}
				c.Desc = b.String()
				for di := range dialects {
					if f := c08Check(c.Desc, di); f != nil {
						return f
					}
				}
				return nil
			}})
			return sps
		},
	})
}

// wordSpaces: every keyword in several spellings and settings; every character of the basic planes in a few places.
func wordSpaces(run func(src string, di int) *Fail) []*Space {
	kws := sortedKeywords()
	return []*Space{
		{Name: "keywords", Rule: "every keyword in five spellings, alone, delimited and next to other characters", Run: func(c *Chooser) *Fail {
			w := kws[c.Free(len(kws))]
			w = spellings(w)[c.Free(5)]
			c.Desc = []string{w, w + "1", `"` + w + `"`, "`" + w + "`", "'" + w + "'", w + "." + w, w + "'x'", "1" + w, "(" + w + ")", w + "\n" + w}[c.Free(10)]
			for di := range dialects {
				if f := run(c.Desc, di); f != nil {
					return f
				}
			}
			return nil
		}},
		{Name: "all characters", Rule: "every character of the basic plane, between others and in words, strings, comments and delimited identifiers", Run: func(c *Chooser) *Fail {
			hi, lo := c.Free(256), c.Free(256)
			r := rune(hi<<8 | lo)
			if r >= 0xd800 && r < 0xe000 {
				c.Skip = true
				return nil
			}
			s := string(r)
			c.Desc = s + " a" + s + "b 1" + s + " 'x" + s + "' \"y" + s + "\" /*" + s + "*/--" + s
			for di := range dialects {
				for _, src := range []string{c.Desc, s, "a" + s, "1" + s + "a"} {
					if f := run(src, di); f != nil {
						return f
					}
				}
			}
			return nil
		}},
	}
}
