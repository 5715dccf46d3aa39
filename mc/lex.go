package main

// The reference lexer: the lexical rules of the dialects, over the characters of the input.

import (
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// charClasses says what a dialect takes for identifiers.
type charClasses struct {
	start, part, delim func(r rune) bool
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const digits = "0123456789"

func oneOf(set string) func(r rune) bool {
	return func(r rune) bool { return strings.ContainsRune(set, r) && r != utf8.RuneError }
}

var builtinClasses = []charClasses{
	{oneOf(letters + "@"), oneOf(letters + digits + "@_"), oneOf(`"`)},
	{oneOf(letters + "@"), oneOf(letters + digits + "@_"), oneOf("\"`")},
	{oneOf(letters + "_"), oneOf(letters + digits + "$_"), oneOf("\"`")},
}

type rPos struct{ line, col int }

type rTok struct {
	kind     sqltoken.Kind
	val      string
	quote    rune // of a delimited identifier
	from, to rPos
	src      string // the text of the token
}

var refSymbols = []struct {
	s string
	k sqltoken.Kind
}{ // the longest first
	{"!=", sqltoken.Neq}, {"<>", sqltoken.Neq}, {"<=", sqltoken.LtEq}, {">=", sqltoken.GtEq}, {"::", sqltoken.DoubleColon},
	{"(", sqltoken.LParen}, {")", sqltoken.RParen}, {",", sqltoken.Comma}, {"-", sqltoken.Minus}, {"/", sqltoken.Div},
	{"+", sqltoken.Plus}, {"*", sqltoken.Mult}, {"%", sqltoken.Mod}, {"=", sqltoken.Eq}, {".", sqltoken.Period},
	{"<", sqltoken.Lt}, {">", sqltoken.Gt}, {":", sqltoken.Colon}, {";", sqltoken.Semicolon}, {"\\", sqltoken.Backslash},
	{"[", sqltoken.LBracket}, {"]", sqltoken.RBracket}, {"&", sqltoken.Ampersand}, {"{", sqltoken.LBrace}, {"}", sqltoken.RBrace},
}

// decode gives the characters of an input: a byte order mark at its start is no character, and each byte that is
// not valid UTF-8 is the replacement character.
func decode(src string) []rune {
	src = strings.TrimPrefix(src, "\ufeff")
	return []rune(src)
}

// advanceRef is the position after text that starts at p, with tab columns for a tab.
func advanceRef(p rPos, text []rune, tab int) rPos {
	for i := 0; i < len(text); i++ {
		switch {
		case text[i] == '\n' || text[i] == '\r':
			if text[i] == '\r' && i+1 < len(text) && text[i+1] == '\n' {
				i++
			}
			p.line++
			p.col = 1
		case text[i] == '\t':
			p.col += tab
		default:
			p.col++
		}
	}
	return p
}

// refLex splits an input into tokens; ok is false if the input is lexically wrong.
func refLex(in []rune, cc charClasses) (toks []rTok, ok bool) {
	p := rPos{1, 1}
	i := 0
	emit := func(n int, k sqltoken.Kind, val string, quote rune) {
		text := in[i : i+n]
		tab := 1
		if k == sqltoken.Whitespace {
			tab = 4
		}
		q := advanceRef(p, text, tab)
		toks = append(toks, rTok{k, val, quote, p, q, string(text)})
		p = q
		i += n
	}
	at := func(j int) rune {
		if j < len(in) {
			return in[j]
		}
		return -1
	}
	// find is the index of the first r at or after j, or -1
	find := func(j int, r rune) int {
		for ; j < len(in); j++ {
			if in[j] == r {
				return j
			}
		}
		return -1
	}
	// str reads a quoted string that opens at j: its value and the index after it
	str := func(j int) (string, int) {
		var b strings.Builder
		for j++; ; j++ {
			e := find(j, '\'')
			if e < 0 {
				return "", -1
			}
			b.WriteString(string(in[j:e]))
			if at(e+1) != '\'' {
				return b.String(), e + 1
			}
			b.WriteByte('\'')
			j = e + 1
		}
	}
next:
	for i < len(in) {
		r := in[i]
		switch {
		case r == ' ':
			emit(1, sqltoken.Whitespace, " ", 0)
			continue
		case r == '\t':
			emit(1, sqltoken.Whitespace, "\t", 0)
			continue
		case r == '\n':
			emit(1, sqltoken.Whitespace, "\n", 0)
			continue
		case r == '\r':
			n := 1
			if at(i+1) == '\n' {
				n = 2
			}
			emit(n, sqltoken.Whitespace, "\n", 0)
			continue
		case r == 'N' && at(i+1) == '\'':
			v, e := str(i + 1)
			if e < 0 {
				return toks, false
			}
			emit(e-i, sqltoken.NationalStringLiteral, v, 0)
			continue
		case cc.start(r):
			j := i + 1
			for j < len(in) && cc.part(in[j]) {
				j++
			}
			emit(j-i, sqltoken.SQLKeyword, string(in[i:j]), 0)
			continue
		case r == '\'':
			v, e := str(i)
			if e < 0 {
				return toks, false
			}
			emit(e-i, sqltoken.SingleQuotedString, v, 0)
			continue
		case cc.delim(r):
			end := r
			if r == '[' {
				end = ']'
			}
			e := find(i+1, end)
			if e < 0 {
				return toks, false
			}
			emit(e+1-i, sqltoken.SQLKeyword, string(in[i+1:e]), r)
			continue
		case r >= '0' && r <= '9':
			j := i
			for at(j) >= '0' && at(j) <= '9' || at(j) == '.' {
				j++
			}
			emit(j-i, sqltoken.Number, string(in[i:j]), 0)
			continue
		case r == '-' && at(i+1) == '-':
			j := i + 2
			for j < len(in) && in[j] != '\n' && in[j] != '\r' {
				j++
			}
			emit(j-i, sqltoken.Comment, string(in[i+2:j]), 0)
			continue
		case r == '/' && at(i+1) == '*':
			j := i + 2
			for !(at(j) == '*' && at(j+1) == '/') {
				if j >= len(in) {
					return toks, false
				}
				j++
			}
			emit(j+2-i, sqltoken.Comment, string(in[i+2:j]), 0)
			continue
		}
		for _, s := range refSymbols {
			if r == rune(s.s[0]) && (len(s.s) == 1 || at(i+1) == rune(s.s[1])) {
				emit(len(s.s), s.k, s.s, 0)
				continue next
			}
		}
		if r == '!' {
			return toks, false
		}
		emit(1, sqltoken.Char, string(r), 0)
	}
	return toks, true
}

// refWord is the keyword a word stands for ("" if none): delimited identifiers are never keywords.
func isKeyword(w string) bool {
	_, ok := dialect.Keywords[asciiUpper(w)]
	return ok
}

// asciiUpper is the spelling in capitals; letters other than a to z have no part in keywords.
func asciiUpper(w string) string {
	return strings.Map(func(r rune) rune {
		if 'a' <= r && r <= 'z' {
			return r - 'a' + 'A'
		}
		return r
	}, w)
}

// tokValue gives the value and the delimiter of a token of the real tokenizer.
func tokValue(t *sqltoken.Token) (string, rune, bool) {
	switch v := t.Value.(type) {
	case string:
		return v, 0, t.Kind != sqltoken.SQLKeyword
	case *sqltoken.SQLWord:
		return v.Value, v.QuoteStyle, t.Kind == sqltoken.SQLKeyword
	}
	return "", 0, false
}
