package main

import (
	"strings"
	"unicode"
)

// lookalikes are letters that Unicode takes for another case of an ASCII letter, or for a letter whose other case is one.
var lookalikes = map[rune]string{'S': "ſ", 'I': "ı", 'K': "\u212a"}

// alike respells a keyword with such letters: all of them, or the k-th only.
func alike(w string, k int) string {
	var b strings.Builder
	n := 0
	for _, r := range w {
		if x, ok := lookalikes[r]; ok {
			n++
			if k == 0 || n == k {
				b.WriteString(x)
				continue
			}
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

// alikeKeywords are the keywords that can be respelled.
func alikeKeywords() []string {
	var l []string
	for _, w := range sortedKeywords() {
		if strings.ContainsAny(w, "SIK") {
			l = append(l, w)
		}
	}
	return l
}

var letterDialect = funcDialect{
	func(r rune) bool { return unicode.IsLetter(r) },
	func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' },
	func(r rune) bool { return r == '"' },
}

// c22Lookalikes: a word with a letter beyond ASCII is no keyword.
func c22Lookalikes(c *Chooser) *Fail {
	g := newG(c)
	g.plainLits, g.plainIdents = true, true
	if c.Free(2) == 1 {
		g.focused()
	} else {
		g.stmt(c.Free(nStmts))
	}
	if c.Skip {
		return nil
	}
	k := c.Free(len(g.L))
	L := lexTexts(g.L)
	var name string
	switch g.L[k].K {
	case kIdent:
		kws := alikeKeywords()
		name = alike(kws[c.Free(len(kws))], c.Free(2))
	case kKw:
		name = alike(L[k], c.Free(3))
		if name == strings.ToLower(L[k]) {
			c.Skip = true
			return nil
		}
	default:
		c.Skip = true
		return nil
	}
	L[k] = "zzz"
	plain := joinLex(L)
	L[k] = name
	c.Desc = joinLex(L)
	want, err := parseSQL(plain, letterDialect)
	got, gerr := parseSQL(c.Desc, letterDialect)
	if (err == nil) != (gerr == nil) {
		return failf("error %v, with the name zzz: %v", gerr, err)
	}
	if err != nil {
		c.Triv = true
		return nil
	}
	if a, b := printStmts(got), strings.Replace(printStmts(want), "zzz", name, -1); a != b {
		return failf("read as %q, with the name zzz as %q", a, b)
	}
	return nil
}
