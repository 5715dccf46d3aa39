package main

import (
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
)

func sortedKeywords() []string {
	var l []string
	for k := range dialect.Keywords {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// spellings are five letter cases of a word.
func spellings(w string) []string {
	lo, up := strings.ToLower(w), strings.ToUpper(w)
	mix, mix2 := []byte(lo), []byte(up)
	for i := range mix {
		if i%2 == 0 {
			mix[i] = up[i]
			mix2[i] = lo[i]
		}
	}
	return []string{up, lo, up[:1] + lo[1:], string(mix), string(mix2)}
}
