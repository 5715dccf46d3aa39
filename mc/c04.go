package main

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
)

// literalFrames: a statement with one literal at $ and no other number or literal.
var literalFrames = []string{
	"SELECT $",
	"SELECT $ AS a FROM t",
	"SELECT a FROM t WHERE b = $",
	"SELECT a FROM t WHERE $ < b",
	"SELECT a FROM t WHERE b LIKE $",
	"SELECT a FROM t WHERE b IN ( c , $ )",
	"SELECT a FROM t WHERE b BETWEEN $ AND c",
	"SELECT a FROM t WHERE b BETWEEN c AND $",
	"SELECT a FROM t GROUP BY $ HAVING b",
	"SELECT a FROM t GROUP BY a HAVING b > $",
	"SELECT a FROM t ORDER BY $",
	"SELECT f ( a , $ )",
	"SELECT f ( a ) OVER ( PARTITION BY $ )",
	"SELECT CASE $ WHEN a THEN b END",
	"SELECT CASE WHEN $ THEN b END",
	"SELECT CASE WHEN a THEN $ ELSE b END",
	"SELECT CASE WHEN a THEN b ELSE $ END",
	"SELECT CAST ( $ AS TEXT )",
	"SELECT $ :: TEXT",
	"SELECT ( $ )",
	"SELECT a FROM f ( $ )",
	"SELECT a FROM t JOIN u ON b = $",
	"SELECT a FROM ( SELECT $ ) AS t",
	"SELECT a UNION SELECT $",
	"WITH w AS ( SELECT $ ) SELECT a",
	"INSERT INTO t ( a ) VALUES ( $ )",
	"INSERT INTO t ( a , b ) VALUES ( a , b ) , ( c , $ )",
	"INSERT INTO t ( a ) SELECT $",
	"INSERT INTO t ( a ) VALUES ( b ) ON DUPLICATE KEY UPDATE a = $",
	"UPDATE t SET a = $",
	"UPDATE t SET a = b WHERE c <> $",
	"DELETE FROM t WHERE a = $",
	"CREATE TABLE t ( a INT DEFAULT $ )",
	"CREATE TABLE t ( a INT DEFAULT $ UNIQUE )",
	"CREATE TABLE t ( a INT CHECK ( a > $ ) )",
	"CREATE TABLE t ( CHECK ( a > $ ) )",
	"CREATE VIEW v AS SELECT $",
	"CREATE INDEX i ON t ( a ) WHERE b = $",
	"ALTER TABLE t ALTER COLUMN a SET DEFAULT $",
	"ALTER TABLE t ADD COLUMN a INT DEFAULT $",
	"EXPLAIN SELECT $",
}

// sizeFrames: a statement with one non-negative integer at $ and no other number.
var sizeFrames = []string{
	"CREATE TABLE t ( a VARCHAR ( $ ) )",
	"CREATE TABLE t ( a CHAR ( $ ) )",
	"CREATE TABLE t ( a CHARACTER VARYING ( $ ) )",
	"CREATE TABLE t ( a FLOAT ( $ ) )",
	"CREATE TABLE t ( a NUMERIC ( $ ) )",
	"SELECT CAST ( a AS VARCHAR ( $ ) )",
	"ALTER TABLE t ALTER COLUMN a TYPE NUMERIC ( $ )",
	"SELECT a :: CHAR ( $ )",
	"SELECT a FROM t LIMIT $",
	"SELECT f ( a ) OVER ( ORDER BY b ROWS $ PRECEDING )",
	"SELECT f ( a ) OVER ( ORDER BY b ROWS BETWEEN $ PRECEDING AND CURRENT ROW )",
	"SELECT f ( a ) OVER ( ORDER BY b ROWS BETWEEN CURRENT ROW AND $ FOLLOWING )",
}

// literalsIn lists the literals of a tree as text: kind and exact value.
func literalsIn(st sqlast.Node) []string {
	var l []string
	for _, n := range refNodes(st) {
		switch n := n.(type) {
		case *sqlast.SingleQuotedString:
			l = append(l, "string "+n.String)
		case *sqlast.NationalStringLiteral:
			l = append(l, "national "+n.String)
		case *sqlast.LongValue:
			l = append(l, fmt.Sprintf("integer %d", n.Long))
		case *sqlast.DoubleValue:
			l = append(l, "decimal "+new(big.Rat).SetFloat64(n.Double).String())
		case *sqlast.BooleanValue:
			l = append(l, fmt.Sprintf("boolean %v", n.Boolean))
		case *sqlast.NullValue:
			l = append(l, "null")
		default:
			l = append(l, sizesIn(reflect.ValueOf(n))...)
		}
	}
	return l
}

// valueText is what the Value method of a literal says, written like literalsIn.
func valueText(n sqlast.Value) string {
	switch v := n.Value().(type) {
	case nil:
		return "null"
	case string:
		if _, ok := n.(*sqlast.NationalStringLiteral); ok {
			return "national " + v
		}
		return "string " + v
	case bool:
		return fmt.Sprintf("boolean %v", v)
	case float64:
		return "decimal " + new(big.Rat).SetFloat64(v).String()
	case int64, int, uint64, uint, int32:
		return fmt.Sprintf("integer %d", v)
	}
	return "something else"
}

func sizesIn(v reflect.Value) []string {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	var l []string
	for _, f := range fieldsOf(v.Type()) {
		x := v.Field(f.i)
		if x.Kind() == reflect.Ptr && x.Type().Elem().Kind() >= reflect.Int && x.Type().Elem().Kind() <= reflect.Uint64 {
			if x.IsNil() {
				continue
			}
			x = x.Elem()
		} else if v.Type() == reflect.TypeOf(sqlast.Operator{}) || v.Type() == reflect.TypeOf(sqlast.JoinType{}) || v.Type() == reflect.TypeOf(sqlast.WindowFrameUnit{}) {
			continue
		}
		if f.pos {
			continue
		}
		switch x.Kind() {
		case reflect.Uint, reflect.Uint64, reflect.Uint32:
			l = append(l, fmt.Sprintf("integer %d", x.Uint()))
		case reflect.Int, reflect.Int64, reflect.Int32:
			l = append(l, fmt.Sprintf("integer %d", x.Int()))
		}
	}
	return l
}

func c04Run(frame, lit, want string, mayReject bool) *Fail {
	src := strings.Replace(frame, "$", lit, 1)
	st, err := parseOne(src, generic)
	if err != nil {
		if mayReject {
			return nil
		}
		return failf("rejected: %v", err)
	}
	got := literalsIn(st)
	if len(got) != 1 || got[0] != want {
		return failf("the literal is %q, want %q", got, want)
	}
	for _, n := range refNodes(st) {
		if v, ok := n.(sqlast.Value); ok && valueText(v) != want {
			return failf("Value() of the literal is %#v, want %q", v.Value(), want)
		}
	}
	text, f := printAll(st)
	if f != nil {
		return f
	}
	st2, err := parseOne(text, generic)
	if err != nil {
		return failf("printed as %q, which is rejected: %v", text, err)
	}
	if got := literalsIn(st2); len(got) != 1 || got[0] != want {
		return failf("printed as %q, whose literal is %q, want %q", text, got, want)
	}
	// the printed text holds exactly this literal by the lexical rules
	toks, ok := refLex(decode(text), builtinClasses[0])
	if !ok {
		return failf("printed as %q, which is lexically wrong", text)
	}
	var lits []string
	for _, t := range toks {
		if w := refLiteral(t); w != "" {
			lits = append(lits, w)
		}
	}
	if len(lits) != 1 || lits[0] != want {
		return failf("printed as %q, whose literal is %q, want %q", text, lits, want)
	}
	return nil
}

// refLiteral is the value a token denotes as a literal, or "".
func refLiteral(t rTok) string {
	switch {
	case t.val == "" && t.src == "":
		return ""
	case t.src[0] == '\'':
		return "string " + t.val
	case strings.HasPrefix(t.src, "N'"):
		return "national " + t.val
	case t.src[0] >= '0' && t.src[0] <= '9':
		w, _ := numberValue(t.val)
		return w
	}
	if t.quote == 0 {
		switch strings.ToUpper(t.val) {
		case "TRUE", "FALSE":
			return "boolean " + strings.ToLower(t.val)
		case "NULL":
			return "null"
		}
	}
	return ""
}

// numberValue is what a number text denotes; ok is false if it is malformed or cannot be represented.
func numberValue(s string) (string, bool) {
	dot := strings.Count(s, ".")
	if dot > 1 || s == "" || s[0] == '.' {
		return "", false
	}
	if dot == 0 {
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || !n.IsInt64() {
			return "", false
		}
		return "integer " + n.String(), true
	}
	r, ok := new(big.Rat).SetString(strings.TrimSuffix(s, "."))
	if !ok {
		return "", false
	}
	f, _ := r.Float64()
	v := new(big.Rat).SetFloat64(f)
	if v == nil {
		return "", false
	}
	return "decimal " + v.String(), true
}

var boundaryNumbers = []string{
	"9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
	"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9007199254740992", "9007199254740993", "9007199254740991",
	"99999999999999999999", "36893488147419103233", "340282366920938463463374607431768211457", "000000000000000000000000000001", "0000009223372036854775807", "0000009223372036854775808",
	"9223372036854775807.0", "9223372036854775808.0", "9007199254740993.0", "0.1", "0.30000000000000004", "0.1000000000000000055511151231257827", "123456789.987654321", "1000000.0", "100000000000000000000.0", "1000000000000000000000.0", "10000000000000000000000000.5",
	"0.0000001", "0.000000000000000000000000001", "0.00000000000000000000000000000000000000000000000000000000000000000001", "4.35", "2.675", "1.005", "3.14159265358979323846264338327950288", "00.50", "0.", "00.", "1.10", "255", "256", "65535", "65536", "127", "128",
	"179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764.0",
	strings.Repeat("9", 308) + ".0", "1" + strings.Repeat("0", 309) + ".0", strings.Repeat("9", 400) + ".0", strings.Repeat("9", 400), "0." + strings.Repeat("0", 323) + "5", "0." + strings.Repeat("0", 400) + "5", strings.Repeat("1", 40) + "." + strings.Repeat("3", 40),
}

func init() {
	alpha := []string{"a", "'", "\\", "\"", "\n", "é", "-", ";", "\t", "\r", "%", "*", "/", " ", "N", "`", "\x00", "日"}
	register(&Check{
		ID:    "C04",
		Level: "exploration",
		Rule:  "one case per literal text and kind, evaluated in each of the places; distinct literal texts counted",
		Assumptions: []string{
			"a decimal is represented by the nearest double",
			"longer literals behave as the enumerated ones",
		},
		Spaces: func(tier string) []*Space {
			n, dn := 4, 6
			if tier == "thorough" {
				n, dn = 5, 8
			}
			strSpace := func(name string, k int, frames []string) *Space {
				return &Space{Name: name, Rule: fmt.Sprintf("all string values of up to %d characters out of %d, plain and national, in %d places", k, len(alpha), len(frames)), Run: func(c *Chooser) *Fail {
					var b strings.Builder
					for i, m := 0, c.Free(k+1); i < m; i++ {
						b.WriteString(alpha[c.Free(len(alpha))])
					}
					v := b.String()
					lit, want := quoteSQL(v), "string "+v
					if c.Free(2) == 1 {
						lit, want = "N"+lit, "national "+v
					}
					c.Hash = lit
					for _, fr := range frames {
						c.Desc = strings.Replace(fr, "$", lit, 1)
						if f := c04Run(fr, lit, want, false); f != nil {
							return f
						}
					}
					c.Evals = len(frames)
					return nil
				}}
			}
			num := func(c *Chooser, lit string, frames []string) *Fail {
				want, ok := numberValue(lit)
				c.Hash = lit
				c.Evals = len(frames)
				for _, fr := range frames {
					c.Desc = strings.Replace(fr, "$", lit, 1)
					if !ok {
						if st, err := parseOne(c.Desc, generic); err == nil {
							return failf("accepted with %q, although the number is malformed or cannot be represented", literalsIn(st))
						}
						continue
					}
					if f := c04Run(fr, lit, want, false); f != nil {
						return f
					}
				}
				return nil
			}
			size := func(c *Chooser, lit string, frames []string) *Fail {
				want, ok := numberValue(lit)
				ok = ok && !strings.Contains(lit, ".")
				if v, okU := new(big.Int).SetString(lit, 10); okU && !ok && v.IsUint64() {
					want = "integer " + v.String()
				}
				c.Hash = lit
				c.Evals = len(frames)
				for _, fr := range frames {
					c.Desc = strings.Replace(fr, "$", lit, 1)
					if f := c04Run(fr, lit, want, !ok); f != nil {
						return f
					}
				}
				return nil
			}
			digitText := func(c *Chooser, alpha string, k int) string {
				var b strings.Builder
				b.WriteByte("019"[c.Free(3)])
				for i, m := 0, c.Free(k); i < m; i++ {
					b.WriteByte(alpha[c.Free(len(alpha))])
				}
				return b.String()
			}
			numFrames := append([]string(nil), literalFrames...)
			return []*Space{
				strSpace("strings", 3, literalFrames),
				{Name: "large literals", Rule: "strings and numbers of every length up to 300 and some lengths up to 4097, in all places", Run: func(c *Chooser) *Fail {
					m := c.Free(300 + len(sizesB))
					if m >= 300 {
						m = sizesB[m-300]
					} else {
						m++
					}
					rep := func(s string) string { return strings.Repeat(s, m) }
					k := c.Free(13)
					if k >= 6 {
						lit := []string{rep("0"), rep("0") + "7", "0." + rep("3"), "1." + rep("0") + "5", rep("0") + "1.5", "12345678" + "." + rep("9"), rep("9") + ".5"}[k-6]
						return num(c, lit, literalFrames)
					}
					v := []string{longString(m), rep("'"), rep("x"), rep("\n"), rep("é"), rep("a\r\n ")}[k]
					lit, want := quoteSQL(v), "string "+v
					if c.Free(2) == 1 {
						lit, want = "N"+lit, "national "+v
					}
					c.Hash, c.Evals = lit, len(literalFrames)
					for _, fr := range literalFrames {
						c.Desc = strings.Replace(fr, "$", lit, 1)
						if f := c04Run(fr, lit, want, false); f != nil {
							return f
						}
					}
					return nil
				}},
				strSpace("long strings", n, []string{literalFrames[0], literalFrames[2], literalFrames[25], literalFrames[32]}),
				{Name: "characters", Rule: "every character of the basic plane in plain and national strings", Run: func(c *Chooser) *Fail {
					r := rune(c.Free(256)<<8 | c.Free(256))
					if r >= 0xd800 && r < 0xe000 {
						c.Skip = true
						return nil
					}
					v := string(r) + "a" + string(r)
					c.Desc = "'" + v + "'"
					c.Evals = 4
					for _, fr := range []string{literalFrames[0], literalFrames[25]} {
						if f := c04Run(fr, quoteSQL(v), "string "+v, false); f != nil {
							return f
						}
						if f := c04Run(fr, "N"+quoteSQL(v), "national "+v, false); f != nil {
							return f
						}
					}
					return nil
				}},
				{Name: "numbers", Rule: "all number texts over 0 1 9 . up to a length, in all places", Run: func(c *Chooser) *Fail { return num(c, digitText(c, "019.", 4), numFrames) }},
				{Name: "long numbers", Rule: "all number texts over 0 5 9 . up to a length", Run: func(c *Chooser) *Fail { return num(c, digitText(c, "059.", dn), numFrames[:3]) }},
				{Name: "boundary numbers", Rule: "numbers around the limits of integers and doubles, in all places", Run: func(c *Chooser) *Fail { return num(c, boundaryNumbers[c.Free(len(boundaryNumbers))], numFrames) }},
				{Name: "sizes", Rule: "all number texts as sizes, precisions, limits, offsets and window bounds", Run: func(c *Chooser) *Fail { return size(c, digitText(c, "019.", 4), sizeFrames) }},
				{Name: "boundary sizes", Rule: "boundary numbers as sizes, precisions, limits, offsets and window bounds", Run: func(c *Chooser) *Fail {
					return size(c, boundaryNumbers[c.Free(len(boundaryNumbers))], sizeFrames)
				}},
				{Name: "two sizes", Rule: "precision and scale, limit and offset, two window bounds", Run: func(c *Chooser) *Fail {
					l := []string{"0", "1", "10", "255", "18", "4294967296", "9223372036854775807"}
					a, b := l[c.Free(len(l))], l[c.Free(len(l))]
					c.Desc = []string{"CREATE TABLE t ( a NUMERIC ( " + a + " , " + b + " ) )", "SELECT a FROM t LIMIT " + a + " OFFSET " + b,
						"SELECT f ( a ) OVER ( ORDER BY b ROWS BETWEEN " + a + " PRECEDING AND " + b + " FOLLOWING )"}[c.Free(3)]
					st, err := parseOne(c.Desc, generic)
					if err != nil {
						return failf("rejected: %v", err)
					}
					for i := 0; i < 2; i++ {
						if got := literalsIn(st); len(got) != 2 || got[0] != "integer "+a || got[1] != "integer "+b {
							return failf("sizes %q", got)
						}
						if st, err = parseOne(st.ToSQLString(), generic); err != nil {
							return failf("printed text rejected: %v", err)
						}
					}
					return nil
				}},
				{Name: "words", Rule: "TRUE, FALSE and NULL in five spellings, in all places", Run: func(c *Chooser) *Fail {
					w := []string{"TRUE", "FALSE", "NULL"}[c.Free(3)]
					want := map[string]string{"TRUE": "boolean true", "FALSE": "boolean false", "NULL": "null"}[w]
					w = spellings(w)[c.Free(5)]
					for _, fr := range literalFrames {
						c.Desc = strings.Replace(fr, "$", w, 1)
						if f := c04Run(fr, w, want, false); f != nil {
							return f
						}
					}
					c.Hash, c.Evals = w, len(literalFrames)
					return nil
				}},
			}
		},
	})
}
