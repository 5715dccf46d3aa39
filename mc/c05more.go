package main

import (
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
)

// foreignPhrases are clauses and words of other SQL dialects and of later standards: where the parser takes one, the tree must hold it.
var foreignPhrases = strings.Split(strings.TrimSpace(`
TEMPORARY
TEMP
UNLOGGED
GLOBAL TEMPORARY
OR REPLACE
IF NOT EXISTS
IF EXISTS
CONCURRENTLY
MATERIALIZED
NOT MATERIALIZED
RECURSIVE
ONLY
LATERAL
TOP 5
TOP ( 5 ) PERCENT
ALL
DISTINCT
DISTINCT ON ( a )
DISTINCTROW
STRAIGHT_JOIN
SQL_NO_CACHE
HIGH_PRIORITY
LOW_PRIORITY
DELAYED
IGNORE
QUICK
INTO x
INTO TEMP x
INTO OUTFILE 'f'
OVERRIDING SYSTEM VALUE
FOR UPDATE
FOR UPDATE OF t NOWAIT
FOR UPDATE SKIP LOCKED
FOR SHARE
FOR NO KEY UPDATE
LOCK IN SHARE MODE
FOR READ ONLY
FETCH FIRST 5 ROWS ONLY
FETCH NEXT ROW ONLY
FETCH FIRST 5 PERCENT ROWS WITH TIES
OFFSET 3
OFFSET 3 ROWS
OFFSET 3 ROW
LIMIT 3
LIMIT ALL
, 3
BY 3
ROWS
NULLS FIRST
NULLS LAST
USING >
COLLATE x
COLLATE "x"
ASC
DESC
RETURNING *
RETURNING a AS b
ON CONFLICT DO NOTHING
ON CONFLICT ( a ) DO UPDATE SET a = 1
ON DUPLICATE KEY UPDATE a = 1
DEFAULT VALUES
ON DELETE CASCADE
ON DELETE SET NULL
ON DELETE NO ACTION
ON UPDATE CASCADE
ON UPDATE RESTRICT
ON UPDATE CURRENT_TIMESTAMP
MATCH FULL
MATCH SIMPLE
MATCH PARTIAL
DEFERRABLE
NOT DEFERRABLE
INITIALLY DEFERRED
DEFERRABLE INITIALLY IMMEDIATE
NOT VALID
ENFORCED
NOT ENFORCED
NO INHERIT
INHERITS ( u )
LIKE u INCLUDING ALL
PARTITION BY RANGE ( a )
PARTITION OF u
TABLESPACE x
WITH OIDS
WITHOUT OIDS
WITH ( fillfactor = 70 )
ON COMMIT DROP
ON COMMIT DELETE ROWS
AUTO_INCREMENT
AUTO_INCREMENT = 5
AUTOINCREMENT
IDENTITY
IDENTITY ( 1 , 1 )
GENERATED ALWAYS AS IDENTITY
GENERATED ALWAYS AS ( a + 1 ) STORED
COMMENT 'x'
COMMENT = 'x'
UNSIGNED
SIGNED
ZEROFILL
BINARY
CHARACTER SET x
CHARSET x
COLLATE = x
ROW_FORMAT = DYNAMIC
DEFAULT COLLATE x
STORED
VIRTUAL
VISIBLE
INVISIBLE
FIRST
AFTER a
PRIMARY KEY
UNIQUE
UNIQUE KEY
KEY k ( a )
INDEX k ( a )
FULLTEXT KEY k ( a )
CHECK ( a > 0 )
NULL
NOT NULL
DEFAULT 1
REFERENCES u ( a )
CONSTRAINT k
CASCADE
RESTRICT
CASCADE CONSTRAINTS
PURGE
RESTART IDENTITY
USING BTREE
USING u
USING ( a )
INCLUDE ( b )
WITH CHECK OPTION
WITH LOCAL CHECK OPTION
WITH CASCADED CHECK OPTION
WITH DATA
WITH NO DATA
WITH SCHEMABINDING
ALGORITHM = MERGE
SECURITY DEFINER
FROM u
FROM u WHERE a
SET a = 1
WHERE a
WHERE CURRENT OF c
GROUP BY a
HAVING a
WITH ROLLUP
ROLLUP ( a )
GROUPING SETS ( ( a ) )
QUALIFY a
WINDOW w AS ( )
OVER w
OVER ( )
FILTER ( WHERE a )
WITHIN GROUP ( ORDER BY a )
IGNORE NULLS
RESPECT NULLS
EXCLUDE TIES
EXCLUDE CURRENT ROW
GROUPS
RANGE
FROM FIRST
ESCAPE '!'
SYMMETRIC
ASYMMETRIC
ILIKE 'x'
SIMILAR TO 'x'
REGEXP 'x'
NOT REGEXP 'x'
RLIKE 'x'
IS TRUE
IS NOT FALSE
IS UNKNOWN
IS DISTINCT FROM b
ISNULL
NOTNULL
AT TIME ZONE 'x'
COLLATE NOCASE
INTERVAL '1'
WITH TIME ZONE
WITHOUT TIME ZONE
WITH LOCAL TIME ZONE
PRECISION
VARYING
LARGE OBJECT
[ ]
[ 1 ]
[ 1 : 2 ]
ARRAY [ 1 ]
( 5 )
( 5 , 2 )
ROW ( 1 , 2 )
|| 'x'
DIV 2
MOD 2
^ 2
& 1
<< 1
-> 'x'
: a
:= 1
? 1
NATURAL
CROSS
LEFT
FULL OUTER
OUTER
INNER
SEMI
ASOF
ON a
TABLESAMPLE SYSTEM ( 5 )
WITH ORDINALITY
WITH ( NOLOCK )
USE INDEX ( k )
FORCE INDEX ( k )
PARTITION ( p )
FOR SYSTEM_TIME AS OF 1
PIVOT ( a )
CROSS APPLY f ( )
UNION DISTINCT SELECT 1
UNION CORRESPONDING SELECT 1
MINUS SELECT 1
INTERSECT ALL SELECT 1
EXCEPT ALL SELECT 1
SEARCH DEPTH FIRST BY a SET b
CYCLE a SET b USING c
ANALYZE
VERBOSE
( FORMAT JSON )
FORMAT = JSON
EXTENDED
AS
AS x
x
@x
"x"
'x'
N'x'
7
DO NOTHING
END
ELSE 1
WHEN 1 THEN 2
THEN 3
OPTION ( RECOMPILE )
LIKE 'x'
NOT
EXISTS
ANY
SOME
`), "\n")

func allKeywords() []string {
	var l []string
	for k := range dialect.Keywords {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// insertInto puts words at a place of L, in front of a lexeme or (instead) for it.
func insertInto(c *Chooser, L []string, words ...string) ([]string, bool) {
	i := c.Free(len(L) + 1)
	instead := c.Free(2)
	if i+instead > len(L) {
		return nil, false
	}
	m := append([]string(nil), L[:i]...)
	m = append(m, words...)
	return append(m, L[i+instead:]...), true
}

// c05More: texts that are nearly statements of the reference grammar.
func c05More(tier string, bound int, run func(c *Chooser, src string) *Fail) []*Space {
	space := func(name, rule string, q, th int, wide bool, words func(c *Chooser) []string) *Space {
		return &Space{Name: name, Bound: q, Thorough: th, Rule: rule, Run: func(c *Chooser) *Fail {
			g := newG(c)
			g.plainIdents, g.plainLits = true, true
			if wide {
				g.wide()
			} else {
				g.any()
			}
			if c.Skip {
				return nil
			}
			w := words(c)
			m, ok := insertInto(c, lexTexts(g.L), w...)
			if !ok {
				c.Skip = true
				return nil
			}
			return run(c, strings.Join(m, " "))
		}}
	}
	phrases := func(c *Chooser) []string { return []string{foreignPhrases[c.Free(len(foreignPhrases))]} }
	kw := allKeywords()
	l := []*Space{
		space("clauses of other dialects", "statements of the reference grammar with one of about 230 clauses of other SQL dialects at every place, added or instead of a lexeme", bound, bound+1, false, phrases),
		space("every keyword", "statements of the reference grammar with one of the keywords at every place, added or instead of a lexeme", 0, 1, false, func(c *Chooser) []string { return []string{kw[c.Free(len(kw))]} }),
		space("two lexemes", "statements of the reference grammar with every two of 58 lexemes at every place, added or instead of a lexeme", 0, 0, false, func(c *Chooser) []string {
			return []string{mutLexemes[c.Free(len(mutLexemes))], mutLexemes[c.Free(len(mutLexemes))]}
		}),
	}
	if tier == "thorough" {
		l = append(l, space("clauses of other dialects in full statements", "the same for every combination of the optional clauses of every statement", 0, 0, true, phrases))
	}
	return l
}
