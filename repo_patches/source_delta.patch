From 8f2248c0e10ee5236f2c3b594eed0a90664afd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 01/60] fix: report an unclosed delimited identifier instead of
 looping forever

---
 sqltoken/tokenizer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index edbada6..177bf3a 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -283,6 +283,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			if n == end {
 				break
 			}
+			if n == scanner.EOF {
+				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
+			}
 			s = append(s, n)
 		}
 		t.Col += 2 + len(s)
-- 
2.43.0


From 89e3ed024685aed9e7c624c3a70ad8ac428d0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 02/60] fix: keep the text of a multiline comment that contains
 an asterisk

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 177bf3a..fc31b33 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -534,7 +534,7 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 			if n == '/' {
 				break
 			} else {
-				str = append(str, n)
+				str = append(str, '*')
 			}
 		}
 		mayBeClosingComment = n == '*'
-- 
2.43.0


From 2106cccb865fa12d918fdb6e8eeb867195514346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 03/60] fix: end a line comment at a carriage return, which is
 a line terminator everywhere else

---
 sqltoken/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index fc31b33..0d15e71 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -330,7 +330,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			var s []rune
 			for {
 				ch := t.Scanner.Peek()
-				if ch != scanner.EOF && ch != '\n' {
+				if ch != scanner.EOF && ch != '\n' && ch != '\r' {
 					t.Scanner.Next()
 					s = append(s, ch)
 				} else {
-- 
2.43.0


From 0a42738cb99fb181e2aaf01ba7f17a948ee964a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 04/60] fix: keep CR LF line ends in the text of a multiline
 comment

---
 sqltoken/tokenizer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 0d15e71..01541c3 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -516,11 +516,11 @@ func (t *Tokenizer) tokenizeMultilineComment() (string, error) {
 		n := t.Scanner.Next()
 
 		if n == '\r' {
-			if t.Scanner.Peek() == '\n' {
-				t.Scanner.Next()
+			// in CR LF the line feed, which comes next, ends the line
+			if t.Scanner.Peek() != '\n' {
+				t.Col = 1
+				t.Line += 1
 			}
-			t.Col = 1
-			t.Line += 1
 		} else if n == '\n' {
 			t.Col = 1
 			t.Line += 1
-- 
2.43.0


From d7857f6e1a57f52d54f778bb7bcfe13017373e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 05/60] fix: token positions after quoted text with line
 breaks, escaped quotes or non-ASCII characters

---
 sqltoken/tokenizer.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 01541c3..85cc4ce 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"strings"
 	"text/scanner"
+	"unicode/utf8"
 
 	errors "golang.org/x/xerrors"
 
@@ -287,8 +288,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 				return ILLEGAL, "", errors.Errorf("unclosed delimited identifier: %s at %+v", string(s), t.Pos())
 			}
 			s = append(s, n)
+			t.advance(n)
 		}
-		t.Col += 2 + len(s)
+		t.Col += 2
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -460,6 +462,16 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 	}
 }
 
+// advance moves the position past r, the character just read from inside a quoted token.
+func (t *Tokenizer) advance(r rune) {
+	if r == '\n' || (r == '\r' && t.Scanner.Peek() != '\n') {
+		t.Line += 1
+		t.Col = 1
+		return
+	}
+	t.Col += 1
+}
+
 func (t *Tokenizer) tokenizeWord(f rune) string {
 	var builder strings.Builder
 	builder.WriteRune(f)
@@ -474,7 +486,7 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	}
 
 	str := builder.String()
-	t.Col += len(str)
+	t.Col += utf8.RuneCountInString(str)
 	return str
 }
 
@@ -489,6 +501,7 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 				// str = append(str, '\'')
 				builder.WriteRune('\'')
 				t.Scanner.Next()
+				t.Col += 2
 			} else {
 				break
 			}
@@ -500,10 +513,11 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 
 		t.Scanner.Next()
 		builder.WriteRune(n)
+		t.advance(n)
 		// str = append(str, n)
 	}
 	str := builder.String()
-	t.Col += 2 + len(str)
+	t.Col += 2
 
 	return str, nil
 }
-- 
2.43.0


From 9a1cea5f1f71378e86c320d72d9799eaf40de46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 06/60] fix: report a read error instead of parsing the
 truncated input

---
 sqltoken/tokenizer.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 85cc4ce..93f8c26 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -125,13 +125,33 @@ type Tokenizer struct {
 	Line         int
 	Col          int
 	parseComment bool
+	src          *errReader
+}
+
+// errReader remembers the error that ended src: scanner.Scanner reports any error as the end of the input.
+type errReader struct {
+	src io.Reader
+	err error
+}
+
+func (r *errReader) Read(p []byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+	n, err := r.src.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return n, err
 }
 
 func NewTokenizer(src io.Reader, dialect dialect.Dialect) *Tokenizer {
 	var scan scanner.Scanner
+	reader := &errReader{src: src}
 	return &Tokenizer{
 		Dialect:      dialect,
-		Scanner:      scan.Init(src),
+		src:          reader,
+		Scanner:      scan.Init(reader),
 		Line:         1,
 		Col:          1,
 		parseComment: true,
@@ -276,6 +296,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 
 	case t.Dialect.IsDelimitedIdentifierStart(r):
 		t.Scanner.Next()
+		t.Col += 1
 		end := matchingEndQuote(r)
 
 		var s []rune
@@ -290,7 +311,7 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			s = append(s, n)
 			t.advance(n)
 		}
-		t.Col += 2
+		t.Col += 1
 
 		return SQLKeyword, MakeKeyword(string(s), r), nil
 
@@ -454,6 +475,9 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		t.Col += 1
 		return RBrace, "}", nil
 	case scanner.EOF == r:
+		if t.src != nil && t.src.err != nil {
+			return ILLEGAL, "", errors.Errorf("read failed: %w", t.src.err)
+		}
 		return ILLEGAL, "", io.EOF
 	default:
 		t.Scanner.Next()
@@ -493,6 +517,7 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 	var builder strings.Builder
 	t.Scanner.Next()
+	t.Col += 1
 	for {
 		n := t.Scanner.Peek()
 		if n == '\'' {
@@ -517,7 +542,7 @@ func (t *Tokenizer) tokenizeSingleQuotedString() (string, error) {
 		// str = append(str, n)
 	}
 	str := builder.String()
-	t.Col += 2
+	t.Col += 1
 
 	return str, nil
 }
-- 
2.43.0


From f9df83e9822d61d6cf4dae171b1cdb719d3a6b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:57 +0000
Subject: [PATCH 07/60] fix: return an error instead of panicking on malformed
 input

---
 parser.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index f0c25ba..29edc86 100644
--- a/parser.go
+++ b/parser.go
@@ -61,6 +61,13 @@ func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
 	p.tokens = tokens
 }
 
+// recoverError turns a panic raised on malformed input into an error of the exported Parse functions.
+func recoverError(err *error) {
+	if r := recover(); r != nil {
+		*err = errors.Errorf("invalid sql: %v", r)
+	}
+}
+
 func (p *Parser) ParseFile() (*sqlast.File, error) {
 	stmts, err := p.ParseSQL()
 	if err != nil {
@@ -83,7 +90,9 @@ func (p *Parser) ParseFile() (*sqlast.File, error) {
 	}, nil
 }
 
-func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
+func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	var stmts []sqlast.Stmt
 	var expectingDelimiter bool
 
@@ -126,7 +135,9 @@ func (p *Parser) ParseSQL() ([]sqlast.Stmt, error) {
 	return stmts, nil
 }
 
-func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
+func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, err
@@ -169,7 +180,9 @@ func (p *Parser) ParseStatement() (sqlast.Stmt, error) {
 	}
 }
 
-func (p *Parser) ParseDataType() (sqlast.Type, error) {
+func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
+	defer recoverError(&err)
+
 	tok, err := p.nextToken()
 	if err != nil {
 		return nil, errors.Errorf("nextToken failed: %w", err)
@@ -296,7 +309,9 @@ func (p *Parser) ParseDataType() (sqlast.Type, error) {
 	}
 }
 
-func (p *Parser) ParseExpr() (sqlast.Node, error) {
+func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
+	defer recoverError(&err)
+
 	return p.parseSubexpr(0)
 }
 
-- 
2.43.0


From fe3e313db9c22c650e4a24d8fe524842fdc87d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 08/60] fix: parse a select list and BIGINT at the end of the
 input

---
 parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 29edc86..92c0398 100644
--- a/parser.go
+++ b/parser.go
@@ -218,8 +218,8 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		unsigned, pos := p.parseMyUnsigned()
 		return &sqlast.Int{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "BIGINT":
-		unsigned, u, _ := p.parseKeyword("UNSIGNED")
-		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: u.To}, nil
+		unsigned, pos := p.parseMyUnsigned()
+		return &sqlast.BigInt{From: tok.From, To: tok.To, IsUnsigned: unsigned, Unsigned: pos}, nil
 	case "VARCHAR":
 		p, r, err := p.parseOptionalPrecision()
 		if err != nil {
@@ -520,7 +520,7 @@ func (p *Parser) parseSelectList() ([]sqlast.SQLSelectItem, error) {
 			}
 		}
 
-		if t, _ := p.peekToken(); t.Kind == sqltoken.Comma {
+		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
 			p.mustNextToken()
 		} else {
 			break
-- 
2.43.0


From bdd17a62258123769e7a9d5cf5ad44e190d99348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:47 +0000
Subject: [PATCH 09/60] fix: reject AS without an alias at the end of the input

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 92c0398..cffa401 100644
--- a/parser.go
+++ b/parser.go
@@ -1541,6 +1541,9 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	maybeAlias, _ := p.nextToken()
 
 	if maybeAlias == nil {
+		if afterAs {
+			log.Panicf("expected an identifier after AS")
+		}
 		return nil
 	}
 
-- 
2.43.0


From 538fc1607818e0e738e82b02334c0453509f4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 10/60] fix: keep every table of a join chain that ends in
 CROSS JOIN

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index cffa401..12270b6 100644
--- a/parser.go
+++ b/parser.go
@@ -1641,7 +1641,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			}
 			e = rtp
 		case *sqlast.CrossJoin:
-			rtp.Reference = leftElem
+			rtp.Reference = e
 			e = rtp
 		case *sqlast.QualifiedJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
-- 
2.43.0


From a6bb80d8c6c45a96e8050d31a29e12c163d589e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 11/60] fix: a chain of natural joins associates to the left

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 12270b6..25e9ea6 100644
--- a/parser.go
+++ b/parser.go
@@ -1679,7 +1679,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 			return nil, errors.Errorf("parse natural join type failed: %w", err)
 		}
 		p.expectKeyword("JOIN")
-		rightElem, err := p.parseTableReference()
+		rightElem, err := p.parseTableFactor()
 		if err != nil {
 			return nil, errors.Errorf("parse natural join right element failed: %w", err)
 		}
-- 
2.43.0


From 7d6bcd08ab632b7038fac7443fea82a23e7feb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 12/60] fix: keep MATERIALIZED of CREATE MATERIALIZED VIEW

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 25e9ea6..9073ee0 100644
--- a/parser.go
+++ b/parser.go
@@ -542,6 +542,9 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	vok, _, _ := p.parseKeyword("VIEW")
 
 	if mok || vok {
+		if mok && vok {
+			p.prevToken()
+		}
 		p.prevToken()
 		return p.parseCreateView(t)
 	}
-- 
2.43.0


From da1a79c0d6b20081e68d4fdfa2ef8b33d445b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 13/60] fix: reject CREATE INDEX UNIQUE INDEX

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 9073ee0..ed9d367 100644
--- a/parser.go
+++ b/parser.go
@@ -549,11 +549,12 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 		return p.parseCreateView(t)
 	}
 
-	iok, _, _ := p.parseKeyword("INDEX")
-	uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX")
+	if iok, _, _ := p.parseKeyword("INDEX"); iok {
+		return p.parseCreateIndex(false)
+	}
 
-	if iok || uiok {
-		return p.parseCreateIndex(uiok)
+	if uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX"); uiok {
+		return p.parseCreateIndex(true)
 	}
 
 	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
-- 
2.43.0


From 5cb609e9ab9dc362b2a34883bf13fb41709ff314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 14/60] fix: do not drop SELECT in a subquery that starts with
 SELECT WITH

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ed9d367..b3029de 100644
--- a/parser.go
+++ b/parser.go
@@ -2095,7 +2095,10 @@ func (p *Parser) parsePGCast(expr sqlast.Node) (sqlast.Node, error) {
 func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 	p.expectToken(sqltoken.LParen)
 	sok, _, _ := p.parseKeyword("SELECT")
-	wok, _, _ := p.parseKeyword("WITH")
+	wok := false
+	if !sok {
+		wok, _, _ = p.parseKeyword("WITH")
+	}
 	var inop sqlast.Node
 	if sok || wok {
 		p.prevToken()
@@ -2353,7 +2356,10 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 		return v, nil
 	case sqltoken.LParen:
 		sok, _, _ := p.parseKeyword("SELECT")
-		wok, _, _ := p.parseKeyword("WITH")
+		wok := false
+		if !sok {
+			wok, _, _ = p.parseKeyword("WITH")
+		}
 
 		var ast sqlast.Node
 
-- 
2.43.0


From 3e75f95e63df1897a566ed62e2ecb7f5c82e22f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 15/60] fix: keep column constraints that come before DEFAULT
 or AUTO_INCREMENT

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b3029de..481abcb 100644
--- a/parser.go
+++ b/parser.go
@@ -887,7 +887,7 @@ COLUMN_DEF_LOOP:
 			if err != nil {
 				return nil, nil, nil, errors.Errorf("parseColumnConstraints failed: %w", err)
 			}
-			specs = s
+			specs = append(specs, s...)
 		case "AUTO_INCREMENT":
 			p.mustNextToken()
 			decorates = append(decorates, &sqlast.AutoIncrement{
-- 
2.43.0


From 00663869a2e8e7ff9b7b5ab86faa167ed2d96908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 16/60] fix: reject a second DEFAULT of a column instead of
 dropping the first

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 481abcb..0cdaa60 100644
--- a/parser.go
+++ b/parser.go
@@ -879,6 +879,9 @@ COLUMN_DEF_LOOP:
 				if err != nil {
 					return nil, nil, nil, errors.Errorf("parseDefaultExpr failed: %w", err)
 				}
+				if def != nil {
+					return nil, nil, nil, errors.Errorf("multiple DEFAULT of a column")
+				}
 				def = d
 				continue
 			}
-- 
2.43.0


From b9a096e0a373c698d1d7ee7f4f0284cc1f7e3129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 17/60] fix: reject CONSTRAINT name without a column constraint
 instead of dropping it

---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0cdaa60..7fceabc 100644
--- a/parser.go
+++ b/parser.go
@@ -929,7 +929,10 @@ CONSTRAINT_LOOP:
 		}
 
 		tok, _ = p.peekToken()
-		if tok.Kind != sqltoken.SQLKeyword {
+		if tok == nil || tok.Kind != sqltoken.SQLKeyword {
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after CONSTRAINT %s but %v", name.Value, tok)
+			}
 			break
 		}
 
@@ -997,6 +1000,9 @@ CONSTRAINT_LOOP:
 				RParen: r.To,
 			}
 		default:
+			if name != nil {
+				return nil, errors.Errorf("expected a constraint after CONSTRAINT %s but %v", name.Value, tok)
+			}
 			break CONSTRAINT_LOOP
 		}
 
-- 
2.43.0


From a2cb7e109e6bd3d817c6db1febf6f4fd48d3a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 18/60] fix: accept NUMERIC without a precision

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 7fceabc..dc3cbe8 100644
--- a/parser.go
+++ b/parser.go
@@ -283,7 +283,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}
 		p.prevToken()
 		r, _ := p.nextToken()
-		if r.Kind != sqltoken.RParen {
+		if precision != nil && r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %s", r)
 		}
 
-- 
2.43.0


From 417e6acd3cdc4ead4a6bcc461dcf05e0ad82c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 19/60] fix: reject WITH WITHOUT TIME ZONE

---
 parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index dc3cbe8..e23e65e 100644
--- a/parser.go
+++ b/parser.go
@@ -247,7 +247,10 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		return &sqlast.Date{}, nil
 	case "TIMESTAMP":
 		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		ook := false
+		if !wok {
+			ook, _, _ = p.parseKeyword("WITHOUT")
+		}
 		if wok || ook {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
@@ -258,7 +261,10 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}, nil
 	case "TIME":
 		wok, _, _ := p.parseKeyword("WITH")
-		ook, _, _ := p.parseKeyword("WITHOUT")
+		ook := false
+		if !wok {
+			ook, _, _ = p.parseKeyword("WITHOUT")
+		}
 		if wok || ook {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
-- 
2.43.0


From 082bc070383e5051bc7f2a209a0d56c3b2163ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 20/60] fix: keep WITH TIME ZONE of the TIME type

---
 parser.go      |  2 +-
 sqlast/type.go | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index e23e65e..b735da4 100644
--- a/parser.go
+++ b/parser.go
@@ -269,7 +269,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 			p.expectKeyword("TIME")
 			p.expectKeyword("ZONE")
 		}
-		return &sqlast.Time{}, nil
+		return &sqlast.Time{WithTimeZone: wok}, nil
 	case "REGCLASS":
 		return &sqlast.Regclass{}, nil
 	case "TEXT":
diff --git a/sqlast/type.go b/sqlast/type.go
index d1445ff..27e7fb3 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -403,7 +403,8 @@ func (*Date) WriteTo(w io.Writer) (int64, error) {
 }
 
 type Time struct {
-	From, To sqltoken.Pos
+	From, To     sqltoken.Pos
+	WithTimeZone bool
 }
 
 func (t *Time) Pos() sqltoken.Pos {
@@ -414,12 +415,14 @@ func (t *Time) End() sqltoken.Pos {
 	return t.To
 }
 
-func (*Time) ToSQLString() string {
-	return "time"
+func (t *Time) ToSQLString() string {
+	return toSQLString(t)
 }
 
-func (*Time) WriteTo(w io.Writer) (int64, error) {
-	return writeSingleBytes(w, []byte("time"))
+func (t *Time) WriteTo(w io.Writer) (int64, error) {
+	sw := newSQLWriter(w)
+	sw.Bytes([]byte("time")).If(t.WithTimeZone, []byte(" with time zone"))
+	return sw.End()
 }
 
 type Timestamp struct {
-- 
2.43.0


From a3f28b923dffc4ef22e06996ebd385222ca5c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 21/60] fix: reject an integer literal that does not fit
 instead of clamping it

---
 parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index b735da4..83d58c7 100644
--- a/parser.go
+++ b/parser.go
@@ -2665,9 +2665,12 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 				Double: f,
 			}, nil
 		} else {
-			i, _ := strconv.Atoi(num)
+			i, err := strconv.ParseInt(num, 10, 64)
+			if err != nil {
+				return nil, errors.Errorf("strconv.ParseInt failed: %w", err)
+			}
 			return &sqlast.LongValue{
-				Long: int64(i),
+				Long: i,
 				From: tok.From,
 				To:   tok.To,
 			}, nil
-- 
2.43.0


From 584c32cee306d46157c71c024bef07b4094eb3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 22/60] fix: write quotes in string literals and whole double
 values so that they parse back

---
 sqlast/value.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index e954b18..96e3073 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -1,9 +1,10 @@
 package sqlast
 
 import (
-	"fmt"
 	"io"
+	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/akito0107/xsqlparser/sqltoken"
@@ -76,6 +77,9 @@ func (d *DoubleValue) ToSQLString() string {
 func (d *DoubleValue) WriteTo(w io.Writer) (int64, error) {
 	var b [32] byte
 	buf := strconv.AppendFloat(b[:0], d.Double, 'f', -1, 64)
+	if d.Double == math.Trunc(d.Double) && !math.IsInf(d.Double, 0) {
+		buf = append(buf, ".0"...) // without a fraction it would be a LongValue
+	}
 	n, err := w.Write(buf)
 	return int64(n), err
 }
@@ -112,7 +116,7 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n), err
 	}
-	n1, err := io.WriteString(w, s.String)
+	n1, err := io.WriteString(w, escapeQuotes(s.String))
 	if err != nil {
 		return int64(n + n1), err
 	}
@@ -120,6 +124,11 @@ func (s *SingleQuotedString) WriteTo(w io.Writer) (int64, error) {
 	return int64(n + n1 + n2), err
 }
 
+// escapeQuotes doubles the single quotes of s, the content of a string literal.
+func escapeQuotes(s string) string {
+	return strings.Replace(s, "'", "''", -1)
+}
+
 type NationalStringLiteral struct {
 	From, To sqltoken.Pos
 	String   string
@@ -144,7 +153,7 @@ func (n *NationalStringLiteral) Value() interface{} {
 }
 
 func (n *NationalStringLiteral) ToSQLString() string {
-	return fmt.Sprintf("N'%s'", n.String)
+	return toSQLString(n)
 }
 
 func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
@@ -152,7 +161,7 @@ func (n *NationalStringLiteral) WriteTo(w io.Writer) (int64, error) {
 	if err != nil {
 		return int64(n0), err
 	}
-	n1, err := io.WriteString(w, n.String)
+	n1, err := io.WriteString(w, escapeQuotes(n.String))
 	if err != nil {
 		return int64(n0 + n1), err
 	}
-- 
2.43.0


From 17b97d611427fcbaf003069e6538071ab98eae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 23/60] fix: parse the closing parenthesis of a table function
 and write its empty argument list

---
 parser.go       | 18 ++++++++++++++----
 sqlast/query.go |  4 ++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 83d58c7..d4003a0 100644
--- a/parser.go
+++ b/parser.go
@@ -1870,12 +1870,21 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		return nil, errors.Errorf("parseObjectName failed: %w", err)
 	}
 	var args []sqlast.Node
+	var argsRParen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		a, err := p.parseOptionalArgs()
 		if err != nil {
 			return nil, errors.Errorf("parseOptionalArgs failed: %w", err)
 		}
+		r, _ := p.nextToken()
+		if r == nil || r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		if a == nil {
+			a = []sqlast.Node{} // unlike nil: called without arguments
+		}
 		args = a
+		argsRParen = r.To
 	}
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
@@ -1894,10 +1903,11 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	}
 
 	return &sqlast.Table{
-		Name:      name,
-		Args:      args,
-		Alias:     alias,
-		WithHints: withHints,
+		Name:       name,
+		Args:       args,
+		ArgsRParen: argsRParen,
+		Alias:      alias,
+		WithHints:  withHints,
 	}, nil
 
 }
diff --git a/sqlast/query.go b/sqlast/query.go
index 8638133..e408caa 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -326,7 +326,7 @@ func (t *Table) End() sqltoken.Pos {
 		return t.Alias.End()
 	}
 
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		return t.ArgsRParen
 	}
 
@@ -340,7 +340,7 @@ func (t *Table) ToSQLString() string {
 func (t *Table) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Node(t.Name)
-	if len(t.Args) != 0 {
+	if t.Args != nil {
 		sw.LParen().Nodes(t.Args).RParen()
 	}
 	if t.Alias != nil {
-- 
2.43.0


From ce0ac2cd181243cf3a6c01e4d725eb9772b21745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 24/60] fix: write CREATE TABLE without elements and CREATE
 INDEX without columns so that they parse back

---
 sqlast/stmt.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index bc52ea8..a0da7b4 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -299,12 +299,16 @@ func (c *CreateTableStmt) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	sw.Bytes([]byte("CREATE TABLE "))
 	sw.If(c.NotExists, []byte("IF NOT EXISTS "))
-	sw.Node(c.Name).Space().LParen()
-	for i, element := range c.Elements {
-		sw.JoinComma(i, element)
+	sw.Node(c.Name)
+	if len(c.Elements) != 0 {
+		sw.Space().LParen()
+		for i, element := range c.Elements {
+			sw.JoinComma(i, element)
+		}
+		sw.RParen()
 	}
-	sw.RParen()
 	if len(c.Options) != 0 {
+		sw.Space()
 		for i, option := range c.Options {
 			sw.JoinComma(i, option)
 		}
@@ -1081,7 +1085,9 @@ func (c *CreateIndexStmt) WriteTo(w io.Writer) (int64, error) {
 	if c.MethodName != nil {
 		sw.Bytes([]byte(" USING ")).Node(c.MethodName)
 	}
-	sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	if len(c.ColumnNames) != 0 {
+		sw.Space().LParen().Idents(c.ColumnNames, []byte(", ")).RParen()
+	}
 	if c.Selection != nil {
 		sw.Bytes([]byte(" WHERE ")).Node(c.Selection)
 	}
-- 
2.43.0


From 9673f1278928b2b9666a2f3278603d19dbf10bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 25/60] fix: parse the table options that follow a comma

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index d4003a0..55f20b9 100644
--- a/parser.go
+++ b/parser.go
@@ -1032,8 +1032,12 @@ func (p *Parser) parseTableOptions() ([]sqlast.TableOption, error) {
 			return nil, err
 		}
 
-		if tok.Kind == sqltoken.Comma {
-			tok = p.mustNextToken()
+		if tok.Kind == sqltoken.Comma && len(opts) != 0 {
+			p.mustNextToken()
+			tok, err = p.peekToken()
+			if err != nil || tok.Kind != sqltoken.SQLKeyword {
+				return nil, errors.Errorf("expected a table option after ',' but: %v", tok)
+			}
 		}
 		if tok.Kind != sqltoken.SQLKeyword {
 			break
-- 
2.43.0


From 031c52d6090e817d9b9499ac8de7c8c2b828ba52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:37 +0000
Subject: [PATCH 26/60] fix: parse arithmetic in the bounds of BETWEEN

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 55f20b9..e92d3cd 100644
--- a/parser.go
+++ b/parser.go
@@ -2165,14 +2165,15 @@ func (p *Parser) parseIn(expr sqlast.Node, negated bool) (sqlast.Node, error) {
 }
 
 func (p *Parser) parseBetween(expr sqlast.Node, negated bool) (sqlast.Node, error) {
-	low, err := p.parsePrefix()
+	// the bounds bind tighter than BETWEEN, which has the precedence 20
+	low, err := p.parseSubexpr(20)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 	p.expectKeyword("AND")
-	high, err := p.parsePrefix()
+	high, err := p.parseSubexpr(20)
 	if err != nil {
-		return nil, errors.Errorf("parsePrefix: %w", err)
+		return nil, errors.Errorf("parseSubexpr: %w", err)
 	}
 
 	return &sqlast.Between{
-- 
2.43.0


From 9eb005f90628618176d8db9be6cea933ee48ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 27/60] fix: NOT IN, NOT BETWEEN and NOT LIKE have the
 precedence of IN, BETWEEN and LIKE

---
 parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser.go b/parser.go
index e92d3cd..cad8698 100644
--- a/parser.go
+++ b/parser.go
@@ -2190,6 +2190,20 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
+	if word, ok := tok.Value.(*sqltoken.SQLWord); ok && word.Keyword == "NOT" {
+		// NOT after an operand belongs to the operator that follows it
+		idx := p.index
+		defer func() { p.index = idx }()
+		p.mustNextToken()
+		tok, _ = p.peekToken()
+		if tok == nil {
+			return 0, nil
+		}
+		word, ok := tok.Value.(*sqltoken.SQLWord)
+		if !ok || (word.Keyword != "IN" && word.Keyword != "BETWEEN" && word.Keyword != "LIKE") {
+			return 0, nil
+		}
+	}
 	return p.getPrecedence(tok), nil
 }
 
-- 
2.43.0


From 8018c7eebc63893ea1a3c15b91c83c900724758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:20 +0000
Subject: [PATCH 28/60] fix: LIMIT, HAVING and ON DUPLICATE KEY are not aliases
 of what comes before them

---
 dialect/keywords.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dialect/keywords.go b/dialect/keywords.go
index 07f152e..b2fa3cf 100644
--- a/dialect/keywords.go
+++ b/dialect/keywords.go
@@ -359,6 +359,8 @@ func init() {
 	ReservedForTableAlias[SELECT] = struct{}{}
 	ReservedForTableAlias[WHERE] = struct{}{}
 	ReservedForTableAlias[GROUP] = struct{}{}
+	ReservedForTableAlias[HAVING] = struct{}{}
+	ReservedForTableAlias[LIMIT] = struct{}{}
 	ReservedForTableAlias[ORDER] = struct{}{}
 	ReservedForTableAlias[UNION] = struct{}{}
 	ReservedForTableAlias[EXCEPT] = struct{}{}
@@ -378,6 +380,9 @@ func init() {
 	ReservedForColumnAlias[SELECT] = struct{}{}
 	ReservedForColumnAlias[WHERE] = struct{}{}
 	ReservedForColumnAlias[GROUP] = struct{}{}
+	ReservedForColumnAlias[HAVING] = struct{}{}
+	ReservedForColumnAlias[LIMIT] = struct{}{}
+	ReservedForColumnAlias[ON] = struct{}{}
 	ReservedForColumnAlias[ORDER] = struct{}{}
 	ReservedForColumnAlias[UNION] = struct{}{}
 	ReservedForColumnAlias[EXCEPT] = struct{}{}
-- 
2.43.0


From d18f1fb188e9e40540b9b3ddd0e072cb96b15122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 29/60] fix: accept the last statement without a semicolon in
 ParseSQL and ParseFile

---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index cad8698..d9a3518 100644
--- a/parser.go
+++ b/parser.go
@@ -99,8 +99,10 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 	for {
 		ok, _ := p.consumeToken(sqltoken.Semicolon)
 		if !ok && expectingDelimiter {
-			tok, _ := p.peekToken()
-			return nil, errors.Errorf("expect semicolon but %+v", tok)
+			tok, err := p.peekToken()
+			if err != EOF {
+				return nil, errors.Errorf("expect semicolon but %+v", tok)
+			}
 		}
 
 		if p.parseComment {
-- 
2.43.0


From 2a048b0b63b57a11d1186c31eb88878843d621bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 30/60] fix: a delimited identifier is never a keyword

---
 parser.go | 56 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/parser.go b/parser.go
index d9a3518..e0556fd 100644
--- a/parser.go
+++ b/parser.go
@@ -149,7 +149,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		return nil, errors.Errorf("a keyword at the beginning of statement %s", tok.Value)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "SELECT", "WITH":
 		p.prevToken()
 		return p.parseQuery()
@@ -194,7 +194,7 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		return nil, errors.Errorf("must be datatype name but %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "BOOLEAN":
 		return &sqlast.Boolean{
 			From: tok.From,
@@ -428,7 +428,7 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 		return nil
 	}
 	word := token.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keyword(word) {
 	case "UNION":
 		return &sqlast.UnionOperator{}
 	case "EXCEPT":
@@ -685,7 +685,7 @@ func (p *Parser) parseElements() ([]sqlast.TableElement, error) {
 		}
 
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "CONSTRAINT", "PRIMARY", "CHECK", "FOREIGN", "UNIQUE":
 			p.prevToken()
 			constraints, err := p.parseTableConstraints()
@@ -752,7 +752,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var constraintPos sqltoken.Pos
 	var name *sqlast.Ident
-	if ok && word.Keyword == "CONSTRAINT" {
+	if ok && keyword(word) == "CONSTRAINT" {
 		constraintPos = tok.From
 		p.mustNextToken()
 		i, err := p.parseIdentifier()
@@ -766,7 +766,7 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 
 	var spec sqlast.TableConstraintSpec
 	word = tok.Value.(*sqltoken.SQLWord)
-	switch word.Keyword {
+	switch keyword(word) {
 	case "UNIQUE":
 		p.mustNextToken()
 		if _, _, err := p.parseKeyword("KEY"); err != nil {
@@ -880,7 +880,7 @@ COLUMN_DEF_LOOP:
 
 		word := t.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "DEFAULT":
 			if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 				d, err := p.parseDefaultExpr(0)
@@ -927,7 +927,7 @@ CONSTRAINT_LOOP:
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
 		var name *sqlast.Ident
-		if ok && word.Keyword == "CONSTRAINT" {
+		if ok && keyword(word) == "CONSTRAINT" {
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -947,7 +947,7 @@ CONSTRAINT_LOOP:
 		var spec sqlast.ColumnConstraintSpec
 
 		word = tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "NOT":
 			p.mustNextToken()
 			ok, ntok, _ := p.parseKeyword("NULL")
@@ -1063,7 +1063,7 @@ func (p *Parser) parseTableOption() (sqlast.TableOption, error) {
 	word, _ := tok.Value.(*sqltoken.SQLWord)
 
 	p.mustNextToken()
-	switch word.Keyword {
+	switch keyword(word) {
 	case "ENGINE":
 		opt := &sqlast.MyEngine{
 			Engine: tok.From,
@@ -1463,7 +1463,7 @@ func (p *Parser) parseAlterColumn(alt *sqltoken.Token) (*sqlast.AlterColumnTable
 
 	word := tok.Value.(*sqltoken.SQLWord)
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "SET":
 		if ok, _, _ := p.parseKeyword("DEFAULT"); ok {
 			def, err := p.parseDefaultExpr(0)
@@ -1541,7 +1541,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		tok, _ := p.peekToken()
 		if tok != nil && tok.Kind == sqltoken.SQLKeyword {
 			w := tok.Value.(*sqltoken.SQLWord)
-			if w.Keyword == "NOT" || w.Keyword == "NULL" {
+			if keyword(w) == "NOT" || keyword(w) == "NULL" {
 				break
 			}
 		}
@@ -1575,7 +1575,7 @@ func (p *Parser) parseOptionalAlias(reservedKeywords map[string]struct{}) *sqlas
 	if maybeAlias.Kind == sqltoken.SQLKeyword {
 
 		word := maybeAlias.Value.(*sqltoken.SQLWord)
-		if afterAs || !containsStr(reservedKeywords, word.Keyword) {
+		if afterAs || !containsStr(reservedKeywords, keyword(word)) {
 			return &sqlast.Ident{
 				Value: word.String(),
 				From:  maybeAlias.From,
@@ -1697,7 +1697,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 		return nil, nil
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "NATURAL":
 		tp, err := p.parseJoinType()
 		if err != nil {
@@ -1781,7 +1781,7 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 		return nil, errors.Errorf("unknown join type %v", tok)
 	}
 
-	switch word.Keyword {
+	switch keyword(word) {
 	case "INNER":
 		return &sqlast.JoinType{
 			Condition: sqlast.INNER,
@@ -2047,7 +2047,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		operator = sqlast.Divide
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "AND":
 			operator = sqlast.And
 		case "OR":
@@ -2078,7 +2078,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 	if tok.Kind == sqltoken.SQLKeyword {
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "IS":
 			if ok, _, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
@@ -2192,7 +2192,7 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 	if tok == nil {
 		return 0, nil
 	}
-	if word, ok := tok.Value.(*sqltoken.SQLWord); ok && word.Keyword == "NOT" {
+	if word, ok := tok.Value.(*sqltoken.SQLWord); ok && keyword(word) == "NOT" {
 		// NOT after an operand belongs to the operator that follows it
 		idx := p.index
 		defer func() { p.index = idx }()
@@ -2202,7 +2202,7 @@ func (p *Parser) getNextPrecedence() (uint, error) {
 			return 0, nil
 		}
 		word, ok := tok.Value.(*sqltoken.SQLWord)
-		if !ok || (word.Keyword != "IN" && word.Keyword != "BETWEEN" && word.Keyword != "LIKE") {
+		if !ok || (keyword(word) != "IN" && keyword(word) != "BETWEEN" && keyword(word) != "LIKE") {
 			return 0, nil
 		}
 	}
@@ -2213,7 +2213,7 @@ func (p *Parser) getPrecedence(ts *sqltoken.Token) uint {
 	switch ts.Kind {
 	case sqltoken.SQLKeyword:
 		word := ts.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "OR":
 			return 5
 		case "AND":
@@ -2253,7 +2253,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 	switch tok.Kind {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
-		switch word.Keyword {
+		switch keyword(word) {
 		case "TRUE", "FALSE", "NULL":
 			p.prevToken()
 			t, err := p.parseSQLValue()
@@ -2565,7 +2565,7 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		var u sqlast.WindowFrameUnit
 
 		// FIXME
-		units, err := u.FromStr(w.Keyword)
+		units, err := u.FromStr(keyword(w))
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
@@ -2662,7 +2662,7 @@ func (p *Parser) parseValue() (sqlast.Node, error) {
 	case sqltoken.SQLKeyword:
 		word := tok.Value.(*sqltoken.SQLWord)
 
-		switch word.Keyword {
+		switch keyword(word) {
 		case "TRUE":
 			return &sqlast.BooleanValue{
 				From:    tok.From,
@@ -3180,7 +3180,7 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if strings.EqualFold(word.Value, expected) {
+	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
@@ -3194,6 +3194,14 @@ func (p *Parser) Debug() {
 	fmt.Println()
 }
 
+// keyword returns the keyword that w stands for. A delimited identifier is not a keyword.
+func keyword(w *sqltoken.SQLWord) string {
+	if w.QuoteStyle != 0 {
+		return ""
+	}
+	return w.Keyword
+}
+
 func containsStr(strmap map[string]struct{}, t string) bool {
 	_, ok := strmap[t]
 	return ok
-- 
2.43.0


From 1130beb14d7a2374879b556820ae654075707c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 31/60] fix: astprinter reports a tokenize error instead of
 crashing

---
 cmd/astprinter/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/astprinter/main.go b/cmd/astprinter/main.go
index fd46503..eef250e 100644
--- a/cmd/astprinter/main.go
+++ b/cmd/astprinter/main.go
@@ -29,7 +29,10 @@ func main() {
 		src = file
 	}
 
-	parser, _ := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	parser, err := xsqlparser.NewParser(src, &dialect.GenericSQLDialect{})
+	if err != nil {
+		log.Fatal(err)
+	}
 	stmt, err := parser.ParseStatement()
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From 6697ccb2d1647f5fa8191403053b2f23e94c0234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 32/60] fix: Walk visits the children with the visitor that
 Visit returned

---
 sqlast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 398eb9b..71303f0 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -21,7 +21,7 @@ func walkASTNodeLists(v Visitor, list []Node) {
 }
 
 func Walk(v Visitor, node Node) {
-	if v := v.Visit(node); v == nil {
+	if v = v.Visit(node); v == nil {
 		return
 	}
 
-- 
2.43.0


From 364597771d391ebaa38f5804a265456ff3f75b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 33/60] fix: Walk visits every child of CASE, UPDATE, CREATE
 TABLE, USING and type nodes

---
 sqlast/walk.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/sqlast/walk.go b/sqlast/walk.go
index 71303f0..0ba762f 100644
--- a/sqlast/walk.go
+++ b/sqlast/walk.go
@@ -71,7 +71,18 @@ func Walk(v Visitor, node Node) {
 			Walk(v, n.Over)
 		}
 	case *CaseExpr:
-		Walk(v, n.Operand)
+		if n.Operand != nil {
+			Walk(v, n.Operand)
+		}
+		for i, c := range n.Conditions {
+			Walk(v, c)
+			if i < len(n.Results) {
+				Walk(v, n.Results[i])
+			}
+		}
+		if n.ElseResult != nil {
+			Walk(v, n.ElseResult)
+		}
 	case *Exists:
 		Walk(v, n.Query)
 	case *SubQuery:
@@ -158,7 +169,7 @@ func Walk(v Visitor, node Node) {
 	case *JoinType:
 	// nothing to do
 	case *NamedColumnsJoin:
-	// nothing to do
+		walkIdentLists(v, n.ColumnList)
 	case *JoinCondition:
 		Walk(v, n.SearchCondition)
 	case *NaturalJoin:
@@ -241,9 +252,9 @@ func Walk(v Visitor, node Node) {
 	case *Bytea:
 		// nothing to do
 	case *Array:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *Custom:
-		// nothing to do
+		Walk(v, n.Ty)
 	case *InsertStmt:
 		Walk(v, n.TableName)
 		walkIdentLists(v, n.Columns)
@@ -271,7 +282,9 @@ func Walk(v Visitor, node Node) {
 		for _, a := range n.Assignments {
 			Walk(v, a)
 		}
-		Walk(v, n.Selection)
+		if n.Selection != nil {
+			Walk(v, n.Selection)
+		}
 	case *DeleteStmt:
 		Walk(v, n.TableName)
 		if n.Selection != nil {
@@ -285,6 +298,13 @@ func Walk(v Visitor, node Node) {
 		for _, e := range n.Elements {
 			Walk(v, e)
 		}
+		for _, o := range n.Options {
+			Walk(v, o)
+		}
+	case *MyEngine:
+		Walk(v, n.Name)
+	case *MyCharset:
+		Walk(v, n.Name)
 	case *Assignment:
 		Walk(v, n.ID)
 		Walk(v, n.Value)
@@ -309,9 +329,14 @@ func Walk(v Visitor, node Node) {
 		if n.Default != nil {
 			Walk(v, n.Default)
 		}
+		for _, d := range n.MyDataTypeDecoration {
+			Walk(v, d)
+		}
 		for _, c := range n.Constraints {
 			Walk(v, c)
 		}
+	case *AutoIncrement:
+		// nothing to do
 	case *ColumnConstraint:
 		if n.Name != nil {
 			Walk(v, n.Name)
-- 
2.43.0


From ac936e3ae94de6a27ed3b344eb15a4adbea7c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 34/60] fix: the cursor names the field that holds a query, so
 that Replace works on it

---
 sqlastutil/rewrite.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index c51d7e2..14e5c5f 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -171,9 +171,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CaseExpr:
 		a.apply(n, "Operand", nil, n.Operand)
 	case *sqlast.Exists:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.ObjectName:
 		a.applyList(n, "Idents")
 	case *sqlast.WindowSpec:
@@ -203,12 +203,12 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Limit", nil, n.Limit)
 		}
 	case *sqlast.CTE:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 		a.apply(n, "Alias", nil, n.Alias)
 	case *sqlast.SelectExpr:
 		a.apply(n, "Select", nil, n.Select)
 	case *sqlast.QueryExpr:
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SetOperationExpr:
 		a.apply(n, "Op", nil, n.Op)
 		a.apply(n, "Left", nil, n.Left)
@@ -348,7 +348,7 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		}
 	case *sqlast.CreateViewStmt:
 		a.apply(n, "Name", nil, n.Name)
-		a.apply(n, "QueryStmt", nil, n.Query)
+		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
-- 
2.43.0


From a9a968fbeb267d30c9b7dea43c916d98b4ab2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 35/60] fix: Apply visits every child of CASE, UPDATE, CREATE
 TABLE, USING and type nodes

---
 sqlastutil/rewrite.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/sqlastutil/rewrite.go b/sqlastutil/rewrite.go
index 14e5c5f..50efd80 100644
--- a/sqlastutil/rewrite.go
+++ b/sqlastutil/rewrite.go
@@ -169,7 +169,14 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 			a.apply(n, "Over", nil, n.Over)
 		}
 	case *sqlast.CaseExpr:
-		a.apply(n, "Operand", nil, n.Operand)
+		if n.Operand != nil {
+			a.apply(n, "Operand", nil, n.Operand)
+		}
+		a.applyList(n, "Conditions")
+		a.applyList(n, "Results")
+		if n.ElseResult != nil {
+			a.apply(n, "ElseResult", nil, n.ElseResult)
+		}
 	case *sqlast.Exists:
 		a.apply(n, "Query", nil, n.Query)
 	case *sqlast.SubQuery:
@@ -236,6 +243,8 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		a.apply(n, "Spec", nil, n.Spec)
 	case *sqlast.TableJoinElement:
 		a.apply(n, "Ref", nil, n.Ref)
+	case *sqlast.NamedColumnsJoin:
+		a.applyList(n, "ColumnList")
 	case *sqlast.JoinType:
 		// nothing to do
 	case *sqlast.JoinCondition:
@@ -320,9 +329,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.Bytea:
 		// nothing to do
 	case *sqlast.Array:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.Custom:
-		// nothing to do
+		a.apply(n, "Ty", nil, n.Ty)
 	case *sqlast.InsertStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Columns")
@@ -340,7 +349,9 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.UpdateStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		a.applyList(n, "Assignments")
-		a.apply(n, "Selection", nil, n.Selection)
+		if n.Selection != nil {
+			a.apply(n, "Selection", nil, n.Selection)
+		}
 	case *sqlast.DeleteStmt:
 		a.apply(n, "TableName", nil, n.TableName)
 		if n.Selection != nil {
@@ -352,6 +363,11 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 	case *sqlast.CreateTableStmt:
 		a.apply(n, "Name", nil, n.Name)
 		a.applyList(n, "Elements")
+		a.applyList(n, "Options")
+	case *sqlast.MyEngine:
+		a.apply(n, "Name", nil, n.Name)
+	case *sqlast.MyCharset:
+		a.apply(n, "Name", nil, n.Name)
 	case *sqlast.Assignment:
 		a.apply(n, "ID", nil, n.ID)
 		a.apply(n, "Value", nil, n.Value)
@@ -376,7 +392,10 @@ func (a *application) apply(parent sqlast.Node, name string, iter *iterator, n s
 		if n.Default != nil {
 			a.apply(n, "Default", nil, n.Default)
 		}
+		a.applyList(n, "MyDataTypeDecoration")
 		a.applyList(n, "Constraints")
+	case *sqlast.AutoIncrement:
+		// nothing to do
 	case *sqlast.ColumnConstraint:
 		if n.Name != nil {
 			a.apply(n, "Name", nil, n.Name)
-- 
2.43.0


From 1ea0b9ed9978e290cd495645341e7fb71e7f6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 36/60] fix: record the positions of parenthesised queries, set
 operators, join types, USING and derived tables

---
 parser.go       | 88 ++++++++++++++++++++++++++++++-------------------
 sqlast/ast.go   |  4 +--
 sqlast/query.go |  4 +--
 3 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/parser.go b/parser.go
index e0556fd..a03d09c 100644
--- a/parser.go
+++ b/parser.go
@@ -374,14 +374,20 @@ func (p *Parser) parseQueryBody(precedence uint8) (sqlast.SQLSetExpr, error) {
 		}
 		s.Select = tok.From
 		expr = s
-	} else if ok, _ := p.consumeToken(sqltoken.LParen); ok {
+	} else if l, _ := p.peekToken(); l != nil && l.Kind == sqltoken.LParen {
+		p.mustNextToken()
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
 		expr = &sqlast.QueryExpr{
-			Query: subquery,
+			LParen: l.From,
+			RParen: r.To,
+			Query:  subquery,
 		}
 	} else {
 		log.Panicln("expect SELECT or subquery in the query body")
@@ -430,11 +436,11 @@ func (p *Parser) parseSetOperator(token *sqltoken.Token) sqlast.SQLSetOperator {
 	word := token.Value.(*sqltoken.SQLWord)
 	switch keyword(word) {
 	case "UNION":
-		return &sqlast.UnionOperator{}
+		return &sqlast.UnionOperator{From: token.From, To: token.To}
 	case "EXCEPT":
-		return &sqlast.ExceptOperator{}
+		return &sqlast.ExceptOperator{From: token.From, To: token.To}
 	case "INTERSECT":
-		return &sqlast.IntersectOperator{}
+		return &sqlast.IntersectOperator{From: token.From, To: token.To}
 	}
 
 	return nil
@@ -1726,6 +1732,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 			Factor: rightElem,
 		}, nil
 	case "INNER":
+		inner := tok
 		p.expectKeyword("JOIN")
 		ref, err := p.parseTableReference()
 		if err != nil {
@@ -1741,7 +1748,7 @@ func (p *Parser) parseTableReferenceRight() (sqlast.TableReference, error) {
 				Ref: ref,
 			},
 			Spec: spec,
-			Type: &sqlast.JoinType{Condition: sqlast.INNER},
+			Type: &sqlast.JoinType{Condition: sqlast.INNER, From: inner.From, To: inner.To},
 		}, nil
 	case "LEFT", "RIGHT", "FULL", "JOIN":
 		p.prevToken()
@@ -1789,34 +1796,26 @@ func (p *Parser) parseJoinType() (*sqlast.JoinType, error) {
 			To:        tok.To,
 		}, nil
 	case "LEFT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{
-				Condition: sqlast.LEFTOUTER,
-				From:      tok.From,
-				To:        tok.To,
-			}, nil
+			return &sqlast.JoinType{Condition: sqlast.LEFTOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{
-			Condition: sqlast.LEFT,
-			From:      tok.From,
-			To:        tok.To,
-		}, nil
+		return &sqlast.JoinType{Condition: sqlast.LEFT, From: tok.From, To: tok.To}, nil
 	case "RIGHT":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.RIGHTOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.RIGHT}, nil
+		return &sqlast.JoinType{Condition: sqlast.RIGHT, From: tok.From, To: tok.To}, nil
 	case "FULL":
-		outer, _, _ := p.parseKeyword("OUTER")
+		outer, otok, _ := p.parseKeyword("OUTER")
 		if outer {
-			return &sqlast.JoinType{Condition: sqlast.FULLOUTER}, nil
+			return &sqlast.JoinType{Condition: sqlast.FULLOUTER, From: tok.From, To: otok.To}, nil
 		}
-		return &sqlast.JoinType{Condition: sqlast.FULL}, nil
+		return &sqlast.JoinType{Condition: sqlast.FULL, From: tok.From, To: tok.To}, nil
 	case "JOIN":
 		p.prevToken()
-		return &sqlast.JoinType{Condition: sqlast.IMPLICIT}, nil
+		return &sqlast.JoinType{Condition: sqlast.IMPLICIT, From: tok.From, To: tok.From}, nil
 	default:
 		return nil, errors.Errorf("unknown join type: %v", word)
 	}
@@ -1834,7 +1833,7 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 		}, nil
 	}
 
-	ok, _, _ := p.parseKeyword("USING")
+	ok, using, _ := p.parseKeyword("USING")
 	if !ok {
 		tok, _ := p.nextToken()
 		return nil, errors.Errorf("unknown join spec need USING or ON but: %v", tok)
@@ -1845,26 +1844,42 @@ func (p *Parser) parseJoinSpec() (sqlast.JoinSpec, error) {
 	if err != nil {
 		return nil, errors.Errorf("parse named columns join list failed: %w", err)
 	}
-	p.expectToken(sqltoken.RParen)
+	r, _ := p.nextToken()
+	if r.Kind != sqltoken.RParen {
+		return nil, errors.Errorf("expected RParen but %+v", r)
+	}
 
 	return &sqlast.NamedColumnsJoin{
 		ColumnList: idents,
+		Using:      using.From,
+		RParen:     r.To,
 	}, nil
 }
 
 func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
-	isLateral, _, _ := p.parseKeyword("LATERAL")
+	isLateral, lateral, _ := p.parseKeyword("LATERAL")
+	var lateralPos sqltoken.Pos
+	if isLateral {
+		lateralPos = lateral.From
+	}
+	l, _ := p.peekToken()
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		subquery, err := p.parseQuery()
 		if err != nil {
 			return nil, errors.Errorf("parseQuery failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
 		alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 		return &sqlast.Derived{
-			Lateral:  isLateral,
-			SubQuery: subquery,
-			Alias:    alias,
+			Lateral:    isLateral,
+			LateralPos: lateralPos,
+			LParen:     l.From,
+			RParen:     r.To,
+			SubQuery:   subquery,
+			Alias:      alias,
 		}, nil
 	} else if isLateral && !ok {
 		t, _ := p.nextToken()
@@ -1895,6 +1910,7 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 	alias := p.parseOptionalAlias(dialect.ReservedForTableAlias)
 
 	var withHints []sqlast.Node
+	var hintsRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("WITH"); ok {
 		if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 			h, err := p.parseExprList()
@@ -1902,7 +1918,11 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 				return nil, errors.Errorf("parseExprList failed: %w", err)
 			}
 			withHints = h
-			p.expectToken(sqltoken.RParen)
+			r, _ := p.nextToken()
+			if r.Kind != sqltoken.RParen {
+				return nil, errors.Errorf("expected RParen but %+v", r)
+			}
+			hintsRParen = r.To
 		} else {
 			p.prevToken()
 		}
@@ -1914,6 +1934,8 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 		ArgsRParen: argsRParen,
 		Alias:      alias,
 		WithHints:  withHints,
+
+		WithHintsRParen: hintsRParen,
 	}, nil
 
 }
diff --git a/sqlast/ast.go b/sqlast/ast.go
index 20144c4..f2a5fcf 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -510,11 +510,11 @@ type SubQuery struct {
 }
 
 func (s *SubQuery) Pos() sqltoken.Pos {
-	return s.RParen
+	return s.LParen
 }
 
 func (s *SubQuery) End() sqltoken.Pos {
-	return s.LParen
+	return s.RParen
 }
 
 func (s *SubQuery) ToSQLString() string {
diff --git a/sqlast/query.go b/sqlast/query.go
index e408caa..6cfd288 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -356,7 +356,7 @@ type Derived struct {
 	tableFactor
 	tableReference
 	Lateral    bool
-	LateralPos sqltoken.Pos // last position of LATERAL keyword if Lateral is true
+	LateralPos sqltoken.Pos // first position of LATERAL keyword if Lateral is true
 	LParen     sqltoken.Pos
 	RParen     sqltoken.Pos
 	SubQuery   *QueryStmt
@@ -375,7 +375,7 @@ func (d *Derived) End() sqltoken.Pos {
 		return d.Alias.End()
 	}
 
-	return d.LParen
+	return d.RParen
 }
 
 func (d *Derived) ToSQLString() string {
-- 
2.43.0


From 3e535c109eda75b892a83b5527dae3f084fcf59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 37/60] fix: Pos and End of a file without statements, a column
 without constraints, an empty table definition and an empty window do not
 panic

---
 sqlast/ast.go  | 25 +++++++++++++++++++++++--
 sqlast/stmt.go | 25 +++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index f2a5fcf..f56e606 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -28,6 +28,12 @@ type File struct {
 }
 
 func (f *File) End() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[len(f.Comments)-1].End()
+	}
 
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Comments[len(f.Comments)-1].End(), f.Stmts[len(f.Stmts)-1].End()) == 1 {
@@ -39,6 +45,13 @@ func (f *File) End() sqltoken.Pos {
 }
 
 func (f *File) Pos() sqltoken.Pos {
+	if len(f.Stmts) == 0 {
+		if len(f.Comments) == 0 {
+			return sqltoken.Pos{}
+		}
+		return f.Comments[0].Pos()
+	}
+
 	if len(f.Comments) != 0 {
 		if sqltoken.ComparePos(f.Stmts[0].Pos(), f.Comments[0].Pos()) == 1 {
 			return f.Comments[0].Pos()
@@ -573,7 +586,11 @@ func (s *WindowSpec) Pos() sqltoken.Pos {
 		return s.Order
 	}
 
-	return s.WindowsFrame.Pos()
+	if s.WindowsFrame != nil {
+		return s.WindowsFrame.Pos()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) End() sqltoken.Pos {
@@ -585,7 +602,11 @@ func (s *WindowSpec) End() sqltoken.Pos {
 		return s.OrderBy[len(s.OrderBy)-1].End()
 	}
 
-	return s.PartitionBy[len(s.PartitionBy)-1].End()
+	if len(s.PartitionBy) != 0 {
+		return s.PartitionBy[len(s.PartitionBy)-1].End()
+	}
+
+	return sqltoken.Pos{}
 }
 
 func (s *WindowSpec) ToSQLString() string {
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index a0da7b4..343f7a6 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -288,7 +288,13 @@ func (c *CreateTableStmt) Pos() sqltoken.Pos {
 }
 
 func (c *CreateTableStmt) End() sqltoken.Pos {
-	return c.Elements[len(c.Elements)-1].End()
+	if len(c.Options) != 0 {
+		return c.Options[len(c.Options)-1].End()
+	}
+	if len(c.Elements) != 0 {
+		return c.Elements[len(c.Elements)-1].End()
+	}
+	return c.Name.End()
 }
 
 func (c *CreateTableStmt) ToSQLString() string {
@@ -496,7 +502,22 @@ func (c *ColumnDef) Pos() sqltoken.Pos {
 }
 
 func (c *ColumnDef) End() sqltoken.Pos {
-	return c.Constraints[len(c.Constraints)-1].End()
+	end := c.DataType.End()
+	later := func(pos sqltoken.Pos) {
+		if sqltoken.ComparePos(pos, end) == 1 {
+			end = pos
+		}
+	}
+	if c.Default != nil {
+		later(c.Default.End())
+	}
+	if len(c.MyDataTypeDecoration) != 0 {
+		later(c.MyDataTypeDecoration[len(c.MyDataTypeDecoration)-1].End())
+	}
+	if len(c.Constraints) != 0 {
+		later(c.Constraints[len(c.Constraints)-1].End())
+	}
+	return end
 }
 
 func (c *ColumnDef) ToSQLString() string {
-- 
2.43.0


From 534ede3b76070f9b501aae713a575c07a0b0b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:17 +0000
Subject: [PATCH 38/60] fix: record the positions of ORDER BY directions, LIMIT
 ALL, OFFSET, windows and EXPLAIN

---
 parser.go       | 60 +++++++++++++++++++++++++++++++------------------
 sqlast/query.go |  6 ++---
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/parser.go b/parser.go
index a03d09c..aa2434f 100644
--- a/parser.go
+++ b/parser.go
@@ -176,7 +176,7 @@ func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 		if err != nil {
 			return nil, err
 		}
-		return &sqlast.ExplainStmt{Stmt: stmt}, nil
+		return &sqlast.ExplainStmt{Explain: tok.From, Stmt: stmt}, nil
 	default:
 		return nil, errors.Errorf("unexpected (or unsupported) keyword %s", word.Keyword)
 	}
@@ -1941,8 +1941,8 @@ func (p *Parser) parseTableFactor() (sqlast.TableFactor, error) {
 }
 
 func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
-	if ok, _, _ := p.parseKeyword("ALL"); ok {
-		return &sqlast.LimitExpr{All: true}, nil
+	if ok, tok, _ := p.parseKeyword("ALL"); ok {
+		return &sqlast.LimitExpr{All: true, AllPos: tok.To}, nil
 	}
 
 	i, tok, err := p.parseLiteralInt()
@@ -1951,8 +1951,8 @@ func (p *Parser) parseLimit() (*sqlast.LimitExpr, error) {
 	}
 
 	var offset *sqlast.LongValue
-	if ok, tok, _ := p.parseKeyword("OFFSET"); ok {
-		o, _, err := p.parseLiteralInt()
+	if ok, _, _ := p.parseKeyword("OFFSET"); ok {
+		o, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("invalid offset value: %w", err)
 		}
@@ -2480,6 +2480,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 	}
 
 	var over *sqlast.WindowSpec
+	var overRParen sqltoken.Pos
 	if ok, _, _ := p.parseKeyword("OVER"); ok {
 		p.expectToken(sqltoken.LParen)
 
@@ -2523,6 +2524,12 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 			Partition:    partition,
 			Order:        order,
 		}
+
+		or, _ := p.nextToken()
+		if or.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", or)
+		}
+		overRParen = or.To
 	}
 
 	return &sqlast.Function{
@@ -2530,6 +2537,7 @@ func (p *Parser) parseFunction(name *sqlast.ObjectName) (sqlast.Node, error) {
 		Args:       args,
 		Over:       over,
 		ArgsRParen: r.To,
+		OverRparen: overRParen,
 	}, nil
 }
 
@@ -2556,17 +2564,22 @@ func (p *Parser) parseOrderByExprList() ([]*sqlast.OrderByExpr, error) {
 		}
 		var asc *bool
 
-		if ok, _, _ := p.parseKeyword("ASC"); ok {
+		var ordering sqltoken.Pos
+
+		if ok, tok, _ := p.parseKeyword("ASC"); ok {
 			b := true
 			asc = &b
-		} else if ok, _, _ := p.parseKeyword("DESC"); ok {
+			ordering = tok.To
+		} else if ok, tok, _ := p.parseKeyword("DESC"); ok {
 			b := false
 			asc = &b
+			ordering = tok.To
 		}
 
 		exprList = append(exprList, &sqlast.OrderByExpr{
-			Expr: expr,
-			ASC:  asc,
+			Expr:        expr,
+			ASC:         asc,
+			OrderingPos: ordering,
 		})
 
 		if t, _ := p.peekToken(); t != nil && t.Kind == sqltoken.Comma {
@@ -2591,6 +2604,8 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		if err != nil {
 			return nil, errors.Errorf("invalid window frame unit: %w", err)
 		}
+		units.From = t.From
+		units.To = t.To
 		p.mustNextToken()
 
 		if ok, _, _ := p.parseKeyword("BETWEEN"); ok {
@@ -2621,25 +2636,25 @@ func (p *Parser) parseWindowFrame() (*sqlast.WindowFrame, error) {
 		}
 	}
 
-	p.expectToken(sqltoken.RParen)
 	return windowFrame, nil
 }
 
 func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
-	if ok, _, _ := p.parseKeywords("CURRENT", "ROW"); ok {
-		return &sqlast.CurrentRow{}, nil
+	if ok, toks, _ := p.parseKeywords("CURRENT", "ROW"); ok {
+		return &sqlast.CurrentRow{Current: toks[0].From, Row: toks[1].To}, nil
 	}
 
 	var rows *uint64
-	if ok, _, _ := p.parseKeyword("UNBOUNDED"); ok {
-		if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-			return &sqlast.UnboundedPreceding{}, nil
+	var from sqltoken.Pos
+	if ok, u, _ := p.parseKeyword("UNBOUNDED"); ok {
+		if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+			return &sqlast.UnboundedPreceding{Unbounded: u.From, Preceding: tok.To}, nil
 		}
-		if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-			return &sqlast.UnboundedFollowing{}, nil
+		if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+			return &sqlast.UnboundedFollowing{Unbounded: u.From, Following: tok.To}, nil
 		}
 	} else {
-		i, _, err := p.parseLiteralInt()
+		i, tok, err := p.parseLiteralInt()
 		if err != nil {
 			return nil, errors.Errorf("parseLiteralInt failed: %w", err)
 		}
@@ -2648,13 +2663,14 @@ func (p *Parser) parseWindowFrameBound() (sqlast.SQLWindowFrameBound, error) {
 		}
 		ui := uint64(i)
 		rows = &ui
+		from = tok.From
 	}
 
-	if ok, _, _ := p.parseKeyword("PRECEDING"); ok {
-		return &sqlast.Preceding{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("PRECEDING"); ok {
+		return &sqlast.Preceding{Bound: rows, From: from, Preceding: tok.To}, nil
 	}
-	if ok, _, _ := p.parseKeyword("FOLLOWING"); ok {
-		return &sqlast.Following{Bound: rows}, nil
+	if ok, tok, _ := p.parseKeyword("FOLLOWING"); ok {
+		return &sqlast.Following{Bound: rows, From: from, Following: tok.To}, nil
 	}
 	log.Panicln("expected PRECEDING or FOLLOWING")
 	return nil, nil
diff --git a/sqlast/query.go b/sqlast/query.go
index 6cfd288..c8274fe 100644
--- a/sqlast/query.go
+++ b/sqlast/query.go
@@ -719,7 +719,7 @@ func (j *JoinType) WriteTo(w io.Writer) (int64, error) {
 // ORDER BY Expr [ASC | DESC]
 type OrderByExpr struct {
 	Expr        Node
-	OrderingPos sqltoken.Pos // ASC / DESC keyword position if ASC != nil
+	OrderingPos sqltoken.Pos // last position of ASC / DESC keyword if ASC != nil
 	ASC         *bool
 }
 
@@ -755,8 +755,8 @@ func (o *OrderByExpr) WriteTo(w io.Writer) (int64, error) {
 // LIMIT [ALL | LimitValue ] [ OFFSET OffsetValue]
 type LimitExpr struct {
 	All         bool
-	AllPos      sqltoken.Pos // ALL keyword position if All is true
-	Limit       sqltoken.Pos // Limit keyword position
+	AllPos      sqltoken.Pos // last position of ALL keyword if All is true
+	Limit       sqltoken.Pos // first position of LIMIT keyword
 	LimitValue  *LongValue
 	OffsetValue *LongValue
 }
-- 
2.43.0


From a77f52d137eb8baf89026b1c75592875bd13860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 39/60] fix: record the positions of data types and ::type
 casts

---
 parser.go      | 25 ++++++++++++++++---------
 sqlast/ast.go  |  8 +++++++-
 sqlast/type.go |  9 ++++++++-
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/parser.go b/parser.go
index aa2434f..fa17e42 100644
--- a/parser.go
+++ b/parser.go
@@ -246,8 +246,9 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 	case "UUID":
 		return &sqlast.UUID{From: tok.From, To: tok.To}, nil
 	case "DATE":
-		return &sqlast.Date{}, nil
+		return &sqlast.Date{From: tok.From, To: tok.To}, nil
 	case "TIMESTAMP":
+		var zone sqltoken.Pos
 		wok, _, _ := p.parseKeyword("WITH")
 		ook := false
 		if !wok {
@@ -255,13 +256,15 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}
 		if wok || ook {
 			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
+			zone = p.expectKeyword("ZONE").To
 		}
 		return &sqlast.Timestamp{
 			Timestamp:    tok.From,
 			WithTimeZone: wok,
+			Zone:         zone,
 		}, nil
 	case "TIME":
+		to := tok.To
 		wok, _, _ := p.parseKeyword("WITH")
 		ook := false
 		if !wok {
@@ -269,21 +272,25 @@ func (p *Parser) ParseDataType() (_ sqlast.Type, err error) {
 		}
 		if wok || ook {
 			p.expectKeyword("TIME")
-			p.expectKeyword("ZONE")
+			to = p.expectKeyword("ZONE").To
 		}
-		return &sqlast.Time{WithTimeZone: wok}, nil
+		return &sqlast.Time{From: tok.From, To: to, WithTimeZone: wok}, nil
 	case "REGCLASS":
-		return &sqlast.Regclass{}, nil
+		return &sqlast.Regclass{From: tok.From, To: tok.To}, nil
 	case "TEXT":
 		if ok, _ := p.consumeToken(sqltoken.LBracket); ok {
-			p.expectToken(sqltoken.RBracket)
+			r, _ := p.nextToken()
+			if r == nil || r.Kind != sqltoken.RBracket {
+				return nil, errors.Errorf("expected RBracket but %+v", r)
+			}
 			return &sqlast.Array{
-				Ty: &sqlast.Text{},
+				Ty:     &sqlast.Text{From: tok.From, To: tok.To},
+				RParen: r.To,
 			}, nil
 		}
-		return &sqlast.Text{}, nil
+		return &sqlast.Text{From: tok.From, To: tok.To}, nil
 	case "BYTEA":
-		return &sqlast.Bytea{}, nil
+		return &sqlast.Bytea{From: tok.From, To: tok.To}, nil
 	case "NUMERIC":
 		precision, scale, err := p.parseOptionalPrecisionScale()
 		if err != nil {
diff --git a/sqlast/ast.go b/sqlast/ast.go
index f56e606..da29801 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -340,7 +340,7 @@ func (s *BinaryExpr) WriteTo(w io.Writer) (int64, error) {
 	return sw.End()
 }
 
-// `CAST(Expr AS DataType)`
+// `CAST(Expr AS DataType)` or `Expr::DataType` (without the positions of CAST and RParen)
 type Cast struct {
 	Expr     Node
 	DataType Type
@@ -349,10 +349,16 @@ type Cast struct {
 }
 
 func (s *Cast) Pos() sqltoken.Pos {
+	if s.Cast == (sqltoken.Pos{}) {
+		return s.Expr.Pos()
+	}
 	return s.Cast
 }
 
 func (s *Cast) End() sqltoken.Pos {
+	if s.Cast == (sqltoken.Pos{}) {
+		return s.DataType.End()
+	}
 	return s.RParen
 }
 
diff --git a/sqlast/type.go b/sqlast/type.go
index 27e7fb3..4352285 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -47,6 +47,13 @@ func (v *VarcharType) End() sqltoken.Pos {
 	if v.Size != nil {
 		return v.RParen
 	}
+	if v.Varying == (sqltoken.Pos{}) {
+		// VARCHAR
+		return sqltoken.Pos{
+			Line: v.Character.Line,
+			Col:  v.Character.Col + 7,
+		}
+	}
 	return v.Varying
 }
 
@@ -436,7 +443,7 @@ func (t *Timestamp) Pos() sqltoken.Pos {
 }
 
 func (t *Timestamp) End() sqltoken.Pos {
-	if t.WithTimeZone {
+	if t.WithTimeZone || t.Zone != (sqltoken.Pos{}) {
 		return t.Zone
 	}
 
-- 
2.43.0


From accb25d94b2f53f8a1dc886ec6a23b10ef74f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 40/60] fix: record the positions of column constraints, CREATE
 INDEX, NOT, IS NULL and qualified wildcards

---
 parser.go      | 39 +++++++++++++++++++++++++++------------
 sqlast/ast.go  | 21 ++++++++++++++++++---
 sqlast/stmt.go | 12 +++++++++---
 3 files changed, 54 insertions(+), 18 deletions(-)

diff --git a/parser.go b/parser.go
index fa17e42..c3201e7 100644
--- a/parser.go
+++ b/parser.go
@@ -571,11 +571,11 @@ func (p *Parser) parseCreate() (sqlast.Stmt, error) {
 	}
 
 	if iok, _, _ := p.parseKeyword("INDEX"); iok {
-		return p.parseCreateIndex(false)
+		return p.parseCreateIndex(t, false)
 	}
 
 	if uiok, _, _ := p.parseKeywords("UNIQUE", "INDEX"); uiok {
-		return p.parseCreateIndex(true)
+		return p.parseCreateIndex(t, true)
 	}
 
 	log.Panicln("TABLE or VIEW or UNIQUE INDEX or INDEX after create")
@@ -631,7 +631,7 @@ func (p *Parser) parseCreateView(create *sqltoken.Token) (sqlast.Stmt, error) {
 
 }
 
-func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
+func (p *Parser) parseCreateIndex(create *sqltoken.Token, unique bool) (sqlast.Stmt, error) {
 	var indexName *sqlast.Ident
 	ok, _, _ := p.parseKeyword("ON")
 	if !ok {
@@ -658,12 +658,17 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	var columns []*sqlast.Ident
+	var rparen sqltoken.Pos
 	if ok, _ := p.consumeToken(sqltoken.LParen); ok {
 		columns, err = p.parseColumnNames()
 		if err != nil {
 			return nil, errors.Errorf("parseColumnNames failed: %w", err)
 		}
-		p.expectToken(sqltoken.RParen)
+		r, _ := p.nextToken()
+		if r.Kind != sqltoken.RParen {
+			return nil, errors.Errorf("expected RParen but %+v", r)
+		}
+		rparen = r.To
 	}
 
 	var selection sqlast.Node
@@ -676,6 +681,8 @@ func (p *Parser) parseCreateIndex(unique bool) (sqlast.Stmt, error) {
 	}
 
 	return &sqlast.CreateIndexStmt{
+		Create:      create.From,
+		RParen:      rparen,
 		IsUnique:    unique,
 		IndexName:   indexName,
 		TableName:   tableName,
@@ -939,8 +946,10 @@ CONSTRAINT_LOOP:
 		}
 		word, ok := tok.Value.(*sqltoken.SQLWord)
 
+		var constraintPos sqltoken.Pos
 		var name *sqlast.Ident
 		if ok && keyword(word) == "CONSTRAINT" {
+			constraintPos = tok.From
 			p.mustNextToken()
 			i, err := p.parseIdentifier()
 			if err != nil {
@@ -1028,8 +1037,9 @@ CONSTRAINT_LOOP:
 		}
 
 		constraints = append(constraints, &sqlast.ColumnConstraint{
-			Name: name,
-			Spec: spec,
+			Name:       name,
+			Spec:       spec,
+			Constraint: constraintPos,
 		})
 
 	}
@@ -2109,14 +2119,16 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		switch keyword(word) {
 		case "IS":
-			if ok, _, _ := p.parseKeyword("NULL"); ok {
+			if ok, null, _ := p.parseKeyword("NULL"); ok {
 				return &sqlast.IsNull{
-					X: expr,
+					X:    expr,
+					Null: null.To,
 				}, nil
 			}
-			if ok, _, _ := p.parseKeywords("NOT", "NULL"); ok {
+			if ok, toks, _ := p.parseKeywords("NOT", "NULL"); ok {
 				return &sqlast.IsNotNull{
-					X: expr,
+					X:    expr,
+					Null: toks[1].To,
 				}, nil
 			}
 			return nil, errors.Errorf("NULL or NOT NULL after IS")
@@ -2333,7 +2345,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 			}
 			return &sqlast.UnaryExpr{
 				From: tok.From,
-				Op:   &sqlast.Operator{Type: sqlast.Not},
+				Op:   &sqlast.Operator{Type: sqlast.Not, From: tok.From, To: tok.To},
 				Expr: expr,
 			}, nil
 		default:
@@ -2348,6 +2360,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				{Value: word.String(), From: tok.From, To: tok.To},
 			}
 			endWithWildcard := false
+			var wildcard sqltoken.Pos
 
 			for {
 				if ok, _ := p.consumeToken(sqltoken.Period); !ok {
@@ -2368,6 +2381,7 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 				}
 				if n.Kind == sqltoken.Mult {
 					endWithWildcard = true
+					wildcard = n.From
 					break
 				}
 
@@ -2376,7 +2390,8 @@ func (p *Parser) parsePrefix() (sqlast.Node, error) {
 
 			if endWithWildcard {
 				return &sqlast.QualifiedWildcard{
-					Idents: idParts,
+					Idents:   idParts,
+					Wildcard: wildcard,
 				}, nil
 			}
 
diff --git a/sqlast/ast.go b/sqlast/ast.go
index da29801..8228383 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -138,7 +138,8 @@ func (s *Wildcard) WriteTo(w io.Writer) (int64, error) {
 
 // `table.*`, schema.table.*
 type QualifiedWildcard struct {
-	Idents []*Ident
+	Idents   []*Ident
+	Wildcard sqltoken.Pos // first position of `*`
 }
 
 func (s *QualifiedWildcard) Pos() sqltoken.Pos {
@@ -146,6 +147,12 @@ func (s *QualifiedWildcard) Pos() sqltoken.Pos {
 }
 
 func (s *QualifiedWildcard) End() sqltoken.Pos {
+	if s.Wildcard != (sqltoken.Pos{}) {
+		return sqltoken.Pos{
+			Line: s.Wildcard.Line,
+			Col:  s.Wildcard.Col + 1,
+		}
+	}
 	return s.Idents[len(s.Idents)-1].End()
 }
 
@@ -180,7 +187,8 @@ func (s *CompoundIdent) WriteTo(w io.Writer) (int64, error) {
 
 // ` X IS NULL`
 type IsNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL keyword
 }
 
 func (s *IsNull) Pos() sqltoken.Pos {
@@ -188,6 +196,9 @@ func (s *IsNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNull) End() sqltoken.Pos {
+	if s.Null != (sqltoken.Pos{}) {
+		return s.Null
+	}
 	return sqltoken.Pos{
 		Line: s.X.End().Line,
 		Col:  s.X.End().Col + 8,
@@ -204,7 +215,8 @@ func (s *IsNull) WriteTo(w io.Writer) (int64, error) {
 
 // `X IS NOT NULL`
 type IsNotNull struct {
-	X Node
+	X    Node
+	Null sqltoken.Pos // last position of NULL keyword
 }
 
 func (s *IsNotNull) Pos() sqltoken.Pos {
@@ -212,6 +224,9 @@ func (s *IsNotNull) Pos() sqltoken.Pos {
 }
 
 func (s *IsNotNull) End() sqltoken.Pos {
+	if s.Null != (sqltoken.Pos{}) {
+		return s.Null
+	}
 	return sqltoken.Pos{
 		Line: s.X.End().Line,
 		Col:  s.X.End().Col + 12,
diff --git a/sqlast/stmt.go b/sqlast/stmt.go
index 343f7a6..141b924 100644
--- a/sqlast/stmt.go
+++ b/sqlast/stmt.go
@@ -570,10 +570,10 @@ type ColumnConstraint struct {
 }
 
 func (c *ColumnConstraint) Pos() sqltoken.Pos {
-	if c.Name == nil {
+	if c.Name != nil {
 		return c.Constraint
 	}
-	return c.Name.Pos()
+	return c.Spec.Pos()
 }
 
 func (c *ColumnConstraint) End() sqltoken.Pos {
@@ -1088,8 +1088,14 @@ func (c *CreateIndexStmt) End() sqltoken.Pos {
 	if c.Selection != nil {
 		return c.Selection.End()
 	}
+	if len(c.ColumnNames) != 0 {
+		return c.RParen
+	}
+	if c.MethodName != nil {
+		return c.MethodName.End()
+	}
 
-	return c.RParen
+	return c.TableName.End()
 }
 
 func (c *CreateIndexStmt) ToSQLString() string {
-- 
2.43.0


From 69be41fee70b2757a3a45022c5df5e9117a61412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 41/60] fix: never ask the dialect about the end of the input

A dialect whose predicates accept every character but a few also accepted the
marker for the end of the input, and the tokenizer then looped forever.
---
 sqltoken/tokenizer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 93f8c26..526a9f8 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -241,6 +241,12 @@ func (t *Tokenizer) Pos() Pos {
 func (t *Tokenizer) next() (Kind, interface{}, error) {
 	r := t.Scanner.Peek()
 	switch {
+	case scanner.EOF == r:
+		if t.src != nil && t.src.err != nil {
+			return ILLEGAL, "", errors.Errorf("read failed: %w", t.src.err)
+		}
+		return ILLEGAL, "", io.EOF
+
 	case ' ' == r:
 		t.Scanner.Next()
 		t.Col += 1
@@ -474,11 +480,6 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 		t.Scanner.Next()
 		t.Col += 1
 		return RBrace, "}", nil
-	case scanner.EOF == r:
-		if t.src != nil && t.src.err != nil {
-			return ILLEGAL, "", errors.Errorf("read failed: %w", t.src.err)
-		}
-		return ILLEGAL, "", io.EOF
 	default:
 		t.Scanner.Next()
 		t.Col += 1
@@ -501,7 +502,7 @@ func (t *Tokenizer) tokenizeWord(f rune) string {
 	builder.WriteRune(f)
 	for {
 		r := t.Scanner.Peek()
-		if t.Dialect.IsIdentifierPart(r) {
+		if r != scanner.EOF && t.Dialect.IsIdentifierPart(r) {
 			t.Scanner.Next()
 			builder.WriteRune(r)
 		} else {
-- 
2.43.0


From d2f5a8c6ac99c0ce17cc344c1f917a9d11c4da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 42/60] fix: let the dialect decide whether N starts an
 identifier

---
 sqltoken/tokenizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 526a9f8..853bbb0 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -284,6 +284,10 @@ func (t *Tokenizer) next() (Kind, interface{}, error) {
 			}
 			return NationalStringLiteral, str, nil
 		}
+		if !t.Dialect.IsIdentifierStart(r) {
+			t.Col += 1
+			return Char, string(r), nil
+		}
 		s := t.tokenizeWord('N')
 		v := MakeKeyword(s, 0)
 		return SQLKeyword, v, nil
-- 
2.43.0


From 202323acbd80c60eea18b0bc4029587ed9d4f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 43/60] fix: separate the statements of a printed file by
 semicolons

---
 sqlast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 8228383..24ea037 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -68,7 +68,7 @@ func (f *File) ToSQLString() string {
 func (f *File) WriteTo(w io.Writer) (int64, error) {
 	sw := newSQLWriter(w)
 	for i, stmt := range f.Stmts {
-		sw.JoinNewLine(i, stmt)
+		sw.Join(i, stmt, []byte(";\n"))
 	}
 	return sw.End()
 }
-- 
2.43.0


From b88670779a2371110db544d7277eac7e2de90c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 44/60] fix: reject a malformed column list of a foreign key
 reference

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index c3201e7..661d26c 100644
--- a/parser.go
+++ b/parser.go
@@ -839,6 +839,9 @@ func (p *Parser) parseTableConstraints() (*sqlast.TableConstraint, error) {
 		w := t.Value.(*sqltoken.SQLWord)
 		p.expectToken(sqltoken.LParen)
 		refcolumns, err := p.parseColumnNames()
+		if err != nil {
+			return nil, errors.Errorf("parseColumnNames failed: %w", err)
+		}
 		r, _ := p.nextToken()
 		if r.Kind != sqltoken.RParen {
 			return nil, errors.Errorf("expected RParen but %+v", r)
-- 
2.43.0


From 715cf1f9b1716c5ddbcabe65757a6fc66b9f0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 45/60] fix: associate a comment before a one-line file with
 its statement

---
 sqlast/commentmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlast/commentmap.go b/sqlast/commentmap.go
index 993b759..750a45a 100644
--- a/sqlast/commentmap.go
+++ b/sqlast/commentmap.go
@@ -139,6 +139,10 @@ func NewCommentMap(file *File) CommentMap {
 
 		p = q
 		pend = p.End()
+		if _, ok := p.(*File); ok {
+			// the file contains all comments, so it does not end before any of them.
+			pend = sqltoken.NewPos(-1, -1)
+		}
 
 		switch q.(type) {
 		// Stmts
-- 
2.43.0


From 248ba33c1a80c6e20942dedd3b6a80f13c17468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 46/60] fix: do not associate a comment with a statement that
 ended before its own

---
 sqlast/commentmap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlast/commentmap.go b/sqlast/commentmap.go
index 750a45a..02f5d07 100644
--- a/sqlast/commentmap.go
+++ b/sqlast/commentmap.go
@@ -148,9 +148,11 @@ func NewCommentMap(file *File) CommentMap {
 		// Stmts
 		case *QueryStmt, *InsertStmt, *UpdateStmt, *DeleteStmt, *CreateViewStmt, *CreateTableStmt, *AlterTableStmt, *DropTableStmt, *CreateIndexStmt, *DropIndexStmt, *ExplainStmt:
 			stack.push(q)
+			pg = nil
 		// table element
 		case *ColumnDef, *TableConstraint:
 			stack.push(q)
+			pg = nil
 		}
 	}
 
-- 
2.43.0


From 100a93be659460f1d6c367c479c381904ee32f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 47/60] fix: do not associate a comment with the statement
 after its own

---
 sqlast/commentmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlast/commentmap.go b/sqlast/commentmap.go
index 02f5d07..1ead3ce 100644
--- a/sqlast/commentmap.go
+++ b/sqlast/commentmap.go
@@ -128,6 +128,10 @@ func NewCommentMap(file *File) CommentMap {
 					log.Panic("internal error")
 				}
 				assoc = q
+				// a comment inside a statement or table element does not belong to what follows it.
+				if i := len(stack); i > 0 && sqltoken.ComparePos(stack[i-1].End(), qpos) != 1 {
+					assoc = stack[i-1]
+				}
 			}
 			cmap.addComment(assoc, r.comment)
 
-- 
2.43.0


From e1186bbe586b542eddaba636029f6ac594716d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:06 +0000
Subject: [PATCH 48/60] fix: report a read error within a quoted text

---
 sqltoken/tokenizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 853bbb0..4ec61ce 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -217,6 +217,10 @@ func (t *Tokenizer) Scan(token *Token) (*Token, error) {
 		token.Value = ""
 		token.From = pos
 		token.To = t.Pos()
+		if t.src != nil && t.src.err != nil {
+			// the token was cut off by the failure of the reader.
+			err = errors.Errorf("read failed: %w", t.src.err)
+		}
 		return token, errors.Errorf("tokenize failed: %w", err)
 	}
 
-- 
2.43.0


From 382f1772bbd5f29352d670292c602b1e59f75457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 49/60] fix: end position of the NOT LIKE operator

---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 661d26c..36f62ba 100644
--- a/parser.go
+++ b/parser.go
@@ -2064,6 +2064,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		return nil, errors.Errorf("nextToken failed: %w", err)
 	}
 
+	operatorEnd := tok.To
 	switch tok.Kind {
 	case sqltoken.Eq:
 		operator = sqlast.Eq
@@ -2097,9 +2098,10 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 		case "LIKE":
 			operator = sqlast.Like
 		case "NOT":
-			ok, _, _ := p.parseKeyword("LIKE")
+			ok, like, _ := p.parseKeyword("LIKE")
 			if ok {
 				operator = sqlast.NotLike
+				operatorEnd = like.To
 			}
 		}
 	}
@@ -2112,7 +2114,7 @@ func (p *Parser) parseInfix(expr sqlast.Node, precedence uint) (sqlast.Node, err
 
 		return &sqlast.BinaryExpr{
 			Left:  expr,
-			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: tok.To},
+			Op:    &sqlast.Operator{Type: operator, From: tok.From, To: operatorEnd},
 			Right: right,
 		}, nil
 	}
-- 
2.43.0


From e95265ba4435feac66b917fa52da9dc020c7ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:57 +0000
Subject: [PATCH 50/60] fix: do not share keyword values between tokens

---
 sqltoken/tokenizer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 4ec61ce..29c6ed5 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -58,7 +58,9 @@ func init() {
 func MakeKeyword(word string, quoteStyle rune) *SQLWord {
 	if quoteStyle == 0 {
 		if w, ok := keywordCache[word]; ok {
-			return w
+			// each token has a word of its own.
+			c := *w
+			return &c
 		}
 	}
 	w := strings.ToUpper(word)
-- 
2.43.0


From ced607e9fc064615f9516da2e2a73a94e97f26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:20 +0000
Subject: [PATCH 51/60] fix: delimiters chosen by a user dialect close the
 identifier they open

---
 sqltoken/tokenizer.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 29c6ed5..57271f5 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -19,24 +19,17 @@ type SQLWord struct {
 }
 
 func (s *SQLWord) String() string {
-	if s.QuoteStyle == '"' || s.QuoteStyle == '[' || s.QuoteStyle == '`' {
-		return string(s.QuoteStyle) + s.Value + string(matchingEndQuote(s.QuoteStyle))
-	} else if s.QuoteStyle == 0 {
+	if s.QuoteStyle == 0 {
 		return s.Value
 	}
-	return ""
+	return string(s.QuoteStyle) + s.Value + string(matchingEndQuote(s.QuoteStyle))
 }
 
 func matchingEndQuote(quoteStyle rune) rune {
-	switch quoteStyle {
-	case '"':
-		return '"'
-	case '[':
+	if quoteStyle == '[' {
 		return ']'
-	case '`':
-		return '`'
 	}
-	return 0
+	return quoteStyle
 }
 
 var keywordCache = map[string]*SQLWord{}
-- 
2.43.0


From 38e7942560f7fe9692e9618eb9c6f60a33794a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:24 +0000
Subject: [PATCH 52/60] fix: SetTokens starts at the first of the new tokens

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 36f62ba..805fdeb 100644
--- a/parser.go
+++ b/parser.go
@@ -59,6 +59,10 @@ func NewParserWithOptions(opts ...ParserOption) *Parser {
 // FIXME: create appropriate parse function
 func (p *Parser) SetTokens(tokens []*sqltoken.Token) {
 	p.tokens = tokens
+	p.index = 0
+	if p.parseComment {
+		p.comments = make(map[sqltoken.Pos]*sqlast.CommentGroup)
+	}
 }
 
 // recoverError turns a panic raised on malformed input into an error of the exported Parse functions.
-- 
2.43.0


From 8303397f5ae93b2f64242778c65e675e99005b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 53/60] fix: astprinter shows every statement and rejects input
 that goes on with something else

---
 cmd/astprinter/main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/astprinter/main.go b/cmd/astprinter/main.go
index eef250e..9670599 100644
--- a/cmd/astprinter/main.go
+++ b/cmd/astprinter/main.go
@@ -33,12 +33,19 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
-	stmt, err := parser.ParseStatement()
+	stmts, err := parser.ParseSQL()
 	if err != nil {
 		log.Fatal(err)
 	}
+	if len(stmts) == 0 {
+		log.Fatal("no statement in the input")
+	}
 
-	pp.Println(stmt)
+	for _, stmt := range stmts {
+		if _, err := pp.Println(stmt); err != nil {
+			log.Fatal(err)
+		}
 
-	log.Println(stmt.ToSQLString())
+		log.Println(stmt.ToSQLString())
+	}
 }
-- 
2.43.0


From bfd6945f6d61320de77dc4ad63992af7e8ad1ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 54/60] fix: genmark names files of types with acronyms and
 digits in snake case

---
 tools/genmark/main.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/tools/genmark/main.go b/tools/genmark/main.go
index 05ed30c..5d64151 100644
--- a/tools/genmark/main.go
+++ b/tools/genmark/main.go
@@ -8,7 +8,6 @@ import (
 	"io/ioutil"
 	"log"
 	"os"
-	"regexp"
 	"strings"
 	"unicode"
 )
@@ -37,19 +36,18 @@ func FlagError(format string, a ...interface{}) *flagError {
 	return &flagError{message: fmt.Sprintf(format, a...)}
 }
 
-var snakeRegex = regexp.MustCompile("(^|[a-z])([A-Z])")
-
 func toSnake(s string) string {
-	s = strings.Replace(s, "SQL", "Sql", -1)
-	return snakeRegex.ReplaceAllStringFunc(s, func(s string) string {
-		r := []rune(s)
-		if len(r) == 1 {
-			r[0] = unicode.ToLower(r[0])
-		} else {
-			r = append(r[:1], '_', unicode.ToLower(r[1]))
+	r := []rune(strings.Replace(s, "SQL", "Sql", -1))
+	var b strings.Builder
+	for i, c := range r {
+		// an upper case letter begins a word after anything but one, and before a lower case letter
+		if i > 0 && unicode.IsUpper(c) && r[i-1] != '_' &&
+			(!unicode.IsUpper(r[i-1]) || i+1 < len(r) && unicode.IsLower(r[i+1])) {
+			b.WriteByte('_')
 		}
-		return string(r)
-	})
+		b.WriteRune(unicode.ToLower(c))
+	}
+	return b.String()
 }
 
 func toPrivate(s string) string {
-- 
2.43.0


From 773ea42c7a211eff50bded8e02f2b28e086e1397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 55/60] fix: genmark rejects names that give code that does not
 compile

---
 tools/genmark/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/genmark/main.go b/tools/genmark/main.go
index 5d64151..a1ff53c 100644
--- a/tools/genmark/main.go
+++ b/tools/genmark/main.go
@@ -5,6 +5,7 @@ import (
 	"flag"
 	"fmt"
 	"go/format"
+	"go/token"
 	"io/ioutil"
 	"log"
 	"os"
@@ -81,6 +82,13 @@ func run() error {
 		return FlagError("-t is must be public")
 	}
 	implTypeName := toPrivate(markerTypeName)
+	if !token.IsIdentifier(implTypeName) || implTypeName == markerTypeName ||
+		implTypeName == "init" || (implTypeName == "main" && flags.Package == "main") {
+		return FlagError("-t %s has no private type name", markerTypeName)
+	}
+	if !token.IsIdentifier(flags.Package) || flags.Package == "_" {
+		return FlagError("invalid package name %q", flags.Package)
+	}
 
 	outputName := flags.OutputName
 	if outputName == "" {
-- 
2.43.0


From e74875f133cbc8eff40fa7931eb22338ea07d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 56/60] fix: return the integer from LongValue.Value, as the
 other literals do

---
 sqlast/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlast/value.go b/sqlast/value.go
index 96e3073..7c7c09c 100644
--- a/sqlast/value.go
+++ b/sqlast/value.go
@@ -35,7 +35,7 @@ func (l *LongValue) End() sqltoken.Pos {
 }
 
 func (l *LongValue) Value() interface{} {
-	return l
+	return l.Long
 }
 
 func (l *LongValue) ToSQLString() string {
-- 
2.43.0


From 9184aba8c03692a6932a4464fef74665892b646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 57/60] fix: take time linear in the depth for End of IS NULL
 nodes without positions

---
 sqlast/ast.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 24ea037..5e30e2d 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -199,9 +199,10 @@ func (s *IsNull) End() sqltoken.Pos {
 	if s.Null != (sqltoken.Pos{}) {
 		return s.Null
 	}
+	end := s.X.End()
 	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 8,
+		Line: end.Line,
+		Col:  end.Col + 8,
 	}
 }
 
@@ -227,9 +228,10 @@ func (s *IsNotNull) End() sqltoken.Pos {
 	if s.Null != (sqltoken.Pos{}) {
 		return s.Null
 	}
+	end := s.X.End()
 	return sqltoken.Pos{
-		Line: s.X.End().Line,
-		Col:  s.X.End().Col + 12,
+		Line: end.Line,
+		Col:  end.Col + 12,
 	}
 }
 
-- 
2.43.0


From 91dc7b2dad9169aa1c394a52c785e8161233a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:22 +0000
Subject: [PATCH 58/60] fix: print sizes and window bounds above the largest
 signed integer as they are

---
 sqlast/ast.go    | 4 ++--
 sqlast/type.go   | 4 ++--
 sqlast/writer.go | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sqlast/ast.go b/sqlast/ast.go
index 5e30e2d..9fbbd1a 100644
--- a/sqlast/ast.go
+++ b/sqlast/ast.go
@@ -847,7 +847,7 @@ func (p *Preceding) ToSQLString() string {
 }
 
 func (p *Preceding) WriteTo(w io.Writer) (n int64, err error) {
-	return newSQLWriter(w).Int(int(*p.Bound)).Bytes([]byte(" PRECEDING")).End()
+	return newSQLWriter(w).Uint(*p.Bound).Bytes([]byte(" PRECEDING")).End()
 }
 
 // `Bound FOLLOWING`
@@ -871,5 +871,5 @@ func (f *Following) ToSQLString() string {
 }
 
 func (f *Following) WriteTo(w io.Writer) (n int64, err error) {
-	return newSQLWriter(w).Int(int(*f.Bound)).Bytes([]byte(" FOLLOWING")).End()
+	return newSQLWriter(w).Uint(*f.Bound).Bytes([]byte(" FOLLOWING")).End()
 }
diff --git a/sqlast/type.go b/sqlast/type.go
index 4352285..4b8e7ea 100644
--- a/sqlast/type.go
+++ b/sqlast/type.go
@@ -199,10 +199,10 @@ func (d *Decimal) WriteTo(w io.Writer) (int64, error) {
 	sw.Bytes([]byte("numeric"))
 	if d.Precision != nil {
 		sw.LParen()
-		sw.Int(int(*d.Precision))
+		sw.Uint(uint64(*d.Precision))
 		if d.Scale != nil {
 			sw.Bytes([]byte(","))
-			sw.Int(int(*d.Scale))
+			sw.Uint(uint64(*d.Scale))
 		}
 		sw.RParen()
 	}
diff --git a/sqlast/writer.go b/sqlast/writer.go
index 64daa63..990c1fd 100644
--- a/sqlast/writer.go
+++ b/sqlast/writer.go
@@ -47,13 +47,13 @@ func (w *sqlWriter) RParen() *sqlWriter {
 	return w.Bytes([]byte(")"))
 }
 
-func (w *sqlWriter) Int(i int) *sqlWriter {
+func (w *sqlWriter) Uint(i uint64) *sqlWriter {
 	if w.err != nil {
 		return w
 	}
 	var buf [32]byte
 	b := buf[:0]
-	b = strconv.AppendInt(b, int64(i), 10)
+	b = strconv.AppendUint(b, i, 10)
 	n, err := w.w.Write(b)
 	w.n += int64(n)
 	if err != nil {
@@ -130,7 +130,7 @@ func (w *sqlWriter) Nodes(nodes []Node) *sqlWriter {
 func (w *sqlWriter) TypeWithOptionalLength(sqltype []byte, size *uint) *sqlWriter {
 	w.Bytes(sqltype)
 	if size != nil {
-		w.Bytes([]byte("(")).Int(int(*size)).Bytes([]byte(")"))
+		w.Bytes([]byte("(")).Uint(uint64(*size)).Bytes([]byte(")"))
 	}
 	return w
 }
-- 
2.43.0


From e7dfdaf5b4f8b6939119af64daf8cceda9f3f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 59/60] fix: reject a statement nested too deep instead of
 exhausting the stack

---
 parser.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/parser.go b/parser.go
index 805fdeb..b481e34 100644
--- a/parser.go
+++ b/parser.go
@@ -20,6 +20,8 @@ type Parser struct {
 	index        uint
 	comments     map[sqltoken.Pos]*sqlast.CommentGroup
 	parseComment bool
+	depth        int // of the part being parsed
+	height       int // of what was parsed of this part
 }
 
 type ParserOption func(*Parser)
@@ -72,6 +74,39 @@ func recoverError(err *error) {
 	}
 }
 
+// maxNest bounds the nesting of a statement: parsing or traversing it must not exhaust the stack.
+const maxNest = 100000
+
+var errNest = errors.New("nested too deep")
+
+// enter begins a part of a statement that can contain parts of the same kind. Its result is for leave.
+func (p *Parser) enter() int {
+	if p.depth >= maxNest {
+		panic(errNest)
+	}
+	p.depth++
+	height := p.height
+	p.height = 0
+	return height
+}
+
+// leave ends the part begun by the enter that returned height.
+func (p *Parser) leave(height int) {
+	p.depth--
+	p.height++
+	if p.height < height {
+		p.height = height
+	}
+}
+
+// grow notes that what was parsed of the current part becomes an operand of what follows.
+func (p *Parser) grow() {
+	p.height++
+	if p.height > maxNest {
+		panic(errNest)
+	}
+}
+
 func (p *Parser) ParseFile() (*sqlast.File, error) {
 	stmts, err := p.ParseSQL()
 	if err != nil {
@@ -143,6 +178,7 @@ func (p *Parser) ParseSQL() (_ []sqlast.Stmt, err error) {
 
 func (p *Parser) ParseStatement() (_ sqlast.Stmt, err error) {
 	defer recoverError(&err)
+	defer p.leave(p.enter())
 
 	tok, err := p.nextToken()
 	if err != nil {
@@ -335,6 +371,8 @@ func (p *Parser) ParseExpr() (_ sqlast.Node, err error) {
 }
 
 func (p *Parser) parseQuery() (*sqlast.QueryStmt, error) {
+	defer p.leave(p.enter())
+
 	hasCTE, _, _ := p.parseKeyword("WITH")
 	var ctes []*sqlast.CTE
 	if hasCTE {
@@ -420,6 +458,7 @@ BODY_LOOP:
 			break
 		}
 		p.mustNextToken()
+		p.grow()
 		all, _, _ := p.parseKeyword("ALL")
 		right, err := p.parseQueryBody(nextPrecedence)
 		if err != nil {
@@ -1563,6 +1602,8 @@ func (p *Parser) parseAlterColumn(alt *sqltoken.Token) (*sqlast.AlterColumnTable
 }
 
 func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
+	defer p.leave(p.enter())
+
 	expr, err := p.parsePrefix()
 	if err != nil {
 		return nil, errors.Errorf("parsePrefix failed: %w", err)
@@ -1583,6 +1624,7 @@ func (p *Parser) parseDefaultExpr(precedence uint) (sqlast.Node, error) {
 		if precedence >= nextPrecedence {
 			break
 		}
+		p.grow()
 		expr, err = p.parseInfix(expr, nextPrecedence)
 		if err != nil {
 			return nil, errors.Errorf("parseInfix failed: %w")
@@ -1672,6 +1714,8 @@ func (p *Parser) parseFromClause() ([]sqlast.TableReference, error) {
 }
 
 func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
+	defer p.leave(p.enter())
+
 	leftElem, err := p.parseTableFactor()
 	if err != nil {
 		return nil, errors.Errorf("parse joined table left element failed: %w", err)
@@ -1689,6 +1733,7 @@ func (p *Parser) parseTableReference() (sqlast.TableReference, error) {
 			break
 		}
 
+		p.grow()
 		switch rtp := right.(type) {
 		case *sqlast.NaturalJoin:
 			rtp.LeftElement = &sqlast.TableJoinElement{
@@ -2038,6 +2083,8 @@ func (p *Parser) parseColumnNames() ([]*sqlast.Ident, error) {
 }
 
 func (p *Parser) parseSubexpr(precedence uint) (sqlast.Node, error) {
+	defer p.leave(p.enter())
+
 	expr, err := p.parsePrefix()
 	if err != nil {
 		return nil, errors.Errorf("parsePrefix failed: %w", err)
@@ -2051,6 +2098,7 @@ func (p *Parser) parseSubexpr(precedence uint) (sqlast.Node, error) {
 		if precedence >= nextPrecedence {
 			break
 		}
+		p.grow()
 		ex, err := p.parseInfix(expr, nextPrecedence)
 		if err != nil {
 			return nil, errors.Errorf("parseInfix failed: %w", err)
-- 
2.43.0


From 258cf7b41e932bc6ec386c262313a366c67efc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:35 +0000
Subject: [PATCH 60/60] fix: take a word with letters beyond ASCII for a name,
 not for a keyword

---
 parser.go             | 3 ++-
 sqltoken/tokenizer.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b481e34..c738e58 100644
--- a/parser.go
+++ b/parser.go
@@ -3297,7 +3297,8 @@ func (p *Parser) parseKeyword(expected string) (bool, *sqltoken.Token, error) {
 		return false, tok, nil
 	}
 
-	if word.QuoteStyle == 0 && strings.EqualFold(word.Value, expected) {
+	// letters like the long s equal ASCII ones when folded, but take more bytes.
+	if word.QuoteStyle == 0 && len(word.Value) == len(expected) && strings.EqualFold(word.Value, expected) {
 		p.mustNextToken()
 		return true, tok, nil
 	}
diff --git a/sqltoken/tokenizer.go b/sqltoken/tokenizer.go
index 57271f5..3884f68 100644
--- a/sqltoken/tokenizer.go
+++ b/sqltoken/tokenizer.go
@@ -57,6 +57,10 @@ func MakeKeyword(word string, quoteStyle rune) *SQLWord {
 		}
 	}
 	w := strings.ToUpper(word)
+	if len(w) != len(word) {
+		// letters like the dotless i have ASCII capitals, but no part in keywords.
+		w = word
+	}
 	_, ok := dialect.Keywords[w]
 
 	if quoteStyle == 0 && ok {
-- 
2.43.0

