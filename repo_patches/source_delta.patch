From 60ed46e4da99a2344723c6dce74b3ce4dfca1ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 01/24] fix: reset all lexer state when a parser instance is
 reused after a failed parse

---
 parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d786464..62bda62 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,13 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
 
+	// A previous parse that ended with an error may have left state behind
+	ctx.setToken(tokenEnd)
+	ctx.tokenStartPos = 0
+	ctx.beginningOfLine = 0
+	ctx.radix = 0
+	ctx.nameStack = nil
+
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
 		expr = ctx.factory.Program(expr, ctx.definitions, ctx.locator, 0, ctx.Pos())
-- 
2.43.0


From 5ea76da32e8e7e3d21e8ea836e6f2adb870a0319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 02/24] fix: compute line numbers for sources that contain
 invalid unicode instead of panicking

---
 parser/expression.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..89febe6 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -584,10 +584,9 @@ func (e *Locator) PosOnLine(offset int) int {
 func (e *Locator) getLineIndex() []int {
 	if e.lineIndex == nil {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for pos := 0; pos < len(e.string); pos++ {
+			if e.string[pos] == '\n' {
+				li = append(li, pos+1)
 			}
 		}
 		e.lineIndex = li
-- 
2.43.0


From 53965d5ec90a03f696f4f15f8c51cc2d79021379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 03/24] fix: make lazy computation of line numbers safe for
 concurrent readers of an AST

---
 parser/expression.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index 89febe6..fa1a74c 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"sort"
 	"strings"
+	"sync"
 	"unicode/utf8"
 
 	"github.com/lyraproj/issue/issue"
@@ -327,6 +328,7 @@ type (
 	Locator struct {
 		string    string
 		file      string
+		lineOnce  sync.Once
 		lineIndex []int
 	}
 
@@ -582,7 +584,8 @@ func (e *Locator) PosOnLine(offset int) int {
 }
 
 func (e *Locator) getLineIndex() []int {
-	if e.lineIndex == nil {
+	// The locator is shared by all expressions of an AST and must allow concurrent readers
+	e.lineOnce.Do(func() {
 		li := append(make([]int, 0, 32), 0)
 		for pos := 0; pos < len(e.string); pos++ {
 			if e.string[pos] == '\n' {
@@ -590,7 +593,7 @@ func (e *Locator) getLineIndex() []int {
 			}
 		}
 		e.lineIndex = li
-	}
+	})
 	return e.lineIndex
 }
 
-- 
2.43.0


From c11162071ba497b2ca12f714661e27c5fc00ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/24] fix: report a NUL character in the source instead of
 silently ignoring everything that follows it

---
 parser/reader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..ab39004 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -52,6 +52,11 @@ func (r *stringReader) invalidUnicode() *parseError {
 	return r.parseError("invalid unicode character")
 }
 
+// A NUL would be mistaken for the EOS marker
+func (r *stringReader) unexpectedNul() *parseError {
+	return r.parseError("unexpected NUL character")
+}
+
 func (r *stringReader) Next() (c rune, start int) {
 	start = r.i
 	if r.i >= len(r.text) {
@@ -59,6 +64,9 @@ func (r *stringReader) Next() (c rune, start int) {
 	}
 	c = rune(r.text[r.i])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.unexpectedNul())
+		}
 		r.i++
 		return
 	}
@@ -76,6 +84,9 @@ func (r *stringReader) Peek() (c rune, size int) {
 	}
 	c = rune(r.text[r.i])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.unexpectedNul())
+		}
 		size = 1
 		return
 	}
@@ -92,6 +103,9 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 	}
 	c = rune(r.text[pos])
 	if c < utf8.RuneSelf {
+		if c == 0 {
+			panic(r.unexpectedNul())
+		}
 		size = 1
 		return
 	}
-- 
2.43.0


From d5e3467621ba67602dec486f9b828c4df8f1ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 05/24] fix: accept an empty heredoc that is terminated by an
 end tag with a dash

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..7831481 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1513,9 +1513,9 @@ findEndOfText:
 				heredocEnd = n
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From 3af73da9e387fde8692ded692476b556177e3f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 06/24] fix: don't position the lexer beyond the end of a
 source that ends with a heredoc tag

---
 parser/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 7831481..cd0a0b8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1511,6 +1511,9 @@ findEndOfText:
 				ctx.SetPos(tagEnd)
 				c, n = ctx.skipWhiteInLiteral()
 				heredocEnd = n
+				if c == 0 {
+					heredocEnd-- // There is no newline to skip at the end of the source
+				}
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
 					if suppressLastNL && heredocContentEnd > heredocContentStart {
-- 
2.43.0


From 45171a4adec3d9f5c0cea50493be3dd955ef1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 07/24] fix: give workflow step attributes a positive length

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 62bda62..f6eff50 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1148,12 +1148,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1463,7 +1463,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
 			vs := ctx.Pos()
-			pl := ps - vs
+			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1838,7 +1838,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From cd50caa256b00f48fe4be34b95efa35643d83e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 08/24] fix: report a syntax error when the body of a type
 alias is not a hash

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f6eff50..565e640 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1224,7 +1224,12 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				hashStart := ctx.tokenStartPos
+				hash, ok := ctx.expression().(*LiteralHash)
+				if !ok {
+					ctx.SetPos(hashStart)
+					panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[tokenLc]}))
+				}
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From cc2727091f24146528554988fbc935e01451a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 09/24] fix: report a syntax error when a workflow step
 iteration is assigned to a numeric variable

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 565e640..85bbf67 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1450,7 +1450,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok {
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From b21176aaf724e07e9cddc3268465d9288082b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 10/24] fix: don't crash when converting a definition with a
 qualified or empty parameter name to PN

---
 parser/parser.go | 4 ++--
 pn/pn.go         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 85bbf67..e30e3a3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1791,7 +1791,7 @@ func (ctx *context) parameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
@@ -1835,7 +1835,7 @@ func (ctx *context) returnParameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..eea1c51 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -77,7 +77,7 @@ type (
 	}
 )
 
-var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
+var keyPattern = regexp.MustCompile(`^(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[A-Za-z_-][0-9A-Za-z_-]*)*$`)
 
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
-- 
2.43.0


From 86ca12b8260064dd306c1b40da1a15c7c9a29c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 11/24] fix: report a hash with a collection key as not literal
 instead of panicking

---
 literal/literal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..f013da5 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Not hashable, so it cannot be represented as the key of a Go map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
-- 
2.43.0


From 5125b80d895f59a19cce3ef7ff99d3bcd548ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 12/24] fix: report an invalid source as an issue instead of
 panicking in ParserValidator

---
 parser/reader.go       | 5 +++++
 validator/issues.go    | 3 +++
 validator/validator.go | 9 ++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/reader.go b/parser/reader.go
index ab39004..e176c73 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -40,6 +40,11 @@ func (e *parseError) Error() string {
 	return fmt.Sprintf(`%s at offset %d`, e.message, e.offset)
 }
 
+// Offset returns the byte offset of the offending character
+func (e *parseError) Offset() int {
+	return e.offset
+}
+
 func NewStringReader(s string) StringReader {
 	return &stringReader{i: 0, text: s}
 }
diff --git a/validator/issues.go b/validator/issues.go
index c670c7d..0b9391a 100644
--- a/validator/issues.go
+++ b/validator/issues.go
@@ -32,6 +32,7 @@ const (
 	ValidateIllegalSingleTypeMapping        = `VALIDATE_ILLEGAL_SINGLE_TYPE_MAPPING`
 	ValidateInvalidStepStyle                = `VALIDATE_INVALID_STEP_STYLE`
 	ValidateMultipleAttributesUnfold        = `VALIDATE_MULTIPLE_ATTRIBUTES_UNFOLD`
+	ValidateInvalidSource                   = `VALIDATE_INVALID_SOURCE`
 	ValidateNotAbsoluteTopLevel             = `VALIDATE_NOT_ABSOLUTE_TOP_LEVEL`
 	ValidateNotRvalue                       = `VALIDATE_NOT_RVALUE`
 	ValidateNotTopLevel                     = `VALIDATE_NOT_TOP_LEVEL`
@@ -120,6 +121,8 @@ func init() {
 
 	issue.Hard(ValidateMultipleAttributesUnfold, `Unfolding of attributes from Hash can only be used once per resource body`)
 
+	issue.Hard(ValidateInvalidSource, `%{message}`)
+
 	issue.Hard2(ValidateNotAbsoluteTopLevel,
 		`%{value} may only appear at top level`,
 		issue.HF{`value`: issue.UcAnOrA})
diff --git a/validator/validator.go b/validator/validator.go
index fa2d652..d9c9934 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -176,7 +176,14 @@ func (pv *parserValidator) Parse(filename string, source string) (parser.Express
 		if i, ok := err.(issue.Reported); ok {
 			return nil, issue.NewResult([]issue.Reported{i})
 		}
-		panic(err.Error())
+		// The source is not valid UTF-8 text
+		line, pos := 0, 0
+		if pe, ok := err.(interface{ Offset() int }); ok {
+			locator := parser.NewLocator(filename, source)
+			line, pos = locator.LineForOffset(pe.Offset()), locator.PosOnLine(pe.Offset())
+		}
+		return nil, issue.NewResult([]issue.Reported{
+			issue.NewReported(ValidateInvalidSource, issue.SeverityError, issue.H{`message`: err.Error()}, issue.NewLocation(filename, line, pos))})
 	}
 	Validate(pv.validator, expr)
 	issues := pv.validator.Issues()
-- 
2.43.0


From 15fe8606824308f5e8f761429baf23cae4d71b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 13/24] fix: report an EPP tag that is not terminated instead
 of accepting a truncated template

---
 parser/issues.go | 2 ++
 parser/lexer.go  | 5 +++++
 parser/parser.go | 1 +
 3 files changed, 8 insertions(+)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..d223335 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -23,6 +23,7 @@ const (
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
+	lexUnbalancedEppTag             = `LEX_UNBALANCED_EPP_TAG`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
 	lexUnterminatedComment          = `LEX_UNTERMINATED_COMMENT`
 	lexUnterminatedString           = `LEX_UNTERMINATED_STRING`
@@ -76,6 +77,7 @@ func init() {
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
+	issue.Hard(lexUnbalancedEppTag, `unbalanced epp tag, reached end of source without closing tag`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
 	issue.Hard(lexUnterminatedComment, `unterminated /* */ comment`)
 	issue.Hard(lexUnterminatedString, `unterminated %{string_type} quoted string`)
diff --git a/parser/lexer.go b/parser/lexer.go
index cd0a0b8..316651d 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -309,6 +309,7 @@ type context struct {
 	stringReader
 	locator               *Locator
 	eppMode               bool
+	eppAtEnd              bool
 	handleBacktickStrings bool
 	handleHexEscapes      bool
 	tasks                 bool
@@ -379,6 +380,9 @@ func (ctx *context) nextToken() {
 	default:
 		switch c {
 		case 0:
+			if ctx.eppMode && !ctx.eppAtEnd {
+				panic(ctx.parseIssue(lexUnbalancedEppTag))
+			}
 			ctx.setToken(tokenEnd)
 		case '=':
 			c, sz = ctx.Peek()
@@ -1129,6 +1133,7 @@ func (ctx *context) consumeEPP() {
 			lastNonWS = buf.Len()
 		}
 	}
+	ctx.eppAtEnd = true
 	if buf.Len() == 0 {
 		ctx.setToken(tokenEnd)
 	} else {
diff --git a/parser/parser.go b/parser/parser.go
index e30e3a3..e4c75b5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.eppAtEnd = false
 
 	// A previous parse that ended with an error may have left state behind
 	ctx.setToken(tokenEnd)
-- 
2.43.0


From 6d0aeef8118e3b7bfcaeb7667ffbd586430c2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 14/24] fix: avoid exponential backtracking for nested
 statement calls with a hash argument

---
 parser/lexer.go  |  1 +
 parser/parser.go | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 316651d..3c89348 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -323,6 +323,7 @@ type context struct {
 	factory               ExpressionFactory
 	nameStack             []string
 	definitions           []Definition
+	hashCalls             map[int]bool
 }
 
 func (ctx *context) setToken(token int) {
diff --git a/parser/parser.go b/parser/parser.go
index e4c75b5..6a6d012 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
 	ctx.eppAtEnd = false
+	ctx.hashCalls = make(map[int]bool)
 
 	// A previous parse that ended with an error may have left state behind
 	ctx.setToken(tokenEnd)
@@ -987,8 +988,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	var firstTitle Expression
 
 	// First attribute might be a * => operator. No attempt should be made
-	// to read it as an expression.
-	if ctx.currentToken != tokenMultiply {
+	// to read it as an expression. The same is true when it's already known that what
+	// starts here is a hash.
+	if ctx.currentToken != tokenMultiply && !ctx.hashCalls[bodiesStart] {
 		firstTitle = ctx.expression()
 	}
 
@@ -1006,7 +1008,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 				name = fqn.name
 				if _, ok := statementCalls[name]; ok {
 					// Handle the call here and set lexer position to where the next expression (the one starting
-					// with a curly brace) starts.
+					// with a curly brace) starts. This position may be visited repeatedly when such
+					// calls are nested so remember the outcome.
+					ctx.hashCalls[bodiesStart] = true
 					args := make([]Expression, 1)
 					ctx.SetPos(bodiesStart)
 					ctx.nextToken()
-- 
2.43.0


From 6c3dfa0550fda36714f396f703d58800b0457047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 15/24] fix: report a float that is out of range instead of
 producing infinity, which has no JSON form

---
 parser/issues.go | 2 ++
 parser/lexer.go  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/parser/issues.go b/parser/issues.go
index d223335..6c2f317 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -11,6 +11,7 @@ const (
 	lexHeredocMultipleEscape        = `LEX_HEREDOC_MULTIPLE_ESCAPE`
 	lexHeredocMultipleSyntax        = `LEX_HEREDOC_MULTIPLE_SYNTAX`
 	lexHeredocMultipleTag           = `LEX_HEREDOC_MULTIPLE_TAG`
+	lexFloatOutOfRange              = `LEX_FLOAT_OUT_OF_RANGE`
 	lexHeredocDeclUnterminated      = `LEX_HEREDOC_DECL_UNTERMINATED`
 	lexHeredocUnterminated          = `LEX_HEREDOC_UNTERMINATED`
 	lexHexdigitExpected             = `LEX_HEXDIGIT_EXPECTED`
@@ -60,6 +61,7 @@ const (
 func init() {
 	issue.Hard(lexDoubleColonNotFollowedByName, `:: not followed by name segment`)
 	issue.Hard(lexDigitExpected, `digit expected`)
+	issue.Hard(lexFloatOutOfRange, `the number %{number} is too large`)
 	issue.Hard(lexHeredocDeclUnterminated, `unterminated @(`)
 	issue.Hard(lexHeredocEmptyTag, `empty heredoc tag`)
 	issue.Hard(lexHeredocIllegalEscape, `illegal heredoc escape '%{flag}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index 3c89348..9fa3a5b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bytes"
+	"math"
 	"strconv"
 	"unicode"
 	"unicode/utf8"
@@ -980,6 +981,10 @@ func (ctx *context) consumeFloat(start int, d rune) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
 	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	if math.IsInf(v, 0) {
+		// Infinity cannot be represented in JSON
+		panic(ctx.parseIssue2(lexFloatOutOfRange, issue.H{`number`: ctx.From(start)}))
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
-- 
2.43.0


From a30819c6f70f5ea431d7c08eb142da8bf5540713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 16/24] fix: don't strip trailing zeroes of the exponent when a
 float is converted to PN

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index eea1c51..e342a6c 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From 6156fd7988dfafda1c26af232a029eb555d74eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 17/24] fix: let the position of a block be that of its first
 token regardless of what follows that token

---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6a6d012..305e831 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -252,8 +252,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From 47dab5b573f8b701cb04f468fc25d7e55f952299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:22 +0000
Subject: [PATCH 18/24] fix: avoid exponential backtracking when a statement
 call with a hash argument starts with an interpolated string

---
 parser/parser.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 305e831..e5bea5f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -982,14 +982,16 @@ func (ctx *context) caseOption() Expression {
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	bodiesStart := ctx.Pos()
+	if ctx.hashCalls[bodiesStart] {
+		return ctx.hashCall(start, first, bodiesStart)
+	}
 	ctx.nextToken()
 	titleStart := ctx.Pos()
 	var firstTitle Expression
 
 	// First attribute might be a * => operator. No attempt should be made
-	// to read it as an expression. The same is true when it's already known that what
-	// starts here is a hash.
-	if ctx.currentToken != tokenMultiply && !ctx.hashCalls[bodiesStart] {
+	// to read it as an expression.
+	if ctx.currentToken != tokenMultiply {
 		firstTitle = ctx.expression()
 	}
 
@@ -1006,17 +1008,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 			if ok {
 				name = fqn.name
 				if _, ok := statementCalls[name]; ok {
-					// Handle the call here and set lexer position to where the next expression (the one starting
-					// with a curly brace) starts. This position may be visited repeatedly when such
-					// calls are nested so remember the outcome.
+					// This position may be visited repeatedly when such calls are nested so remember the outcome.
 					ctx.hashCalls[bodiesStart] = true
-					args := make([]Expression, 1)
-					ctx.SetPos(bodiesStart)
-					ctx.nextToken()
-					args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, bodiesStart, ctx.Pos()-bodiesStart)
-					expr = ctx.factory.CallNamed(first, true, args, nil, ctx.locator, start, ctx.Pos()-start)
-					ctx.nextToken()
-					return
+					return ctx.hashCall(start, first, bodiesStart)
 				}
 			}
 			ctx.SetPos(start)
@@ -1045,6 +1039,18 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	return
 }
 
+// hashCall parses a statement call with a hash argument. The hash starts at the given position, i.e. the lexer
+// is moved to where the expression that starts with a curly brace starts
+func (ctx *context) hashCall(start int, name Expression, hashStart int) (expr Expression) {
+	args := make([]Expression, 1)
+	ctx.SetPos(hashStart)
+	ctx.nextToken()
+	args[0] = ctx.factory.Hash(ctx.hashExpression(), ctx.locator, hashStart, ctx.Pos()-hashStart)
+	expr = ctx.factory.CallNamed(name, true, args, nil, ctx.locator, start, ctx.Pos()-start)
+	ctx.nextToken()
+	return
+}
+
 func (ctx *context) resourceShape(expr Expression) string {
 	if _, ok := expr.(*QualifiedName); ok {
 		return "resource"
-- 
2.43.0


From 1d4aeb3806bdea870c9ed4eade0d17d9f1eb03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:59 +0000
Subject: [PATCH 19/24] fix: the text of a heredoc starts on the line after its
 tag also when a comment or slash follows the tag

---
 parser/lexer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 9fa3a5b..6ebd239 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1448,15 +1448,19 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n) // rewind to what follows the comment
+			c, sz = ctx.Peek()
 
 		case '/':
 			n = ctx.Pos()
 			ctx.Advance(sz)
-			c, _ = ctx.Next()
+			c, sz = ctx.Peek()
 			if c == '*' {
 				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n) // rewind to what follows the comment
+				c, sz = ctx.Peek()
 			}
 
 		case '\n':
-- 
2.43.0


From 6d8b910b4e4427a3f02388ecc49e8076c81e7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:14 +0000
Subject: [PATCH 20/24] fix: heredocs and line breaks in the first key of a
 statement call's hash are read twice

The text of a heredoc that starts there was consumed by the first reading, so that the second
one reported an unterminated heredoc, or took other text.
---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5bea5f..f35ac53 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -982,6 +982,7 @@ func (ctx *context) caseOption() Expression {
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	bodiesStart := ctx.Pos()
+	nextLineStart := ctx.nextLineStart
 	if ctx.hashCalls[bodiesStart] {
 		return ctx.hashCall(start, first, bodiesStart)
 	}
@@ -996,7 +997,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	}
 
 	if ctx.currentToken != tokenColon {
-		// Resource body without title
+		// Resource body without title. What follows the curly brace will be read again, so text of heredocs
+		// that start there is no longer consumed
+		ctx.nextLineStart = nextLineStart
 		ctx.SetPos(titleStart)
 		switch ctx.resourceShape(first) {
 		case `resource`:
-- 
2.43.0


From 7aafed736a29a039504afba234cc2bed748bef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:27 +0000
Subject: [PATCH 21/24] fix: definitions in the first key of a statement call's
 hash were listed twice

That key is read a second time once it is known that the call has no resource title.
---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f35ac53..2601271 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -983,6 +983,7 @@ func (ctx *context) caseOption() Expression {
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
 	bodiesStart := ctx.Pos()
 	nextLineStart := ctx.nextLineStart
+	definitionCount := len(ctx.definitions)
 	if ctx.hashCalls[bodiesStart] {
 		return ctx.hashCall(start, first, bodiesStart)
 	}
@@ -998,8 +999,9 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 
 	if ctx.currentToken != tokenColon {
 		// Resource body without title. What follows the curly brace will be read again, so text of heredocs
-		// that start there is no longer consumed
+		// that start there is no longer consumed, and definitions found there will be found again
 		ctx.nextLineStart = nextLineStart
+		ctx.definitions = ctx.definitions[:definitionCount]
 		ctx.SetPos(titleStart)
 		switch ctx.resourceShape(first) {
 		case `resource`:
-- 
2.43.0


From 2cdd2e5d1c2cc90d7718c1d4960b7132affd8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:35 +0000
Subject: [PATCH 22/24] fix: the simple lexer returned the tokens of the first
 line twice

Its position of the text after heredocs was zero, so that the first line break led back to the
start of the source.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 2601271..93dbff5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,6 +90,7 @@ func NewSimpleLexer(filename string, source string) Lexer {
 		stringReader:          stringReader{text: source},
 		factory:               nil,
 		locator:               &Locator{string: source, file: filename},
+		nextLineStart:         -1,
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
 		tasks:                 false,
-- 
2.43.0


From b50be5f199fc198179f5a8500acbecd97c18c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 23/24] fix: a token with interpolations starts where it
 starts, not after its last interpolation

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 6ebd239..ee60881 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -568,6 +568,7 @@ func (ctx *context) nextToken() {
 			} else if c == '(' {
 				ctx.Advance(sz)
 				ctx.consumeHeredocString()
+				ctx.tokenStartPos = start // interpolations have moved it
 			} else {
 				ctx.setToken(tokenAt)
 			}
@@ -651,6 +652,7 @@ func (ctx *context) nextToken() {
 
 		case '"':
 			ctx.consumeDoubleQuotedString()
+			ctx.tokenStartPos = start // interpolations have moved it
 
 		case '\'':
 			ctx.consumeSingleQuotedString()
-- 
2.43.0


From 62ad687cc2d3249ba1c4004bf048a894b6a29417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:56 +0000
Subject: [PATCH 24/24] fix: a string on the line of a heredoc tag that
 contains the start of a comment was taken for a comment

---
 parser/lexer.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index ee60881..7ac82bb 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1465,6 +1465,23 @@ findStartOfText:
 				c, sz = ctx.Peek()
 			}
 
+		case '\'', '"', '`':
+			// Comments are not recognized inside of strings
+			delimiter := c
+			ctx.Advance(sz)
+			for c, sz = ctx.Peek(); c != 0 && c != '\n' && c != delimiter; c, sz = ctx.Peek() {
+				ctx.Advance(sz)
+				if c == '\\' && delimiter != '`' {
+					if c, sz = ctx.Peek(); c != 0 && c != '\n' {
+						ctx.Advance(sz)
+					}
+				}
+			}
+			if c == delimiter {
+				ctx.Advance(sz)
+				c, sz = ctx.Peek()
+			}
+
 		case '\n':
 			if ctx.nextLineStart >= 0 {
 				ctx.SetPos(ctx.nextLineStart)
-- 
2.43.0

