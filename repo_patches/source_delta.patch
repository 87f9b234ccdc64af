From 0372c3c0285577e9b644dc89a7084f44d7ff5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 01/48] fix: rendering a match error at the end of the input no
 longer panics

---
 tpl/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..eaa84c4 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -130,7 +130,10 @@ func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n { // idxErr == n means that the error is at the end of doc
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From 60df2cf80db94025bf7b47815a03604af4b23623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 02/48] fix: EOF in a grammar text means GrEOF, as documented

---
 tpl/compiler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..6799768 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -227,7 +227,9 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 	ident := func(tokens []Token, g Grammar) {
 		name := tokens[0].Literal
 		ch := name[0]
-		if ch >= 'A' && ch <= 'Z' {
+		if name == "EOF" {
+			g = GrEOF
+		} else if ch >= 'A' && ch <= 'Z' {
 			tok := scanner.Ltot(name)
 			if tok == ILLEGAL {
 				panic("illegal token: " + name)
-- 
2.43.0


From 681591cff2bc00820cb174657681d8c6e5926e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 03/48] fix: Code prints parentheses around a list used as
 separator of a list

---
 tpl/grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index eaa84c4..8d46292 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -547,7 +547,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlRepeat) // G1 % G2 is left associative
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From cc915a5ec571f8c2c8f15fd196fcd55f06e65977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 04/48] fix: Code prints +(+G) as `+ +G` instead of `++G`

---
 tpl/grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 8d46292..605806d 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -457,6 +457,9 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 }
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
+	if n := len(b); n > 0 && b[n-1] == '+' {
+		b = append(b, ' ') // `++` is a token
+	}
 	b = append(b, '+')
 	return p.g.Marshal(b, t, lvlRepeat)
 }
-- 
2.43.0


From 7721790fddfac37682ab6b75ec64dcc52a63637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 05/48] fix: repeating a rule that matches nothing ends instead
 of looping forever

---
 tpl/grammar.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 605806d..0875ca3 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -415,6 +415,10 @@ func (p *grRepeat0) Match(src []Token, ctx Context) (n int, err error) {
 			return
 		}
 		len++
+		if n1 == 0 { // g matches empty: don't repeat it forever
+			p.len = len
+			return
+		}
 		n += n1
 		src = src[n1:]
 	}
@@ -448,6 +452,10 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 		p.len = 0
 		return
 	}
+	if n == 0 { // g matches empty: don't repeat it
+		p.len = 1
+		return
+	}
 
 	r2 := grRepeat0{p.g, 0}
 	n2, _ := r2.Match(src[n:], ctx)
@@ -535,6 +543,10 @@ func (p *grList) Match(src []Token, ctx Context) (n int, err error) {
 			return
 		}
 		len++
+		if n1 == 0 { // matches empty: don't repeat it forever
+			p.len = len
+			return
+		}
 		n += n1
 		src = src[n1:]
 	}
-- 
2.43.0


From 2f8d3d5d919aa26c66ce484b4b6262ca122f92af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 06/48] fix: a grammar whose doc rule is used before its
 definition compiles

---
 tpl/compiler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 6799768..becc7ff 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -340,7 +340,13 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 		return
 	}
 
-	if root, ok := grammars["doc"]; ok {
+	root, ok := grammars["doc"]
+	if !ok { // `doc` is used before its definition (eg. in a recursive grammar)
+		if v := vars["doc"]; v != nil && v.Elem != nil {
+			root, ok = v, true
+		}
+	}
+	if ok {
 		for name, v := range vars {
 			if v.Elem == nil {
 				err = fmt.Errorf("variable `%s` is not assigned", name)
-- 
2.43.0


From d5d1b301aba9f280f23a30e7e900eb7b4585db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 07/48] fix: EvalSub finds rules that are used before their
 definition

---
 tpl/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index becc7ff..bd86e50 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -77,7 +77,11 @@ type CompileRet struct {
 func (p CompileRet) EvalSub(name string, src interface{}) error {
 	g, ok := p.Grammars[name]
 	if !ok {
-		return ErrNoGrammar
+		v, ok := p.Vars[name] // a rule that is used before its definition
+		if !ok {
+			return ErrNoGrammar
+		}
+		g = v
 	}
 
 	var text []byte
-- 
2.43.0


From 69d2e22e05e6c55543f4fbbaf3b23ea8d7e3be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 08/48] fix: EvalSub reports left-over tokens where they start

---
 tpl/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index bd86e50..eb94d24 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -95,7 +95,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc, nil, 0}
+			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
-- 
2.43.0


From 8ff205df16618fc613b70061129d5c381e89127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 09/48] fix: EvalSub calls the init callback for source text as
 it does for tokens

---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index eb94d24..61d6764 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -110,6 +110,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From ae4f66bb5cd48c45101b64490e6a5cdd12c07bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 10/48] fix: TokenLen of a kind that is no token is 0

---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From b7e4b471d1631859c4dc187a622760653d23e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 11/48] fix: Token.End doesn't count the length of a semicolon
 twice

---
 tpl/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..71337bd 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,7 +20,11 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
-	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
+	n := len(p.Literal)
+	if n == 0 {
+		n = TokenLen(p.Kind)
+	}
+	return p.Pos + token.Pos(n)
 }
 
 // An ScanErrorHandler may be provided to Scanner.Init. If a syntax error is
-- 
2.43.0


From 359a14de6523eb63d60e107182d085d31acd9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 12/48] fix: a semicolon is inserted at a line end with a /* */
 and a # comment

---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 71337bd..be0b6d1 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -254,7 +254,7 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' { // '#' comment always contains a newline
 			return true
 		}
 		if s.ch != '/' {
-- 
2.43.0


From c96c59238c4769489ea8d34831c7101d44e542af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 13/48] fix: `..` is scanned as two periods, not as an illegal
 token without an error

---
 tpl/scanner.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index be0b6d1..f904cf5 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -672,14 +672,13 @@ scanAgain:
 			if '0' <= s.ch && s.ch <= '9' {
 				insertSemi = true
 				t.Kind, t.Literal = s.scanNumber(true)
-			} else if s.ch == '.' {
-				s.next()
-				if s.ch == '.' {
+			} else {
+				t.Kind = PERIOD
+				if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
 					s.next()
+					s.next() // consume last '.'
 					t.Kind = ELLIPSIS
 				}
-			} else {
-				t.Kind = PERIOD
 			}
 		case ',':
 			t.Kind = COMMA
-- 
2.43.0


From d9a643fa12c8a861b704480577c356130a287ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 14/48] fix: an exponent without digits is a lexical error

---
 tpl/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index f904cf5..c5109d4 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -362,7 +362,11 @@ exponent:
 		if s.ch == '-' || s.ch == '+' {
 			s.next()
 		}
-		s.scanMantissa(10)
+		if digitVal(s.ch) < 10 {
+			s.scanMantissa(10)
+		} else {
+			s.error(offs, "illegal floating-point exponent")
+		}
 	}
 
 	if s.ch == 'i' {
-- 
2.43.0


From 7da404767c91fbcb40d4cdbfdfba96f54422ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 15/48] fix: AutoKwScanner.Ltot works before Init and for any
 literal

---
 tpl/compiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 61d6764..56112d6 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -52,11 +52,14 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 	if tok = p.Scanner.Ltot(lit); tok != ILLEGAL {
 		return
 	}
-	if lit[0] == '"' {
+	if len(lit) >= 2 && lit[0] == '"' {
 		kw := lit[1 : len(lit)-1]
 		if tok, ok := p.keywords[kw]; ok {
 			return tok
 		}
+		if p.keywords == nil {
+			p.keywords = make(map[string]uint)
+		}
 		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
 		p.keywords[kw] = tok
 		p.tokens = append(p.tokens, lit)
-- 
2.43.0


From 17c2602e66e6f6d42b41bd32a0190c5972ca0f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 16/48] fix: a lone `!` in a grammar doesn't compile to a nil
 grammar

---
 tpl/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 56112d6..406f2fb 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -198,10 +198,10 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 
 	and := func(tokens []Token, g Grammar) {
 		m := g.Len()
-		if m == 1 {
+		n := len(stk)
+		if m == 1 && stk[n-1] != nil { // a lone `!` isn't a grammar, but a sequence
 			return
 		}
-		n := len(stk)
 		stk[n-m] = And(Clone(stk[n-m:])...)
 		stk = stk[:n-m+1]
 	}
-- 
2.43.0


From fc1dba0e214974ca43bc6751b9349cda02342cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 17/48] fix: operator names such as ADD or INC are accepted in
 grammars, as documented

---
 tpl/token.go | 59 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index f145600..3a9f443 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -185,10 +185,67 @@ func Token2Lit(tok uint) (s string) {
 	return
 }
 
+// names of the operator tokens, as an alternative to their literals
+var tokenNames = map[string]uint{
+	"ADD":            ADD,
+	"SUB":            SUB,
+	"MUL":            MUL,
+	"QUO":            QUO,
+	"REM":            REM,
+	"AND":            AND,
+	"OR":             OR,
+	"XOR":            XOR,
+	"LT":             LT,
+	"GT":             GT,
+	"ASSIGN":         ASSIGN,
+	"NOT":            NOT,
+	"LPAREN":         LPAREN,
+	"LBRACK":         LBRACK,
+	"LBRACE":         LBRACE,
+	"COMMA":          COMMA,
+	"PERIOD":         PERIOD,
+	"RPAREN":         RPAREN,
+	"RBRACK":         RBRACK,
+	"RBRACE":         RBRACE,
+	"SEMICOLON":      SEMICOLON,
+	"COLON":          COLON,
+	"QUESTION":       QUESTION,
+	"TILDE":          TILDE,
+	"AT":             AT,
+	"SHL":            SHL,
+	"SHR":            SHR,
+	"AND_NOT":        AND_NOT,
+	"ADD_ASSIGN":     ADD_ASSIGN,
+	"SUB_ASSIGN":     SUB_ASSIGN,
+	"MUL_ASSIGN":     MUL_ASSIGN,
+	"QUO_ASSIGN":     QUO_ASSIGN,
+	"REM_ASSIGN":     REM_ASSIGN,
+	"AND_ASSIGN":     AND_ASSIGN,
+	"OR_ASSIGN":      OR_ASSIGN,
+	"XOR_ASSIGN":     XOR_ASSIGN,
+	"SHL_ASSIGN":     SHL_ASSIGN,
+	"SHR_ASSIGN":     SHR_ASSIGN,
+	"AND_NOT_ASSIGN": AND_NOT_ASSIGN,
+	"LAND":           LAND,
+	"LOR":            LOR,
+	"ARROW":          ARROW,
+	"INC":            INC,
+	"DEC":            DEC,
+	"EQ":             EQ,
+	"NE":             NE,
+	"LE":             LE,
+	"GE":             GE,
+	"DEFINE":         DEFINE,
+	"ELLIPSIS":       ELLIPSIS,
+}
+
 var rtokens map[string]uint
 
 func init() {
-	rtokens = make(map[string]uint, 64)
+	rtokens = make(map[string]uint, 128)
+	for name, tok := range tokenNames {
+		rtokens[name] = tok
+	}
 	for i, s := range tokens {
 		if s != "" {
 			rtokens[s] = uint(i)
-- 
2.43.0


From fe52018e86052c9988a517650f0ea35b98f8c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 18/48] fix: a string in a grammar that is no identifier and no
 operator is rejected, it can never match

---
 tpl/compiler.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 406f2fb..c483612 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -54,6 +54,9 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 	}
 	if len(lit) >= 2 && lit[0] == '"' {
 		kw := lit[1 : len(lit)-1]
+		if !isIdent(kw) { // only `'"' IDENT '"'` is a keyword
+			return
+		}
 		if tok, ok := p.keywords[kw]; ok {
 			return tok
 		}
@@ -67,6 +70,15 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 	return
 }
 
+func isIdent(s string) bool {
+	for i, ch := range s {
+		if !isLetter(ch) && (i == 0 || !isDigit(ch)) {
+			return false
+		}
+	}
+	return s != ""
+}
+
 // -----------------------------------------------------------------------------
 
 // CompileRet represents a compiling result.
-- 
2.43.0


From 90ea53e377de1a81c7e39185eae5f8a317fc624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 19/48] fix: FileLine reports file name and line of the same
 place after a //line comment

---
 tpl/grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 0875ca3..e318090 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -79,8 +79,8 @@ func FileLine(doc []Token, t Tokener) (string, int) {
 	if n == 0 {
 		return "", 0
 	}
-	f := t.Source().File
-	return f.Name(), f.Line(doc[0].Pos)
+	pos := t.Source().File.Position(doc[0].Pos)
+	return pos.Filename, pos.Line
 }
 
 // Code returns the marshal result of a grammar unit.
-- 
2.43.0


From 491868cb47ea40b3f5bf24f791dccc7c5ada5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 20/48] fix: ParseFloat doesn't read a too large octal integer
 as a decimal one

---
 tpl/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..07fc99c 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter.util"
@@ -53,6 +54,9 @@ func ParseFloat(lit string) (v float64, err error) {
 			if err1 == nil {
 				return float64(v1), nil
 			}
+			if strings.IndexAny(lit, ".eE") < 0 { // octal integer out of range
+				return 0, err1
+			}
 		}
 	}
 	return strconv.ParseFloat(lit, 64)
-- 
2.43.0


From 18b4db114c2e1d218048bd140c5a4a392b865046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 21/48] fix: integer literals of the rational calculator have
 the value of their lexical form

---
 tpl/rat/big.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 43a8db0..5d7f7cc 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -131,7 +131,12 @@ func (stk *Stack) PushInt(v int64) {
 
 func (stk *Stack) PushString(v string) { // 这个v可以很大，超出int64范围
 
-	val, _ := new(big.Rat).SetString(v)
+	val := new(big.Rat)
+	if i, ok := new(big.Int).SetString(v, 0); ok { // decimal, octal or hexadecimal integer
+		val.SetInt(i)
+	} else if _, ok := val.SetString(v); !ok {
+		panic("invalid number: " + v)
+	}
 	*stk = append(*stk, val)
 }
 
-- 
2.43.0


From cfb1751179ddd92218229130ecfd64e314a26276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 22/48] fix: rat: max() and min() don't return a shared value

---
 tpl/rat/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 5d7f7cc..ec1ebe5 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -76,7 +76,7 @@ func Sub(a, b *big.Rat) *big.Rat {
 func Max(args ...*big.Rat) (max *big.Rat) {
 
 	if len(args) == 0 {
-		return zero
+		return new(big.Rat)
 	}
 
 	max = args[0]
@@ -91,7 +91,7 @@ func Max(args ...*big.Rat) (max *big.Rat) {
 func Min(args ...*big.Rat) (min *big.Rat) {
 
 	if len(args) == 0 {
-		return zero
+		return new(big.Rat)
 	}
 
 	min = args[0]
-- 
2.43.0


From 7eb34634a66c4c5e169e4b6c149d625020ddc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 23/48] fix: cmplx: an imaginary literal that is out of range
 is an error

---
 tpl/cmplx/cmplx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmplx/cmplx.go b/tpl/cmplx/cmplx.go
index 8951db0..a70fc9b 100644
--- a/tpl/cmplx/cmplx.go
+++ b/tpl/cmplx/cmplx.go
@@ -113,7 +113,10 @@ func (stk *Stack) PushReal(v float64) {
 
 func (stk *Stack) PushImag(v string) {
 
-	val, _ := strconv.ParseFloat(v[:len(v)-1], 64)
+	val, err := strconv.ParseFloat(v[:len(v)-1], 64)
+	if err != nil {
+		panic(err)
+	}
 	*stk = append(*stk, complex(0, val))
 }
 
-- 
2.43.0


From eb3cd802e1c97630ae698f9823b47f191ff74520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 24/48] fix: extractor keeps all items of an array when other
 marks come between them

---
 tpl/extractor/document.go | 58 +++++++++++++++------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..55f5a92 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -54,55 +54,41 @@ func (p *Node) insertNode(tag string, isArray bool) *Node {
 
 func (p *Node) toMap() map[string]interface{} {
 
-	hd := p.hd
-	if hd == nil {
+	if p.hd == nil {
 		return nil
 	}
 
+	var items []*Cons
+	for hd := p.hd; hd != nil; hd = hd.tail {
+		items = append(items, hd)
+	}
+
 	data := make(map[string]interface{})
-	for hd != nil {
-		tag := hd.tag
-		var v interface{}
-		switch hd.cate {
+	cates := make(map[string]int)
+	for i := len(items) - 1; i >= 0; i-- { // from the oldest one to the newest one
+		item := items[i]
+		tag := item.tag
+		cate, exists := cates[tag]
+		if exists && (cate&cateArray == 0 || cate != item.cate) { // the first one wins
+			continue
+		}
+		cates[tag] = item.cate
+		switch item.cate {
 		case cateLeaf:
-			v, hd = hd.val, hd.tail
+			data[tag] = item.val
 		case cateNode:
-			v, hd = hd.val.(*Node).toMap(), hd.tail
+			data[tag] = item.val.(*Node).toMap()
 		case cateNodeArray:
-			n := arrayCollect(hd)
-			items := make([]map[string]interface{}, n)
-			for i := n - 1; i >= 0; i-- {
-				items[i] = hd.val.(*Node).toMap()
-				hd = hd.tail
-			}
-			v = items
+			nodes, _ := data[tag].([]map[string]interface{})
+			data[tag] = append(nodes, item.val.(*Node).toMap())
 		case cateLeafArray:
-			n := arrayCollect(hd)
-			items := make([]interface{}, n)
-			for i := n - 1; i >= 0; i-- {
-				items[i] = hd.val
-				hd = hd.tail
-			}
-			v = items
+			leafs, _ := data[tag].([]interface{})
+			data[tag] = append(leafs, item.val)
 		default:
 			panic("unknown node category")
 		}
-		data[tag] = v
 	}
 	return data
 }
 
-func arrayCollect(hd *Cons) (n int) {
-
-	n = 1
-	cate, tag := hd.cate, hd.tag
-	for {
-		hd = hd.tail
-		if hd == nil || hd.cate != cate || hd.tag != tag {
-			return
-		}
-		n++
-	}
-}
-
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 40602d49606ee719856d2f15f1dce51d950daa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 25/48] fix: generated code for +G compiles

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..3b8fd52 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -129,7 +129,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From 79decf6e2ebab274a033c5543d575fe5ca02f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 26/48] fix: generated code matches keywords, operators in
 quotes and EOF like the compiler does

---
 tpl/generator/static_parser_gen.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3b8fd52..2ce353e 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -71,8 +71,8 @@ func GenStaticCode(source string) (string, error) {
 			if tok == tpl.ILLEGAL {
 				panic("illegal token: " + name)
 			}
-			if strings.HasPrefix(name, "'") {
-				s = fmt.Sprintf("tpl.Gr(%s)", name)
+			if name == "EOF" {
+				s = "tpl.GrEOF"
 			} else {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
@@ -107,7 +107,7 @@ func GenStaticCode(source string) (string, error) {
 		if tok == tpl.ILLEGAL {
 			panic("illegal token: " + name)
 		}
-		stk = append(stk, "tpl.Gr(tpl.STRING)")
+		stk = append(stk, fmt.Sprintf("tpl.Gr(cmplr.Scanner.Ltot(%q))", name))
 	}
 	grTrue := func(tokens []tpl.Token, g tpl.Grammar) {
 		if tokens[0].Literal != "1" {
@@ -211,6 +211,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Scanner == nil {\n"+
+			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
-- 
2.43.0


From 799c4b53bb9eab14d09fbecc414ccf84f35c72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 27/48] fix: generated code honours the scan mode

---
 tpl/generator/static_parser_gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 2ce353e..4bb0637 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -220,6 +220,7 @@ func GenStaticCode(source string) (string, error) {
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
 			"return ret}\n",
-- 
2.43.0


From f0b89e9cca5b1b141e8555360712c341cbdddb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 28/48] fix: generated code works without a marker, as the
 compiler does

---
 tpl/generator/static_parser_gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 4bb0637..e8e149c 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -214,6 +214,9 @@ func GenStaticCode(source string) (string, error) {
 			"if cmplr.Scanner == nil {\n"+
 			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
 			"}\n"+
+			"if cmplr.Marker == nil {\n"+
+			"	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
-- 
2.43.0


From 27ca802901172945cbc4cd985f18e1bb7beab7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 29/48] fix: generated code keeps the order of rules, and knows
 true, unassigned rules and a recursive doc

---
 tpl/generator/static_parser_gen.go | 52 +++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index e8e149c..ea583a9 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -12,6 +12,7 @@ func GenStaticCode(source string) (string, error) {
 	var stk []string
 	grammars := make(map[string]string)
 	vars := make(map[string]string)
+	var names []string // names of rules, in order of their definition
 	scanner := new(tpl.AutoKwScanner)
 	list := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
@@ -33,10 +34,10 @@ func GenStaticCode(source string) (string, error) {
 	}
 	and := func(tokens []tpl.Token, g tpl.Grammar) {
 		m := g.Len()
-		if m == 1 {
+		n := len(stk)
+		if m == 1 && stk[n-1] != "nil" { // a lone `!` isn't a grammar, but a sequence
 			return
 		}
-		n := len(stk)
 		stk[n-m] = fmt.Sprintf("tpl.And(%s)", strings.Join(stk[n-m:], ","))
 		stk = stk[:n-m+1]
 	}
@@ -53,11 +54,16 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
+		if v, ok := vars[name]; ok {
+			if v != name {
+				panic(tpl.ErrVarAssigned)
+			}
+			names = append(names, name)
 			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
 		} else {
+			names = append(names, name)
 			grammars[name] = a
 		}
 		stk = stk[:n-1]
@@ -77,16 +83,14 @@ func GenStaticCode(source string) (string, error) {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
 		} else {
-			_, ok := grammars[name]
-			if ok {
-				s = name
-			} else if s, ok = vars[name]; !ok {
-				if name == "true" {
-					vars[name] = "tpl.GrTrue"
-					s = "tpl.GrTrue"
-				} else {
-					vars[name] = name
-					s = name
+			s = name
+			if _, ok := grammars[name]; !ok {
+				if _, ok := vars[name]; !ok {
+					if name == "true" {
+						s = "tpl.GrTrue"
+					} else {
+						vars[name] = name
+					}
 				}
 			}
 		}
@@ -192,16 +196,26 @@ func GenStaticCode(source string) (string, error) {
 		declarations string = "var (\n"
 		assignments  string
 	)
+	_, hasDoc := grammars["doc"]
 	for k, v := range vars {
-		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
-		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		if v == k {
+			return "", fmt.Errorf("variable `%s` is not assigned", k)
+		}
+		if k == "doc" {
+			hasDoc = true
+		}
 	}
-	for k, v := range grammars {
-		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
-		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
+	for _, k := range names {
+		if v, ok := vars[k]; ok {
+			declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", k, k)
+			assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		} else {
+			declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
+			assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, grammars[k])
+		}
 	}
 	declarations += ")\n"
-	if _, ok := grammars["doc"]; ok {
+	if hasDoc {
 		output := fmt.Sprintf("\n"+
 			"type StaticCompiler struct {\n"+
 			"	Grammar  string\n"+
-- 
2.43.0


From 7df174f24caa54ca7d7bcc5e9db780392b519812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 30/48] fix: sub rules of a generated compiler can be evaluated
 with EvalSub

---
 tpl/generator/static_parser_gen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index ea583a9..43abd6f 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -195,6 +195,7 @@ func GenStaticCode(source string) (string, error) {
 	var (
 		declarations string = "var (\n"
 		assignments  string
+		rules        string
 	)
 	_, hasDoc := grammars["doc"]
 	for k, v := range vars {
@@ -206,6 +207,7 @@ func GenStaticCode(source string) (string, error) {
 		}
 	}
 	for _, k := range names {
+		rules += fmt.Sprintf("\"%s\": %s,\n", k, k)
 		if v, ok := vars[k]; ok {
 			declarations += fmt.Sprintf("%s = tpl.Var(\"%s\")\n", k, k)
 			assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
@@ -240,9 +242,13 @@ func GenStaticCode(source string) (string, error) {
 			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
+			"ret.Grammars = map[string]tpl.Grammar{\n"+
+			"%s"+
+			"}\n"+
 			"return ret}\n",
 			declarations,
 			assignments,
+			rules,
 		)
 		return output, nil
 	}
-- 
2.43.0


From d5d4c5db5e9f77bcd4b8989e9cf23a7be2eb9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 31/48] fix: files generated by tplgen import the packages of
 this repository

---
 tpl/cmd/tplgen/output.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 2094864..dd12007 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -8,9 +8,9 @@ import (
 	"strconv"
 	{{ end }}
 
-	"github.com/qiniu/text/tpl.v1"
+	"github.com/qiniu/text/tpl"
 	{{ if .genInterpreter}}
-	"github.com/qiniu/text/tpl.v1/interpreter.util"
+	"github.com/qiniu/text/tpl/interpreter.util"
 	{{ end }}
 )
 {{if .genInterpreter}}
-- 
2.43.0


From 762b476cd79b361490ab90e4f0502bbdfde1a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 32/48] fix: static interpreters of tplgen pass contexts to
 marked functions like the interpreter does

---
 tpl/cmd/tplgen/output.tpl | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index dd12007..5da0f2b 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -19,7 +19,7 @@ import (
 var (
 	typeIntf    = reflect.TypeOf((*interface{})(nil)).Elem()
 	typeEng     = reflect.TypeOf((*interpreter.Engine)(nil)).Elem()
-	typeFline   = reflect.TypeOf((*interpreter.FileLine)(nil))
+	typeCtx     = reflect.TypeOf((*interpreter.Context)(nil))
 	zeroIntfVal = reflect.Zero(typeIntf)
 )
 
@@ -201,7 +201,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 			kindRecvr = 2
 		}
 		if kindRecvr > 0 {
-			if n > 2 {
+			if n > 3 {
 				panic("invalid function (too many params): " + mark)
 			}
 			if nout := tfn.NumOut(); nout > 0 {
@@ -256,7 +256,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 				} else {
 					args[0] = reflect.ValueOf(p.Interpreter)
 				}
-				if n == 2 {
+				if n >= 2 {
 					targ1 := tfn.In(1)
 					if isLen {
 						if targ1 != typeInt {
@@ -265,6 +265,8 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						args[1] = reflect.ValueOf(g.Len())
 					} else {
 						switch targ1 {
+						case typeCtx:
+							args[1] = p.ctxValue(tokens)
 						case typeIntf:
 							if len(tokens) == 0 { // use nil as empty source
 								args[1] = zeroIntfVal
@@ -273,12 +275,6 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 							}
 						case typeEng:
 							args[1] = vEngine
-						case typeFline:
-							file, line := tpl.FileLine(tokens, p.Scanner)
-							args[1] = reflect.ValueOf(&interpreter.FileLine{
-								File: file,
-								Line: line,
-							})
 						default:
 							v, err := GetValue(targ1, tokens[0].Literal)
 							if err != nil {
@@ -288,6 +284,9 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 						}
 					}
 				}
+				if n == 3 {
+					args[2] = p.ctxValue(tokens)
+				}
 				ret := reflect.ValueOf(fn).Call(args)
 				if len(ret) > 0 {
 					if retv := ret[0].Interface(); retv != nil {
@@ -315,6 +314,15 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 	return
 }
 
+func (p *Engine) ctxValue(tokens []tpl.Token) reflect.Value {
+	ctx := &interpreter.Context{Src: tokens, Engine: interpreter.Engine(p)}
+	if len(tokens) > 0 {
+		ctx.Pos = tokens[0].Pos
+		ctx.End = tokens[len(tokens)-1].End()
+	}
+	return reflect.ValueOf(ctx)
+}
+
 func (p *Engine) Source(src interface{}) (text []byte) {
 
 	if src == nil {
-- 
2.43.0


From 9faeac8ac541cdabbd0d75ca1f9d8528e44f9145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 33/48] fix: static interpreters of tplgen convert literals
 like the interpreter does

---
 tpl/cmd/tplgen/output.tpl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 5da0f2b..7c44691 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 	{{ end }}
 
 	"github.com/qiniu/text/tpl"
@@ -57,6 +58,9 @@ func ParseFloat(lit string) (v float64, err error) {
 			if err1 == nil {
 				return float64(v1), nil
 			}
+			if strings.IndexAny(lit, ".eE") < 0 { // octal integer out of range
+				return 0, err1
+			}
 		}
 	}
 	return strconv.ParseFloat(lit, 64)
@@ -69,26 +73,26 @@ func GetValue(t reflect.Type, lit string) (ret reflect.Value, err error) {
 	case reflect.String:
 		return reflect.ValueOf(lit), nil
 	case reflect.Float64:
-		v, err1 := strconv.ParseFloat(lit, 64)
+		v, err1 := ParseFloat(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int64:
-		v, err1 := strconv.ParseInt(lit, 10, 64)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int:
-		v, err1 := strconv.Atoi(lit)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
-		return reflect.ValueOf(v), nil
+		return reflect.ValueOf(int(v)), nil
 	}
 	err = errors.New("unsupported type: " + t.String())
 	return
-- 
2.43.0


From 63f7a56a78c5b2a8efd0bbb7e9dd8c0a7f8f4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 34/48] fix: tplgen finds the grammar whatever form its
 declaration and those around it have

---
 tpl/cmd/tplgen/main.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..e3aff7f 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -22,6 +23,18 @@ func exitIfNotNil(err error) {
 	}
 }
 
+// stringLit returns the value of exprs[index] if it is a string literal.
+func stringLit(exprs []ast.Expr, index int) string {
+	if index < len(exprs) {
+		if lit, ok := exprs[index].(*ast.BasicLit); ok && lit.Kind == token.STRING {
+			if s, err := strconv.Unquote(lit.Value); err == nil {
+				return s
+			}
+		}
+	}
+	return ""
+}
+
 // find value of ident 'grammar' in GenDecl.
 func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 	for _, spec := range genDecl.Specs {
@@ -34,9 +47,8 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 				}
 			}
 			if index != -1 {
-				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
-				if ok {
-					return basicLit.Value
+				if g := stringLit(valueSpec.Values, index); g != "" {
+					return g
 				}
 			}
 		}
@@ -56,10 +68,7 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 		}
 	}
 	if index != -1 {
-		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
-		if ok {
-			return basicLit.Value
-		}
+		return stringLit(assignStmt.Rhs, index)
 	}
 	return ""
 }
@@ -73,7 +82,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
@@ -123,7 +132,7 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	code, err := generator.GenStaticCode(grammarContent)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From 812b813086276119219b47dca90cdd9e221bcc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 35/48] fix: qlang restores the stack base when a branch or
 loop body fails

---
 tpl/qlang/cl/ctrl.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..03333b0 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,9 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
-	err := e.EvalCode(p, name, code)
-	p.base = old
-	if err != nil {
+	defer func() { // also if the code panics
+		p.base = old
+	}()
+	if err := e.EvalCode(p, name, code); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 647144eefb8e699ba726537ae4965a452af6882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 36/48] fix: a panic in a deferred call of qlang doesn't skip
 the other ones nor escape SafeExec

---
 tpl/qlang/cl/function.go | 24 ++++++++++++++++++++----
 tpl/qlang/engine.go      |  1 +
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..b2ac5b5 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -289,6 +289,9 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 	}
 
 	p.ExecDefers(e)
+	if p.Recov != nil {
+		panic(p.Recov)
+	}
 
 	if p.ret == nil {
 		os.Exit(0)
@@ -301,12 +304,25 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
+	for p.defers != nil {
+		d := p.defers
+		p.defers = d.next
+		p.execDefer(e, d.src)
+	}
+}
+
+func (p *Interpreter) execDefer(e interpreter.Engine, src interface{}) {
+
+	base := p.stk.BaseFrame()
+	defer func() {
+		if e := recover(); e != nil && e != ErrReturn {
+			p.Recov = e // like in Go: this panic replaces the current one, other deferred calls are still executed
 		}
+		p.stk.SetFrame(base)
+	}()
+	if err := e.EvalCode(p, "expr", src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..427e6d2 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -43,6 +43,7 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 		p.Recov = recover()
 		p.ExecDefers(p.Engine)
 		if e := p.Recov; e != nil {
+			p.Recov = nil
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
-- 
2.43.0


From bdd4238dba47fb419aaafc8666a42b82e512b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 37/48] fix: interpreters written in qlang read octal and
 hexadecimal literals like those in Go

---
 tpl/qlang/cl/interpreter/interpret.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index 496e034..acdb590 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
@@ -272,17 +271,17 @@ func newEngine(ip1 interface{}, options *Options) (p *Engine) {
 						case "Engine":
 							args[1] = p
 						case "Float":
-							v, err := strconv.ParseFloat(tokens[0].Literal, 64)
+							v, err := interpreter.ParseFloat(tokens[0].Literal)
 							if err != nil {
 								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
 							}
 							args[1] = v
 						case "Int":
-							v, err := strconv.Atoi(tokens[0].Literal)
+							v, err := interpreter.ParseInt(tokens[0].Literal)
 							if err != nil {
 								panic(fmt.Sprintf("parse mark `%s` failed: %v", mark, err))
 							}
-							args[1] = v
+							args[1] = int(v)
 						default:
 							args[1] = tokens[0].Literal
 						}
-- 
2.43.0


From 210c184ab4f03d7b1cd894042ba7b3ff019ed444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 38/48] fix: qlang main runs the calls deferred at top level
 before it exits, as return does

---
 tpl/qlang/cl/function.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index b2ac5b5..f98f724 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -433,6 +433,11 @@ func (p *Interpreter) Main(e interpreter.Engine) {
 	if ret != nil {
 		code = ret.(int)
 	}
+
+	p.ExecDefers(e)
+	if p.Recov != nil {
+		panic(p.Recov)
+	}
 	os.Exit(code)
 }
 
-- 
2.43.0


From b6717c8a402858dd3615c36d6c4c947f83efa020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 39/48] fix: Char leaves of extractors refuse tokens that are
 no chars

---
 tpl/extractor/extractor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/extractor/extractor.go b/tpl/extractor/extractor.go
index 20f3bd7..c2ef5c7 100644
--- a/tpl/extractor/extractor.go
+++ b/tpl/extractor/extractor.go
@@ -40,6 +40,9 @@ func GetValue(typ string, lit string) interface{} {
 		}
 		return v
 	case "Char":
+		if lit == "" || lit[0] != '\'' {
+			panic("invalid char: " + lit)
+		}
 		v, multibyte, tail, err := strconv.UnquoteChar(lit[1:len(lit)-1], '\'')
 		if err != nil {
 			panic(err)
-- 
2.43.0


From 8213302fcc5813fc0fcbcdfbffda9835072d7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 40/48] fix: runtime errors of if, switch and for statements
 name the line of the statement

---
 tpl/qlang/cl/qlang.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpl/qlang/cl/qlang.go b/tpl/qlang/cl/qlang.go
index 60dd6a6..c1cedcd 100644
--- a/tpl/qlang/cl/qlang.go
+++ b/tpl/qlang/cl/qlang.go
@@ -62,9 +62,9 @@ factor =
 	STRING/pushs |
 	CHAR/pushc |
 	(IDENT/ref | '('! expr ')' | "fn"! fnbody/fn | '[' expr %= ','/ARITY ?',' ']'/slice) *atom |
-	"if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute/if |
-	"switch"/_mute! ?(~'{' expr)/_code '{' swbody '}'/_unmute/switch |
-	"for"/_mute! (~'{' s)/_code %= ';'/_ARITY '{' ?doc/_code '}'/_unmute/for |
+	("if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute)/if |
+	("switch"/_mute! ?(~'{' expr)/_code '{' swbody '}'/_unmute)/switch |
+	("for"/_mute! (~'{' s)/_code %= ';'/_ARITY '{' ?doc/_code '}'/_unmute)/for |
 	"new"! clsname newargs /new |
 	"class"! '{' *classb/ARITY '}'/class |
 	"recover" '(' ')'/recover |
-- 
2.43.0


From 00ee62fa612d6a4bae2919408520d515d010b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:16 +0000
Subject: [PATCH 41/48] fix: set stores nil in slices of qlang

---
 tpl/qlang/lib/builtin/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index f3a75ef..a623127 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -139,7 +139,11 @@ func Set(m interface{}, args ...interface{}) {
 		}
 	case reflect.Slice:
 		for i := 0; i < n; i += 2 {
-			o.Index(args[i].(int)).Set(reflect.ValueOf(args[i+1]))
+			val := reflect.Zero(o.Type().Elem())
+			if t := args[i+1]; t != nil {
+				val = reflect.ValueOf(t)
+			}
+			o.Index(args[i].(int)).Set(val)
 		}
 	default:
 		qlang.Set(m, args...)
-- 
2.43.0


From 8a08d3b101072f75e45f733e2412a0f21cab6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 42/48] fix: append of qlang doesn't overwrite shared elements
 when []float64 has to grow

---
 tpl/qlang/lib/builtin/builtin.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index a623127..165935e 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -225,19 +225,20 @@ func Append(a interface{}, vals ...interface{}) interface{} {
 
 func appendFloat(a []float64, vals ...interface{}) interface{} {
 
-	for _, v := range vals {
+	fvals := make([]float64, len(vals)) // don't touch a before we know that it works and whether there's room
+	for i, v := range vals {
 		switch val := v.(type) {
 		case float64:
-			a = append(a, val)
+			fvals[i] = val
 		case int:
-			a = append(a, float64(val))
+			fvals[i] = float64(val)
 		case float32:
-			a = append(a, float64(val))
+			fvals[i] = float64(val)
 		default:
 			panic("unsupported: []float64 append " + reflect.TypeOf(v).String())
 		}
 	}
-	return a
+	return append(a, fvals...)
 }
 
 func Slice(typ interface{}, args ...interface{}) interface{} {
-- 
2.43.0


From caff4c612fd5aebf11d6320b549a3ac19576a94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 43/48] fix: runtime errors of new without arguments name the
 line of the statement

---
 tpl/qlang/cl/qlang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/qlang.go b/tpl/qlang/cl/qlang.go
index c1cedcd..05886ac 100644
--- a/tpl/qlang/cl/qlang.go
+++ b/tpl/qlang/cl/qlang.go
@@ -65,7 +65,7 @@ factor =
 	("if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute)/if |
 	("switch"/_mute! ?(~'{' expr)/_code '{' swbody '}'/_unmute)/switch |
 	("for"/_mute! (~'{' s)/_code %= ';'/_ARITY '{' ?doc/_code '}'/_unmute)/for |
-	"new"! clsname newargs /new |
+	("new"! clsname newargs)/new |
 	"class"! '{' *classb/ARITY '}'/class |
 	"recover" '(' ')'/recover |
 	"main" '{'/_mute ?doc/_code '}'/_unmute/main |
-- 
2.43.0


From f84fc61d8d66ccb5cffe2e14138a262a52f002f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 44/48] fix: a syntax error after elif or else of qlang doesn't
 run parts of the statement

---
 tpl/qlang/cl/qlang.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/qlang.go b/tpl/qlang/cl/qlang.go
index 05886ac..bda3caf 100644
--- a/tpl/qlang/cl/qlang.go
+++ b/tpl/qlang/cl/qlang.go
@@ -62,7 +62,7 @@ factor =
 	STRING/pushs |
 	CHAR/pushc |
 	(IDENT/ref | '('! expr ')' | "fn"! fnbody/fn | '[' expr %= ','/ARITY ?',' ']'/slice) *atom |
-	("if"/_mute! expr/_code ifbody *("elif" expr/_code ifbody)/_ARITY ?("else" ifbody)/_ARITY/_unmute)/if |
+	("if"/_mute! expr/_code ifbody *("elif"! expr/_code ifbody)/_ARITY ?("else"! ifbody)/_ARITY/_unmute)/if |
 	("switch"/_mute! ?(~'{' expr)/_code '{' swbody '}'/_unmute)/switch |
 	("for"/_mute! (~'{' s)/_code %= ';'/_ARITY '{' ?doc/_code '}'/_unmute)/for |
 	("new"! clsname newargs)/new |
-- 
2.43.0


From 2b849c6c568e2c6f966e305bf8dab1bd9b9637fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 45/48] fix: match and runtime errors keep their text after
 another evaluation

---
 tpl/compiler.go                |  5 +++--
 tpl/interpreter/interpreter.go | 13 +++++++++--
 tpl/match.go                   | 40 +++++++++++++++++++++++++++++-----
 3 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index c483612..6918518 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -105,12 +105,13 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init
 			p.Init()
 		}
-		matched, err := g.Match(doc, p.Matcher)
+		ctx := p.newContext()
+		matched, err := g.Match(doc, ctx)
 		if err != nil {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
+			return &MatchError{GrEOF, ctx, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 07fc99c..faf73dd 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -101,14 +101,21 @@ type RuntimeError struct {
 	Ctx     tpl.Context
 	Err     error
 	Src     []tpl.Token
+
+	at *interpreter.FileLine // of Src, which is out of reach after another evaluation
 }
 
 func (p *RuntimeError) Error() string {
 	if p.Ctx == nil {
 		return fmt.Sprintf("runtime error: %v", p.Err)
 	}
-	s := p.Ctx.Tokener()
-	file, line := tpl.FileLine(p.Src, s)
+	var file string
+	var line int
+	if p.at != nil {
+		file, line = p.at.File, p.at.Line
+	} else {
+		file, line = tpl.FileLine(p.Src, p.Ctx.Tokener())
+	}
 	if file == "" {
 		return fmt.Sprintf("line %d: runtime error: %v", line, p.Err)
 	}
@@ -243,11 +250,13 @@ func New(ipt interpreter.Interface, options *Options) (p *Engine, err error) {
 							panic(e)
 						}
 					}
+					at := p.FileLine(tokens)
 					err = &RuntimeError{
 						Grammar: g,
 						Ctx:     p.Matcher,
 						Err:     err,
 						Src:     tokens,
+						at:      &at,
 					}
 					panic(err)
 				}
diff --git a/tpl/match.go b/tpl/match.go
index 33fb3d3..393fdb5 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -76,11 +76,40 @@ func (p *Matcher) Tokener() Tokener {
 	return p.requireScanner()
 }
 
+// matching is the context of one matching: its errors show the text that was matched,
+// even if they are printed after the scanner got another one.
+type matching struct {
+	tokener matched
+}
+
+type matched struct {
+	Tokener
+	src TokenSource
+}
+
+func (p matched) Source() TokenSource {
+	return p.src
+}
+
+func (p *matching) Tokener() Tokener {
+	return p.tokener
+}
+
+func (p *Matcher) newContext() Context {
+	s := p.requireScanner()
+	return &matching{matched{s, s.Source()}}
+}
+
 // Match matches src.
 func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
+	next, _, err = p.match(src, fname)
+	return
+}
+
+func (p *Matcher) match(src []byte, fname string) (next []Token, ctx Context, err error) {
 	g := p.Grammar
 	if g == nil {
-		return nil, ErrNoGrammar
+		return nil, nil, ErrNoGrammar
 	}
 
 	tokens, err := p.Tokenize(src, fname)
@@ -91,22 +120,23 @@ func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	if p.Init != nil {
 		p.Init()
 	}
-	n, err := g.Match(tokens, p)
+	ctx = p.newContext()
+	n, err := g.Match(tokens, ctx)
 	if err != nil {
 		return
 	}
-	return tokens[n:], nil
+	return tokens[n:], ctx, nil
 }
 
 // MatchExactly matches src exactly.
 func (p *Matcher) MatchExactly(src []byte, fname string) (err error) {
-	next, err := p.Match(src, fname)
+	next, ctx, err := p.match(src, fname)
 	if err != nil {
 		return
 	}
 
 	if len(next) != 0 {
-		return &MatchError{GrEOF, p, next, nil, 0}
+		return &MatchError{GrEOF, ctx, next, nil, 0}
 	}
 	return
 }
-- 
2.43.0


From 88c334fc0ab3f7ab8bc1f6b7f8fb143fd0f4445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 46/48] fix: Go functions as marks of interpreters in qlang get
 the values of the stack

An argument popped from a stack of any type was passed as interface{}, so that
a function like math.Sin could not be called; now the same argument rules apply
as in interpreters written in Go.
---
 tpl/qlang/cl/interpreter/interpret.go | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index acdb590..df12ac5 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter"
+	util "github.com/qiniu/text/tpl/interpreter.util"
 	qlang "github.com/qiniu/text/tpl/qlang/cl"
 )
 
@@ -66,26 +67,39 @@ func callN(ip *qlang.Object, name string, args ...interface{}) interface{} {
 	panic("method not found: " + name)
 }
 
-func callFn(stk *qlang.Object, fn interface{}, arity int) {
+// stack makes a stack object usable by interpreter.DoCall.
+type stack struct {
+	*qlang.Object
+}
 
-	var in []reflect.Value
-	if arity > 0 {
-		ret := reflect.ValueOf(callN(stk, "popArgs", arity))
-		if ret.Kind() != reflect.Slice {
-			panic("method stack.popArgs doesn't return a slice")
-		}
-		n := ret.Len()
-		in = make([]reflect.Value, n)
-		for i := 0; i < n; i++ {
-			in[i] = ret.Index(i)
-		}
+func (p stack) PopArgs(arity int) (args []reflect.Value, ok bool) {
+
+	ret := reflect.ValueOf(callN(p.Object, "popArgs", arity))
+	if ret.Kind() != reflect.Slice {
+		panic("method stack.popArgs doesn't return a slice")
+	}
+	n := ret.Len()
+	args = make([]reflect.Value, n)
+	for i := 0; i < n; i++ {
+		args[i] = reflect.ValueOf(ret.Index(i).Interface())
 	}
-	vfn := reflect.ValueOf(fn)
-	out := vfn.Call(in)
-	if len(out) == 0 {
-		callN(stk, "push", nil)
+	return args, n == arity
+}
+
+func (p stack) PushRet(ret []reflect.Value) error {
+
+	if len(ret) == 0 {
+		callN(p.Object, "push", nil)
 	} else {
-		callN(stk, "push", out[0].Interface())
+		callN(p.Object, "push", ret[0].Interface())
+	}
+	return nil
+}
+
+func callFn(stk *qlang.Object, fn interface{}, arity int) {
+
+	if err := util.DoCall(stack{stk}, fn, arity, arity, false); err != nil {
+		panic(err)
 	}
 }
 
-- 
2.43.0


From e020d4bd88e7efca5a7efdfba4b912f957030612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 47/48] fix: runtime errors of generated interpreters keep
 their file and line after later evaluations

---
 tpl/cmd/tplgen/output.tpl | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 7c44691..1b96236 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -105,14 +105,21 @@ type RuntimeError struct {
 	Ctx     tpl.Context
 	Err     error
 	Src     []tpl.Token
+
+	at *interpreter.FileLine // of Src, which is out of reach after another evaluation
 }
 
 func (p *RuntimeError) Error() string {
 	if p.Ctx == nil {
 		return fmt.Sprintf("runtime error: %v", p.Err)
 	}
-	s := p.Ctx.Tokener()
-	file, line := tpl.FileLine(p.Src, s)
+	var file string
+	var line int
+	if p.at != nil {
+		file, line = p.at.File, p.at.Line
+	} else {
+		file, line = tpl.FileLine(p.Src, p.Ctx.Tokener())
+	}
 	if file == "" {
 		return fmt.Sprintf("line %d: runtime error: %v", line, p.Err)
 	}
@@ -244,11 +251,13 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 							panic(e)
 						}
 					}
+					at := p.FileLine(tokens)
 					err = &RuntimeError{
 						Grammar: g,
 						Ctx:     p.Matcher,
 						Err:     err,
 						Src:     tokens,
+						at:      &at,
 					}
 					panic(err)
 				}
-- 
2.43.0


From 4a11f79112d96fc443fada6e6f927af5c37a7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 48/48] fix: an action that evaluates code doesn't change the
 length its mark's rule has for another mark on it

---
 tpl/grammar.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index e318090..ccea133 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -661,18 +661,21 @@ func Named(name string, g Grammar) *GrNamed {
 type grAction struct {
 	g   Grammar
 	act func(tokens []Token, g Grammar)
+	len int
 }
 
 func (p *grAction) Len() int {
-	return p.g.Len()
+	return p.len
 }
 
 func (p *grAction) Match(src []Token, ctx Context) (n int, err error) {
 	g := p.g
-	if n, err = g.Match(src, ctx); err != nil {
-		return
+	n, err = g.Match(src, ctx)
+	len := g.Len()
+	if err == nil {
+		p.act(src[:n], g) // it may match g once more (eg. by EvalCode)
 	}
-	p.act(src[:n], g)
+	p.len = len
 	return
 }
 
@@ -682,7 +685,7 @@ func (p *grAction) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 
 // Action represents G/action.
 func Action(g Grammar, act func(tokens []Token, g Grammar)) Grammar {
-	return &grAction{g, act}
+	return &grAction{g, act, g.Len()}
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0

