From 75268f359e9204b4b4ebcc5f95eca8cc04e9bb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 01/35] fix: do not slice past the start of an unterminated
 string literal

An unterminated string at the end of the source made the scanner panic
with 'slice bounds out of range' because it dropped a closing delimiter
that was never there.
---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..b41df15 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From c74b706f0038f0c848c479fa99c1337f80289dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 02/35] fix: do not skip the first character of a nested brace
 string

In non-string mode {a{}b} and {a{{b}}c} ended at the wrong brace because
the character after a nested '{' was consumed without being looked at.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b41df15..f49117c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -261,7 +261,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From 8073568ca51a8677be5e715245cfc83799dbcab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 03/35] fix: check the letter of a space separated accent

\c at the end of the source panicked with 'index out of range', a closing
delimiter after it was swallowed, and a non-ASCII letter was cut to its
first byte. The other two accent forms already check the letter.
---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f49117c..d1dc2c2 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -364,8 +364,12 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if !IsAsciiLetter(s.ch) {
+			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", tokStr, s.ch)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
-		tokStr += string(s.src[s.offset])
+		tokStr += string(s.ch)
 		s.next() // consume the letter that's accented
 		return token.StringAccent, tokStr
 	} else {
-- 
2.43.0


From 26cfa5f219dd49e605751f033ab4f879478049be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:12 +0000
Subject: [PATCH 04/35] fix: report end of file inside a string as EOF

Inside an unterminated string the scanner returned Illegal forever, so
the parser looped without end (and without bound on memory) for inputs
like @book{k, t="abc.
---
 parser/parser.go   | 6 +++++-
 scanner/scanner.go | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..0a81506 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -452,6 +452,10 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 
 		values := make([]ast.Expr, 0, 2)
 		for p.tok != token.StringRBrace {
+			if p.tok == token.EOF {
+				p.errorExpected(p.pos, "closing brace")
+				return &ast.BadExpr{From: opener, To: p.pos}
+			}
 			text := p.parseText(depth + 1)
 			if _, ok := text.(*ast.BadExpr); ok {
 				p.next()
diff --git a/scanner/scanner.go b/scanner/scanner.go
index d1dc2c2..1645e4d 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -452,6 +452,11 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 	case '~':
 		tok = token.StringNBSP
 		lit = "~"
+	case eof:
+		s.error(s.file.Offset(pos), "string literal not terminated")
+		s.endQuoteCh = 0
+		s.braceDepth = 0
+		tok = token.EOF
 	default:
 		// next reports unexpected BOMs - don't repeat
 		if ch != bom {
-- 
2.43.0


From bb1305184426d5eb0f6ec7f6ff06f52234fc91a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 05/35] fix: do not let a stray right brace hide the closing
 quote

A '}' without '{' in a quoted string made the brace depth negative, so
the closing quote no longer ended the string.
---
 scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1645e4d..d238290 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -440,7 +440,7 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 		tok = token.StringRBrace
 		if s.endQuoteCh == '}' && s.braceDepth == 0 {
 			s.endQuoteCh = 0
-		} else {
+		} else if s.braceDepth > 0 {
 			s.braceDepth -= 1
 		}
 	case ' ', '\r', '\n', '\t':
-- 
2.43.0


From 0ccf76511504d3bf57fb963fc5093d11caeddca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:14 +0000
Subject: [PATCH 06/35] fix: reset the string state of a reused scanner

Init kept the previous token, the open string delimiter and the brace
depth, so a reused scanner could start inside a string.
---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index d238290..31d5915 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From 9dc5f369fff1b97a2961513206d11d3152dd4fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:15 +0000
Subject: [PATCH 07/35] fix: look at the first character of a command

The character after '@' was skipped unseen: @1rticle was accepted and
a command with one letter was rejected.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 31d5915..fa5fc91 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -201,7 +201,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From ec63f5609f1dfa4f6dd7e4d4dbc0bcdb61bc8f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 08/35] fix: keep the string brace heuristic across comments

A comment between '=' and '{' turned the string brace into a declaration
brace and made the entry a syntax error.
---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index fa5fc91..136063c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -573,6 +573,8 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	if tok != token.TexComment {
+		s.prev = tok
+	}
 	return
 }
-- 
2.43.0


From 7875bf3f548d4e8f1e1a7a30fd82733421a5dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 09/35] fix: scan a brace after '#' as a string

"foo" # {bar} was a syntax error.
---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 136063c..e1a7dcb 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -538,9 +538,9 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		case '{':
 			// Use a heuristic to determine whether this brace is for declaration or
 			// a brace string. If preceded by '=', it's a string for a tag. If
-			// preceded by an LBrace, it's a value in a block like:
+			// preceded by '#', it's an operand of a concatenation. If preceded by an LBrace, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			if s.prev == token.Assign || s.prev == token.Concat || s.prev == token.LBrace {
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
-- 
2.43.0


From 35ba83b2514038ce6b1148ba3117894324942341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 10/35] fix: parse concatenations of parsed strings

In string parsing mode "foo" # "bar" was a syntax error. Also record the
position of the operator instead of that of its right operand.
---
 parser/parser.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0a81506..cdd5c8d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -575,16 +575,6 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	switch {
 	case p.tok.IsLiteral():
 		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
 
 	case p.tok.IsStringLiteral():
 		x = p.parseStringLiteral()
@@ -596,6 +586,17 @@ func (p *parser) parseExpr() (x ast.Expr) {
 			To:   p.pos,
 		}
 		p.next() // make progress
+		return
+	}
+	if p.tok == token.Concat {
+		opPos := p.pos
+		p.next()
+		y := p.parseExpr()
+		x = &ast.ConcatExpr{
+			X:     x,
+			OpPos: opPos,
+			Y:     y,
+		}
 	}
 	return
 }
-- 
2.43.0


From a938134a1936f19e4d74dec871ca70b156e148c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:19 +0000
Subject: [PATCH 11/35] fix: return a BadExpr instead of nil for an unknown
 text token

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index cdd5c8d..58b72b2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -475,6 +475,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
-- 
2.43.0


From 8c9837c94217e77f555fe871f41f754375d147e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 12/35] fix: record the position of the node instead of the
 token after it

The closers of parsed strings, accents and url texts carried the position
of the following token.
---
 parser/parser.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 58b72b2..ae1b6ae 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -399,6 +399,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	urlCmd := &ast.TextMacro{Cmd: p.pos, Name: name}
 	p.next()
 	p.expect(token.StringLBrace)
+	pos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
@@ -406,16 +407,15 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: pos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
 	}
 	urlCmd.RBrace = p.pos
 
-	pos := p.pos
 	if p.tok != token.StringRBrace {
-		p.errorExpected(pos, "'"+token.StringRBrace.String()+"'")
+		p.errorExpected(p.pos, "'"+token.StringRBrace.String()+"'")
 	}
 	return urlCmd
 }
@@ -463,13 +463,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -495,13 +496,14 @@ func (p *parser) parseStringLiteral() ast.Expr {
 			}
 			values = append(values, p.parseText(1))
 		}
+		closer := p.pos
 		p.next() // consume closing '"'
 		txt := &ast.ParsedText{
 			Opener: pos,
 			Depth:  0,
 			Delim:  ast.QuoteDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 		return txt
 
@@ -529,13 +531,13 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		if p.tok == token.StringMacro {
 			url := p.parseMacroURL(p.lit)
 			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
+			closer := p.expect(token.DoubleQuote)
 			return &ast.ParsedText{
 				Opener: pos,
 				Depth:  0,
 				Delim:  ast.QuoteDelimiter,
 				Values: []ast.Expr{url},
-				Closer: p.pos,
+				Closer: closer,
 			}
 		}
 
@@ -637,6 +639,7 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 
 func (p *parser) parseStringAccent() ast.Expr {
 	lit := p.lit
+	pos := p.pos
 	p.next()
 	if len(lit) <= 2 {
 		p.error(p.pos, "invalid accent string")
@@ -651,10 +654,10 @@ func (p *parser) parseStringAccent() ast.Expr {
 		value = value[1 : len(value)-1]
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: pos + 2,
 			Value:    value,
 		},
 	}
-- 
2.43.0


From 064c34dc691f81a27a01dcbee3d89b4027478754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 13/35] fix: never take a tag name for a cite key

Every tag followed by a comma added its name to the cite keys (as the key
of an entry without one, otherwise as an extra key), and a cite key that
was not followed by a comma, as in @misc{foo}, was dropped.
---
 parser/parser.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ae1b6ae..a7d0f57 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -784,21 +784,14 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			tags = append(tags, tag)
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
-		default:
-			// Keep going.
 		}
+		p.expectOptional(token.Comma)
 	}
 	closer := p.expectCloser(opener)
 	p.expectOptional(token.Comma) // trailing commas allowed
-- 
2.43.0


From 74717401499a35e8fcddd6c8692c582a5e9b0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 14/35] fix: resolve entries without a cite key

Resolve dereferenced a nil key for entries like @misc{}.
---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 9bf9aaae9490b1bce820a1bf3ad59f6146bf9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 15/35] fix: initialize the file map of a parsed package

ParsePackage panicked with an assignment to a nil map on the first file.
---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..6c839db 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -131,7 +131,7 @@ func ParseExpr(str string) (ast.Expr, error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From 99563ccddab4ce78f5e6e6fcc92a742137bb1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:23 +0000
Subject: [PATCH 16/35] fix: recover the bailout in ParseExpr

More than ten errors made ParseExpr panic with the internal bailout value.
---
 parser/interface.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 6c839db..979aa33 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,20 +107,27 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (expr ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+		}
+		p.errors.Sort()
+		if err = p.errors.Err(); err != nil {
+			expr = nil
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
-	expr := p.parseExpr()
-	p.errors.Sort()
-	err := p.errors.Err()
-	if err != nil {
-		return nil, err
-	}
-	return expr, nil
+	expr = p.parseExpr()
+	return
 }
 
 // ParsePackage calls ParseFile for all files specified by paths.
-- 
2.43.0


From 36f1e765362536a2cd9ca36e3f598532de1df13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 17/35] fix: report text after the expression in ParseExpr

Everything after the first expression was dropped without an error.
---
 parser/interface.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/interface.go b/parser/interface.go
index 979aa33..878ab6a 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -9,6 +9,7 @@ import (
 	"os"
 
 	"github.com/jschaf/bibtex/ast"
+	"github.com/jschaf/bibtex/token"
 )
 
 // If src != nil, readSource converts src to a []byte if possible;
@@ -127,6 +128,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
 	expr = p.parseExpr()
+	p.expect(token.EOF)
 	return
 }
 
-- 
2.43.0


From 73f6771b60b7cd4459e080c0da07559cf0f5d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 18/35] fix: set the name of a parsed file

ast.File.Name was only set when nothing could be parsed.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index a7d0f57..f17c803 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -868,6 +868,7 @@ func (p *parser) parseFile() *ast.File {
 	}
 
 	return &ast.File{
+		Name:       p.file.Name(),
 		Doc:        doc,
 		Entries:    decls,
 		Scope:      p.pkgScope,
-- 
2.43.0


From c5b0b0a365067af4a05a018b325b558781f3ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 19/35] fix: walk into tag statements and abbreviations

Walk is documented to visit every child, but stopped at TagStmt and
AbbrevDecl, so SimplifyEscapedTextResolver and Render never saw the value
of any tag. The default renderer of Text, now reached, asserted the wrong
node type and panicked.
---
 ast/walk.go      | 12 ++++++++++++
 render/render.go |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..e574419 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
diff --git a/render/render.go b/render/render.go
index 3774dca..8e13608 100644
--- a/render/render.go
+++ b/render/render.go
@@ -101,7 +101,7 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 }
 
 func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
+	txt := n.(*ast.Text)
 	if _, err := w.Write([]byte(txt.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
-- 
2.43.0


From c99f9221ce68e3e3914ce3ae2dc8eddca91a7399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:12 +0000
Subject: [PATCH 20/35] fix: give accents their own node kind and renderer

TextAccent reported the kind of Text, so the default renderer for Text
was called with it and panicked.
---
 ast/ast.go       |  4 +++-
 ast/walk.go      |  6 ++++++
 render/render.go | 13 +++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index ec8a0e7..ed61375 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -43,6 +43,7 @@ const (
 	KindPreambleDecl
 	KindFile
 	KindPackage
+	KindTextAccent
 )
 
 var kindNames = [...]string{
@@ -72,6 +73,7 @@ var kindNames = [...]string{
 	KindPreambleDecl:    "PreambleDecl",
 	KindFile:            "File",
 	KindPackage:         "Package",
+	KindTextAccent:      "TextAccent",
 }
 
 func (k NodeKind) String() string {
@@ -360,7 +362,7 @@ func (*Text) exprNode()        {}
 
 func (x *TextAccent) Pos() gotok.Pos { return x.ValuePos }
 func (x *TextAccent) End() gotok.Pos { return x.Text.End() }
-func (x *TextAccent) Kind() NodeKind { return KindText }
+func (x *TextAccent) Kind() NodeKind { return KindTextAccent }
 func (*TextAccent) exprNode()        {}
 
 func (x *TextComma) Pos() gotok.Pos { return x.ValuePos }
diff --git a/ast/walk.go b/ast/walk.go
index e574419..e0e304f 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -109,6 +109,12 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 			if st, err := walkHelper(t.Y, walker); st == WalkStop || err != nil {
 				return st, err
 			}
+		case *TextAccent:
+			if t.Text != nil {
+				if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *TextMacro:
 			for _, child := range t.Values {
 				if st, err := walkHelper(child, walker); st == WalkStop || err != nil {
diff --git a/render/render.go b/render/render.go
index 8e13608..3af0fc9 100644
--- a/render/render.go
+++ b/render/render.go
@@ -45,6 +45,7 @@ func Defaults() []NodeRenderer {
 		ast.KindPreambleDecl:    NodeRendererFunc(renderPreambleDecl),
 		ast.KindFile:            NodeRendererFunc(renderFile),
 		ast.KindPackage:         NodeRendererFunc(renderPackage),
+		ast.KindTextAccent:      NodeRendererFunc(renderTextAccent),
 	}
 }
 
@@ -108,6 +109,18 @@ func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
 	return ast.WalkContinue, nil
 }
 
+func renderTextAccent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	acc := n.(*ast.TextAccent)
+	s := `\` + string(rune(acc.Accent)) + `{`
+	if !entering {
+		s = `}`
+	}
+	if _, err := w.Write([]byte(s)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderTextAccent: %w", err)
+	}
+	return ast.WalkContinue, nil
+}
+
 func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
-- 
2.43.0


From fe49858dd8cadf6d730fc4b45e58813efb03333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:13 +0000
Subject: [PATCH 21/35] fix: render the text of a leaf once

The default renderers of leaf nodes wrote their text both when entering
and when leaving the node, and math was rendered without its content.
---
 render/render.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/render/render.go b/render/render.go
index 3af0fc9..4807be0 100644
--- a/render/render.go
+++ b/render/render.go
@@ -61,7 +61,10 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
 	_, _ = w.Write([]byte(ident.Name))
 	return ast.WalkContinue, nil
@@ -101,7 +104,10 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	txt := n.(*ast.Text)
 	if _, err := w.Write([]byte(txt.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
@@ -121,14 +127,20 @@ func renderTextAccent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -136,16 +148,20 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		math := n.(*ast.TextMath)
+		if _, err := w.Write([]byte("$" + math.Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
@@ -156,14 +172,20 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	sp := n.(*ast.TextSpace)
 	if _, err := w.Write([]byte(sp.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
-- 
2.43.0


From 79136fefaa327a8dea270ee00c594d788333056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 22/35] fix: report write errors when rendering identifiers and
 concatenations

---
 render/render.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 4807be0..4dedff7 100644
--- a/render/render.go
+++ b/render/render.go
@@ -66,7 +66,9 @@ func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error)
 		return ast.WalkContinue, nil
 	}
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -254,7 +256,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From 8dd5db535e75c1fe3766c2cca46a892dcca990d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 23/35] fix: keep the space of a parsed space

The scanner returns no literal for white space inside a string, so parsed
spaces had an empty value and Render glued the words together.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f17c803..13d45ff 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -431,7 +431,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 	case token.StringContents:
 		txt = &ast.Text{ValuePos: p.pos, Value: p.lit}
 	case token.StringSpace:
-		txt = &ast.TextSpace{ValuePos: p.pos, Value: p.lit}
+		txt = &ast.TextSpace{ValuePos: p.pos, Value: " "}
 	case token.StringComma:
 		txt = &ast.TextComma{ValuePos: p.pos}
 	case token.StringMacro:
-- 
2.43.0


From 1b49365f021def715371ff14e37e4240557801c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 24/35] fix: visit the files of a package in a fixed order

Resolve and Walk iterated over the file map, so the order of the entries
of a package changed from run to run.
---
 ast/ast.go  | 11 +++++++++++
 ast/walk.go |  4 ++--
 bibtex.go   |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ed61375..f7f2c32 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ package ast
 
 import (
 	gotok "go/token"
+	"sort"
 
 	"github.com/jschaf/bibtex/token"
 )
@@ -555,6 +556,16 @@ type Package struct {
 	Files   map[string]*File   // Bibtex source files by filename
 }
 
+// FileNames returns the sorted names of the files of the package.
+func (p *Package) FileNames() []string {
+	names := make([]string, 0, len(p.Files))
+	for name := range p.Files {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (p *Package) Pos() gotok.Pos { return gotok.NoPos }
 func (p *Package) End() gotok.Pos { return gotok.NoPos }
 func (p *Package) Kind() NodeKind { return KindPackage }
diff --git a/ast/walk.go b/ast/walk.go
index e0e304f..42dbb63 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -69,8 +69,8 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 				}
 			}
 		case *Package:
-			for _, file := range t.Files {
-				if st, err := walkHelper(file, walker); st == WalkStop || err != nil {
+			for _, name := range t.FileNames() {
+				if st, err := walkHelper(t.Files[name], walker); st == WalkStop || err != nil {
 					return st, err
 				}
 			}
diff --git a/bibtex.go b/bibtex.go
index 3fe4700..e148334 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -146,8 +146,8 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 	switch n := node.(type) {
 	case *ast.Package:
 		entries := make([]Entry, 0, len(n.Files)*4)
-		for _, file := range n.Files {
-			for _, decl := range file.Entries {
+		for _, name := range n.FileNames() {
+			for _, decl := range n.Files[name].Entries {
 				if decl, ok := decl.(*ast.BibDecl); ok {
 					entries = append(entries, b.resolveEntry(decl))
 				}
-- 
2.43.0


From 14806fb622499002c3193b88afa0d5b96865e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 25/35] fix: do not slice a single dollar sign as math

---
 asts/asts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 6787a2c..8ac97e9 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -66,7 +66,7 @@ func ParseStringExpr(depth int, s string) ast.Expr {
 	switch {
 	case strings.TrimSpace(s) == "":
 		return Space()
-	case strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
+	case len(s) >= 2 && strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
 		bs := []byte(s)
 		return Math(string(bs[1 : len(bs)-1]))
 	case s == "~":
-- 
2.43.0


From 75875e2b261139370a78066c7f8189610dbecfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 26/35] fix: let WithBibKeys be applied more than once

The returned function dropped the first key from its own captured list.
---
 asts/asts.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asts/asts.go b/asts/asts.go
index 8ac97e9..279b0fd 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -260,11 +260,11 @@ func WithBibType(s string) func(decl *ast.BibDecl) {
 
 func WithBibKeys(ts ...string) func(decl *ast.BibDecl) {
 	return func(b *ast.BibDecl) {
-		if len(ts) > 0 {
-			b.Key = &ast.Ident{Name: ts[0]}
-			ts = ts[1:]
-		}
-		for _, k := range ts {
+		for i, k := range ts {
+			if i == 0 {
+				b.Key = &ast.Ident{Name: k}
+				continue
+			}
 			b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{Name: k})
 		}
 	}
-- 
2.43.0


From 0e22a76da62205436bc422c83652f456a21cfb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 27/35] fix: name unknown node and object kinds instead of
 panicking

---
 ast/ast.go   | 4 ++++
 ast/scope.go | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index f7f2c32..f051ad0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -5,6 +5,7 @@ package ast
 import (
 	gotok "go/token"
 	"sort"
+	"strconv"
 
 	"github.com/jschaf/bibtex/token"
 )
@@ -78,6 +79,9 @@ var kindNames = [...]string{
 }
 
 func (k NodeKind) String() string {
+	if k < 0 || int(k) >= len(kindNames) {
+		return "NodeKind(" + strconv.Itoa(int(k)) + ")"
+	}
 	return kindNames[k]
 }
 
diff --git a/ast/scope.go b/ast/scope.go
index 303170f..8179b2e 100644
--- a/ast/scope.go
+++ b/ast/scope.go
@@ -105,4 +105,9 @@ var objKindStrings = [...]string{
 	Abbrev: "abbrev",
 }
 
-func (kind ObjKind) String() string { return objKindStrings[kind] }
+func (kind ObjKind) String() string {
+	if kind < 0 || int(kind) >= len(objKindStrings) {
+		return fmt.Sprintf("ObjKind(%d)", int(kind))
+	}
+	return objKindStrings[kind]
+}
-- 
2.43.0


From e8196a407b53e49d829ab5850ea508633e09304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 28/35] fix: end nodes at the end of their last child

The end of tags, concatenations, parsed strings and macros was the start
of their last child.
---
 ast/ast.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index f051ad0..5adc77d 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -352,8 +352,11 @@ func (*UnparsedText) exprNode()        {}
 
 func (x *ParsedText) Pos() gotok.Pos { return x.Opener }
 func (x *ParsedText) End() gotok.Pos {
+	if x.Closer != gotok.NoPos {
+		return x.Closer
+	}
 	if len(x.Values) > 0 {
-		return x.Values[len(x.Values)-1].Pos()
+		return x.Values[len(x.Values)-1].End()
 	}
 	return x.Opener
 }
@@ -408,13 +411,13 @@ func (x *TextMacro) End() gotok.Pos {
 	if len(x.Values) == 0 {
 		return x.Cmd
 	}
-	return x.Values[len(x.Values)-1].Pos()
+	return x.Values[len(x.Values)-1].End()
 }
 func (x *TextMacro) Kind() NodeKind { return KindTextMacro }
 func (*TextMacro) exprNode()        {}
 
 func (x *ConcatExpr) Pos() gotok.Pos { return x.X.Pos() }
-func (x *ConcatExpr) End() gotok.Pos { return x.Y.Pos() }
+func (x *ConcatExpr) End() gotok.Pos { return x.Y.End() }
 func (x *ConcatExpr) Kind() NodeKind { return KindConcatExpr }
 func (*ConcatExpr) exprNode()        {}
 
@@ -447,7 +450,7 @@ func (x *BadStmt) Kind() NodeKind { return KindBadStmt }
 func (*BadStmt) stmtNode()        {}
 
 func (x *TagStmt) Pos() gotok.Pos { return x.NamePos }
-func (x *TagStmt) End() gotok.Pos { return x.Value.Pos() }
+func (x *TagStmt) End() gotok.Pos { return x.Value.End() }
 func (x *TagStmt) Kind() NodeKind { return KindTagStmt }
 func (*TagStmt) stmtNode()        {}
 
-- 
2.43.0


From 03ac15cfcdadd3c14b78d72ecb451904dd6aae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 29/35] fix: return an error for author names that cannot be
 rendered

ExtractAuthors panicked on a macro or on an accent without a table entry
in an author field, although it can return an error.
---
 author.go | 105 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 69 insertions(+), 36 deletions(-)

diff --git a/author.go b/author.go
index 8582785..2681fd1 100644
--- a/author.go
+++ b/author.go
@@ -23,7 +23,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 		switch t := v.(type) {
 		case *ast.Text:
 			if t.Value == authorSep {
-				a := extractAuthor(aExprs)
+				a, err := extractAuthor(aExprs)
+				if err != nil {
+					return nil, err
+				}
 				if a.IsEmpty() {
 					return nil, fmt.Errorf("found an empty author")
 				}
@@ -34,7 +37,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 		}
 		aExprs = append(aExprs, v)
 	}
-	final := extractAuthor(aExprs)
+	final, err := extractAuthor(aExprs)
+	if err != nil {
+		return nil, err
+	}
 	if final.IsEmpty() {
 		return nil, fmt.Errorf("found an empty author")
 	}
@@ -64,7 +70,7 @@ func trimSpaces(xs []ast.Expr) []ast.Expr {
 	return xs[lo:hi]
 }
 
-func extractAuthor(xs []ast.Expr) *ast.Author {
+func extractAuthor(xs []ast.Expr) (*ast.Author, error) {
 	xs = trimSpaces(xs)
 	commas := findCommas(xs)
 	if len(commas) == 0 {
@@ -81,22 +87,23 @@ const (
 	resolveNextPart
 )
 
-func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
+func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction, error) {
 	x := xs[idx]
 	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
 		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
 			// lowercase after space means we're out of the first name
-			return "", resolveNextPart
+			return "", resolveNextPart, nil
 		}
 	}
 
 	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
+		val, err := parseDefault(idx, xs)
+		return val, resolveContinue, err
 	}
 
 	t := x.(*ast.Text)
 
-	return t.Value, resolveContinue
+	return t.Value, resolveContinue, nil
 }
 
 func hasUpperPrefix(s string) bool {
@@ -104,61 +111,66 @@ func hasUpperPrefix(s string) bool {
 	return unicode.IsUpper(r)
 }
 
-func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
+func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction, error) {
 	x := xs[idx]
 	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
+		val, err := parseDefault(idx, xs)
+		return val, resolveContinue, err
 	}
 
 	t := x.(*ast.Text)
 	if hasUpperPrefix(t.Value) {
-		return "", resolveNextPart // Only lowercase goes in prefix
+		return "", resolveNextPart, nil // Only lowercase goes in prefix
 	}
-	return t.Value, resolveContinue
+	return t.Value, resolveContinue, nil
 }
 
-func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
-	return parseDefault(idx, xs), resolveContinue
+func parseLastName(idx int, xs []ast.Expr) (string, resolveAction, error) {
+	val, err := parseDefault(idx, xs)
+	return val, resolveContinue, err
 }
 
 // TODO: replace with single resolver
-func parseDefault(idx int, xs []ast.Expr) string {
+func parseDefault(idx int, xs []ast.Expr) (string, error) {
 	x := xs[idx]
 	switch t := x.(type) {
 	case *ast.ParsedText:
 		sb := strings.Builder{}
 		sb.Grow(16)
 		for i := range t.Values {
-			d := parseDefault(i, t.Values)
+			d, err := parseDefault(i, t.Values)
+			if err != nil {
+				return "", err
+			}
 			sb.WriteString(d)
 		}
-		return sb.String()
+		return sb.String(), nil
 	case *ast.TextComma:
-		return ","
+		return ",", nil
 	case *ast.TextEscaped:
-		return `\` + t.Value
+		return `\` + t.Value, nil
 	case *ast.TextHyphen:
-		return "-"
+		return "-", nil
 	case *ast.TextNBSP, *ast.TextSpace:
-		return " "
+		return " ", nil
 	case *ast.TextMath:
-		return "$" + t.Value + "$"
+		return "$" + t.Value + "$", nil
 	case *ast.Text:
-		return t.Value
+		return t.Value, nil
 	case *ast.TextAccent:
 		r, err := render.RenderAccent(t.Accent, t.Text.Value)
 		if err != nil {
-			panic("cannot render accent")
+			return "", fmt.Errorf("author name: %w", err)
 		}
-		return string(r)
+		return string(r), nil
 	default:
-		panic("unhandled ast.Expr value")
+		return "", fmt.Errorf("unhandled ast.Expr type %T in author name", x)
 	}
 }
 
 // resolveAuthor0 resolves an author for an entry with no commas, like
 // "First von Last".
-func resolveAuthor0(xs []ast.Expr) *ast.Author {
+func resolveAuthor0(xs []ast.Expr) (*ast.Author, error) {
 	first := strings.Builder{}
 	first.Grow(16)
 	idx := 0
@@ -167,7 +179,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-		val, action := parseFirstName(idx, xs)
+		val, action, err := parseFirstName(idx, xs)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -180,7 +195,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-		val, action := parsePrefixName(idx, xs)
+		val, action, err := parsePrefixName(idx, xs)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -190,7 +208,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 	last := strings.Builder{}
 	last.Grow(16)
 	for ; idx < len(xs); idx++ {
-		val, action := parseLastName(idx, xs)
+		val, action, err := parseLastName(idx, xs)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -202,7 +223,7 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 		Prefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},
 		Last:   &ast.Text{Value: strings.TrimSpace(last.String())},
 		Suffix: &ast.Text{Value: ""},
-	}
+	}, nil
 }
 
 // resolveAuthorN resolves an author entry that contains 1 or more commas.
@@ -211,7 +232,7 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 //	1 comma:  von last, first         => Author(first, von, last, "")
 //	2 commas: last, suffix, first     => Author{first, "",  last, suffix}
 //	2 commas: von last, suffix, first => Author{first, von, last, suffix}
-func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
+func resolveAuthorN(xs []ast.Expr, commas []int) (*ast.Author, error) {
 	part1 := xs[:commas[0]]
 	idx1 := 0
 	prefix := strings.Builder{}
@@ -220,7 +241,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-		val, action := parsePrefixName(idx1, part1)
+		val, action, err := parsePrefixName(idx1, part1)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -230,7 +254,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	last := strings.Builder{}
 	last.Grow(16)
 	for ; idx1 < len(part1); idx1++ {
-		val, action := parseLastName(idx1, part1)
+		val, action, err := parseLastName(idx1, part1)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -242,7 +269,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
+		val, err := parseDefault(0, xs[commas[0]+1:])
+		if err != nil {
+			return nil, err
+		}
 		suffix.WriteString(val)
 		part2 = xs[commas[1]+1:]
 	}
@@ -251,7 +281,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	first := strings.Builder{}
 	first.Grow(16)
 	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
+		val, action, err := parseFirstName(idx2, part2)
+		if err != nil {
+			return nil, err
+		}
 		if action == resolveNextPart {
 			break
 		}
@@ -263,7 +296,7 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 		Prefix: &ast.Text{Value: strings.TrimSpace(prefix.String())},
 		Last:   &ast.Text{Value: strings.TrimSpace(last.String())},
 		Suffix: &ast.Text{Value: strings.TrimSpace(suffix.String())},
-	}
+	}, nil
 }
 
 // findCommas returns the offsets of all commas in xs. Only searches
-- 
2.43.0


From d42690855c7ceef86add83338352b886c3ec3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:44 +0000
Subject: [PATCH 30/35] fix: keep the whole suffix of an author name

For "Last, Jr, First" only the first piece after the comma, usually a
space, was taken as the suffix and the rest was lost.
---
 author.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/author.go b/author.go
index 2681fd1..61d72b0 100644
--- a/author.go
+++ b/author.go
@@ -269,11 +269,13 @@ func resolveAuthorN(xs []ast.Expr, commas []int) (*ast.Author, error) {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val, err := parseDefault(0, xs[commas[0]+1:])
-		if err != nil {
-			return nil, err
+		for i := commas[0] + 1; i < commas[1]; i++ {
+			val, err := parseDefault(i, xs)
+			if err != nil {
+				return nil, err
+			}
+			suffix.WriteString(val)
 		}
-		suffix.WriteString(val)
 		part2 = xs[commas[1]+1:]
 	}
 
-- 
2.43.0


From 4bf3ecd53bbc14c26ef4b28933df920143374596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:10 +0000
Subject: [PATCH 31/35] fix: keep a first name in lower case after the comma

For "Last, first" everything from the first lower-case word after the
comma on was dropped.
---
 author.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/author.go b/author.go
index 61d72b0..6cb2723 100644
--- a/author.go
+++ b/author.go
@@ -283,13 +283,10 @@ func resolveAuthorN(xs []ast.Expr, commas []int) (*ast.Author, error) {
 	first := strings.Builder{}
 	first.Grow(16)
 	for ; idx2 < len(part2); idx2++ {
-		val, action, err := parseFirstName(idx2, part2)
+		val, err := parseDefault(idx2, part2)
 		if err != nil {
 			return nil, err
 		}
-		if action == resolveNextPart {
-			break
-		}
 		first.WriteString(val)
 	}
 
-- 
2.43.0


From ac75f2712370612d64b31134ad2bf83a8a72b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:11 +0000
Subject: [PATCH 32/35] fix: scan brace strings without recursion

Nested braces recursed once per level, so that a long run of open braces
overflowed the stack, which cannot be recovered.
---
 scanner/scanner.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index e1a7dcb..dd0b74c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -252,7 +252,7 @@ func (s *Scanner) scanNumber() string {
 func (s *Scanner) scanBraceString() string {
 	offs := s.offset
 
-	for {
+	for depth := 1; depth > 0; {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
@@ -260,10 +260,9 @@ func (s *Scanner) scanBraceString() string {
 		}
 		s.next()
 		if ch == '}' {
-			break
-		}
-		if ch == '{' {
-			s.scanBraceString()
+			depth--
+		} else if ch == '{' {
+			depth++
 		}
 	}
 	return string(s.src[offs : s.offset-1])
-- 
2.43.0


From 8dbeddb09d8635e1916dbc2f336bbceca8da0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:12 +0000
Subject: [PATCH 33/35] fix: limit the nesting depth of parsed strings and
 concatenations

Deeply nested braces and long chains of '#' overflowed the stack, which
cannot be recovered. Report an error beyond 100000 levels, as go/parser
does.
---
 parser/parser.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 13d45ff..72f20ed 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,10 @@ type parser struct {
 	syncPos gotok.Pos // last synchronization position
 	syncCnt int       // number of parser.advance calls without progress
 
+	// nestLev is used to track and limit the recursion depth
+	// during parsing.
+	nestLev int
+
 	// Ordinary cite key scopes
 	pkgScope   *ast.Scope   // pkgScope.Outer == nil
 	topScope   *ast.Scope   // top-most scope; may be pkgScope
@@ -420,7 +424,28 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	return urlCmd
 }
 
+// maxNestLev is the deepest nesting of strings and concatenations we're willing
+// to recurse during parsing. Like in go/parser, it keeps the stack bounded.
+const maxNestLev = 1e5
+
+func incNestLev(p *parser) *parser {
+	p.nestLev++
+	if p.nestLev > maxNestLev {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(bailout{})
+	}
+	return p
+}
+
+// decNestLev is used to track nesting depth during parsing to prevent stack exhaustion.
+// It is used along with incNestLev in a similar fashion to how un and trace are used.
+func decNestLev(p *parser) {
+	p.nestLev--
+}
+
 func (p *parser) parseText(depth int) (txt ast.Expr) {
+	defer decNestLev(incNestLev(p))
+
 	switch p.tok {
 	case token.StringMath:
 		txt = &ast.TextMath{ValuePos: p.pos, Value: p.lit}
@@ -571,6 +596,8 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 }
 
 func (p *parser) parseExpr() (x ast.Expr) {
+	defer decNestLev(incNestLev(p))
+
 	if p.trace {
 		defer un(trace(p, "Expr"))
 	}
-- 
2.43.0


From 1c2271a48f1b274dcac220df4f343fa457bacafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:30 +0000
Subject: [PATCH 34/35] fix: render a dotted lower-case i with its dot

The dot accent on i gave the dotless i, the one letter it must not give.
---
 render/accent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/accent.go b/render/accent.go
index 4c87070..9978cc0 100644
--- a/render/accent.go
+++ b/render/accent.go
@@ -31,7 +31,7 @@ var accentMap = map[string]rune{
 	"cc": 'ç', "cC": 'Ç',
 
 	// AccentDot (.)
-	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'ı', ".z": 'ż',
+	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'i', ".z": 'ż',
 	".C": 'Ċ', ".E": 'Ė', ".G": 'Ġ', ".I": 'İ', ".Z": 'Ż',
 }
 
-- 
2.43.0


From 8f7cd9392b44875beaeeb5442d5cc587de4eecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 35/35] fix: keep node addresses out of the plain-text
 renderer's error

---
 render/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 4dedff7..ac2be98 100644
--- a/render/render.go
+++ b/render/render.go
@@ -315,7 +315,7 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 			return err
 		}
 	default:
-		err := fmt.Errorf("renderer - unhandled ast.Expr type %T, %v", t, t)
+		err := fmt.Errorf("renderer - unhandled ast.Expr type %T", t)
 		if err != nil {
 			return err
 		}
-- 
2.43.0

