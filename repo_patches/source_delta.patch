From e3a9d289e6e7e523693d4b895eea3d623754860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 01/28] fix: do not let statements after return run before it

---
 parser_stmt.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..dfd2af3 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,9 +173,20 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Anything that follows in the same block is unreachable unless it is
+	// labelled; it must not be added to the block just terminated.
+	startUnreachableBlock(c)
 	return nil
 }
 
+// startUnreachableBlock starts a fresh block for the dead code that may
+// follow a return or goto.
+func startUnreachableBlock(c *Compiler) {
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
+}
+
 // parseAuto parses auto variable declarations
 // Note: Variables within ONE auto statement are allocated in forward order.
 // Reverse allocation happens at the statement level (last statement allocated first).
@@ -492,11 +503,9 @@ func parseGoto(l *Lexer, c *Compiler) error {
 
 	// Create a new unreachable block for any code after the goto
 	// This ensures subsequent code doesn't accidentally create branches
-	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
-	c.labelID++
-	c.SetInsertPoint(deadBlock)
 	// Don't add unreachable instruction yet - let dead code be added,
 	// but when we hit a label, we'll switch blocks
+	startUnreachableBlock(c)
 
 	if err := l.Whitespace(); err != nil {
 		return err
-- 
2.43.0


From 58b35538a11b53059ae190aa78b251c53691bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 02/28] fix: diagnose undefined and duplicate labels; keep
 label names apart from parameters

---
 irbuilder.go    | 43 ++++++++++++++++++++++++++++++++++++++++++-
 parser_decls.go |  3 +++
 parser_stmt.go  |  7 +++++--
 3 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..783618f 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/llir/llvm/ir"
 	"github.com/llir/llvm/ir/constant"
@@ -23,6 +24,9 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	// User labels of the current function: true once defined, false while
+	// only mentioned in a goto
+	labelDefined map[string]bool
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,7 +319,9 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
-	c.builder = fn.NewBlock("entry")
+	c.labelDefined = make(map[string]bool)
+	// Dotted block names cannot clash with parameter names
+	c.builder = fn.NewBlock("fn.entry")
 
 	// Get the function name to look up original parameters
 	var funcName string
@@ -524,6 +530,41 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	return block
 }
 
+// LabelBlock returns the block of a user label, creating it on first mention.
+// The block name is prefixed so that it cannot clash with parameters.
+func (c *Compiler) LabelBlock(name string) *ir.Block {
+	if _, ok := c.labelDefined[name]; !ok {
+		c.labelDefined[name] = false
+	}
+	return c.GetOrCreateLabel("label." + name)
+}
+
+// DefineLabel returns the block of a user label that is being defined,
+// or an error if the current function already has a label of that name.
+func (c *Compiler) DefineLabel(name string) (*ir.Block, error) {
+	if c.labelDefined[name] {
+		return nil, fmt.Errorf("label '%s' already defined in this function", name)
+	}
+	block := c.LabelBlock(name)
+	c.labelDefined[name] = true
+	return block, nil
+}
+
+// CheckLabels reports a label that was used in a goto but never defined.
+func (c *Compiler) CheckLabels() error {
+	var undefined []string
+	for name, defined := range c.labelDefined {
+		if !defined {
+			undefined = append(undefined, name)
+		}
+	}
+	if len(undefined) == 0 {
+		return nil
+	}
+	sort.Strings(undefined)
+	return fmt.Errorf("undefined label '%s'", undefined[0])
+}
+
 // Get or create an intrinsic function by name
 func (c *Compiler) getOrCreateFunc(funcName string) *ir.Func {
 	// Check if function already exists in module
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..dcac80a 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -265,6 +265,9 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 	if err := parseStatementWithSwitch(l, c, -1, nil); err != nil {
 		return err
 	}
+	if err := c.CheckLabels(); err != nil {
+		return err
+	}
 
 	c.EndFunction()
 	return nil
diff --git a/parser_stmt.go b/parser_stmt.go
index dfd2af3..a925675 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,7 +107,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
-			block := c.GetOrCreateLabel(name)
+			block, err := c.DefineLabel(name)
+			if err != nil {
+				return err
+			}
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -496,7 +499,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
-	targetBlock := c.GetOrCreateLabel(label)
+	targetBlock := c.LabelBlock(label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
-- 
2.43.0


From 6c8800b402402dac764bc0c3aeb92a0a2a00ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 03/28] fix: keep the character after 'else' and accept names
 starting with else_

---
 parser_stmt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index a925675..111ab1b 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -414,11 +414,11 @@ func parseIf(l *Lexer, c *Compiler) error {
 	}
 
 	if isElse {
-		// Check that next char is not alphanumeric
+		// Check that the keyword ends here; the next char belongs to what follows
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			l.UnreadChar(ch)
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
 				isElse = false
 			}
 		}
-- 
2.43.0


From 887c2481095fc7a411b425e4d54990242aa69423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 04/28] fix: shifts bind tighter than relations on the
 right-hand side too

---
 expressions.go | 52 +++++++++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..e31dae9 100644
--- a/expressions.go
+++ b/expressions.go
@@ -352,6 +352,32 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			continue
 		}
 
+		// Shift operators (level 5)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
+			ch2, err2 := l.ReadChar()
+			if err2 == nil && ch2 == ch {
+				if isLvalue {
+					left = c.builder.NewLoad(c.WordType(), left)
+					isLvalue = false
+				}
+				right, err := parseExpressionWithLevel(l, c, 4)
+				if err != nil {
+					return nil, err
+				}
+				if ch == '<' {
+					left = c.builder.NewShl(left, right)
+				} else {
+					left = c.builder.NewAShr(left, right)
+				}
+				handled = true
+				continue
+			}
+			// Not a shift, push back and let comparison handler deal with it
+			if err2 == nil {
+				l.UnreadChar(ch2)
+			}
+		}
+
 		// Comparison operators (level 6)
 		if level >= 6 && (ch == '<' || ch == '>') && !handled {
 			if isLvalue {
@@ -363,18 +389,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			var right value.Value
 
 			if ch == '<' {
-				if err2 == nil && ch2 == '<' {
-					// Left shift (level 5)
-					if level >= 5 {
-						right, err = parseExpressionWithLevel(l, c, 4)
-						if err != nil {
-							return nil, err
-						}
-						left = c.builder.NewShl(left, right)
-						handled = true
-						continue
-					}
-				} else if err2 == nil && ch2 == '=' {
+				if err2 == nil && ch2 == '=' {
 					// Less than or equal
 					right, err = parseExpressionWithLevel(l, c, 5)
 					if err != nil {
@@ -399,18 +414,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 					continue
 				}
 			} else if ch == '>' {
-				if err2 == nil && ch2 == '>' {
-					// Right shift (level 5)
-					if level >= 5 {
-						right, err = parseExpressionWithLevel(l, c, 4)
-						if err != nil {
-							return nil, err
-						}
-						left = c.builder.NewAShr(left, right)
-						handled = true
-						continue
-					}
-				} else if err2 == nil && ch2 == '=' {
+				if err2 == nil && ch2 == '=' {
 					// Greater than or equal
 					right, err = parseExpressionWithLevel(l, c, 5)
 					if err != nil {
-- 
2.43.0


From 3c3f39b0c39f8527e60681d113d04ed09d845bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 05/28] fix: do not join an identifier with the next word of
 the statement

---
 parser_stmt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 111ab1b..7a2468b 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -124,8 +124,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 			return parseStatementWithSwitch(l, c, switchID, cases)
 		}
 
-		// Otherwise it's an expression
+		// Otherwise it's an expression. Separate the name from what follows,
+		// as whitespace between them has been skipped.
 		l.UnreadChar(ch)
+		l.UnreadChar(' ')
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From f6475f58e0f7c0f9af94fbd444aff801feea3ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 06/28] fix: allow whitespace around the brackets of
 definitions and calls, reject f(x,)

---
 expressions.go  | 6 +++++-
 parser_decls.go | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index e31dae9..eab99c2 100644
--- a/expressions.go
+++ b/expressions.go
@@ -693,11 +693,15 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
 				}
-				if ch == ')' {
+				// Empty argument list; a ')' after ',' is an error
+				if ch == ')' && len(args) == 0 {
 					break
 				}
 				l.UnreadChar(ch)
diff --git a/parser_decls.go b/parser_decls.go
index dcac80a..7962f6c 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
+
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -245,6 +249,10 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
+
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From 2177d784cc0e3179463054cb8736cc26d311b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 07/28] fix: a comment may follow the assignment operator

---
 expressions.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index eab99c2..9f84f03 100644
--- a/expressions.go
+++ b/expressions.go
@@ -190,7 +190,18 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			if err2 == nil {
 				// Check if it's a compound assignment
 				switch ch2 {
-				case '+', '-', '*', '/', '%', '&', '|':
+				case '/':
+					// =/ unless it is a comment that follows '='
+					ch3, err3 := l.ReadChar()
+					if err3 == nil {
+						l.UnreadChar(ch3)
+					}
+					if err3 == nil && ch3 == '*' {
+						l.UnreadChar(ch2)
+					} else {
+						compoundOp = ch2
+					}
+				case '+', '-', '*', '%', '&', '|':
 					compoundOp = ch2
 				case '<', '>':
 					// Could be =<, =>, =<=, =>>, =>=
-- 
2.43.0


From b0ba5e2e4304e2299c25b1b056f3b4d40430a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 08/28] fix: numbers need a digit, identifiers may start with
 '_' but not with a digit

---
 expressions.go  |  2 +-
 lexer.go        | 15 +++++++++++++--
 parser_decls.go |  3 +--
 parser_stmt.go  |  2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/expressions.go b/expressions.go
index 9f84f03..c65d154 100644
--- a/expressions.go
+++ b/expressions.go
@@ -889,7 +889,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		return constant.NewInt(c.WordType(), val), false, nil
 
-	case unicode.IsLetter(ch):
+	case isIdentStart(ch):
 		// Identifier
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
diff --git a/lexer.go b/lexer.go
index 47b4940..50714b7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -125,7 +125,13 @@ func (l *Lexer) Whitespace() error {
 	}
 }
 
-// Identifier parses an identifier (alphanumeric + underscore)
+// isIdentStart reports whether c can start an identifier
+func isIdentStart(c rune) bool {
+	return unicode.IsLetter(c) || c == '_'
+}
+
+// Identifier parses an identifier (alphanumeric + underscore).
+// The result is empty when no identifier starts here.
 func (l *Lexer) Identifier() (string, error) {
 	if err := l.Whitespace(); err != nil {
 		return "", err
@@ -142,7 +148,7 @@ func (l *Lexer) Identifier() (string, error) {
 			return "", err
 		}
 
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' {
+		if !isIdentStart(c) && (len(result) == 0 || !unicode.IsDigit(c)) {
 			l.UnreadChar(c)
 			return string(result), nil
 		}
@@ -162,6 +168,11 @@ func (l *Lexer) Number() (int64, error) {
 		return 0, err
 	}
 
+	if !unicode.IsDigit(c) {
+		l.UnreadChar(c)
+		return 0, fmt.Errorf("expect number, got '%c'", c)
+	}
+
 	base := 10
 	if c == '0' {
 		base = 8
diff --git a/parser_decls.go b/parser_decls.go
index 7962f6c..d58b8a7 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -3,7 +3,6 @@ package main
 import (
 	"fmt"
 	"io"
-	"unicode"
 
 	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/types"
@@ -205,7 +204,7 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 		return nil, err
 	}
 
-	if unicode.IsLetter(ch) {
+	if isIdentStart(ch) {
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
 		if err != nil || name == "" {
diff --git a/parser_stmt.go b/parser_stmt.go
index 7a2468b..768bf32 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -50,7 +50,7 @@ func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]in
 		// Null statement
 
 	default:
-		if unicode.IsLetter(ch) {
+		if isIdentStart(ch) {
 			l.UnreadChar(ch)
 			return parseKeywordOrExpressionWithSwitch(l, c, switchID, cases)
 		} else {
-- 
2.43.0


From 597b47903eec2d294069bb0fafa3cedede61adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 09/28] fix: call through a local variable or parameter that
 holds a function

---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index c65d154..b0e4c53 100644
--- a/expressions.go
+++ b/expressions.go
@@ -909,6 +909,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A local variable or parameter hides any function of that name
+			if addr, ok := c.locals[name]; ok {
+				return addr, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From 59c5ac96b4052938973cf667b9bc0e22ceeba211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 10/28] fix: allow calling a function with parameters without
 arguments

---
 expressions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expressions.go b/expressions.go
index b0e4c53..21af06f 100644
--- a/expressions.go
+++ b/expressions.go
@@ -755,6 +755,10 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
 				} else {
+					// A missing first argument is passed as zero
+					if len(fnDirect.Params) == 1 && len(args) == 0 {
+						args = append(args, constant.NewInt(c.WordType(), 0))
+					}
 					result = c.builder.NewCall(fnDirect, args...)
 				}
 			} else {
-- 
2.43.0


From b3a9de3d4866103020c914619a05daaea34fb46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 11/28] fix: extrn refers to a definition in another file or in
 the runtime instead of duplicating it

---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 768bf32..bdb3a51 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -328,6 +328,8 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			// A tentative definition: the variable may be defined in another file
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From c92a2c93b46576719d959f63d8e3d6f49b3fc69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 12/28] fix: diagnose a name used both as a variable and as a
 function; allow vector redefinition

---
 irbuilder.go    | 21 ++++++++++++++++-----
 parser_decls.go | 12 ++++++++++++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 783618f..9acd472 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -98,13 +98,18 @@ func (c *Compiler) findGlobalByName(name string) *ir.Global {
 // removeGlobalByName removes the global with the given name from the module if present
 func (c *Compiler) removeGlobalByName(name string) bool {
 	full := c.globalName(name)
-	for i, g := range c.module.Globals {
-		if g.Name() == full {
-			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
-			return true
+	found := false
+	kept := c.module.Globals[:0]
+	for _, g := range c.module.Globals {
+		// A large vector has its words in a separate global
+		if g.Name() == full || g.Name() == full+".data" {
+			found = true
+			continue
 		}
+		kept = append(kept, g)
 	}
-	return false
+	c.module.Globals = kept
+	return found
 }
 
 // GetModule returns the LLVM module
@@ -267,6 +272,12 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable defined in this file is not visible here without extrn,
+	// and its name cannot stand for a function
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
diff --git a/parser_decls.go b/parser_decls.go
index d58b8a7..023f045 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -68,6 +68,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 
 // parseGlobal parses a global variable
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -121,6 +125,10 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -266,6 +274,10 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if c.findGlobalByName(name) != nil {
+		return fmt.Errorf("variable '%s' redeclared as function", name)
+	}
+
 	fn := c.DeclareFunction(name, paramNames)
 	c.StartFunction(fn)
 
-- 
2.43.0


From 9171500867704d5e8479dca253400cc857e2596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 13/28] fix: diagnose duplicate case values

---
 parser_stmt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index bdb3a51..dcb0bff 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -614,6 +614,13 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 		return err
 	}
 
+	// Each value may select only one case
+	for _, other := range *cases {
+		if other == value {
+			return fmt.Errorf("duplicate case value %d in 'switch' statement", value)
+		}
+	}
+
 	// Add to case list
 	*cases = append(*cases, value)
 
-- 
2.43.0


From 6b11afac7d154cb31242065591a87da31c638d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 14/28] fix: 'default' in a switch takes the values that match
 no case

---
 parser_stmt.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index dcb0bff..0a9b408 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -105,6 +105,9 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		if err != nil {
 			return err
 		}
+		if ch == ':' && name == "default" && switchID >= 0 {
+			return parseDefault(l, c, switchID, cases)
+		}
 		if ch == ':' {
 			// Label - get or create labeled block
 			block, err := c.DefineLabel(name)
@@ -551,11 +554,17 @@ func parseSwitch(l *Lexer, c *Compiler) error {
 		c.builder.NewBr(endBlock)
 	}
 
+	// Values that match no case go to the default label, if any
+	defaultBlock := endBlock
+	if block, ok := c.labels[defaultLabel(int64(switchID))]; ok {
+		defaultBlock = block
+	}
+
 	// Build the switch instruction in the comparison block
 	c.SetInsertPoint(cmpBlock)
 	if len(caseList) > 0 {
 		// Create switch instruction
-		sw := c.builder.NewSwitch(switchVal, endBlock)
+		sw := c.builder.NewSwitch(switchVal, defaultBlock)
 
 		// Add all cases
 		for _, caseVal := range caseList {
@@ -563,8 +572,8 @@ func parseSwitch(l *Lexer, c *Compiler) error {
 			sw.Cases = append(sw.Cases, ir.NewCase(constant.NewInt(c.WordType(), caseVal), caseBlock))
 		}
 	} else {
-		// No cases, just jump to end
-		c.builder.NewBr(endBlock)
+		// No cases, just jump to default or end
+		c.builder.NewBr(defaultBlock)
 	}
 
 	// Continue with code after switch
@@ -572,6 +581,26 @@ func parseSwitch(l *Lexer, c *Compiler) error {
 	return nil
 }
 
+// defaultLabel returns the name of the block of the default label of a switch
+func defaultLabel(switchID int64) string {
+	return fmt.Sprintf("case.%d.default", switchID)
+}
+
+// parseDefault parses the statement following 'default:'
+func parseDefault(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
+	if _, ok := c.labels[defaultLabel(switchID)]; ok {
+		return fmt.Errorf("duplicate 'default' in 'switch' statement")
+	}
+	block := c.GetOrCreateLabel(defaultLabel(switchID))
+
+	// Fall through from the preceding statement
+	if c.builder.Term == nil {
+		c.builder.NewBr(block)
+	}
+	c.SetInsertPoint(block)
+	return parseStatementWithSwitch(l, c, switchID, cases)
+}
+
 // parseCase parses case statements
 func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	if switchID < 0 {
-- 
2.43.0


From 8667b05d9b622ec4336efb65c66f2b228c2760a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 15/28] fix: keep the bytes of string literals as written

---
 lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 50714b7..c71fba1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -256,7 +256,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -278,7 +278,7 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From e045d0e9064ee28ab139860c8296883c9e75884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 16/28] fix: char() returns bytes above 127 unchanged

---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From 934b96ab13833961686445f26397f8eba9388d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 17/28] fix: printf %d of the most negative number

---
 runtime/printf.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..48fef26 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -21,11 +21,8 @@ loop:
     }
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
+        // The sign is up to printd, which handles the most negative number.
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
         b_printd(x);
         goto loop;
 
-- 
2.43.0


From 665fbd06b0599639e702da618ba4a4e778f5b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 18/28] fix: allocate locals on function entry, not each time
 the declaration is reached

---
 irbuilder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 9acd472..399d7e1 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -415,9 +415,15 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
+// allocaBlock returns the block where locals are allocated: always the entry
+// block, so that a declaration inside a loop does not grow the stack.
+func (c *Compiler) allocaBlock() *ir.Block {
+	return c.currentFn.Blocks[0]
+}
+
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	alloca := c.allocaBlock().NewAlloca(c.WordType())
 	// Initialize local variables to 0 (B language semantics)
 	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
 	c.locals[name] = alloca
@@ -437,17 +443,17 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	alloca := c.allocaBlock().NewAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-	firstElemPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	firstElemPtr := c.allocaBlock().NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 1))
 
 	// Convert to i64 and store in the first slot [0][0]
 	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
+	firstSlotPtr := c.allocaBlock().NewGetElementPtr(arrayType, alloca,
 		constant.NewInt(types.I32, 0),
 		constant.NewInt(types.I32, 0))
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
-- 
2.43.0


From 9933105650de259a8adbae063e992c0673c1256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 19/28] fix: enter main with the stack aligned as the ABI
 requires

---
 runtime/start.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/start.c b/runtime/start.c
index 6a33fc1..292efe7 100644
--- a/runtime/start.c
+++ b/runtime/start.c
@@ -6,6 +6,10 @@
 //
 void b_start(void) __asm__("_start"); // assure, that _start is really named _start in asm
 
+// The kernel enters with an aligned stack, unlike a call.
+#ifdef __x86_64__
+__attribute__((force_align_arg_pointer))
+#endif
 void b_start()
 {
     word_t main(void);
-- 
2.43.0


From 85da17152294bdf7281c4123e32dd7f95a5dc69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 20/28] fix: a vector has room for all its initial values

---
 parser_decls.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_decls.go b/parser_decls.go
index 023f045..cb4a8fc 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -197,7 +197,8 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
-	if nwords == 0 {
+	// The vector has room for all its initial values
+	if nwords < int64(len(initVals)) {
 		nwords = int64(len(initVals))
 	}
 
-- 
2.43.0


From 990351131cb02a3f7897c84c525faa146344c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 21/28] fix: keep intermediate files of concurrent builds and
 user files apart

---
 driver.go  | 25 +++++++++++++++++++++++--
 options.go |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/driver.go b/driver.go
index 4bbe2d0..ad0647f 100644
--- a/driver.go
+++ b/driver.go
@@ -15,6 +15,17 @@ func Compile(args *CompileOptions) error {
 		fmt.Printf("blang: compiling %d file(s)\n", len(args.InputFiles))
 	}
 
+	// Intermediate files that are not to be kept go to a directory of their
+	// own, away from the user's files and from other running compilations
+	if !args.SaveTemps && args.OutputType != OutputIR {
+		dir, err := os.MkdirTemp("", "blang-")
+		if err != nil {
+			return err
+		}
+		defer os.RemoveAll(dir)
+		args.TempDir = dir
+	}
+
 	// Handle different output types
 	switch args.OutputType {
 	case OutputIR:
@@ -30,6 +41,14 @@ func Compile(args *CompileOptions) error {
 	}
 }
 
+// tempPath returns the path of an intermediate file
+func tempPath(args *CompileOptions, name string) string {
+	if args.TempDir == "" {
+		return name
+	}
+	return filepath.Join(args.TempDir, filepath.Base(name))
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -122,7 +141,7 @@ func compileToAssembly(args *CompileOptions) error {
 	processOne := func(in, out string) error {
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
-			tempIR := out + ".tmp.ll"
+			tempIR := tempPath(args, out+".tmp.ll")
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -216,7 +235,7 @@ func compileToObject(args *CompileOptions) error {
 	processOne := func(in, out string) error {
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
-			tempIR := out + ".tmp.ll"
+			tempIR := tempPath(args, out+".tmp.ll")
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -309,6 +328,8 @@ func compileToExecutable(args *CompileOptions) error {
 				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)
 			}
 
+			tmp = tempPath(args, tmp)
+
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
 			irArgs.OutputType = OutputIR
diff --git a/options.go b/options.go
index ff729e1..eefd513 100644
--- a/options.go
+++ b/options.go
@@ -24,6 +24,7 @@ type CompileOptions struct {
 	InputFiles   []string   // input files
 	WordSize     int        // size of the B data type (8 for x86_64)
 	SaveTemps    bool       // should temporary files get deleted?
+	TempDir      string     // directory for temporary files (empty: by the output)
 	OutputType   OutputType // type of output to generate
 	Optimize     int        // optimization level (0-3)
 	DebugInfo    bool       // include debug information
-- 
2.43.0


From 80e531ffd91d34f3add32aed15bd97f6d104b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 22/28] fix: a function may be compared with '=='

---
 expressions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 21af06f..907fd27 100644
--- a/expressions.go
+++ b/expressions.go
@@ -950,8 +950,13 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		nextCh, err2 := l.ReadChar()
 		if err2 == nil {
+			// '==' compares and is not an assignment
+			thirdCh, err3 := l.ReadChar()
+			if err3 == nil {
+				l.UnreadChar(thirdCh)
+			}
 			l.UnreadChar(nextCh)
-			if nextCh == '=' {
+			if nextCh == '=' && (err3 != nil || thirdCh != '=') {
 				return nil, false, fmt.Errorf("undefined identifier '%s'", name)
 			}
 		}
-- 
2.43.0


From a60428adc5b5a514d169de38c29962ed8bdfc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 23/28] fix: keywords are not identifiers

---
 expressions.go  |  2 +-
 lexer.go        | 14 ++++++++++++++
 parser_decls.go |  4 ++--
 parser_stmt.go  |  8 +++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/expressions.go b/expressions.go
index 907fd27..e2ad29d 100644
--- a/expressions.go
+++ b/expressions.go
@@ -896,7 +896,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 	case isIdentStart(ch):
 		// Identifier
 		l.UnreadChar(ch)
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil {
 			return nil, false, err
 		}
diff --git a/lexer.go b/lexer.go
index c71fba1..2c162ff 100644
--- a/lexer.go
+++ b/lexer.go
@@ -157,6 +157,20 @@ func (l *Lexer) Identifier() (string, error) {
 	}
 }
 
+// Name parses an identifier that is not a keyword.
+// The result is empty when there is none.
+func (l *Lexer) Name() (string, error) {
+	name, err := l.Identifier()
+	if err != nil {
+		return "", err
+	}
+	switch name {
+	case "auto", "extrn", "if", "else", "while", "switch", "case", "goto", "return":
+		return "", fmt.Errorf("unexpected keyword '%s', expect identifier", name)
+	}
+	return name, nil
+}
+
 // Number parses an integer literal (octal if starts with 0)
 func (l *Lexer) Number() (int64, error) {
 	if err := l.Whitespace(); err != nil {
diff --git a/parser_decls.go b/parser_decls.go
index cb4a8fc..bc46af7 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -11,7 +11,7 @@ import (
 // ParseDeclarations parses top-level declarations and generates LLVM IR
 func ParseDeclarations(l *Lexer, c *Compiler) error {
 	for {
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil {
 			return err
 		}
@@ -302,7 +302,7 @@ func parseArguments(l *Lexer) ([]string, error) {
 			return nil, err
 		}
 
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
 		}
diff --git a/parser_stmt.go b/parser_stmt.go
index 0a9b408..faafbcb 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -99,6 +99,8 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		return parseCase(l, c, switchID, cases)
 	case "goto":
 		return parseGoto(l, c)
+	case "else":
+		return fmt.Errorf("unexpected 'else' without 'if'")
 	default:
 		// Check if it's a label
 		ch, err := l.ReadChar()
@@ -209,7 +211,7 @@ func parseAuto(l *Lexer, c *Compiler) error {
 	seen := make(map[string]struct{})
 
 	for {
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return fmt.Errorf("expect identifier after 'auto'")
 		}
@@ -317,7 +319,7 @@ func parseAuto(l *Lexer, c *Compiler) error {
 // parseExtrn parses external declarations
 func parseExtrn(l *Lexer, c *Compiler) error {
 	for {
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return fmt.Errorf("expect identifier after 'extrn'")
 		}
@@ -500,7 +502,7 @@ func parseWhile(l *Lexer, c *Compiler) error {
 
 // parseGoto parses goto statements
 func parseGoto(l *Lexer, c *Compiler) error {
-	label, err := l.Identifier()
+	label, err := l.Name()
 	if err != nil || label == "" {
 		return fmt.Errorf("expect label name after 'goto'")
 	}
-- 
2.43.0


From 12288ea9cf8186ecea8afd10f99d68dae9aa4491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 24/28] fix: programs with loops that clear or copy a vector
 link at -O1 and above

---
 irbuilder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 399d7e1..8452cff 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -248,6 +248,10 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn.Sig.Variadic = true
 	}
 
+	// The program is linked without the C library: loops must not be turned
+	// into calls of memset and the like
+	fn.FuncAttrs = append(fn.FuncAttrs, ir.AttrString("no-builtins"))
+
 	c.functions[name] = fn
 	return fn
 }
-- 
2.43.0


From 867f4b69a1c77183ce85706af9a61b961ca45c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:01 +0000
Subject: [PATCH 25/28] fix: do not leave a truncated output file when writing
 it fails

---
 driver.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/driver.go b/driver.go
index ad0647f..0df937e 100644
--- a/driver.go
+++ b/driver.go
@@ -75,11 +75,15 @@ func compileToIR(args *CompileOptions) error {
 			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
 			return err
 		}
-		if _, err := outFile.WriteString(compiler.GetModule().String()); err != nil {
-			outFile.Close()
-			return err
+		_, err = outFile.WriteString(compiler.GetModule().String())
+		if cerr := outFile.Close(); err == nil {
+			err = cerr
 		}
-		if err := outFile.Close(); err != nil {
+		if err != nil {
+			// Do not leave a truncated output behind
+			if fi, serr := os.Lstat(outputPath); serr == nil && fi.Mode().IsRegular() {
+				os.Remove(outputPath)
+			}
 			return err
 		}
 		if args.Verbose {
-- 
2.43.0


From 2913865dde1f4a29816273521d86c3c2891c42b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 26/28] fix: exit with an error status when an option is not
 understood

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 06b3dd1..35bd671 100644
--- a/main.go
+++ b/main.go
@@ -33,7 +33,6 @@ func usage() {
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang hello.b -o output -O2"), note.Sprint("  Options can be placed after arguments"))
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang -V"), note.Sprint("                     Show version information"))
 	fmt.Fprintf(os.Stderr, "\n")
-	os.Exit(0)
 }
 
 func main() {
@@ -83,6 +82,7 @@ func main() {
 
 	if showHelp {
 		usage()
+		os.Exit(0)
 	}
 
 	if showVersion {
-- 
2.43.0


From 0f6a6d270377f51458e9cfa258811f2b1014ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 27/28] fix: labels with very long names clashed in the IR

---
 irbuilder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 8452cff..096ccd9 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -546,7 +546,13 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
 		return block
 	}
-	block := c.currentFn.NewBlock(name)
+	blockName := name
+	if len(blockName) > 256 {
+		// LLVM cuts off the names of blocks at 1024 characters, and different
+		// labels must remain different
+		blockName = fmt.Sprintf("%s.%d", name[:256], len(c.labels))
+	}
+	block := c.currentFn.NewBlock(blockName)
 	c.labels[name] = block
 	return block
 }
-- 
2.43.0


From 32cbaf4b6b270051b754158367e4d48a7f3cdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:37 +0000
Subject: [PATCH 28/28] fix: very long parameter names

---
 irbuilder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 096ccd9..9d750e0 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -243,7 +243,12 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		paramName := paramNames[0]
+		if len(paramName) > 256 {
+			// LLVM refuses names of parameters above 1024 characters
+			paramName = paramName[:256]
+		}
+		firstParam := ir.NewParam(paramName, c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
-- 
2.43.0

