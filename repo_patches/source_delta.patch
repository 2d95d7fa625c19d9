From 18d7fd8057d2e4b332aaede264f75b2661ef0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 01/23] fix: keep the character that follows 'else'

The character read to delimit the keyword was dropped, so 'else{' lost its
brace, and an identifier such as else_x was taken for the keyword.
---
 parser_stmt.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..be4e614 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -400,12 +400,14 @@ func parseIf(l *Lexer, c *Compiler) error {
 	}
 
 	if isElse {
-		// Check that next char is not alphanumeric
+		// Check that next char does not continue an identifier
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
 				isElse = false
+				readChars = append(readChars, ch)
+			} else {
+				l.UnreadChar(ch)
 			}
 		}
 	}
-- 
2.43.0


From 9a32251703b56038bcf5bb32844935bb89ab3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 02/23] fix: shifts bind tighter than relational operators

The right operand of a comparison is parsed at level 5, where '<<' and '>>'
were not recognised, so 3 < 1 << 3 was compiled as (3 < 1) << 3.
---
 expressions.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..9c44601 100644
--- a/expressions.go
+++ b/expressions.go
@@ -352,14 +352,22 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			continue
 		}
 
-		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		// Comparison operators (level 6) and shifts (level 5)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
 			}
 
 			ch2, err2 := l.ReadChar()
+			if level < 6 && (err2 != nil || ch2 != ch) {
+				// Not a shift: leave the comparison to the caller
+				if err2 == nil {
+					l.UnreadChar(ch2)
+				}
+				l.UnreadChar(ch)
+				break
+			}
 			var right value.Value
 
 			if ch == '<' {
-- 
2.43.0


From 338463c76ec3a4a7f3b9b9181ac2e92e3519c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 03/23] fix: nothing after a return statement is executed

Statements following 'return' in the same block were emitted before its
terminator (and a later return or loop replaced it), so they still ran.
---
 parser_stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index be4e614..22c6a82 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,10 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after the return is unreachable, unless it has a label
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
 	return nil
 }
 
-- 
2.43.0


From 5896b17f36841ba70d2d369ba0ece0d63b259fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 04/23] fix: printf %d and %o of the most negative word

Negating it overflowed and %d printed '--9223372036854775808'. printd
already handles the sign.
---
 runtime/printf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..d629ded 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,17 +22,13 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
         b_printd(x);
         goto loop;
 
     case 'o': // octal
         x = va_arg(ap, word_t);
         if (x < 0) {
-            x = -x;
+            x = 0 - (uintptr_t)x; // avoid overflow on MIN
             b_write('-');
         }
         b_printo(x);
-- 
2.43.0


From 709a28d803c8e591c0f4b5618f1f9ffeeed79c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 05/23] fix: char() returns the byte without sign extension

A byte above 127 came back as a negative word, which write() and the
printf() formats then printed as eight bytes.
---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..5b34695 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((unsigned char *)string)[i];
 }
-- 
2.43.0


From a6fbafd36af6f49eda8585b3d577b8f74678439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 06/23] fix: keep the bytes of strings and identifiers as they
 are

The lexer reads bytes, but collected them as runes and then encoded them as
UTF-8, so every byte above 127 in a string became two, and an identifier
with such a byte was garbled when pushed back.
---
 lexer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 47b4940..74b1d51 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,7 +131,7 @@ func (l *Lexer) Identifier() (string, error) {
 		return "", err
 	}
 
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -147,7 +147,7 @@ func (l *Lexer) Identifier() (string, error) {
 			return string(result), nil
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
@@ -245,7 +245,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -267,7 +267,7 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From 82c7e23fc3503f7d6150c74160311df2eb18f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 07/23] fix: do not drop a NUL byte after '+' or '-'

It was taken for the end of the input, so 1+<NUL>2 was accepted.
---
 expressions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 9c44601..7afc3ac 100644
--- a/expressions.go
+++ b/expressions.go
@@ -448,14 +448,14 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 		// Addition/Subtraction (level 4)
 		if level >= 4 && (ch == '+' || ch == '-') && !handled {
 			// Check for ++ or --
-			ch2, _ := l.ReadChar()
-			if ch2 == ch {
+			ch2, err2 := l.ReadChar()
+			if err2 == nil && ch2 == ch {
 				// Postfix increment/decrement
 				l.UnreadChar(ch2)
 				l.UnreadChar(ch)
 				break
 			}
-			if ch2 != 0 {
+			if err2 == nil {
 				l.UnreadChar(ch2)
 			}
 
-- 
2.43.0


From 4cd3ee7cfdf5db32ebe5784d7eb4e2a4d7aa6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 08/23] fix: do not join a name at the start of a statement to
 the next token

White space after the name was skipped and not put back, so 'foo bar;' was
compiled as 'foobar;'.
---
 parser_stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 22c6a82..2869972 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -123,6 +123,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 
 		// Otherwise it's an expression
 		l.UnreadChar(ch)
+		if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
+			// Keep the name apart from what followed it
+			l.UnreadChar(' ')
+		}
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From 422b1a4d68f30f14d2f8b8cde4026dc63c8085f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 09/23] fix: allow white space around parentheses and before
 '['

'main ()', 'main( )', 'f( )' and 'v [3];' were rejected.
---
 expressions.go  | 3 +++
 parser_decls.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/expressions.go b/expressions.go
index 7afc3ac..78a758b 100644
--- a/expressions.go
+++ b/expressions.go
@@ -697,6 +697,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..89d5704 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,9 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -245,6 +248,9 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From 60939c4864d44adff8d3e1961866bb5a8f44f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 10/23] fix: keep names of labels and parameters apart from
 internal blocks

A label or parameter named 'entry' clashed with the first block of the
function, and a label with the name of the first parameter.
---
 irbuilder.go   | 2 +-
 parser_stmt.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..51249e8 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -315,7 +315,7 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
-	c.builder = fn.NewBlock("entry")
+	c.builder = fn.NewBlock("func.entry")
 
 	// Get the function name to look up original parameters
 	var funcName string
diff --git a/parser_stmt.go b/parser_stmt.go
index 2869972..50f6e3a 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,7 +107,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
-			block := c.GetOrCreateLabel(name)
+			block := c.GetOrCreateLabel("label." + name)
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -495,7 +495,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
-	targetBlock := c.GetOrCreateLabel(label)
+	targetBlock := c.GetOrCreateLabel("label." + label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
-- 
2.43.0


From 5d7dfb86a30507a8ac122f769335350a0ba40469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 11/23] fix: report undefined and duplicate labels

A goto to a label without a definition made the compiler panic, and a label
defined twice (or a repeated case) was silently miscompiled.
---
 irbuilder.go    | 14 ++++++++++++++
 parser_decls.go |  7 +++++++
 parser_stmt.go  | 11 +++++++++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 51249e8..ed69a36 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,8 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	defined   map[string]bool        // labels whose definition has been seen
+	gotos     []string               // targets of goto statements
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,6 +317,8 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
+	c.defined = make(map[string]bool)
+	c.gotos = nil
 	c.builder = fn.NewBlock("func.entry")
 
 	// Get the function name to look up original parameters
@@ -524,6 +528,16 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	return block
 }
 
+// DefineLabel returns the block of a label that is defined at this point,
+// or nil when the label has been defined already
+func (c *Compiler) DefineLabel(name string) *ir.Block {
+	if c.defined[name] {
+		return nil
+	}
+	c.defined[name] = true
+	return c.GetOrCreateLabel(name)
+}
+
 // Get or create an intrinsic function by name
 func (c *Compiler) getOrCreateFunc(funcName string) *ir.Func {
 	// Check if function already exists in module
diff --git a/parser_decls.go b/parser_decls.go
index 89d5704..11f8dba 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -272,6 +272,13 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		return err
 	}
 
+	// Every goto must have found its label in this function
+	for _, label := range c.gotos {
+		if !c.defined["label."+label] {
+			return fmt.Errorf("undefined label '%s'", label)
+		}
+	}
+
 	c.EndFunction()
 	return nil
 }
diff --git a/parser_stmt.go b/parser_stmt.go
index 50f6e3a..ef1319c 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,7 +107,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
-			block := c.GetOrCreateLabel("label." + name)
+			block := c.DefineLabel("label." + name)
+			if block == nil {
+				return fmt.Errorf("label '%s' already defined", name)
+			}
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -496,6 +499,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 
 	// Get or create the target label block
 	targetBlock := c.GetOrCreateLabel("label." + label)
+	c.gotos = append(c.gotos, label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
@@ -612,7 +616,10 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	*cases = append(*cases, value)
 
 	// Create label for this case
-	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))
+	caseBlock := c.DefineLabel(fmt.Sprintf("case.%d.%d", switchID, value))
+	if caseBlock == nil {
+		return fmt.Errorf("duplicate 'case %d' in 'switch' statement", value)
+	}
 
 	// Jump to case block if current block has no terminator
 	if c.builder.Term == nil {
-- 
2.43.0


From 00eb6b5a022cbcb58a79f9c0065a5d986c3df1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 12/23] fix: call through a local variable or parameter

f(x) called the external function f even where f is a parameter or an auto
variable that holds the address of the function.
---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index 78a758b..a0e66ee 100644
--- a/expressions.go
+++ b/expressions.go
@@ -901,6 +901,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A local variable or parameter holds the function's address
+			if addr, ok := c.locals[name]; ok {
+				return addr, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From 37364c2c3e6941168a03b0873581cda64e616bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 13/23] fix: allocate auto variables once per call

An auto statement inside a loop allocated its variables again on every
iteration, until the stack overflowed.
---
 irbuilder.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index ed69a36..22d4535 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -402,9 +402,16 @@ func (c *Compiler) EndFunction() {
 	c.labels = make(map[string]*ir.Block)
 }
 
+// newLocal reserves storage for a local variable. This is done in the first
+// block of the function, so that a declaration inside a loop does not take
+// more stack each time it is reached.
+func (c *Compiler) newLocal(t types.Type) *ir.InstAlloca {
+	return c.currentFn.Blocks[0].NewAlloca(t)
+}
+
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	alloca := c.newLocal(c.WordType())
 	// Initialize local variables to 0 (B language semantics)
 	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
 	c.locals[name] = alloca
@@ -424,7 +431,7 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	alloca := c.newLocal(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-- 
2.43.0


From c19c1a7521c1c985188dbe185a82085ea4f67e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 14/23] fix: a vector holds all of its initial values

Values beyond the declared size were dropped; the size is the larger of
the constant and the number of initial values.
---
 parser_decls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_decls.go b/parser_decls.go
index 11f8dba..8b9a460 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -189,7 +189,7 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
-	if nwords == 0 {
+	if nwords < int64(len(initVals)) {
 		nwords = int64(len(initVals))
 	}
 
-- 
2.43.0


From dd580e53e63964f15619609f51aa2b68aa2c0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:06 +0000
Subject: [PATCH 15/23] fix: let extrn refer to a variable defined in another
 file

extrn made a second definition of the variable, so linking it with the file
or library that defines it (such as fout of the B library) failed.
---
 parser_stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index ef1319c..cfdfff8 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -322,7 +322,9 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 		if existing := c.findGlobalByName(name); existing != nil {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
+			// Common linkage: give way to a definition in another file or library
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From 979daf91c6cc1019fd387b19c6c66c3b4e4a921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 16/23] fix: calls whose number of arguments differs from the
 definition

Passing arguments to a function defined without parameters, or none to one
with parameters, was rejected by clang; through a function pointer the call
without arguments used the wrong calling convention and could crash.
---
 expressions.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index a0e66ee..65e222c 100644
--- a/expressions.go
+++ b/expressions.go
@@ -737,7 +737,8 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 				// If the callee is declared fully variadic with zero fixed params,
 				// specify one fixed argument type at the call site to ensure proper
 				// calling convention on platforms like arm64.
-				if fnDirect.Sig != nil && fnDirect.Sig.Variadic && len(fnDirect.Params) == 0 && len(args) >= 1 {
+				// The same goes for a function defined without parameters.
+				if len(fnDirect.Params) == 0 && len(args) >= 1 {
 					// Build a variadic function type with the first argument as a fixed param
 					firstArgType := args[0].Type()
 					fnType := types.NewFunc(c.WordType(), firstArgType)
@@ -746,6 +747,12 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					// Bitcast the direct function symbol to the new pointer-to-function type
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
+				} else if len(fnDirect.Params) != 0 && len(args) == 0 {
+					// Call of a function with parameters, but no arguments given
+					fnType := types.NewFunc(c.WordType())
+					fnType.Variadic = true
+					casted := c.builder.NewBitCast(fnDirect, types.NewPointer(fnType))
+					result = c.builder.NewCall(casted)
 				} else {
 					result = c.builder.NewCall(fnDirect, args...)
 				}
@@ -767,6 +774,7 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					fnType.Variadic = true
 				} else {
 					fnType = types.NewFunc(c.WordType())
+					fnType.Variadic = true
 				}
 				fnPtrType := types.NewPointer(fnType)
 				fnPtr := c.builder.NewIntToPtr(fnAddr, fnPtrType)
-- 
2.43.0


From a62ace7dd2fa12820c6a846ab8986930a5a455dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 17/23] fix: reject a missing constant

'x -;', 'x 1,;' and 'v[2] ,5;' were accepted, with zero for the constant
that is not there.
---
 lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer.go b/lexer.go
index 74b1d51..12f3e25 100644
--- a/lexer.go
+++ b/lexer.go
@@ -162,6 +162,11 @@ func (l *Lexer) Number() (int64, error) {
 		return 0, err
 	}
 
+	if !unicode.IsDigit(c) {
+		l.UnreadChar(c)
+		return 0, fmt.Errorf("expect a number")
+	}
+
 	base := 10
 	if c == '0' {
 		base = 8
-- 
2.43.0


From ed32f47d50ccaddeecfba61f622e068a7e4c3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 18/23] fix: keep a byte that is read together with an error,
 and retry empty reads

---
 lexer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index 12f3e25..437ae46 100644
--- a/lexer.go
+++ b/lexer.go
@@ -29,13 +29,10 @@ type runeReaderAdapter struct {
 
 func (r *runeReaderAdapter) ReadRune() (rune, int, error) {
 	buf := make([]byte, 1)
-	n, err := r.reader.Read(buf)
-	if err != nil {
+	// A reader may return the last byte together with an error, or nothing yet
+	if _, err := io.ReadFull(r.reader, buf); err != nil {
 		return 0, 0, err
 	}
-	if n == 0 {
-		return 0, 0, io.EOF
-	}
 	return rune(buf[0]), 1, nil
 }
 
-- 
2.43.0


From 0f5a1afbcc44eee49072eee420f5a812ce3fa39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 19/23] fix: allow case labels inside if and while statements
 of a switch

---
 parser_stmt.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index cfdfff8..3b70333 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -9,13 +9,9 @@ import (
 	"github.com/llir/llvm/ir/enum"
 )
 
-// parseStatement parses a statement
+// parseStatementWithSwitch parses a statement
 // switchID: ID of enclosing switch statement (-1 if none)
 // cases: slice to accumulate case values for switch
-func parseStatement(l *Lexer, c *Compiler) error {
-	return parseStatementWithSwitch(l, c, -1, nil)
-}
-
 func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	if err := l.Whitespace(); err != nil {
 		return err
@@ -90,9 +86,9 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 	case "extrn":
 		return parseExtrn(l, c)
 	case "if":
-		return parseIf(l, c)
+		return parseIf(l, c, switchID, cases)
 	case "while":
-		return parseWhile(l, c)
+		return parseWhile(l, c, switchID, cases)
 	case "switch":
 		return parseSwitch(l, c)
 	case "case":
@@ -351,7 +347,7 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 }
 
 // parseIf parses if statements
-func parseIf(l *Lexer, c *Compiler) error {
+func parseIf(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	if err := l.ExpectChar('(', "expect '(' after 'if'"); err != nil {
 		return err
 	}
@@ -382,7 +378,7 @@ func parseIf(l *Lexer, c *Compiler) error {
 
 	// Generate then block
 	c.SetInsertPoint(thenBlock)
-	if err := parseStatement(l, c); err != nil {
+	if err := parseStatementWithSwitch(l, c, switchID, cases); err != nil {
 		return err
 	}
 	if c.builder.Term == nil {
@@ -426,7 +422,7 @@ func parseIf(l *Lexer, c *Compiler) error {
 	}
 
 	if isElse {
-		if err := parseStatement(l, c); err != nil {
+		if err := parseStatementWithSwitch(l, c, switchID, cases); err != nil {
 			return err
 		}
 	} else {
@@ -445,7 +441,7 @@ func parseIf(l *Lexer, c *Compiler) error {
 }
 
 // parseWhile parses while loops
-func parseWhile(l *Lexer, c *Compiler) error {
+func parseWhile(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	if err := l.ExpectChar('(', "expect '(' after 'while'"); err != nil {
 		return err
 	}
@@ -481,7 +477,7 @@ func parseWhile(l *Lexer, c *Compiler) error {
 
 	// Generate body
 	c.SetInsertPoint(bodyBlock)
-	if err := parseStatement(l, c); err != nil {
+	if err := parseStatementWithSwitch(l, c, switchID, cases); err != nil {
 		return err
 	}
 	if c.builder.Term == nil {
-- 
2.43.0


From 65289333ed2ab6096014033c6f1c8405c2d13001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 20/23] fix: call through a variable with several initial
 values by its first word

---
 expressions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expressions.go b/expressions.go
index 65e222c..7ccae25 100644
--- a/expressions.go
+++ b/expressions.go
@@ -920,8 +920,8 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 			}
 
 			// Check extrn variable in CURRENT context only
-			if gVal, ok := c.globals[name]; ok {
-				return gVal, true, nil
+			if addr, ok := c.GetAddress(name); ok {
+				return addr, true, nil
 			}
 
 			// Not found anywhere - auto-declare as external function in current context
-- 
2.43.0


From 46c01ab9319325c3a21abda649ceaffd35279d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 21/23] fix: reject a comma at the end of an argument list

---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 7ccae25..66be2ca 100644
--- a/expressions.go
+++ b/expressions.go
@@ -704,7 +704,7 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 				if err != nil {
 					return nil, false, err
 				}
-				if ch == ')' {
+				if ch == ')' && len(args) == 0 {
 					break
 				}
 				l.UnreadChar(ch)
-- 
2.43.0


From 9fc2ec6f08563696fc7d8c0b921a4ccbdaa9fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 22/23] fix: accept a conditional or an assignment between '?'
 and ':'

---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 66be2ca..be95f80 100644
--- a/expressions.go
+++ b/expressions.go
@@ -66,7 +66,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 			// Then branch
 			c.SetInsertPoint(thenBlock)
-			thenVal, err := parseExpressionWithLevel(l, c, 12)
+			thenVal, err := parseExpressionWithLevel(l, c, 15)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 3c8fad988d86fa0980ce90ed94b16c9e46017503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 23/23] fix: a parameter name that begins with a digit made
 invalid LLVM IR

---
 irbuilder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irbuilder.go b/irbuilder.go
index 22d4535..b20976c 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -236,7 +236,8 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		// The prefix keeps a name that begins with a digit valid in LLVM IR
+		firstParam := ir.NewParam("p."+paramNames[0], c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
-- 
2.43.0

