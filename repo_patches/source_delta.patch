From 6f93fe8b3a7e0b857e17a2fde6751ade7b73aa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 01/42] fix: keep the character that follows 'else'

The one-character lookahead after the keyword was dropped, so 'else{', 'else;'
or 'else*p=...' lost the first character of the else branch. An underscore
also continues an identifier, so 'else_x' is not the keyword.
---
 parser_stmt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser_stmt.go b/parser_stmt.go
index 77d5221..cdc2c10 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -403,9 +403,12 @@ func parseIf(l *Lexer, c *Compiler) error {
 		// Check that next char is not alphanumeric
 		ch, err := l.ReadChar()
 		if err == nil {
-			readChars = append(readChars, ch)
-			if unicode.IsLetter(ch) || unicode.IsDigit(ch) {
+			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
 				isElse = false
+				readChars = append(readChars, ch)
+			} else {
+				// First character of the else branch: leave it to the statement
+				l.UnreadChar(ch)
 			}
 		}
 	}
-- 
2.43.0


From 52de42be4d1a643581d73f463faf061e2b0bd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 02/42] fix: bind shift operators tighter than comparisons on
 the right-hand side

'a < b << c' was parsed as '(a < b) << c', because shifts were only
recognised at the precedence level of the comparison operators.
---
 expressions.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 7767134..fae1839 100644
--- a/expressions.go
+++ b/expressions.go
@@ -352,14 +352,23 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 			continue
 		}
 
-		// Comparison operators (level 6)
-		if level >= 6 && (ch == '<' || ch == '>') && !handled {
+		// Shift operators (level 5) and comparison operators (level 6)
+		if level >= 5 && (ch == '<' || ch == '>') && !handled {
+			ch2, err2 := l.ReadChar()
+			if level < 6 && (err2 != nil || ch2 != ch) {
+				// Not a shift: leave the comparison to an outer level
+				if err2 == nil {
+					l.UnreadChar(ch2)
+				}
+				l.UnreadChar(ch)
+				break
+			}
+
 			if isLvalue {
 				left = c.builder.NewLoad(c.WordType(), left)
 				isLvalue = false
 			}
 
-			ch2, err2 := l.ReadChar()
 			var right value.Value
 
 			if ch == '<' {
-- 
2.43.0


From 0b06b9b5c6f0673f9fbeca3812b226034ad74cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 03/42] fix: do not let code after 'return' run or replace the
 return

Statements following a return in the same block were emitted before its
terminator, and a second return or branch overwrote it.
---
 parser_stmt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index cdc2c10..540a832 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -173,6 +173,12 @@ func parseReturn(l *Lexer, c *Compiler) error {
 		c.builder.NewRet(constant.NewInt(c.WordType(), 0))
 	}
 
+	// Code after the return, up to the next label, is unreachable: give it
+	// a block of its own, so it cannot disturb the one just terminated
+	deadBlock := c.NewBlock(fmt.Sprintf("unreachable.%d", c.labelID))
+	c.labelID++
+	c.SetInsertPoint(deadBlock)
+
 	return nil
 }
 
-- 
2.43.0


From f3278e0dae119a84aaa1fa0e0c44cdb34108ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 04/42] fix: diagnose undefined and duplicate labels

A goto to a label that is never defined crashed the compiler with a Go panic,
and a second definition of a label silently reopened the first one's block.
---
 irbuilder.go    | 5 +++++
 parser_decls.go | 6 ++++++
 parser_stmt.go  | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 07842fc..9304c44 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -23,6 +23,9 @@ type Compiler struct {
 	stringID  int                    // unique id for string constants
 	labelID   int                    // counter for labels
 	labels    map[string]*ir.Block   // named labels for goto
+	// Labels defined in the current function, and targets of its goto statements
+	definedLabels map[string]bool
+	gotoLabels    []string
 	// Store original parameter names for variadic functions
 	functionParams map[string][]string // function name -> original parameter names
 	// Cache for function types to avoid duplicate declarations
@@ -315,6 +318,8 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.currentFn = fn
 	c.locals = make(map[string]value.Value)
 	c.labels = make(map[string]*ir.Block)
+	c.definedLabels = make(map[string]bool)
+	c.gotoLabels = nil
 	c.builder = fn.NewBlock("entry")
 
 	// Get the function name to look up original parameters
diff --git a/parser_decls.go b/parser_decls.go
index 4d9a9b3..a1b6e21 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -266,6 +266,12 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		return err
 	}
 
+	for _, label := range c.gotoLabels {
+		if !c.definedLabels[label] {
+			return fmt.Errorf("label '%s' used but not defined", label)
+		}
+	}
+
 	c.EndFunction()
 	return nil
 }
diff --git a/parser_stmt.go b/parser_stmt.go
index 540a832..8e77335 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -107,6 +107,10 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		}
 		if ch == ':' {
 			// Label - get or create labeled block
+			if c.definedLabels[name] {
+				return fmt.Errorf("label '%s' already defined in this function", name)
+			}
+			c.definedLabels[name] = true
 			block := c.GetOrCreateLabel(name)
 
 			// Only create a branch if the current block has no terminator
@@ -495,6 +499,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 
 	// Get or create the target label block
 	targetBlock := c.GetOrCreateLabel(label)
+	c.gotoLabels = append(c.gotoLabels, label)
 
 	// Branch to the label
 	c.builder.NewBr(targetBlock)
-- 
2.43.0


From d23806b674475b6a1e5dbcaf58d41b22390027bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 05/42] fix: keep labels out of the way of parameter names and
 the entry block

LLVM has one namespace for the blocks and parameters of a function, so a label
or parameter named 'entry', or a label named like the first parameter, gave
invalid IR. Block names now have a dot, which no B name can contain.
---
 irbuilder.go   | 2 +-
 parser_stmt.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 9304c44..380cd13 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -320,7 +320,7 @@ func (c *Compiler) StartFunction(fn *ir.Func) {
 	c.labels = make(map[string]*ir.Block)
 	c.definedLabels = make(map[string]bool)
 	c.gotoLabels = nil
-	c.builder = fn.NewBlock("entry")
+	c.builder = fn.NewBlock("fn.entry")
 
 	// Get the function name to look up original parameters
 	var funcName string
diff --git a/parser_stmt.go b/parser_stmt.go
index 8e77335..2f0fd3e 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -111,7 +111,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 				return fmt.Errorf("label '%s' already defined in this function", name)
 			}
 			c.definedLabels[name] = true
-			block := c.GetOrCreateLabel(name)
+			block := c.GetOrCreateLabel("label." + name)
 
 			// Only create a branch if the current block has no terminator
 			// This handles fall-through to labels
@@ -498,7 +498,7 @@ func parseGoto(l *Lexer, c *Compiler) error {
 	}
 
 	// Get or create the target label block
-	targetBlock := c.GetOrCreateLabel(label)
+	targetBlock := c.GetOrCreateLabel("label." + label)
 	c.gotoLabels = append(c.gotoLabels, label)
 
 	// Branch to the label
-- 
2.43.0


From dcd3f212fb3a98723a981b1460edab74a822fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 06/42] fix: allocate nested autos once per activation

An 'auto' inside a loop took new stack on every iteration until the program
crashed, and one in a nested block used later in the function gave invalid IR
(the allocation does not dominate the use).
---
 irbuilder.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 380cd13..658f75b 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -405,7 +405,9 @@ func (c *Compiler) EndFunction() {
 
 // DeclareLocal allocates a local variable and initializes it to 0
 func (c *Compiler) DeclareLocal(name string) value.Value {
-	alloca := c.builder.NewAlloca(c.WordType())
+	// Allocate in the entry block, so that the variable exists once per
+	// activation, wherever the declaration is nested
+	alloca := c.currentFn.Blocks[0].NewAlloca(c.WordType())
 	// Initialize local variables to 0 (B language semantics)
 	c.builder.NewStore(constant.NewInt(c.WordType(), 0), alloca)
 	c.locals[name] = alloca
@@ -425,7 +427,8 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	}
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
-	alloca := c.builder.NewAlloca(arrayType)
+	// Allocate in the entry block, like DeclareLocal
+	alloca := c.currentFn.Blocks[0].NewAlloca(arrayType)
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
-- 
2.43.0


From cafa9b4db4b314cb5c1093671047150b95993950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 07/42] fix: diagnose duplicate case values

They gave invalid IR.
---
 parser_stmt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 2f0fd3e..5ad4fd3 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -613,6 +613,11 @@ func parseCase(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
 	}
 
 	// Add to case list
+	for _, other := range *cases {
+		if other == value {
+			return fmt.Errorf("duplicate case value %d in 'switch' statement", value)
+		}
+	}
 	*cases = append(*cases, value)
 
 	// Create label for this case
-- 
2.43.0


From ba555b98c37afec4d69ea4138aa36fa83a996b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/42] fix: diagnose names used both as a variable and as a
 function

Such a module had two definitions of one symbol, which is invalid IR.
---
 irbuilder.go    |  5 +++++
 parser_decls.go | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 658f75b..bb5f5a9 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -266,6 +266,11 @@ func (c *Compiler) GetOrDeclareFunction(name string) *ir.Func {
 		return nil
 	}
 
+	// A variable of the module cannot be a function as well
+	if c.findGlobalByName(name) != nil {
+		return nil
+	}
+
 	// Enforce no-context: remove any prior transient function of the same name from the module
 	c.removeFuncByName(name)
 
diff --git a/parser_decls.go b/parser_decls.go
index a1b6e21..46b53af 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -65,6 +65,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 
 // parseGlobal parses a global variable
 func parseGlobal(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -118,6 +122,10 @@ func parseGlobal(l *Lexer, c *Compiler, name string) error {
 
 // parseVector parses a global array
 func parseVector(l *Lexer, c *Compiler, name string) error {
+	if c.findFuncByName(name) != nil {
+		return fmt.Errorf("function '%s' redeclared as variable", name)
+	}
+
 	// Remove any existing global with the same name from the module
 	c.removeGlobalByName(name)
 
@@ -259,6 +267,9 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 		}
 	}
 
+	if c.findGlobalByName(name) != nil {
+		return fmt.Errorf("variable '%s' redeclared as function", name)
+	}
 	fn := c.DeclareFunction(name, paramNames)
 	c.StartFunction(fn)
 
-- 
2.43.0


From f8d8f685dff18fe3c5e2d0712a3e43cad95f0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 09/42] fix: remove the data of a redefined vector

Redefining a vector left its old data array in the module, next to a new one
of the same name.
---
 irbuilder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index bb5f5a9..4c58c2b 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -100,12 +100,23 @@ func (c *Compiler) removeGlobalByName(name string) bool {
 	for i, g := range c.module.Globals {
 		if g.Name() == full {
 			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
+			c.removeVectorData(full + ".data")
 			return true
 		}
 	}
 	return false
 }
 
+// removeVectorData removes the data array of a removed vector, if it had one
+func (c *Compiler) removeVectorData(full string) {
+	for i, g := range c.module.Globals {
+		if g.Name() == full {
+			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
+			return
+		}
+	}
+}
+
 // GetModule returns the LLVM module
 func (c *Compiler) GetModule() *ir.Module {
 	return c.module
-- 
2.43.0


From c58e8c3df8b55e1ec63fdc55365144999a305903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 10/42] fix: keep initial values beyond the declared size of a
 vector

The size of a vector is the larger of its declared size and the number of
initial values; the values in excess were dropped.
---
 irbuilder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 4c58c2b..384a821 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -181,6 +181,11 @@ func (c *Compiler) DeclareGlobalArray(name string, size int64, init []constant.C
 		size = 1
 	}
 
+	// A vector holds at least its initial values
+	if size < int64(len(init)) {
+		size = int64(len(init))
+	}
+
 	// For large arrays without initializers, use compact two-global representation
 	if len(init) == 0 && size > 1 {
 		// Create the data array with zeroinitializer (compact!)
-- 
2.43.0


From 579ea2aa70d2f16e8a1cdefee303e90b95de5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 11/42] fix: allow a call without arguments of a function with
 parameters

It gave invalid IR (not enough parameters specified for call).
---
 expressions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expressions.go b/expressions.go
index fae1839..a98c493 100644
--- a/expressions.go
+++ b/expressions.go
@@ -745,6 +745,10 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 					casted := c.builder.NewBitCast(fnDirect, fnPtrType)
 					result = c.builder.NewCall(casted, args...)
 				} else {
+					// Fixed parameters without an argument get a zero
+					for len(args) < len(fnDirect.Params) {
+						args = append(args, constant.NewInt(c.WordType(), 0))
+					}
 					result = c.builder.NewCall(fnDirect, args...)
 				}
 			} else {
-- 
2.43.0


From 2548e3ba21eb3e7e8f9c8a7c9106265aa2466193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 12/42] fix: call through local variables and parameters

A call of a name ignored the local variable of that name, and called an
external function instead of the one the variable points to.
---
 expressions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expressions.go b/expressions.go
index a98c493..4b56141 100644
--- a/expressions.go
+++ b/expressions.go
@@ -903,6 +903,11 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 		// If it's a call, handle both direct and indirect calls
 		if isCall {
+			// A local variable holds a function pointer
+			if local, ok := c.locals[name]; ok {
+				return local, true, nil
+			}
+
 			// Check for a declared function in module
 			if fn := c.findFuncByName(name); fn != nil {
 				return fn, false, nil
-- 
2.43.0


From 45c5c0e29edcced26a57c23ff35b76d60211ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 13/42] fix: allow white space and comments before a bracket or
 inside empty parentheses

'main () ...', 'v [10];', 'f( )' and 'f(/* none */)' were rejected.
---
 expressions.go  | 3 +++
 parser_decls.go | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/expressions.go b/expressions.go
index 4b56141..35dd384 100644
--- a/expressions.go
+++ b/expressions.go
@@ -698,6 +698,9 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 
 			var args []value.Value
 			for {
+				if err := l.Whitespace(); err != nil {
+					return nil, false, err
+				}
 				ch, err := l.ReadChar()
 				if err != nil {
 					return nil, false, err
diff --git a/parser_decls.go b/parser_decls.go
index 46b53af..471347d 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -20,6 +20,10 @@ func ParseDeclarations(l *Lexer, c *Compiler) error {
 			break
 		}
 
+		if err := l.Whitespace(); err != nil {
+			return err
+		}
+
 		ch, err := l.ReadChar()
 		if err != nil {
 			if err == io.EOF {
@@ -253,6 +257,10 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 // parseFunction parses a function definition
 func parseFunction(l *Lexer, c *Compiler, name string) error {
+	if err := l.Whitespace(); err != nil {
+		return err
+	}
+
 	ch, err := l.ReadChar()
 	if err != nil {
 		return err
-- 
2.43.0


From c914d3a98b529fcfc63eb80a527ff82bc829169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 14/42] fix: accept names that begin with an underscore in
 expressions and statements

They could be declared but not used.
---
 expressions.go  | 2 +-
 parser_decls.go | 2 +-
 parser_stmt.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expressions.go b/expressions.go
index 35dd384..3c81b43 100644
--- a/expressions.go
+++ b/expressions.go
@@ -886,7 +886,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		return constant.NewInt(c.WordType(), val), false, nil
 
-	case unicode.IsLetter(ch):
+	case unicode.IsLetter(ch) || ch == '_':
 		// Identifier
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
diff --git a/parser_decls.go b/parser_decls.go
index 471347d..68ad614 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -213,7 +213,7 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 		return nil, err
 	}
 
-	if unicode.IsLetter(ch) {
+	if unicode.IsLetter(ch) || ch == '_' {
 		l.UnreadChar(ch)
 		name, err := l.Identifier()
 		if err != nil || name == "" {
diff --git a/parser_stmt.go b/parser_stmt.go
index 5ad4fd3..c0ab25f 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -50,7 +50,7 @@ func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]in
 		// Null statement
 
 	default:
-		if unicode.IsLetter(ch) {
+		if unicode.IsLetter(ch) || ch == '_' {
 			l.UnreadChar(ch)
 			return parseKeywordOrExpressionWithSwitch(l, c, switchID, cases)
 		} else {
-- 
2.43.0


From 200135078115b505f4ebc6f690a697734730d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 15/42] fix: do not join two tokens at the start of an
 expression statement

White space after the first name was dropped before the statement was parsed
again as an expression, so 'x y=5;' assigned to 'xy'.
---
 parser_stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index c0ab25f..9e0f585 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -127,6 +127,7 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 
 		// Otherwise it's an expression
 		l.UnreadChar(ch)
+		l.UnreadChar(' ') // keep the name apart from what follows
 		for i := len(name) - 1; i >= 0; i-- {
 			l.UnreadChar(rune(name[i]))
 		}
-- 
2.43.0


From ba1bfbdb555500e592a3239d001a073b555f0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 16/42] fix: accept any expression in the middle of the
 conditional operator

A nested conditional or an assignment between '?' and ':' was rejected.
---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 3c81b43..b97ba85 100644
--- a/expressions.go
+++ b/expressions.go
@@ -66,7 +66,7 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 			// Then branch
 			c.SetInsertPoint(thenBlock)
-			thenVal, err := parseExpressionWithLevel(l, c, 12)
+			thenVal, err := parseExpressionWithLevel(l, c, 15)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 2c8c84f648058c9326f222cda45f61f6ae4e9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 17/42] fix: require digits in numbers, and names that do not
 begin with one

'x 1,,2;', 'x 1,;', 'x -;' and '5;' were accepted.
---
 lexer.go        | 6 +++++-
 parser_decls.go | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 47b4940..a36dc9f 100644
--- a/lexer.go
+++ b/lexer.go
@@ -142,7 +142,7 @@ func (l *Lexer) Identifier() (string, error) {
 			return "", err
 		}
 
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' {
+		if !unicode.IsLetter(c) && (!unicode.IsDigit(c) || len(result) == 0) && c != '_' {
 			l.UnreadChar(c)
 			return string(result), nil
 		}
@@ -162,6 +162,10 @@ func (l *Lexer) Number() (int64, error) {
 		return 0, err
 	}
 
+	if !unicode.IsDigit(c) {
+		return 0, fmt.Errorf("unexpected character '%c', expect number", c)
+	}
+
 	base := 10
 	if c == '0' {
 		base = 8
diff --git a/parser_decls.go b/parser_decls.go
index 68ad614..a560891 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -245,6 +245,8 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 			return nil, fmt.Errorf("unexpected end of file, expect ival")
 		}
 		return constant.NewInt(c.WordType(), -val), nil
+	} else if !unicode.IsDigit(ch) {
+		return nil, fmt.Errorf("unexpected character '%c', expect ival", ch)
 	} else {
 		l.UnreadChar(ch)
 		val, err := l.Number()
-- 
2.43.0


From 5f8223fd019895e63b35c021ebab11ed67334298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 18/42] fix: print the most negative number with printf

'%d' printed a second minus sign, and the negation overflowed.
---
 runtime/printf.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/runtime/printf.c b/runtime/printf.c
index 1114417..4aef1e7 100644
--- a/runtime/printf.c
+++ b/runtime/printf.c
@@ -22,17 +22,13 @@ loop:
     switch (c = b_char(fmt, i++)) {
     case 'd': // decimal
         x = va_arg(ap, word_t);
-        if (x < 0) {
-            x = -x;
-            b_write('-');
-        }
         b_printd(x);
         goto loop;
 
     case 'o': // octal
         x = va_arg(ap, word_t);
         if (x < 0) {
-            x = -x;
+            x = (word_t)(1 + ~(uintptr_t)x); // avoid overflow on MIN
             b_write('-');
         }
         b_printo(x);
-- 
2.43.0


From e5bfd53951650265f7754d17919ac2607c2691a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 19/42] fix: call main with the stack aligned as the ABI
 requires

The kernel starts the program with an aligned stack pointer and no return
address, so an ordinary function prologue leaves main misaligned on x86_64.
---
 runtime/start.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/start.c b/runtime/start.c
index 6a33fc1..023eeee 100644
--- a/runtime/start.c
+++ b/runtime/start.c
@@ -6,6 +6,9 @@
 //
 void b_start(void) __asm__("_start"); // assure, that _start is really named _start in asm
 
+#ifdef __x86_64__
+__attribute__((force_align_arg_pointer))
+#endif
 void b_start()
 {
     word_t main(void);
-- 
2.43.0


From a553789d1317d69cd069f211ac404aa99ede1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 20/42] fix: let 'extrn' refer to a variable of another file

It defined the variable, so that files sharing one could not be linked
(multiple definition), nor could users of the runtime's fout. The placeholder
now has common linkage, which gives way to a definition elsewhere.
---
 parser_stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_stmt.go b/parser_stmt.go
index 9e0f585..6fa9518 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -323,6 +323,7 @@ func parseExtrn(l *Lexer, c *Compiler) error {
 			g = existing
 		} else if c.findFuncByName(name) == nil && !c.usedAsFunction[name] {
 			g = c.module.NewGlobalDef(c.globalName(name), constant.NewInt(c.WordType(), 0))
+			g.Linkage = enum.LinkageCommon
 		} else {
 			return fmt.Errorf("function redeclared as variable")
 		}
-- 
2.43.0


From 01de643cdec8b5fa632b241dfa2c44369e72043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 21/42] fix: keep the optimizer from calling a C library that
 is not linked

At -O2 a loop that clears a vector became a call of memset, which the runtime
does not have, and the program could not be linked. Like C code compiled with
-ffreestanding, functions are now marked no-builtins.
---
 irbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irbuilder.go b/irbuilder.go
index 384a821..25fc0ca 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -258,6 +258,9 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn.Sig.Variadic = true
 	}
 
+	// Programs are linked without a C library
+	fn.FuncAttrs = append(fn.FuncAttrs, ir.AttrString("no-builtins"))
+
 	c.functions[name] = fn
 	return fn
 }
-- 
2.43.0


From 52350664ec68d503b892671a2834f5b6cb088c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 22/42] fix: link the runtime after the user's libraries

A static library listed after the runtime could not use runtime functions
that the program itself does not use.
---
 driver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/driver.go b/driver.go
index 4bbe2d0..56dac06 100644
--- a/driver.go
+++ b/driver.go
@@ -353,11 +353,11 @@ func compileToExecutable(args *CompileOptions) error {
 	for _, libDir := range args.LibraryDirs {
 		cmdArgs = append(cmdArgs, "-L"+libDir)
 	}
-	// Always link the B runtime library
-	cmdArgs = append(cmdArgs, "-lb")
 	for _, lib := range args.Libraries {
 		cmdArgs = append(cmdArgs, "-l"+lib)
 	}
+	// Always link the B runtime library, which the user's libraries may need
+	cmdArgs = append(cmdArgs, "-lb")
 	cmdArgs = append(cmdArgs, "-o", args.OutputFile)
 
 	cmd := exec.Command("clang", cmdArgs...)
-- 
2.43.0


From fc9b6d31bd49139d79cae6fd7a9a088dc4b7b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 23/42] fix: keep the zeros of a partly initialized vector
 compact

A vector of many words with one initial value used up all memory.
---
 irbuilder.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 25fc0ca..934ddcd 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -204,6 +204,25 @@ func (c *Compiler) DeclareGlobalArray(name string, size int64, init []constant.C
 		return global
 	}
 
+	// Initial values followed by zeros: keep the zeros compact as well
+	if len(init) > 0 && int64(len(init)) < size {
+		headType := types.NewArray(uint64(len(init)), elemType)
+		tailType := types.NewArray(uint64(size-int64(len(init))), elemType)
+		structType := types.NewStruct(elemType, headType, tailType)
+
+		global := c.module.NewGlobal(c.globalName(name), structType)
+		dataPtr := constant.NewGetElementPtr(structType, global,
+			constant.NewInt(types.I64, 0),
+			constant.NewInt(types.I32, 1),
+			constant.NewInt(types.I64, 0))
+		global.Init = constant.NewStruct(structType,
+			constant.NewPtrToInt(dataPtr, elemType),
+			constant.NewArray(headType, init...),
+			constant.NewZeroInitializer(tailType))
+		c.globals[name] = global
+		return global
+	}
+
 	// Standard approach for small arrays or arrays with initializers
 	arraySize := size + 1 // +1 for the pointer storage
 	arrayType := types.NewArray(uint64(arraySize), elemType)
@@ -483,9 +502,9 @@ func (c *Compiler) GetAddress(name string) (value.Value, bool) {
 	// Check globals visible in CURRENT context only (e.g., via 'extrn')
 	if v, ok := c.globals[name]; ok {
 		if irGlobal, ok2 := v.(*ir.Global); ok2 {
-			// If the global is an array type (scalar with multiple values)
-			if arrayType, ok3 := irGlobal.ContentType.(*types.ArrayType); ok3 {
-				firstElem := c.builder.NewGetElementPtr(arrayType, irGlobal,
+			// If the global is an array or structure type (vector, or scalar with multiple values)
+			if contentType := irGlobal.ContentType; !contentType.Equal(c.WordType()) {
+				firstElem := c.builder.NewGetElementPtr(contentType, irGlobal,
 					constant.NewInt(types.I32, 0),
 					constant.NewInt(types.I32, 0))
 				return firstElem, true
-- 
2.43.0


From f608d873555842ec93dbcc5101fe361b24988dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 24/42] fix: diagnose too deeply nested expressions and
 statements

A million nested parentheses made the compiler die of stack exhaustion.
---
 expressions.go | 10 ++++++++++
 lexer.go       | 19 +++++++++++++++++++
 parser_stmt.go |  5 +++++
 3 files changed, 34 insertions(+)

diff --git a/expressions.go b/expressions.go
index b97ba85..003cb15 100644
--- a/expressions.go
+++ b/expressions.go
@@ -20,6 +20,11 @@ func parseExpression(l *Lexer, c *Compiler) (value.Value, error) {
 
 // parseExpressionWithLevel parses expressions with precedence level
 func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, error) {
+	if err := l.Enter(); err != nil {
+		return nil, err
+	}
+	defer l.Leave()
+
 	// Parse left side (term with unary operators)
 	left, isLvalue, err := parseUnary(l, c)
 	if err != nil {
@@ -519,6 +524,11 @@ func parseExpressionWithLevel(l *Lexer, c *Compiler, level int) (value.Value, er
 
 // parseUnary parses unary operators and primary expressions
 func parseUnary(l *Lexer, c *Compiler) (value.Value, bool, error) {
+	if err := l.Enter(); err != nil {
+		return nil, false, err
+	}
+	defer l.Leave()
+
 	if err := l.Whitespace(); err != nil {
 		return nil, false, err
 	}
diff --git a/lexer.go b/lexer.go
index a36dc9f..22e4524 100644
--- a/lexer.go
+++ b/lexer.go
@@ -11,6 +11,25 @@ type Lexer struct {
 	args   *CompileOptions
 	reader io.RuneReader
 	buffer []rune // pushback buffer for unread characters
+	depth  int    // current nesting of expressions and statements
+}
+
+// maxDepth limits the nesting of expressions and statements, which the
+// recursive descent parser pays for with stack.
+const maxDepth = 100000
+
+// Enter begins a nested expression or statement
+func (l *Lexer) Enter() error {
+	l.depth++
+	if l.depth > maxDepth {
+		return fmt.Errorf("expressions or statements are nested too deep")
+	}
+	return nil
+}
+
+// Leave ends a nested expression or statement
+func (l *Lexer) Leave() {
+	l.depth--
 }
 
 // NewLexer creates a new lexer
diff --git a/parser_stmt.go b/parser_stmt.go
index 6fa9518..8115638 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -17,6 +17,11 @@ func parseStatement(l *Lexer, c *Compiler) error {
 }
 
 func parseStatementWithSwitch(l *Lexer, c *Compiler, switchID int64, cases *[]int64) error {
+	if err := l.Enter(); err != nil {
+		return err
+	}
+	defer l.Leave()
+
 	if err := l.Whitespace(); err != nil {
 		return err
 	}
-- 
2.43.0


From 115178c093240d882f6810edfda08b156588b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 25/42] fix: compute the place of an automatic vector in the
 entry block

A vector declared in a block that does not always run gave an invalid module.
---
 irbuilder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 934ddcd..41fad67 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -471,7 +471,11 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 	arraySize := size + 1 // +1 for pointer storage in first element
 	arrayType := types.NewArray(uint64(arraySize), c.WordType())
 	// Allocate in the entry block, like DeclareLocal
-	alloca := c.currentFn.Blocks[0].NewAlloca(arrayType)
+	entry := c.currentFn.Blocks[0]
+	alloca := entry.NewAlloca(arrayType)
+	firstSlotPtr := entry.NewGetElementPtr(arrayType, alloca,
+		constant.NewInt(types.I32, 0),
+		constant.NewInt(types.I32, 0))
 
 	// Get pointer to first data element (skip the pointer storage slot)
 	// This is element [0][1] in the array
@@ -481,9 +485,6 @@ func (c *Compiler) DeclareLocalArray(name string, size int64) value.Value {
 
 	// Convert to i64 and store in the first slot [0][0]
 	ptrAsInt := c.builder.NewPtrToInt(firstElemPtr, c.WordType())
-	firstSlotPtr := c.builder.NewGetElementPtr(arrayType, alloca,
-		constant.NewInt(types.I32, 0),
-		constant.NewInt(types.I32, 0))
 	c.builder.NewStore(ptrAsInt, firstSlotPtr)
 
 	// Store the array base address (to first slot which now contains the data pointer)
-- 
2.43.0


From d79d33729e74d82b0906f9ace70876f97b1d9ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 26/42] fix: keep the bytes of string constants

Bytes above 127, as in UTF-8 text, were encoded once more.
---
 lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 22e4524..6ca935f 100644
--- a/lexer.go
+++ b/lexer.go
@@ -268,7 +268,7 @@ func (l *Lexer) Character() (int64, error) {
 
 // String parses a string literal
 func (l *Lexer) String() (string, error) {
-	var result []rune
+	var result []byte
 
 	for {
 		c, err := l.ReadChar()
@@ -290,7 +290,8 @@ func (l *Lexer) String() (string, error) {
 			}
 		}
 
-		result = append(result, c)
+		// Characters are read byte by byte
+		result = append(result, byte(c))
 	}
 }
 
-- 
2.43.0


From 7abe0448b5d63798d36ad844c78a039874736547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 27/42] fix: return bytes above 127 unchanged from char()

printf wrote eight bytes for each of them.
---
 runtime/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/char.c b/runtime/char.c
index c5ae23a..7310222 100644
--- a/runtime/char.c
+++ b/runtime/char.c
@@ -10,5 +10,5 @@ word_t b_char(word_t string, /*word_t i,*/ ...)
     word_t i = va_arg(ap, word_t);
     va_end(ap);
 
-    return ((char *)string)[i];
+    return ((uint8_t *)string)[i];
 }
-- 
2.43.0


From 1ad6f6f0e9a03d927b22e71b50c6bcab2c1490ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 28/42] fix: accept a character constant as the size of a
 global vector

---
 parser_decls.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser_decls.go b/parser_decls.go
index a560891..72c23fc 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -145,8 +145,13 @@ func parseVector(l *Lexer, c *Compiler, name string) error {
 	}
 
 	if ch != ']' {
-		l.UnreadChar(ch)
-		nwords, err = l.Number()
+		// Vector size can be a number or character constant
+		if ch == '\'' {
+			nwords, err = l.Character()
+		} else {
+			l.UnreadChar(ch)
+			nwords, err = l.Number()
+		}
 		if err != nil {
 			return fmt.Errorf("unexpected end of file, expect vector size after '['")
 		}
-- 
2.43.0


From 781e0502dd922040dfdfa60ecc0c1790c78e99c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 29/42] fix: leave no incomplete file behind when writing fails

---
 driver.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/driver.go b/driver.go
index 56dac06..f52e822 100644
--- a/driver.go
+++ b/driver.go
@@ -56,11 +56,15 @@ func compileToIR(args *CompileOptions) error {
 			Eprintf(args.Arg0, "cannot open file '%s' %s.", outputPath, err)
 			return err
 		}
-		if _, err := outFile.WriteString(compiler.GetModule().String()); err != nil {
-			outFile.Close()
-			return err
+		_, err = outFile.WriteString(compiler.GetModule().String())
+		if cerr := outFile.Close(); err == nil {
+			err = cerr
 		}
-		if err := outFile.Close(); err != nil {
+		if err != nil {
+			// Leave no incomplete file behind
+			if fi, serr := os.Lstat(outputPath); serr == nil && fi.Mode().IsRegular() {
+				os.Remove(outputPath)
+			}
 			return err
 		}
 		if args.Verbose {
-- 
2.43.0


From 783313dc9404684cccdf2d55d5b7cf7f7484b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 30/42] fix: keep temporary files out of the user's directory

---
 driver.go  | 29 +++++++++++++++++++++++++----
 options.go |  1 +
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/driver.go b/driver.go
index f52e822..a0cd518 100644
--- a/driver.go
+++ b/driver.go
@@ -15,6 +15,19 @@ func Compile(args *CompileOptions) error {
 		fmt.Printf("blang: compiling %d file(s)\n", len(args.InputFiles))
 	}
 
+	// Temporary files that are not kept go to a directory of their own, where they
+	// cannot clash with other files, or with another command running at the same time
+	if !args.SaveTemps && args.OutputType != OutputIR {
+		dir, err := os.MkdirTemp("", "blang-")
+		if err != nil {
+			return err
+		}
+		defer os.RemoveAll(dir)
+		tempArgs := *args
+		tempArgs.tempDir = dir
+		args = &tempArgs
+	}
+
 	// Handle different output types
 	switch args.OutputType {
 	case OutputIR:
@@ -30,6 +43,14 @@ func Compile(args *CompileOptions) error {
 	}
 }
 
+// tempPath returns where to put the temporary file of the given name
+func tempPath(args *CompileOptions, name string) string {
+	if args.tempDir == "" {
+		return name
+	}
+	return filepath.Join(args.tempDir, filepath.Base(name))
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -126,7 +147,7 @@ func compileToAssembly(args *CompileOptions) error {
 	processOne := func(in, out string) error {
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
-			tempIR := out + ".tmp.ll"
+			tempIR := tempPath(args, out+".tmp.ll")
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -220,7 +241,7 @@ func compileToObject(args *CompileOptions) error {
 	processOne := func(in, out string) error {
 		if strings.HasSuffix(in, ".b") {
 			// Compile .b to temporary IR first
-			tempIR := out + ".tmp.ll"
+			tempIR := tempPath(args, out+".tmp.ll")
 
 			irArgs := *args
 			irArgs.InputFiles = []string{in}
@@ -307,10 +328,10 @@ func compileToExecutable(args *CompileOptions) error {
 			// use <output>.tmp.ll as the temporary IR name.
 			var tmp string
 			if len(args.InputFiles) == 1 && args.OutputFile != "" {
-				tmp = args.OutputFile + ".tmp.ll"
+				tmp = tempPath(args, args.OutputFile+".tmp.ll")
 			} else {
 				base := strings.TrimSuffix(filepath.Base(in), ext)
-				tmp = fmt.Sprintf("%s.tmp.%d.ll", base, i)
+				tmp = tempPath(args, fmt.Sprintf("%s.tmp.%d.ll", base, i))
 			}
 
 			irArgs := *args
diff --git a/options.go b/options.go
index ff729e1..db4393a 100644
--- a/options.go
+++ b/options.go
@@ -31,6 +31,7 @@ type CompileOptions struct {
 	LibraryDirs  []string   // library search directories
 	Libraries    []string   // libraries to link
 	GlobalPrefix string     // prefix for global symbols to avoid C clashes
+	tempDir      string     // private directory of the temporary files, if any
 }
 
 // NewCompileOptions creates a new structure with default values
-- 
2.43.0


From 1512fd6d1c7501626cc5d5538d94bb1f2a0eea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 31/42] fix: exit with an error status on invalid options

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 06b3dd1..35bd671 100644
--- a/main.go
+++ b/main.go
@@ -33,7 +33,6 @@ func usage() {
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang hello.b -o output -O2"), note.Sprint("  Options can be placed after arguments"))
 	fmt.Fprintf(os.Stderr, "  %s  %s\n", cmd.Sprint("blang -V"), note.Sprint("                     Show version information"))
 	fmt.Fprintf(os.Stderr, "\n")
-	os.Exit(0)
 }
 
 func main() {
@@ -83,6 +82,7 @@ func main() {
 
 	if showHelp {
 		usage()
+		os.Exit(0)
 	}
 
 	if showVersion {
-- 
2.43.0


From 589e8ea69e3e4c3d104eb9725a653362a6043af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 32/42] fix: refuse keywords where a name is expected

---
 expressions.go  |  2 +-
 lexer.go        | 15 +++++++++++++++
 parser_decls.go |  6 +++---
 parser_stmt.go  |  8 +++++---
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/expressions.go b/expressions.go
index 003cb15..5677ff0 100644
--- a/expressions.go
+++ b/expressions.go
@@ -899,7 +899,7 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 	case unicode.IsLetter(ch) || ch == '_':
 		// Identifier
 		l.UnreadChar(ch)
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil {
 			return nil, false, err
 		}
diff --git a/lexer.go b/lexer.go
index 6ca935f..7d137f3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -170,6 +170,21 @@ func (l *Lexer) Identifier() (string, error) {
 	}
 }
 
+// keywords cannot be used as names
+var keywords = map[string]bool{
+	"auto": true, "case": true, "else": true, "extrn": true, "goto": true,
+	"if": true, "return": true, "switch": true, "while": true,
+}
+
+// Name parses an identifier that is not a keyword
+func (l *Lexer) Name() (string, error) {
+	name, err := l.Identifier()
+	if err == nil && keywords[name] {
+		return "", fmt.Errorf("unexpected keyword '%s', expect identifier", name)
+	}
+	return name, err
+}
+
 // Number parses an integer literal (octal if starts with 0)
 func (l *Lexer) Number() (int64, error) {
 	if err := l.Whitespace(); err != nil {
diff --git a/parser_decls.go b/parser_decls.go
index 72c23fc..7d5afae 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -12,7 +12,7 @@ import (
 // ParseDeclarations parses top-level declarations and generates LLVM IR
 func ParseDeclarations(l *Lexer, c *Compiler) error {
 	for {
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil {
 			return err
 		}
@@ -220,7 +220,7 @@ func parseIvalConst(l *Lexer, c *Compiler) (constant.Constant, error) {
 
 	if unicode.IsLetter(ch) || ch == '_' {
 		l.UnreadChar(ch)
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return nil, fmt.Errorf("unexpected end of file, expect ival")
 		}
@@ -311,7 +311,7 @@ func parseArguments(l *Lexer) ([]string, error) {
 			return nil, err
 		}
 
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
 		}
diff --git a/parser_stmt.go b/parser_stmt.go
index 8115638..6b22df2 100644
--- a/parser_stmt.go
+++ b/parser_stmt.go
@@ -104,6 +104,8 @@ func parseKeywordOrExpressionWithSwitch(l *Lexer, c *Compiler, switchID int64, c
 		return parseCase(l, c, switchID, cases)
 	case "goto":
 		return parseGoto(l, c)
+	case "else":
+		return fmt.Errorf("'else' without a preceding 'if'")
 	default:
 		// Check if it's a label
 		ch, err := l.ReadChar()
@@ -206,7 +208,7 @@ func parseAuto(l *Lexer, c *Compiler) error {
 	seen := make(map[string]struct{})
 
 	for {
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return fmt.Errorf("expect identifier after 'auto'")
 		}
@@ -314,7 +316,7 @@ func parseAuto(l *Lexer, c *Compiler) error {
 // parseExtrn parses external declarations
 func parseExtrn(l *Lexer, c *Compiler) error {
 	for {
-		name, err := l.Identifier()
+		name, err := l.Name()
 		if err != nil || name == "" {
 			return fmt.Errorf("expect identifier after 'extrn'")
 		}
@@ -499,7 +501,7 @@ func parseWhile(l *Lexer, c *Compiler) error {
 
 // parseGoto parses goto statements
 func parseGoto(l *Lexer, c *Compiler) error {
-	label, err := l.Identifier()
+	label, err := l.Name()
 	if err != nil || label == "" {
 		return fmt.Errorf("expect label name after 'goto'")
 	}
-- 
2.43.0


From a3e66224bc141d895a2463c277877aaa033d9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 33/42] fix: refuse a comma without an argument after it

---
 expressions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 5677ff0..56b45fd 100644
--- a/expressions.go
+++ b/expressions.go
@@ -715,7 +715,7 @@ func parsePostfix(l *Lexer, c *Compiler) (value.Value, bool, error) {
 				if err != nil {
 					return nil, false, err
 				}
-				if ch == ')' {
+				if ch == ')' && len(args) == 0 {
 					break
 				}
 				l.UnreadChar(ch)
-- 
2.43.0


From 9846c69d02ba0b6f832c82e338a10cf661aaa5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 34/42] fix: refuse two parameters with the same name

---
 parser_decls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_decls.go b/parser_decls.go
index 7d5afae..d3be6d4 100644
--- a/parser_decls.go
+++ b/parser_decls.go
@@ -305,6 +305,7 @@ func parseFunction(l *Lexer, c *Compiler, name string) error {
 // parseArguments parses function arguments
 func parseArguments(l *Lexer) ([]string, error) {
 	var params []string
+	seen := make(map[string]bool)
 
 	for {
 		if err := l.Whitespace(); err != nil {
@@ -316,6 +317,10 @@ func parseArguments(l *Lexer) ([]string, error) {
 			return nil, fmt.Errorf("expect ')' or identifier after function arguments")
 		}
 
+		if seen[name] {
+			return nil, fmt.Errorf("parameter '%s' already defined", name)
+		}
+		seen[name] = true
 		params = append(params, name)
 
 		if err := l.Whitespace(); err != nil {
-- 
2.43.0


From 7970921a05279f748ae3d7ba7068dd086dd655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 35/42] fix: look symbols up by their stored names, not by
 formatting each one

Name() parses and formats the name of every symbol of the module on every
lookup, so that a program of 20000 variables took 40 s to compile.
---
 irbuilder.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 41fad67..72808dc 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -64,7 +64,7 @@ func NewCompiler(args *CompileOptions) *Compiler {
 func (c *Compiler) findFuncByName(name string) *ir.Func {
 	full := c.globalName(name)
 	for _, f := range c.module.Funcs {
-		if f.Name() == full {
+		if f.GlobalName == full {
 			return f
 		}
 	}
@@ -75,7 +75,7 @@ func (c *Compiler) findFuncByName(name string) *ir.Func {
 func (c *Compiler) removeFuncByName(name string) bool {
 	full := c.globalName(name)
 	for i, f := range c.module.Funcs {
-		if f.Name() == full {
+		if f.GlobalName == full {
 			c.module.Funcs = append(c.module.Funcs[:i], c.module.Funcs[i+1:]...)
 			return true
 		}
@@ -87,7 +87,7 @@ func (c *Compiler) removeFuncByName(name string) bool {
 func (c *Compiler) findGlobalByName(name string) *ir.Global {
 	full := c.globalName(name)
 	for _, g := range c.module.Globals {
-		if g.Name() == full {
+		if g.GlobalName == full {
 			return g
 		}
 	}
@@ -98,7 +98,7 @@ func (c *Compiler) findGlobalByName(name string) *ir.Global {
 func (c *Compiler) removeGlobalByName(name string) bool {
 	full := c.globalName(name)
 	for i, g := range c.module.Globals {
-		if g.Name() == full {
+		if g.GlobalName == full {
 			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
 			c.removeVectorData(full + ".data")
 			return true
@@ -110,7 +110,7 @@ func (c *Compiler) removeGlobalByName(name string) bool {
 // removeVectorData removes the data array of a removed vector, if it had one
 func (c *Compiler) removeVectorData(full string) {
 	for i, g := range c.module.Globals {
-		if g.Name() == full {
+		if g.GlobalName == full {
 			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
 			return
 		}
@@ -580,7 +580,7 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 func (c *Compiler) getOrCreateFunc(funcName string) *ir.Func {
 	// Check if function already exists in module
 	for _, fn := range c.module.Funcs {
-		if fn.Name() == funcName {
+		if fn.GlobalName == funcName {
 			return fn
 		}
 	}
-- 
2.43.0


From 82f1ee814664df61c53fdd7d6c83268467049e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 36/42] fix: accept parameter and label names of more than 1000
 characters

LLVM cuts the names of local values to 1024 characters, so that two long
names became one.
---
 irbuilder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irbuilder.go b/irbuilder.go
index 72808dc..23b0b28 100644
--- a/irbuilder.go
+++ b/irbuilder.go
@@ -272,7 +272,8 @@ func (c *Compiler) DeclareFunction(name string, paramNames []string) *ir.Func {
 		fn = c.module.NewFunc(c.globalName(name), c.WordType())
 	} else {
 		// One or more parameters: variadic with first parameter as fixed
-		firstParam := ir.NewParam(paramNames[0], c.WordType())
+		// LLVM cuts names of more than 1024 characters, so it is not named after the B parameter
+		firstParam := ir.NewParam("fn.param", c.WordType())
 		fn = c.module.NewFunc(c.globalName(name), c.WordType(), firstParam)
 		fn.Sig.Variadic = true
 	}
@@ -571,7 +572,8 @@ func (c *Compiler) GetOrCreateLabel(name string) *ir.Block {
 	if block, ok := c.labels[name]; ok {
 		return block
 	}
-	block := c.currentFn.NewBlock(name)
+	// LLVM cuts names of more than 1024 characters, so it is not named after the B label
+	block := c.currentFn.NewBlock(fmt.Sprintf("label.%d", len(c.labels)))
 	c.labels[name] = block
 	return block
 }
-- 
2.43.0


From aaff76fa2a55f71de51dd7b31c5a85a17a937dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 37/42] fix: accept file names that begin with - or @

clang took them for options, or for files with options in them.
---
 driver.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/driver.go b/driver.go
index a0cd518..d98dccf 100644
--- a/driver.go
+++ b/driver.go
@@ -51,6 +51,15 @@ func tempPath(args *CompileOptions, name string) string {
 	return filepath.Join(args.tempDir, filepath.Base(name))
 }
 
+// clangPath returns the path in a form that clang does not take for an option
+// or for a file of options
+func clangPath(path string) string {
+	if strings.HasPrefix(path, "-") || strings.HasPrefix(path, "@") {
+		return "./" + path
+	}
+	return path
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -139,7 +148,7 @@ func compileToAssembly(args *CompileOptions) error {
 		if args.DebugInfo {
 			cmdArgs = append(cmdArgs, "-g")
 		}
-		cmdArgs = append(cmdArgs, "-S", "-o", out, inputIRorLL)
+		cmdArgs = append(cmdArgs, "-S", "-o", clangPath(out), clangPath(inputIRorLL))
 		return cmdArgs
 	}
 
@@ -233,7 +242,7 @@ func compileToObject(args *CompileOptions) error {
 		if args.DebugInfo {
 			cmdArgs = append(cmdArgs, "-g")
 		}
-		cmdArgs = append(cmdArgs, "-c", "-o", out, inputPath)
+		cmdArgs = append(cmdArgs, "-c", "-o", clangPath(out), clangPath(inputPath))
 		return cmdArgs
 	}
 
@@ -348,10 +357,10 @@ func compileToExecutable(args *CompileOptions) error {
 				return err
 			}
 			temps = append(temps, tmp)
-			clangInputs = append(clangInputs, tmp)
+			clangInputs = append(clangInputs, clangPath(tmp))
 
 		case ".ll", ".s", ".o", ".a":
-			clangInputs = append(clangInputs, in)
+			clangInputs = append(clangInputs, clangPath(in))
 
 		default:
 			// main() validated extensions, but keep a guard here
@@ -383,7 +392,7 @@ func compileToExecutable(args *CompileOptions) error {
 	}
 	// Always link the B runtime library, which the user's libraries may need
 	cmdArgs = append(cmdArgs, "-lb")
-	cmdArgs = append(cmdArgs, "-o", args.OutputFile)
+	cmdArgs = append(cmdArgs, "-o", clangPath(args.OutputFile))
 
 	cmd := exec.Command("clang", cmdArgs...)
 	if args.Verbose {
-- 
2.43.0


From 099c0e6e8a4e9cd02ca49d6e754aa3583d06a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 38/42] fix: accept library directories with commas and quotes
 in their names

The option's value was read as a line of comma-separated values.
---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 35bd671..99bb92b 100644
--- a/main.go
+++ b/main.go
@@ -70,8 +70,8 @@ func main() {
 	pflag.BoolVarP(&verbose, "verbose", "v", false, "Verbose output")
 
 	// Paths and libraries
-	pflag.StringSliceVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
-	pflag.StringSliceVarP(&libraries, "library", "l", []string{}, "Link with library")
+	pflag.StringArrayVarP(&libraryDirs, "library-dir", "L", []string{}, "Add directory to library search path")
+	pflag.StringArrayVarP(&libraries, "library", "l", []string{}, "Link with library")
 
 	// Help and version
 	pflag.BoolVarP(&showVersion, "version", "V", false, "Display compiler version information")
-- 
2.43.0


From 0097dd0d18ae9bf8672fd225bb2c751c94042458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:32 +0000
Subject: [PATCH 39/42] fix: optimize at level 1 by default, as documented

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 99bb92b..16883e9 100644
--- a/main.go
+++ b/main.go
@@ -65,7 +65,7 @@ func main() {
 	pflag.BoolVarP(&assemblyOnly, "assemble", "S", false, "Compile only; do not assemble or link")
 
 	// Optimization and debugging
-	pflag.StringVarP(&optimize, "optimize", "O", "0", "Optimization level (0-3)")
+	pflag.StringVarP(&optimize, "optimize", "O", "1", "Optimization level (0-3)")
 	pflag.BoolVarP(&debugInfo, "debug", "g", false, "Generate debug information")
 	pflag.BoolVarP(&verbose, "verbose", "v", false, "Verbose output")
 
-- 
2.43.0


From 6b6cefa48ba5d500baa9fdf4449918df6e5e4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 40/42] fix: a function can be the left operand of ==

---
 expressions.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expressions.go b/expressions.go
index 56b45fd..06664e1 100644
--- a/expressions.go
+++ b/expressions.go
@@ -953,8 +953,16 @@ func parsePrimary(l *Lexer, c *Compiler) (value.Value, bool, error) {
 		}
 		nextCh, err2 := l.ReadChar()
 		if err2 == nil {
+			assign := nextCh == '='
+			if assign {
+				// '==' compares a function, it is no assignment
+				if ch2, err3 := l.ReadChar(); err3 == nil {
+					assign = ch2 != '='
+					l.UnreadChar(ch2)
+				}
+			}
 			l.UnreadChar(nextCh)
-			if nextCh == '=' {
+			if assign {
 				return nil, false, fmt.Errorf("undefined identifier '%s'", name)
 			}
 		}
-- 
2.43.0


From 5dba42f5f633b3cf293ebeb144da8b8e2e1a0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:53 +0000
Subject: [PATCH 41/42] fix: let vectors be larger than 2 GB

A program with more than 2 GB of vectors could not be linked if any other
variable, such as the runtime's fout, came to lie behind them, out of reach of
the instructions of the small code model.
---
 driver.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/driver.go b/driver.go
index d98dccf..434f28a 100644
--- a/driver.go
+++ b/driver.go
@@ -60,6 +60,15 @@ func clangPath(path string) string {
 	return path
 }
 
+// codeModel returns the options for clang to put no limit on the size of vectors
+func codeModel() []string {
+	if runtime.GOARCH == "amd64" {
+		// Large data is kept apart, as it may reach beyond 2 GB
+		return []string{"-mcmodel=medium"}
+	}
+	return nil
+}
+
 // compileToIR generates LLVM IR output
 func compileToIR(args *CompileOptions) error {
 	// Helper to compile a single .b file to the provided output path
@@ -141,7 +150,7 @@ func compileToAssembly(args *CompileOptions) error {
 
 	// Helper to build clang args including optimization/debug flags
 	buildClangArgs := func(inputIRorLL, out string) []string {
-		cmdArgs := []string{}
+		cmdArgs := codeModel()
 		if args.Optimize > 0 {
 			cmdArgs = append(cmdArgs, fmt.Sprintf("-O%d", args.Optimize))
 		}
@@ -235,7 +244,7 @@ func compileToObject(args *CompileOptions) error {
 
 	// Helper to build clang args including optimization/debug flags
 	buildClangArgs := func(inputPath, out string) []string {
-		cmdArgs := []string{}
+		cmdArgs := codeModel()
 		if args.Optimize > 0 {
 			cmdArgs = append(cmdArgs, fmt.Sprintf("-O%d", args.Optimize))
 		}
@@ -369,7 +378,7 @@ func compileToExecutable(args *CompileOptions) error {
 	}
 
 	// Build clang command for linking
-	cmdArgs := []string{}
+	cmdArgs := codeModel()
 	if args.Optimize > 0 {
 		cmdArgs = append(cmdArgs, fmt.Sprintf("-O%d", args.Optimize))
 	}
-- 
2.43.0


From b8d8d30d8ebca572eb77e30e8ee6b34dafcdf7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:53 +0000
Subject: [PATCH 42/42] fix: keep the names of temporary files short enough

---
 driver.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/driver.go b/driver.go
index 434f28a..a8c6d05 100644
--- a/driver.go
+++ b/driver.go
@@ -43,12 +43,20 @@ func Compile(args *CompileOptions) error {
 	}
 }
 
+// maxTempName is the longest name given to a temporary file that is not kept
+const maxTempName = 200
+
 // tempPath returns where to put the temporary file of the given name
 func tempPath(args *CompileOptions, name string) string {
 	if args.tempDir == "" {
 		return name
 	}
-	return filepath.Join(args.tempDir, filepath.Base(name))
+	name = filepath.Base(name)
+	// Leave room in the file name for what clang adds to it
+	if len(name) > maxTempName {
+		name = name[len(name)-maxTempName:]
+	}
+	return filepath.Join(args.tempDir, name)
 }
 
 // clangPath returns the path in a form that clang does not take for an option
-- 
2.43.0

