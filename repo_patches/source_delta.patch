From 717e6e404b4f0557cb0b2fc6789fd3b982ca9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 01/11] fix: print standalone opcode alternatives

The printer accepts any AST node, but reported an opcode alternation node as an
unexpected type.
---
 printer/printer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..5269979 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -60,6 +60,9 @@ func (p *printer) node(node ast.Node) {
 	case ast.Op:
 		p.op(n)
 
+	case ast.OpPart:
+		p.oppart(n)
+
 	default:
 		p.seterror(errutil.UnexpectedType(node))
 	}
-- 
2.43.0


From 6e3689116ab09de8150188fc17be58b64e2c56de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 02/11] fix: visit every child node in Walk

Walk is documented to visit each of the children of a node, but skipped rule
conditions and the binding, auxint and aux of S-expressions.
---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 98ff516..5dc040b 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -24,10 +24,22 @@ func Walk(v Visitor, node Node) {
 
 	case *Rule:
 		Walk(v, n.Match)
+		if n.Condition != nil {
+			Walk(v, n.Condition)
+		}
 		Walk(v, n.Result)
 
 	case *SExpr:
+		if n.Binding != "" {
+			Walk(v, n.Binding)
+		}
 		Walk(v, n.Op)
+		if n.AuxInt != nil {
+			Walk(v, n.AuxInt)
+		}
+		if n.Aux != nil {
+			Walk(v, n.Aux)
+		}
 		for _, arg := range n.Args {
 			Walk(v, arg)
 		}
-- 
2.43.0


From f420f69142f93ffd72400110c11c981cbd708e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/11] fix: expand single-choice opcode alternates without
 panicking

An alternation with one choice is compatible with any alternative count, but
expanding it next to one with more choices indexed out of range.
---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0


From d90d4d719d9480945c70de9da43a8906f706fad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 04/11] fix: keep the ellipsis of variadic calls

Clearing positions also cleared the position that marks a call as variadic, so
f(x...) silently became f(x).
---
 parse/internal/goexpr/parse.go | 8 +++++++-
 printer/printer.go             | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..531f2a4 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -8,6 +8,10 @@ import (
 	"github.com/mmcloughlin/ssarules/internal/errutil"
 )
 
+// variadic is the canonical position of the ellipsis in a variadic call. Unlike
+// other positions it cannot be cleared: a call without one is not variadic.
+const variadic gotoken.Pos = 1
+
 func Parse(x string) (goast.Expr, error) {
 	expr, err := goparser.ParseExpr(x)
 	if err != nil {
@@ -37,7 +41,9 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				n.Ellipsis = variadic
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index 5269979..bf1e0ab 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -213,6 +213,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			p.printf(" ...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
-- 
2.43.0


From 128f15484aa070863cae4421764e4df1d4c7ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 05/11] fix: keep adjacent operators apart when printing
 expressions

Operators are printed without surrounding spaces, so a & ^b was printed as
a&^b, a & &b as a&&b, and - -b as --b: a different expression or none at all.
Likewise the selector of a literal, which was read back as a decimal point.
---
 printer/printer.go | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/printer/printer.go b/printer/printer.go
index bf1e0ab..4b3a4d2 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -195,7 +195,7 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
-		p.goexpr(e.X)
+		p.operand(e.Op, e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
 		if e.Op.Precedence() < gotoken.ADD.Precedence() {
@@ -203,7 +203,7 @@ func (p *printer) goexpr(expr goast.Expr) {
 		} else {
 			p.printf("%s", e.Op)
 		}
-		p.goexpr(e.Y)
+		p.operand(e.Op, e.Y)
 	case *goast.CallExpr:
 		p.goexpr(e.Fun)
 		p.printf("(")
@@ -222,12 +222,53 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if _, ok := e.X.(*goast.BasicLit); ok {
+			p.printf(" ")
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// operand prints the operand x following the operator op, with a space between
+// them if they would otherwise be read as a different operator.
+func (p *printer) operand(op gotoken.Token, x goast.Expr) {
+	if joins(op, leading(x)) {
+		p.printf(" ")
+	}
+	p.goexpr(x)
+}
+
+// leading returns the operator at the start of expression x, if any.
+func leading(x goast.Expr) gotoken.Token {
+	switch e := x.(type) {
+	case *goast.UnaryExpr:
+		return e.Op
+	case *goast.StarExpr:
+		return gotoken.MUL
+	case *goast.BinaryExpr:
+		return leading(e.X)
+	default:
+		return gotoken.ILLEGAL
+	}
+}
+
+// joins reports whether operator op directly followed by next is read as a
+// different operator, or as the start of a comment.
+func joins(op, next gotoken.Token) bool {
+	switch op {
+	case gotoken.ADD, gotoken.SUB:
+		return next == op
+	case gotoken.AND:
+		return next == gotoken.AND || next == gotoken.XOR
+	case gotoken.QUO:
+		return next == gotoken.MUL
+	default:
+		return false
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From f7c8c6d7ce509777260a4b69aafbb7f594ae199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 06/11] fix: reject repeated type, auxint and aux operands

All but the last were silently dropped from the parsed rule.
---
 parse/internal/parser/zparser.go | 461 ++++++++++++++++---------------
 parse/rules.peg                  |   9 +
 2 files changed, 244 insertions(+), 226 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..160919b 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -45,23 +45,23 @@ var g = &grammar{
 									pos: position{line: 19, col: 14, offset: 157},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 191, col: 6, offset: 3525},
+											pos: position{line: 200, col: 6, offset: 3832},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -69,7 +69,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -77,7 +77,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -91,23 +91,23 @@ var g = &grammar{
 											name: "Rule",
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 191, col: 6, offset: 3525},
+											pos: position{line: 200, col: 6, offset: 3832},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -115,7 +115,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -123,7 +123,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -137,9 +137,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 203, col: 8, offset: 3674},
+							pos: position{line: 212, col: 8, offset: 3981},
 							expr: &anyMatcher{
-								line: 203, col: 9, offset: 3675,
+								line: 212, col: 9, offset: 3982,
 							},
 						},
 					},
@@ -172,23 +172,23 @@ var g = &grammar{
 									pos: position{line: 30, col: 24, offset: 381},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 190, col: 7, offset: 3514},
+											pos: position{line: 199, col: 7, offset: 3821},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -196,7 +196,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -204,7 +204,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -220,23 +220,23 @@ var g = &grammar{
 											want:       "\"&&\"",
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 190, col: 7, offset: 3514},
+											pos: position{line: 199, col: 7, offset: 3821},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -244,7 +244,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -252,7 +252,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -262,20 +262,20 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 169, col: 14, offset: 3183},
+											pos: position{line: 178, col: 14, offset: 3490},
 											run: (*parser).callonRule25,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 169, col: 14, offset: 3183},
+												pos: position{line: 178, col: 14, offset: 3490},
 												expr: &seqExpr{
-													pos: position{line: 169, col: 16, offset: 3185},
+													pos: position{line: 178, col: 16, offset: 3492},
 													exprs: []interface{}{
 														&anyMatcher{
-															line: 169, col: 16, offset: 3185,
+															line: 178, col: 16, offset: 3492,
 														},
 														&notExpr{
-															pos: position{line: 169, col: 18, offset: 3187},
+															pos: position{line: 178, col: 18, offset: 3494},
 															expr: &litMatcher{
-																pos:        position{line: 169, col: 19, offset: 3188},
+																pos:        position{line: 178, col: 19, offset: 3495},
 																val:        "=>",
 																ignoreCase: false,
 																want:       "\"=>\"",
@@ -290,23 +290,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -314,7 +314,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -322,7 +322,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -338,23 +338,23 @@ var g = &grammar{
 							want:       "\"=>\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -362,7 +362,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -370,7 +370,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -385,26 +385,26 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 30, col: 62, offset: 419},
 								expr: &actionExpr{
-									pos: position{line: 184, col: 10, offset: 3437},
+									pos: position{line: 193, col: 10, offset: 3744},
 									run: (*parser).callonRule50,
 									expr: &seqExpr{
-										pos: position{line: 184, col: 10, offset: 3437},
+										pos: position{line: 193, col: 10, offset: 3744},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 184, col: 10, offset: 3437},
+												pos:        position{line: 193, col: 10, offset: 3744},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&oneOrMoreExpr{
-												pos: position{line: 184, col: 14, offset: 3441},
+												pos: position{line: 193, col: 14, offset: 3748},
 												expr: &seqExpr{
-													pos: position{line: 184, col: 16, offset: 3443},
+													pos: position{line: 193, col: 16, offset: 3750},
 													exprs: []interface{}{
 														&notExpr{
-															pos: position{line: 184, col: 16, offset: 3443},
+															pos: position{line: 193, col: 16, offset: 3750},
 															expr: &charClassMatcher{
-																pos:        position{line: 201, col: 15, offset: 3647},
+																pos:        position{line: 210, col: 15, offset: 3954},
 																val:        "[ \\t\\r]",
 																chars:      []rune{' ', '\t', '\r'},
 																ignoreCase: false,
@@ -412,7 +412,7 @@ var g = &grammar{
 															},
 														},
 														&anyMatcher{
-															line: 184, col: 28, offset: 3455,
+															line: 193, col: 28, offset: 3762,
 														},
 													},
 												},
@@ -423,23 +423,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -447,7 +447,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -455,7 +455,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -511,22 +511,22 @@ var g = &grammar{
 									pos: position{line: 49, col: 20, offset: 750},
 									exprs: []interface{}{
 										&actionExpr{
-											pos: position{line: 157, col: 13, offset: 3017},
+											pos: position{line: 166, col: 13, offset: 3324},
 											run: (*parser).callonSExpr6,
 											expr: &seqExpr{
-												pos: position{line: 165, col: 10, offset: 3135},
+												pos: position{line: 174, col: 10, offset: 3442},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 165, col: 10, offset: 3135},
+														pos:        position{line: 174, col: 10, offset: 3442},
 														val:        "[a-z]",
 														ranges:     []rune{'a', 'z'},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 165, col: 16, offset: 3141},
+														pos: position{line: 174, col: 16, offset: 3448},
 														expr: &charClassMatcher{
-															pos:        position{line: 165, col: 16, offset: 3141},
+															pos:        position{line: 174, col: 16, offset: 3448},
 															val:        "[_a-zA-Z0-9]",
 															chars:      []rune{'_'},
 															ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -554,23 +554,23 @@ var g = &grammar{
 							want:       "\"(\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -578,7 +578,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -586,7 +586,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -599,23 +599,23 @@ var g = &grammar{
 							pos:   position{line: 49, col: 42, offset: 772},
 							label: "op",
 							expr: &actionExpr{
-								pos: position{line: 86, col: 7, offset: 1604},
+								pos: position{line: 95, col: 7, offset: 1911},
 								run: (*parser).callonSExpr22,
 								expr: &labeledExpr{
-									pos:   position{line: 86, col: 7, offset: 1604},
+									pos:   position{line: 95, col: 7, offset: 1911},
 									label: "parts",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 86, col: 13, offset: 1610},
+										pos: position{line: 95, col: 13, offset: 1917},
 										expr: &choiceExpr{
-											pos: position{line: 86, col: 15, offset: 1612},
+											pos: position{line: 95, col: 15, offset: 1919},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 103, col: 11, offset: 1910},
+													pos: position{line: 112, col: 11, offset: 2217},
 													run: (*parser).callonSExpr26,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 103, col: 11, offset: 1910},
+														pos: position{line: 112, col: 11, offset: 2217},
 														expr: &charClassMatcher{
-															pos:        position{line: 103, col: 11, offset: 1910},
+															pos:        position{line: 112, col: 11, offset: 2217},
 															val:        "[_a-zA-Z0-9]",
 															chars:      []rune{'_'},
 															ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -625,27 +625,27 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 107, col: 10, offset: 1973},
+													pos: position{line: 116, col: 10, offset: 2280},
 													run: (*parser).callonSExpr29,
 													expr: &seqExpr{
-														pos: position{line: 107, col: 10, offset: 1973},
+														pos: position{line: 116, col: 10, offset: 2280},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 107, col: 10, offset: 1973},
+																pos:        position{line: 116, col: 10, offset: 2280},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 107, col: 14, offset: 1977},
+																pos:   position{line: 116, col: 14, offset: 2284},
 																label: "first",
 																expr: &actionExpr{
-																	pos: position{line: 103, col: 11, offset: 1910},
+																	pos: position{line: 112, col: 11, offset: 2217},
 																	run: (*parser).callonSExpr33,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 103, col: 11, offset: 1910},
+																		pos: position{line: 112, col: 11, offset: 2217},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 103, col: 11, offset: 1910},
+																			pos:        position{line: 112, col: 11, offset: 2217},
 																			val:        "[_a-zA-Z0-9]",
 																			chars:      []rune{'_'},
 																			ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -656,26 +656,26 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 107, col: 27, offset: 1990},
+																pos:   position{line: 116, col: 27, offset: 2297},
 																label: "rest",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 107, col: 32, offset: 1995},
+																	pos: position{line: 116, col: 32, offset: 2302},
 																	expr: &seqExpr{
-																		pos: position{line: 107, col: 34, offset: 1997},
+																		pos: position{line: 116, col: 34, offset: 2304},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 107, col: 34, offset: 1997},
+																				pos:        position{line: 116, col: 34, offset: 2304},
 																				val:        "|",
 																				ignoreCase: false,
 																				want:       "\"|\"",
 																			},
 																			&actionExpr{
-																				pos: position{line: 103, col: 11, offset: 1910},
+																				pos: position{line: 112, col: 11, offset: 2217},
 																				run: (*parser).callonSExpr40,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 103, col: 11, offset: 1910},
+																					pos: position{line: 112, col: 11, offset: 2217},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 103, col: 11, offset: 1910},
+																						pos:        position{line: 112, col: 11, offset: 2217},
 																						val:        "[_a-zA-Z0-9]",
 																						chars:      []rune{'_'},
 																						ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -689,7 +689,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 107, col: 48, offset: 2011},
+																pos:        position{line: 116, col: 48, offset: 2318},
 																val:        ")",
 																ignoreCase: false,
 																want:       "\")\"",
@@ -712,23 +712,23 @@ var g = &grammar{
 									pos: position{line: 49, col: 59, offset: 789},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 190, col: 7, offset: 3514},
+											pos: position{line: 199, col: 7, offset: 3821},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -736,7 +736,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -744,7 +744,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -770,23 +770,23 @@ var g = &grammar{
 									pos: position{line: 49, col: 84, offset: 814},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 190, col: 7, offset: 3514},
+											pos: position{line: 199, col: 7, offset: 3821},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -794,7 +794,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -802,7 +802,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -830,23 +830,23 @@ var g = &grammar{
 									pos: position{line: 49, col: 106, offset: 836},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 190, col: 7, offset: 3514},
+											pos: position{line: 199, col: 7, offset: 3821},
 											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
+												pos: position{line: 202, col: 10, offset: 3848},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
+														pos: position{line: 206, col: 12, offset: 3901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
+																pos:        position{line: 206, col: 12, offset: 3901},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
+																pos: position{line: 206, col: 17, offset: 3906},
 																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
+																	pos:        position{line: 206, col: 17, offset: 3906},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -854,7 +854,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
+																pos:        position{line: 211, col: 8, offset: 3969},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -862,7 +862,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
+														pos:        position{line: 210, col: 15, offset: 3954},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -882,23 +882,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -906,7 +906,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -914,7 +914,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -935,26 +935,26 @@ var g = &grammar{
 		},
 		{
 			name: "Operand",
-			pos:  position{line: 118, col: 1, offset: 2234},
+			pos:  position{line: 127, col: 1, offset: 2541},
 			expr: &choiceExpr{
-				pos: position{line: 118, col: 12, offset: 2245},
+				pos: position{line: 127, col: 12, offset: 2552},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 120, col: 9, offset: 2282},
+						pos: position{line: 129, col: 9, offset: 2589},
 						run: (*parser).callonOperand2,
 						expr: &seqExpr{
-							pos: position{line: 120, col: 9, offset: 2282},
+							pos: position{line: 129, col: 9, offset: 2589},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 120, col: 9, offset: 2282},
+									pos:        position{line: 129, col: 9, offset: 2589},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&oneOrMoreExpr{
-									pos: position{line: 120, col: 13, offset: 2286},
+									pos: position{line: 129, col: 13, offset: 2593},
 									expr: &charClassMatcher{
-										pos:        position{line: 120, col: 13, offset: 2286},
+										pos:        position{line: 129, col: 13, offset: 2593},
 										val:        "[^>]",
 										chars:      []rune{'>'},
 										ignoreCase: false,
@@ -962,7 +962,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 120, col: 19, offset: 2292},
+									pos:        position{line: 129, col: 19, offset: 2599},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -971,21 +971,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 125, col: 11, offset: 2372},
+						pos: position{line: 134, col: 11, offset: 2679},
 						run: (*parser).callonOperand8,
 						expr: &seqExpr{
-							pos: position{line: 125, col: 11, offset: 2372},
+							pos: position{line: 134, col: 11, offset: 2679},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 125, col: 11, offset: 2372},
+									pos:        position{line: 134, col: 11, offset: 2679},
 									val:        "[",
 									ignoreCase: false,
 									want:       "\"[\"",
 								},
 								&oneOrMoreExpr{
-									pos: position{line: 125, col: 15, offset: 2376},
+									pos: position{line: 134, col: 15, offset: 2683},
 									expr: &charClassMatcher{
-										pos:        position{line: 125, col: 15, offset: 2376},
+										pos:        position{line: 134, col: 15, offset: 2683},
 										val:        "[^]]",
 										chars:      []rune{']'},
 										ignoreCase: false,
@@ -993,7 +993,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 125, col: 22, offset: 2383},
+									pos:        position{line: 134, col: 22, offset: 2690},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -1002,21 +1002,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 135, col: 8, offset: 2575},
+						pos: position{line: 144, col: 8, offset: 2882},
 						run: (*parser).callonOperand14,
 						expr: &seqExpr{
-							pos: position{line: 135, col: 8, offset: 2575},
+							pos: position{line: 144, col: 8, offset: 2882},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 135, col: 8, offset: 2575},
+									pos:        position{line: 144, col: 8, offset: 2882},
 									val:        "{",
 									ignoreCase: false,
 									want:       "\"{\"",
 								},
 								&oneOrMoreExpr{
-									pos: position{line: 135, col: 12, offset: 2579},
+									pos: position{line: 144, col: 12, offset: 2886},
 									expr: &charClassMatcher{
-										pos:        position{line: 135, col: 12, offset: 2579},
+										pos:        position{line: 144, col: 12, offset: 2886},
 										val:        "[^}]",
 										chars:      []rune{'}'},
 										ignoreCase: false,
@@ -1024,7 +1024,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 135, col: 18, offset: 2585},
+									pos:        position{line: 144, col: 18, offset: 2892},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
@@ -1033,7 +1033,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 118, col: 34, offset: 2267},
+						pos:  position{line: 127, col: 34, offset: 2574},
 						name: "Value",
 					},
 				},
@@ -1041,31 +1041,31 @@ var g = &grammar{
 		},
 		{
 			name: "Expr",
-			pos:  position{line: 147, col: 1, offset: 2776},
+			pos:  position{line: 156, col: 1, offset: 3083},
 			expr: &choiceExpr{
-				pos: position{line: 147, col: 9, offset: 2784},
+				pos: position{line: 156, col: 9, offset: 3091},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 147, col: 9, offset: 2784},
+						pos:  position{line: 156, col: 9, offset: 3091},
 						name: "Call",
 					},
 					&actionExpr{
-						pos: position{line: 157, col: 13, offset: 3017},
+						pos: position{line: 166, col: 13, offset: 3324},
 						run: (*parser).callonExpr3,
 						expr: &seqExpr{
-							pos: position{line: 165, col: 10, offset: 3135},
+							pos: position{line: 174, col: 10, offset: 3442},
 							exprs: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 165, col: 10, offset: 3135},
+									pos:        position{line: 174, col: 10, offset: 3442},
 									val:        "[a-z]",
 									ranges:     []rune{'a', 'z'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 165, col: 16, offset: 3141},
+									pos: position{line: 174, col: 16, offset: 3448},
 									expr: &charClassMatcher{
-										pos:        position{line: 165, col: 16, offset: 3141},
+										pos:        position{line: 174, col: 16, offset: 3448},
 										val:        "[_a-zA-Z0-9]",
 										chars:      []rune{'_'},
 										ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -1077,21 +1077,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 161, col: 16, offset: 3080},
+						pos: position{line: 170, col: 16, offset: 3387},
 						run: (*parser).callonExpr8,
 						expr: &seqExpr{
-							pos: position{line: 161, col: 16, offset: 3080},
+							pos: position{line: 170, col: 16, offset: 3387},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 161, col: 16, offset: 3080},
+									pos:        position{line: 170, col: 16, offset: 3387},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&notExpr{
-									pos: position{line: 161, col: 20, offset: 3084},
+									pos: position{line: 170, col: 20, offset: 3391},
 									expr: &litMatcher{
-										pos:        position{line: 161, col: 21, offset: 3085},
+										pos:        position{line: 170, col: 21, offset: 3392},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
@@ -1105,24 +1105,24 @@ var g = &grammar{
 		},
 		{
 			name: "Call",
-			pos:  position{line: 149, col: 1, offset: 2815},
+			pos:  position{line: 158, col: 1, offset: 3122},
 			expr: &actionExpr{
-				pos: position{line: 149, col: 9, offset: 2823},
+				pos: position{line: 158, col: 9, offset: 3130},
 				run: (*parser).callonCall1,
 				expr: &seqExpr{
-					pos: position{line: 149, col: 9, offset: 2823},
+					pos: position{line: 158, col: 9, offset: 3130},
 					exprs: []interface{}{
 						&charClassMatcher{
-							pos:        position{line: 165, col: 10, offset: 3135},
+							pos:        position{line: 174, col: 10, offset: 3442},
 							val:        "[a-z]",
 							ranges:     []rune{'a', 'z'},
 							ignoreCase: false,
 							inverted:   false,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 165, col: 16, offset: 3141},
+							pos: position{line: 174, col: 16, offset: 3448},
 							expr: &charClassMatcher{
-								pos:        position{line: 165, col: 16, offset: 3141},
+								pos:        position{line: 174, col: 16, offset: 3448},
 								val:        "[_a-zA-Z0-9]",
 								chars:      []rune{'_'},
 								ranges:     []rune{'a', 'z', 'A', 'Z', '0', '9'},
@@ -1131,29 +1131,29 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 149, col: 15, offset: 2829},
+							pos:        position{line: 158, col: 15, offset: 3136},
 							val:        "(",
 							ignoreCase: false,
 							want:       "\"(\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -1161,7 +1161,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -1169,7 +1169,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1179,32 +1179,32 @@ var g = &grammar{
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 149, col: 21, offset: 2835},
+							pos:  position{line: 158, col: 21, offset: 3142},
 							name: "Expr",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 149, col: 26, offset: 2840},
+							pos: position{line: 158, col: 26, offset: 3147},
 							expr: &seqExpr{
-								pos: position{line: 149, col: 28, offset: 2842},
+								pos: position{line: 158, col: 28, offset: 3149},
 								exprs: []interface{}{
 									&zeroOrMoreExpr{
-										pos: position{line: 191, col: 6, offset: 3525},
+										pos: position{line: 200, col: 6, offset: 3832},
 										expr: &choiceExpr{
-											pos: position{line: 193, col: 10, offset: 3541},
+											pos: position{line: 202, col: 10, offset: 3848},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 197, col: 12, offset: 3594},
+													pos: position{line: 206, col: 12, offset: 3901},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 197, col: 12, offset: 3594},
+															pos:        position{line: 206, col: 12, offset: 3901},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 197, col: 17, offset: 3599},
+															pos: position{line: 206, col: 17, offset: 3906},
 															expr: &charClassMatcher{
-																pos:        position{line: 197, col: 17, offset: 3599},
+																pos:        position{line: 206, col: 17, offset: 3906},
 																val:        "[^\\n]",
 																chars:      []rune{'\n'},
 																ignoreCase: false,
@@ -1212,7 +1212,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
+															pos:        position{line: 211, col: 8, offset: 3969},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
@@ -1220,7 +1220,7 @@ var g = &grammar{
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 201, col: 15, offset: 3647},
+													pos:        position{line: 210, col: 15, offset: 3954},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1230,29 +1230,29 @@ var g = &grammar{
 										},
 									},
 									&litMatcher{
-										pos:        position{line: 149, col: 30, offset: 2844},
+										pos:        position{line: 158, col: 30, offset: 3151},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 191, col: 6, offset: 3525},
+										pos: position{line: 200, col: 6, offset: 3832},
 										expr: &choiceExpr{
-											pos: position{line: 193, col: 10, offset: 3541},
+											pos: position{line: 202, col: 10, offset: 3848},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 197, col: 12, offset: 3594},
+													pos: position{line: 206, col: 12, offset: 3901},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 197, col: 12, offset: 3594},
+															pos:        position{line: 206, col: 12, offset: 3901},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 197, col: 17, offset: 3599},
+															pos: position{line: 206, col: 17, offset: 3906},
 															expr: &charClassMatcher{
-																pos:        position{line: 197, col: 17, offset: 3599},
+																pos:        position{line: 206, col: 17, offset: 3906},
 																val:        "[^\\n]",
 																chars:      []rune{'\n'},
 																ignoreCase: false,
@@ -1260,7 +1260,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
+															pos:        position{line: 211, col: 8, offset: 3969},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
@@ -1268,7 +1268,7 @@ var g = &grammar{
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 201, col: 15, offset: 3647},
+													pos:        position{line: 210, col: 15, offset: 3954},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1278,27 +1278,27 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 149, col: 36, offset: 2850},
+										pos:  position{line: 158, col: 36, offset: 3157},
 										name: "Expr",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 191, col: 6, offset: 3525},
+										pos: position{line: 200, col: 6, offset: 3832},
 										expr: &choiceExpr{
-											pos: position{line: 193, col: 10, offset: 3541},
+											pos: position{line: 202, col: 10, offset: 3848},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 197, col: 12, offset: 3594},
+													pos: position{line: 206, col: 12, offset: 3901},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 197, col: 12, offset: 3594},
+															pos:        position{line: 206, col: 12, offset: 3901},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 197, col: 17, offset: 3599},
+															pos: position{line: 206, col: 17, offset: 3906},
 															expr: &charClassMatcher{
-																pos:        position{line: 197, col: 17, offset: 3599},
+																pos:        position{line: 206, col: 17, offset: 3906},
 																val:        "[^\\n]",
 																chars:      []rune{'\n'},
 																ignoreCase: false,
@@ -1306,7 +1306,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
+															pos:        position{line: 211, col: 8, offset: 3969},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
@@ -1314,7 +1314,7 @@ var g = &grammar{
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 201, col: 15, offset: 3647},
+													pos:        position{line: 210, col: 15, offset: 3954},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1327,23 +1327,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 191, col: 6, offset: 3525},
+							pos: position{line: 200, col: 6, offset: 3832},
 							expr: &choiceExpr{
-								pos: position{line: 193, col: 10, offset: 3541},
+								pos: position{line: 202, col: 10, offset: 3848},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 197, col: 12, offset: 3594},
+										pos: position{line: 206, col: 12, offset: 3901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 197, col: 12, offset: 3594},
+												pos:        position{line: 206, col: 12, offset: 3901},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 197, col: 17, offset: 3599},
+												pos: position{line: 206, col: 17, offset: 3906},
 												expr: &charClassMatcher{
-													pos:        position{line: 197, col: 17, offset: 3599},
+													pos:        position{line: 206, col: 17, offset: 3906},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -1351,7 +1351,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
+												pos:        position{line: 211, col: 8, offset: 3969},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -1359,7 +1359,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 201, col: 15, offset: 3647},
+										pos:        position{line: 210, col: 15, offset: 3954},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1369,7 +1369,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 149, col: 48, offset: 2862},
+							pos:        position{line: 158, col: 48, offset: 3169},
 							val:        ")",
 							ignoreCase: false,
 							want:       "\")\"",
@@ -1538,10 +1538,19 @@ func (c *current) onSExpr1(binding, op, operands, ellipsis, trailing interface{}
 	for _, is := range operands.([]interface{}) {
 		switch operand := is.([]interface{})[1].(type) {
 		case ast.Type:
+			if s.Type != "" {
+				return nil, errors.New("duplicate type")
+			}
 			s.Type = operand
 		case *valueauxint:
+			if s.AuxInt != nil {
+				return nil, errors.New("duplicate auxint")
+			}
 			s.AuxInt = (*ast.Expr)(operand)
 		case *valueaux:
+			if s.Aux != nil {
+				return nil, errors.New("duplicate aux")
+			}
 			s.Aux = (*ast.Expr)(operand)
 		case ast.Value:
 			s.Args = append(s.Args, operand)
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..9997a04 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -58,10 +58,19 @@ SExpr <- binding:( Variable ':' )? '(' _ op:Op operands:( __ Operand )* ellipsis
     for _, is := range operands.([]interface{}) {
         switch operand := is.([]interface{})[1].(type) {
         case ast.Type:
+            if s.Type != "" {
+                return nil, errors.New("duplicate type")
+            }
             s.Type = operand
         case *valueauxint:
+            if s.AuxInt != nil {
+                return nil, errors.New("duplicate auxint")
+            }
             s.AuxInt = (*ast.Expr)(operand)
         case *valueaux:
+            if s.Aux != nil {
+                return nil, errors.New("duplicate aux")
+            }
             s.Aux = (*ast.Expr)(operand)
         case ast.Value:
             s.Args = append(s.Args, operand)
-- 
2.43.0


From 86f96baa701886ad7f8c62e64072ba7d9888e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 07/11] fix: end a block at any whitespace or comment

A block followed by a line break swallowed the start of the next line.
---
 parse/internal/parser/zparser.go | 322 +++++++++++++++++--------------
 parse/rules.peg                  |   2 +-
 2 files changed, 178 insertions(+), 146 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 160919b..8820b1b 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -45,23 +45,23 @@ var g = &grammar{
 									pos: position{line: 19, col: 14, offset: 157},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 200, col: 6, offset: 3832},
+											pos: position{line: 200, col: 6, offset: 3826},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -69,7 +69,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -77,7 +77,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -91,23 +91,23 @@ var g = &grammar{
 											name: "Rule",
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 200, col: 6, offset: 3832},
+											pos: position{line: 200, col: 6, offset: 3826},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -115,7 +115,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -123,7 +123,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -137,9 +137,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 212, col: 8, offset: 3981},
+							pos: position{line: 212, col: 8, offset: 3975},
 							expr: &anyMatcher{
-								line: 212, col: 9, offset: 3982,
+								line: 212, col: 9, offset: 3976,
 							},
 						},
 					},
@@ -172,23 +172,23 @@ var g = &grammar{
 									pos: position{line: 30, col: 24, offset: 381},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 199, col: 7, offset: 3821},
+											pos: position{line: 199, col: 7, offset: 3815},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -196,7 +196,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -204,7 +204,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -220,23 +220,23 @@ var g = &grammar{
 											want:       "\"&&\"",
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 199, col: 7, offset: 3821},
+											pos: position{line: 199, col: 7, offset: 3815},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -244,7 +244,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -252,7 +252,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -290,23 +290,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -314,7 +314,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -322,7 +322,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -338,23 +338,23 @@ var g = &grammar{
 							want:       "\"=>\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -362,7 +362,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -370,7 +370,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -403,16 +403,48 @@ var g = &grammar{
 													exprs: []interface{}{
 														&notExpr{
 															pos: position{line: 193, col: 16, offset: 3750},
-															expr: &charClassMatcher{
-																pos:        position{line: 210, col: 15, offset: 3954},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
-																ignoreCase: false,
-																inverted:   false,
+															expr: &choiceExpr{
+																pos: position{line: 202, col: 10, offset: 3842},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 206, col: 12, offset: 3895},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 206, col: 12, offset: 3895},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 206, col: 17, offset: 3900},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 206, col: 17, offset: 3900},
+																					val:        "[^\\n]",
+																					chars:      []rune{'\n'},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																			&litMatcher{
+																				pos:        position{line: 211, col: 8, offset: 3963},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																		},
+																	},
+																	&charClassMatcher{
+																		pos:        position{line: 210, col: 15, offset: 3948},
+																		val:        "[ \\t\\r\\n]",
+																		chars:      []rune{' ', '\t', '\r', '\n'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
 															},
 														},
 														&anyMatcher{
-															line: 193, col: 28, offset: 3762,
+															line: 193, col: 22, offset: 3756,
 														},
 													},
 												},
@@ -423,23 +455,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -447,7 +479,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -455,7 +487,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -554,23 +586,23 @@ var g = &grammar{
 							want:       "\"(\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -578,7 +610,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -586,7 +618,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -712,23 +744,23 @@ var g = &grammar{
 									pos: position{line: 49, col: 59, offset: 789},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 199, col: 7, offset: 3821},
+											pos: position{line: 199, col: 7, offset: 3815},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -736,7 +768,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -744,7 +776,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -770,23 +802,23 @@ var g = &grammar{
 									pos: position{line: 49, col: 84, offset: 814},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 199, col: 7, offset: 3821},
+											pos: position{line: 199, col: 7, offset: 3815},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -794,7 +826,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -802,7 +834,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -830,23 +862,23 @@ var g = &grammar{
 									pos: position{line: 49, col: 106, offset: 836},
 									exprs: []interface{}{
 										&oneOrMoreExpr{
-											pos: position{line: 199, col: 7, offset: 3821},
+											pos: position{line: 199, col: 7, offset: 3815},
 											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3848},
+												pos: position{line: 202, col: 10, offset: 3842},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3901},
+														pos: position{line: 206, col: 12, offset: 3895},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3901},
+																pos:        position{line: 206, col: 12, offset: 3895},
 																val:        "//",
 																ignoreCase: false,
 																want:       "\"//\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3906},
+																pos: position{line: 206, col: 17, offset: 3900},
 																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3906},
+																	pos:        position{line: 206, col: 17, offset: 3900},
 																	val:        "[^\\n]",
 																	chars:      []rune{'\n'},
 																	ignoreCase: false,
@@ -854,7 +886,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3969},
+																pos:        position{line: 211, col: 8, offset: 3963},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
@@ -862,7 +894,7 @@ var g = &grammar{
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3954},
+														pos:        position{line: 210, col: 15, offset: 3948},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -882,23 +914,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -906,7 +938,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -914,7 +946,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1137,23 +1169,23 @@ var g = &grammar{
 							want:       "\"(\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -1161,7 +1193,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -1169,7 +1201,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1188,23 +1220,23 @@ var g = &grammar{
 								pos: position{line: 158, col: 28, offset: 3149},
 								exprs: []interface{}{
 									&zeroOrMoreExpr{
-										pos: position{line: 200, col: 6, offset: 3832},
+										pos: position{line: 200, col: 6, offset: 3826},
 										expr: &choiceExpr{
-											pos: position{line: 202, col: 10, offset: 3848},
+											pos: position{line: 202, col: 10, offset: 3842},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 206, col: 12, offset: 3901},
+													pos: position{line: 206, col: 12, offset: 3895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 206, col: 12, offset: 3901},
+															pos:        position{line: 206, col: 12, offset: 3895},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 206, col: 17, offset: 3906},
+															pos: position{line: 206, col: 17, offset: 3900},
 															expr: &charClassMatcher{
-																pos:        position{line: 206, col: 17, offset: 3906},
+																pos:        position{line: 206, col: 17, offset: 3900},
 																val:        "[^\\n]",
 																chars:      []rune{'\n'},
 																ignoreCase: false,
@@ -1212,7 +1244,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 211, col: 8, offset: 3969},
+															pos:        position{line: 211, col: 8, offset: 3963},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
@@ -1220,7 +1252,7 @@ var g = &grammar{
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 210, col: 15, offset: 3954},
+													pos:        position{line: 210, col: 15, offset: 3948},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1236,23 +1268,23 @@ var g = &grammar{
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 200, col: 6, offset: 3832},
+										pos: position{line: 200, col: 6, offset: 3826},
 										expr: &choiceExpr{
-											pos: position{line: 202, col: 10, offset: 3848},
+											pos: position{line: 202, col: 10, offset: 3842},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 206, col: 12, offset: 3901},
+													pos: position{line: 206, col: 12, offset: 3895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 206, col: 12, offset: 3901},
+															pos:        position{line: 206, col: 12, offset: 3895},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 206, col: 17, offset: 3906},
+															pos: position{line: 206, col: 17, offset: 3900},
 															expr: &charClassMatcher{
-																pos:        position{line: 206, col: 17, offset: 3906},
+																pos:        position{line: 206, col: 17, offset: 3900},
 																val:        "[^\\n]",
 																chars:      []rune{'\n'},
 																ignoreCase: false,
@@ -1260,7 +1292,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 211, col: 8, offset: 3969},
+															pos:        position{line: 211, col: 8, offset: 3963},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
@@ -1268,7 +1300,7 @@ var g = &grammar{
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 210, col: 15, offset: 3954},
+													pos:        position{line: 210, col: 15, offset: 3948},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1282,23 +1314,23 @@ var g = &grammar{
 										name: "Expr",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 200, col: 6, offset: 3832},
+										pos: position{line: 200, col: 6, offset: 3826},
 										expr: &choiceExpr{
-											pos: position{line: 202, col: 10, offset: 3848},
+											pos: position{line: 202, col: 10, offset: 3842},
 											alternatives: []interface{}{
 												&seqExpr{
-													pos: position{line: 206, col: 12, offset: 3901},
+													pos: position{line: 206, col: 12, offset: 3895},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 206, col: 12, offset: 3901},
+															pos:        position{line: 206, col: 12, offset: 3895},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 206, col: 17, offset: 3906},
+															pos: position{line: 206, col: 17, offset: 3900},
 															expr: &charClassMatcher{
-																pos:        position{line: 206, col: 17, offset: 3906},
+																pos:        position{line: 206, col: 17, offset: 3900},
 																val:        "[^\\n]",
 																chars:      []rune{'\n'},
 																ignoreCase: false,
@@ -1306,7 +1338,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 211, col: 8, offset: 3969},
+															pos:        position{line: 211, col: 8, offset: 3963},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
@@ -1314,7 +1346,7 @@ var g = &grammar{
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 210, col: 15, offset: 3954},
+													pos:        position{line: 210, col: 15, offset: 3948},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1327,23 +1359,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 200, col: 6, offset: 3832},
+							pos: position{line: 200, col: 6, offset: 3826},
 							expr: &choiceExpr{
-								pos: position{line: 202, col: 10, offset: 3848},
+								pos: position{line: 202, col: 10, offset: 3842},
 								alternatives: []interface{}{
 									&seqExpr{
-										pos: position{line: 206, col: 12, offset: 3901},
+										pos: position{line: 206, col: 12, offset: 3895},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 206, col: 12, offset: 3901},
+												pos:        position{line: 206, col: 12, offset: 3895},
 												val:        "//",
 												ignoreCase: false,
 												want:       "\"//\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 206, col: 17, offset: 3906},
+												pos: position{line: 206, col: 17, offset: 3900},
 												expr: &charClassMatcher{
-													pos:        position{line: 206, col: 17, offset: 3906},
+													pos:        position{line: 206, col: 17, offset: 3900},
 													val:        "[^\\n]",
 													chars:      []rune{'\n'},
 													ignoreCase: false,
@@ -1351,7 +1383,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3969},
+												pos:        position{line: 211, col: 8, offset: 3963},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
@@ -1359,7 +1391,7 @@ var g = &grammar{
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3954},
+										pos:        position{line: 210, col: 15, offset: 3948},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
diff --git a/parse/rules.peg b/parse/rules.peg
index 9997a04..44b46d1 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -190,7 +190,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !Skip .)+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 50a9b2ef3dadda9d7bc1f3e7de0cc97f970107ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 08/11] fix: allow => directly after a condition

The last character of a condition was never part of it, so a condition was only
accepted with whitespace before the deduction symbol.
---
 parse/internal/parser/zparser.go | 10 +++++-----
 parse/rules.peg                  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 8820b1b..3d9449e 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -269,18 +269,18 @@ var g = &grammar{
 												expr: &seqExpr{
 													pos: position{line: 178, col: 16, offset: 3492},
 													exprs: []interface{}{
-														&anyMatcher{
-															line: 178, col: 16, offset: 3492,
-														},
 														&notExpr{
-															pos: position{line: 178, col: 18, offset: 3494},
+															pos: position{line: 178, col: 16, offset: 3492},
 															expr: &litMatcher{
-																pos:        position{line: 178, col: 19, offset: 3495},
+																pos:        position{line: 178, col: 17, offset: 3493},
 																val:        "=>",
 																ignoreCase: false,
 																want:       "\"=>\"",
 															},
 														},
+														&anyMatcher{
+															line: 178, col: 16, offset: 3492,
+														},
 													},
 												},
 											},
diff --git a/parse/rules.peg b/parse/rules.peg
index 44b46d1..ba7bc84 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -175,7 +175,7 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 
 // Condition
 
-Condition <- ( . !"=>" )+ {
+Condition <- ( !"=>" . )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
     x = strings.TrimSpace(x)
-- 
2.43.0


From e55f33f3b103ea4dad41ee58325a716e1cd22f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 09/11] fix: accept comments at the end of a file and files
 without rules

A comment had to be terminated by a line break, even at the end of the file, and
whitespace and comments were only skipped next to a rule.
---
 parse/internal/parser/zparser.go | 500 +++++++++++++++++++++----------
 parse/rules.peg                  |   6 +-
 2 files changed, 352 insertions(+), 154 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3d9449e..0dd6fc6 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -31,61 +31,72 @@ var g = &grammar{
 			name: "File",
 			pos:  position{line: 19, col: 1, offset: 144},
 			expr: &actionExpr{
-				pos: position{line: 19, col: 9, offset: 152},
+				pos: position{line: 19, col: 11, offset: 154},
 				run: (*parser).callonFile1,
 				expr: &seqExpr{
-					pos: position{line: 19, col: 9, offset: 152},
+					pos: position{line: 19, col: 11, offset: 154},
 					exprs: []interface{}{
-						&labeledExpr{
-							pos:   position{line: 19, col: 9, offset: 152},
-							label: "rs",
-							expr: &zeroOrMoreExpr{
-								pos: position{line: 19, col: 12, offset: 155},
-								expr: &seqExpr{
-									pos: position{line: 19, col: 14, offset: 157},
-									exprs: []interface{}{
-										&zeroOrMoreExpr{
-											pos: position{line: 200, col: 6, offset: 3826},
-											expr: &choiceExpr{
-												pos: position{line: 202, col: 10, offset: 3842},
+						&zeroOrMoreExpr{
+							pos: position{line: 200, col: 6, offset: 3826},
+							expr: &choiceExpr{
+								pos: position{line: 202, col: 10, offset: 3842},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 206, col: 12, offset: 3895},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 206, col: 12, offset: 3895},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 206, col: 17, offset: 3900},
+												expr: &charClassMatcher{
+													pos:        position{line: 206, col: 17, offset: 3900},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
 												alternatives: []interface{}{
-													&seqExpr{
-														pos: position{line: 206, col: 12, offset: 3895},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 206, col: 12, offset: 3895},
-																val:        "//",
-																ignoreCase: false,
-																want:       "\"//\"",
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 206, col: 17, offset: 3900},
-																expr: &charClassMatcher{
-																	pos:        position{line: 206, col: 17, offset: 3900},
-																	val:        "[^\\n]",
-																	chars:      []rune{'\n'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
-														},
-													},
-													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
-														val:        "[ \\t\\r\\n]",
-														chars:      []rune{' ', '\t', '\r', '\n'},
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
 														ignoreCase: false,
-														inverted:   false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
 													},
 												},
 											},
 										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 210, col: 15, offset: 3958},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 19, col: 11, offset: 154},
+							label: "rs",
+							expr: &zeroOrMoreExpr{
+								pos: position{line: 19, col: 14, offset: 157},
+								expr: &seqExpr{
+									pos: position{line: 19, col: 15, offset: 158},
+									exprs: []interface{}{
 										&ruleRefExpr{
 											pos:  position{line: 19, col: 16, offset: 159},
 											name: "Rule",
@@ -114,16 +125,27 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
+															&choiceExpr{
+																pos: position{line: 206, col: 26, offset: 3909},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 211, col: 8, offset: 3973},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 212, col: 8, offset: 3985},
+																		expr: &anyMatcher{
+																			line: 212, col: 9, offset: 3986,
+																		},
+																	},
+																},
 															},
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
+														pos:        position{line: 210, col: 15, offset: 3958},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -137,9 +159,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 212, col: 8, offset: 3975},
+							pos: position{line: 212, col: 8, offset: 3985},
 							expr: &anyMatcher{
-								line: 212, col: 9, offset: 3976,
+								line: 212, col: 9, offset: 3986,
 							},
 						},
 					},
@@ -195,16 +217,27 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
+															&choiceExpr{
+																pos: position{line: 206, col: 26, offset: 3909},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 211, col: 8, offset: 3973},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 212, col: 8, offset: 3985},
+																		expr: &anyMatcher{
+																			line: 212, col: 9, offset: 3986,
+																		},
+																	},
+																},
 															},
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
+														pos:        position{line: 210, col: 15, offset: 3958},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -243,16 +276,27 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
+															&choiceExpr{
+																pos: position{line: 206, col: 26, offset: 3909},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 211, col: 8, offset: 3973},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 212, col: 8, offset: 3985},
+																		expr: &anyMatcher{
+																			line: 212, col: 9, offset: 3986,
+																		},
+																	},
+																},
 															},
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
+														pos:        position{line: 210, col: 15, offset: 3958},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -313,16 +357,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -361,16 +416,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -425,16 +491,27 @@ var g = &grammar{
 																					inverted:   true,
 																				},
 																			},
-																			&litMatcher{
-																				pos:        position{line: 211, col: 8, offset: 3963},
-																				val:        "\n",
-																				ignoreCase: false,
-																				want:       "\"\\n\"",
+																			&choiceExpr{
+																				pos: position{line: 206, col: 26, offset: 3909},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 211, col: 8, offset: 3973},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 212, col: 8, offset: 3985},
+																						expr: &anyMatcher{
+																							line: 212, col: 9, offset: 3986,
+																						},
+																					},
+																				},
 																			},
 																		},
 																	},
 																	&charClassMatcher{
-																		pos:        position{line: 210, col: 15, offset: 3948},
+																		pos:        position{line: 210, col: 15, offset: 3958},
 																		val:        "[ \\t\\r\\n]",
 																		chars:      []rune{' ', '\t', '\r', '\n'},
 																		ignoreCase: false,
@@ -478,16 +555,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -609,16 +697,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -767,16 +866,27 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
+															&choiceExpr{
+																pos: position{line: 206, col: 26, offset: 3909},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 211, col: 8, offset: 3973},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 212, col: 8, offset: 3985},
+																		expr: &anyMatcher{
+																			line: 212, col: 9, offset: 3986,
+																		},
+																	},
+																},
 															},
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
+														pos:        position{line: 210, col: 15, offset: 3958},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -825,16 +935,27 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
+															&choiceExpr{
+																pos: position{line: 206, col: 26, offset: 3909},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 211, col: 8, offset: 3973},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 212, col: 8, offset: 3985},
+																		expr: &anyMatcher{
+																			line: 212, col: 9, offset: 3986,
+																		},
+																	},
+																},
 															},
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
+														pos:        position{line: 210, col: 15, offset: 3958},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -885,16 +1006,27 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 211, col: 8, offset: 3963},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
+															&choiceExpr{
+																pos: position{line: 206, col: 26, offset: 3909},
+																alternatives: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 211, col: 8, offset: 3973},
+																		val:        "\n",
+																		ignoreCase: false,
+																		want:       "\"\\n\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 212, col: 8, offset: 3985},
+																		expr: &anyMatcher{
+																			line: 212, col: 9, offset: 3986,
+																		},
+																	},
+																},
 															},
 														},
 													},
 													&charClassMatcher{
-														pos:        position{line: 210, col: 15, offset: 3948},
+														pos:        position{line: 210, col: 15, offset: 3958},
 														val:        "[ \\t\\r\\n]",
 														chars:      []rune{' ', '\t', '\r', '\n'},
 														ignoreCase: false,
@@ -937,16 +1069,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1192,16 +1335,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1243,16 +1397,27 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 211, col: 8, offset: 3963},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
+														&choiceExpr{
+															pos: position{line: 206, col: 26, offset: 3909},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 211, col: 8, offset: 3973},
+																	val:        "\n",
+																	ignoreCase: false,
+																	want:       "\"\\n\"",
+																},
+																&notExpr{
+																	pos: position{line: 212, col: 8, offset: 3985},
+																	expr: &anyMatcher{
+																		line: 212, col: 9, offset: 3986,
+																	},
+																},
+															},
 														},
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 210, col: 15, offset: 3948},
+													pos:        position{line: 210, col: 15, offset: 3958},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1291,16 +1456,27 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 211, col: 8, offset: 3963},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
+														&choiceExpr{
+															pos: position{line: 206, col: 26, offset: 3909},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 211, col: 8, offset: 3973},
+																	val:        "\n",
+																	ignoreCase: false,
+																	want:       "\"\\n\"",
+																},
+																&notExpr{
+																	pos: position{line: 212, col: 8, offset: 3985},
+																	expr: &anyMatcher{
+																		line: 212, col: 9, offset: 3986,
+																	},
+																},
+															},
 														},
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 210, col: 15, offset: 3948},
+													pos:        position{line: 210, col: 15, offset: 3958},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1337,16 +1513,27 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 211, col: 8, offset: 3963},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
+														&choiceExpr{
+															pos: position{line: 206, col: 26, offset: 3909},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 211, col: 8, offset: 3973},
+																	val:        "\n",
+																	ignoreCase: false,
+																	want:       "\"\\n\"",
+																},
+																&notExpr{
+																	pos: position{line: 212, col: 8, offset: 3985},
+																	expr: &anyMatcher{
+																		line: 212, col: 9, offset: 3986,
+																	},
+																},
+															},
 														},
 													},
 												},
 												&charClassMatcher{
-													pos:        position{line: 210, col: 15, offset: 3948},
+													pos:        position{line: 210, col: 15, offset: 3958},
 													val:        "[ \\t\\r\\n]",
 													chars:      []rune{' ', '\t', '\r', '\n'},
 													ignoreCase: false,
@@ -1382,16 +1569,27 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 211, col: 8, offset: 3963},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
+											&choiceExpr{
+												pos: position{line: 206, col: 26, offset: 3909},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 211, col: 8, offset: 3973},
+														val:        "\n",
+														ignoreCase: false,
+														want:       "\"\\n\"",
+													},
+													&notExpr{
+														pos: position{line: 212, col: 8, offset: 3985},
+														expr: &anyMatcher{
+															line: 212, col: 9, offset: 3986,
+														},
+													},
+												},
 											},
 										},
 									},
 									&charClassMatcher{
-										pos:        position{line: 210, col: 15, offset: 3948},
+										pos:        position{line: 210, col: 15, offset: 3958},
 										val:        "[ \\t\\r\\n]",
 										chars:      []rune{' ', '\t', '\r', '\n'},
 										ignoreCase: false,
@@ -1416,7 +1614,7 @@ var g = &grammar{
 func (c *current) onFile1(rs interface{}) (interface{}, error) {
 	f := &ast.File{}
 	for _, i := range rs.([]interface{}) {
-		r := i.([]interface{})[1].(*ast.Rule)
+		r := i.([]interface{})[0].(*ast.Rule)
 		f.Rules = append(f.Rules, r)
 	}
 	return f, nil
diff --git a/parse/rules.peg b/parse/rules.peg
index ba7bc84..565a9b8 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,10 +16,10 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- _ rs:( Rule _ )* EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
-        r := i.([]interface{})[1].(*ast.Rule)
+        r := i.([]interface{})[0].(*ast.Rule)
         f.Rules = append(f.Rules, r)
     }
     return f, nil
@@ -203,7 +203,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]* ( EOL / EOF )
 
 // Character classes
 
-- 
2.43.0


From c562496c40caa9760fb1a42406d4a14429c217dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 10/11] fix: keep variable names apart from SMT-LIB symbols

---
 smt2/generate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..3741709 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -109,9 +109,12 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
+	// Declare under a name that cannot be taken for an SMT-LIB symbol.
+	name := "v_" + string(v)
+
+	g.printf("(declare-const %s %s)\n", name, s)
 	g.vars[v] = &value{
-		Expr: string(v),
+		Expr: name,
 		Type: t,
 	}
 
-- 
2.43.0


From d0c4b67b4348fcf78517bbff47663b1a75b28601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 11/11] fix: declare a new constant for every placeholder

---
 smt2/generate.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 3741709..ffdfd2a 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -31,6 +31,8 @@ type generator struct {
 	ops  map[ast.Opcode]operation
 	vars map[ast.Variable]*value
 	err  error
+
+	placeholders int // number declared
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -91,8 +93,8 @@ func (g *generator) eval(val ast.Value, t gotypes.Type) (*value, error) {
 }
 
 func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
-	// Has variable been declared already?
-	if val, ok := g.vars[v]; ok {
+	// Has variable been declared already? Every placeholder is a new value.
+	if val, ok := g.vars[v]; ok && v != ast.Placeholder {
 		if t != nil && !gotypes.Identical(val.Type, t) {
 			return nil, fmt.Errorf("inconsistent types for variable %s", v)
 		}
@@ -111,6 +113,10 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 
 	// Declare under a name that cannot be taken for an SMT-LIB symbol.
 	name := "v_" + string(v)
+	if v == ast.Placeholder {
+		g.placeholders++
+		name = fmt.Sprintf("p_%d", g.placeholders)
+	}
 
 	g.printf("(declare-const %s %s)\n", name, s)
 	g.vars[v] = &value{
-- 
2.43.0

