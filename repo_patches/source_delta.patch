From e2302435bd2189f6a2ddc5868ad45b044970626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 01/44] fix: serialize calls to the v6 C parser, its state is
 global

---
 v6/pkg/tsl/tsl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..b424a80 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,10 +23,14 @@ package tsl
 */
 import "C"
 import (
+	"sync"
 	"time"
 	"unsafe"
 )
 
+// parserMutex serializes calls to the C parser, its state is global.
+var parserMutex sync.Mutex
+
 // TSLNode represents an tree search language AST (Abstract Syntax Tree) node
 type TSLNode struct {
 	cNode *C.ast_node
@@ -48,6 +52,9 @@ func ParseTSL(input string) (*TSLNode, error) {
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
+	parserMutex.Lock()
+	defer parserMutex.Unlock()
+
 	cNode := C.parse_input_string(cInput)
 	if cNode == nil {
 		errStr := C.GoString(C.get_error_string())
-- 
2.43.0


From a8327095fcf3cc557dbf0d6f1932fd3f66ab5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 02/44] fix: an unknown character is a syntax error, not the
 end of the filter

---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..4f08e33 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -191,7 +191,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF;
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..973fbc2 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1180,7 +1180,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF;
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From 65849fa872bfe4417d1c4685c774f7606f0d5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 03/44] fix: reject v6 filters with an embedded NUL instead of
 cutting them short

---
 v6/pkg/tsl/tsl.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index b424a80..419970b 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"sync"
 	"time"
 	"unsafe"
@@ -49,6 +50,15 @@ type TSLArrayLiteral struct {
 
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	// The C parser would take a NUL byte for the end of the input
+	if pos := strings.IndexByte(input, 0); pos >= 0 {
+		return nil, &SyntaxError{
+			Message:  "syntax error",
+			Position: pos,
+			Input:    input,
+		}
+	}
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From 5ac4a6b80e974bea6f6ce505753dbf08b3193723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 04/44] fix: a size suffix with a capital I is binary too

---
 v6/pkg/tsl/tsl_ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..3c34410 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -24,7 +24,7 @@ ast_node *ast_create_number(const char *value_str) {
     
     if (*endptr != '\0') {  // Has suffix
         double multiplier = 1024.0;  // Default to binary (Ki)
-        if (*(endptr + 1) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
+        if (tolower(*(endptr + 1)) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
             multiplier = 1000.0;
         }
         switch(tolower(*endptr)) {
-- 
2.43.0


From 3fdac9b4148f7ddb417f4b13a5e3bc1419a33271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 05/44] fix: a v6 syntax error before the first token can be
 printed

---
 v6/pkg/tsl/errors.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/errors.go b/v6/pkg/tsl/errors.go
index ba34543..f5468a3 100644
--- a/v6/pkg/tsl/errors.go
+++ b/v6/pkg/tsl/errors.go
@@ -12,7 +12,8 @@ type SyntaxError struct {
 
 // Error implements the error interface
 func (e *SyntaxError) Error() string {
-	pointer := make([]rune, e.Position)
+	// The position is negative if the input ends before the first token
+	pointer := make([]rune, max(e.Position, 0))
 	for i := range pointer {
 		pointer[i] = ' '
 	}
-- 
2.43.0


From d83db6396fdc6d7b576879c4cf3ffbf6cbfcb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 06/44] fix: free the pieces of a failed parse and of array
 literals

---
 v6/pkg/parser/tsl_parser.y  |   9 +-
 v6/pkg/tsl/tsl_parser.tab.c | 319 ++++++++++++++++++++++++------------
 2 files changed, 220 insertions(+), 108 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..81474cc 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -60,16 +60,20 @@ char *error_string = NULL;
 %right UMINUS                      /* unary minus */
 
 /* Nonterminal types */
-%type <node> input expr or_expr and_expr comparison_expr
+%type <node> expr or_expr and_expr comparison_expr
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
+/* Release what a failed parse leaves behind */
+%destructor { ast_free($$); } <node>
+%destructor { free($$); } <str>
+
 %start input
 
 %%
 
 input:
-    expr { $$ = $1; ast_root = $1; }
+    expr { ast_root = $1; }
     ;
 
 expr:
@@ -192,6 +196,7 @@ array_elements:
                                       $$ = ast_create_array($1->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free($1);
+                                      ast_free($3);
                                     }
     ;
 
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..a8d48af 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -574,12 +574,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+       0,    76,    76,    80,    84,    85,    89,    90,    94,    95,
+      96,    97,    98,    99,   100,   101,   102,   103,   104,   105,
+     109,   113,   114,   118,   126,   135,   136,   143,   144,   145,
+     149,   150,   151,   152,   156,   157,   158,   159,   160,   161,
+     165,   166,   167,   168,   169,   173,   177,   178,   179,   183,
+     189,   204,   205,   206,   207,   208,   209,   210
 };
 #endif
 
@@ -943,7 +943,113 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 69 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 68 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1206,118 +1312,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
-         { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 76 "tsl_parser.y"
+         { ast_root = (yyvsp[0].node); }
+#line 1318 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 85 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
-#line 86 "tsl_parser.y"
+#line 90 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
-#line 91 "tsl_parser.y"
+#line 95 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
-#line 92 "tsl_parser.y"
+#line 96 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
-#line 93 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
-#line 94 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
-#line 95 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
-#line 96 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
-#line 97 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
-#line 98 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+#line 105 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1399 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 109 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1408 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+#line 113 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+#line 114 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1423 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+#line 118 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1432,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1436 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+#line 126 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,145 +1446,145 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1450 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+#line 135 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+#line 136 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1465 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+#line 144 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+#line 145 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+#line 150 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+#line 151 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+#line 157 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+#line 158 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+#line 166 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+#line 167 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+#line 173 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+#line 177 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+#line 178 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+#line 183 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1584 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+#line 189 "tsl_parser.y"
                                     {
                                       ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
@@ -1489,54 +1595,55 @@ yyreduce:
                                       (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
+                                      ast_free((yyvsp[0].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1601 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+#line 204 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1607 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1613 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1619 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1625 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1631 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1637 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1643 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1647 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1836,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 213 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From 25d7aa4d0e8680d73cd5403b56f17e34c765fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 07/44] fix: attaching the child a node already has does not
 free it

---
 v6/pkg/tsl/tsl_ast.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 3c34410..be3970d 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -259,7 +259,7 @@ ast_node *ast_detach_unary_child(ast_node *node) {
 int ast_attach_binary_left(ast_node *node, ast_node *child) {
     if (!node || node->type != AST_BINARY_OP) return 0;
     
-    if (node->data.binary.left) {
+    if (node->data.binary.left != child) {
         ast_free(node->data.binary.left);
     }
     node->data.binary.left = child;
@@ -269,7 +269,7 @@ int ast_attach_binary_left(ast_node *node, ast_node *child) {
 int ast_attach_binary_right(ast_node *node, ast_node *child) {
     if (!node || node->type != AST_BINARY_OP) return 0;
     
-    if (node->data.binary.right) {
+    if (node->data.binary.right != child) {
         ast_free(node->data.binary.right);
     }
     node->data.binary.right = child;
@@ -279,7 +279,7 @@ int ast_attach_binary_right(ast_node *node, ast_node *child) {
 int ast_attach_unary_child(ast_node *node, ast_node *child) {
     if (!node || node->type != AST_UNARY_OP) return 0;
     
-    if (node->data.unary.child) {
+    if (node->data.unary.child != child) {
         ast_free(node->data.unary.child);
     }
     node->data.unary.child = child;
-- 
2.43.0


From 363a4cb633b5dd2c30ad3d12204622ddf291b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 08/44] fix: nodes whose child was detached, and freed nodes,
 can be read

---
 v6/pkg/tsl/tsl.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 419970b..fa5a0e3 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -89,7 +89,7 @@ func ParseTSL(input string) (*TSLNode, error) {
 
 // Free releases the memory allocated for the AST
 func (n *TSLNode) Free() {
-	if n.cNode != nil {
+	if n != nil && n.cNode != nil {
 		C.ast_free(n.cNode)
 		n.cNode = nil
 	}
@@ -103,8 +103,19 @@ func (n *TSLNode) Clone() *TSLNode {
 	return &TSLNode{cNode: C.ast_clone(n.cNode)}
 }
 
-// Type returns the type of the node
+// newNode wraps a C node, a detached child has none
+func newNode(cNode *C.ast_node) *TSLNode {
+	if cNode == nil {
+		return nil
+	}
+	return &TSLNode{cNode: cNode}
+}
+
+// Type returns the type of the node, a freed or missing node has no known type
 func (n *TSLNode) Type() Kind {
+	if n == nil || n.cNode == nil {
+		return Kind(-1)
+	}
 	return Kind(n.cNode._type)
 }
 
@@ -129,14 +140,14 @@ func (n *TSLNode) Value() interface{} {
 	case KindBinaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_binary_op(n.cNode)),
-			Left:     &TSLNode{cNode: C.get_binary_left(n.cNode)},
-			Right:    &TSLNode{cNode: C.get_binary_right(n.cNode)},
+			Left:     newNode(C.get_binary_left(n.cNode)),
+			Right:    newNode(C.get_binary_right(n.cNode)),
 		}
 	case KindUnaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_unary_op(n.cNode)),
 			Left:     nil,
-			Right:    &TSLNode{cNode: C.get_unary_child(n.cNode)},
+			Right:    newNode(C.get_unary_child(n.cNode)),
 		}
 	case KindArrayLiteral:
 		size := int(C.get_array_size(n.cNode))
@@ -190,7 +201,7 @@ func (n *TSLNode) DetachChild() *TSLNode {
 
 // AttachLeft safely attaches a child node as the left child of a binary expression node
 func (n *TSLNode) AttachLeft(child *TSLNode) bool {
-	if n == nil || child == nil || n.Type() != KindBinaryExpr {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindBinaryExpr {
 		return false
 	}
 	return C.ast_attach_binary_left(n.cNode, child.cNode) != 0
@@ -198,7 +209,7 @@ func (n *TSLNode) AttachLeft(child *TSLNode) bool {
 
 // AttachRight safely attaches a child node as the right child of a binary expression node
 func (n *TSLNode) AttachRight(child *TSLNode) bool {
-	if n == nil || child == nil || n.Type() != KindBinaryExpr {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindBinaryExpr {
 		return false
 	}
 	return C.ast_attach_binary_right(n.cNode, child.cNode) != 0
@@ -206,7 +217,7 @@ func (n *TSLNode) AttachRight(child *TSLNode) bool {
 
 // AttachChild safely attaches a child node to a unary expression node
 func (n *TSLNode) AttachChild(child *TSLNode) bool {
-	if n == nil || child == nil || n.Type() != KindUnaryExpr {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindUnaryExpr {
 		return false
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
-- 
2.43.0


From bac34fa9239465aae7e8a938f77d26ce332ffaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 09/44] fix: identifiers inside array literals are checked and
 replaced too

---
 v6/pkg/tsl/tsl.go            |  8 ++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 24 ++++++++++++++++++++++++
 4 files changed, 44 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index fa5a0e3..e72610b 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -222,3 +222,11 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely replaces an element of an array literal node
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || child.cNode == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index be3970d..5152f2f 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -285,3 +285,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+    
+    if (node->data.array.elements[index] != child) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..3251c43 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -62,6 +62,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..3fc7276 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -70,6 +70,9 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		treeCopy.Free() // Clean up the copy if there's an error
 		return nil, err
 	}
+	if newTree != treeCopy {
+		treeCopy.Free() // The root was replaced
+	}
 
 	return newTree, nil
 }
@@ -146,6 +149,27 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		array := n.Value().(tsl.TSLArrayLiteral)
+
+		// Process all the elements
+		for i, element := range array.Values {
+			if element.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(element, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(element, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From ec7d3e0c3fc66a03063190a6133bcc133ad05cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 10/44] fix: SQL for date literals, and for timestamps with a
 zone offset or a fraction

---
 v6/pkg/walkers/sql/walk.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..d1d5e7a 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -42,9 +42,14 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindNumericLiteral:
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
-		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
-		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
+		switch t := n.Value().(type) {
+		case time.Time:
+			// Format time value using SQL timestamp format, in UTC
+			s = sq.Expr("?", t.UTC().Format("2006-01-02 15:04:05.999999999"))
+		default:
+			// Short dates, and text that only looks like a timestamp
+			s = sq.Expr("?", t)
+		}
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
 	case tsl.KindBooleanLiteral:
-- 
2.43.0


From e4a3ecf7532edb6834b3d81e6d4d99a5df67e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 11/44] fix: SQL keeps the grouping of comparisons and
 negations used as operands

---
 v6/pkg/walkers/sql/walk.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index d1d5e7a..96373d2 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -83,7 +83,7 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	var err error
 
 	for i, node := range array.Values {
-		values[i], err = Walk(node)
+		values[i], err = walkOperand(node)
 		if err != nil {
 			return nil, err
 		}
@@ -92,11 +92,42 @@ func walkArrayValues(n *tsl.TSLNode) ([]sq.Sqlizer, error) {
 	return values, nil
 }
 
+// walkOperand walks the operand of an operator that binds tighter than NOT and
+// the comparison operators, operands using these need parentheses.
+func walkOperand(n *tsl.TSLNode) (sq.Sqlizer, error) {
+	s, err := Walk(n)
+	if err != nil {
+		return nil, err
+	}
+
+	switch n.Type() {
+	case tsl.KindBinaryExpr:
+		switch n.Value().(tsl.TSLExpressionOp).Operator {
+		case tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpAnd, tsl.OpOr:
+			// These have their own parentheses
+		default:
+			s = sq.Expr("(?)", s)
+		}
+	case tsl.KindUnaryExpr:
+		if n.Value().(tsl.TSLExpressionOp).Operator == tsl.OpNot {
+			s = sq.Expr("(?)", s)
+		}
+	}
+
+	return s, nil
+}
+
 func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	var l sq.Sqlizer
 	op := n.Value().(tsl.TSLExpressionOp)
 
-	l, err = Walk(op.Left)
+	// The operands of AND and OR need no parentheses
+	walk := walkOperand
+	if op.Operator == tsl.OpAnd || op.Operator == tsl.OpOr {
+		walk = Walk
+	}
+
+	l, err = walk(op.Left)
 	if err != nil {
 		return
 	}
@@ -122,7 +153,7 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 
 	// For non-array operations, handle normally
-	r, err := Walk(op.Right)
+	r, err := walk(op.Right)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From ecbbf7d5819c3b931afe4113d7914043231ab5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 12/44] fix: SQL for IN with an empty list

---
 v6/pkg/walkers/sql/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 96373d2..7bb0886 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -139,6 +139,9 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(values) == 0 {
+			return sq.Expr("(1=0)"), nil // Nothing is in an empty list
+		}
 		return sq.Expr("? IN ("+placeholders(len(values))+")", append([]interface{}{l}, sqlizersToInterface(values)...)...), nil
 
 	case tsl.OpBetween:
-- 
2.43.0


From a540405a648970ca3b2d345d9b94379697253c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 13/44] fix: modulus by a fraction below one is a division by
 zero, not a panic

---
 v6/pkg/walkers/semantics/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..12ee537 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -234,7 +234,7 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		}
 		return leftNum / rightNum, nil
 	case tsl.OpPercent:
-		if rightNum == 0 {
+		if int64(rightNum) == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
 		return float64(int64(leftNum) % int64(rightNum)), nil
-- 
2.43.0


From 44900d0932a64374930662b76573aa44c26c4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 14/44] fix: comparing maps, slices and functions does not
 panic

---
 v6/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 12ee537..b796032 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,6 +208,10 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
+	// Maps, slices and the like can not be compared by Go’s built‑in equality
+	if !reflect.ValueOf(leftVal).Comparable() || !reflect.ValueOf(rightVal).Comparable() {
+		return reflect.DeepEqual(leftVal, rightVal), nil
+	}
 	// Fallback to Go’s built‑in equality for identical types
 	return leftVal == rightVal, nil
 }
-- 
2.43.0


From c205e899d625eb997864418e889694b003d3df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 15/44] fix: IN and BETWEEN compare dates and numbers as the
 comparison operators do

---
 v6/pkg/walkers/semantics/evaluators.go | 63 +++++---------------------
 1 file changed, 11 insertions(+), 52 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..a60f1c6 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -67,38 +67,13 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 
 	switch value.(type) {
 	case string, float64, time.Time, bool:
-		// Continue with existing type-specific checks
-		switch v := value.(type) {
-		case string:
-			for _, item := range arr {
-				if str, ok := item.(string); ok && str == v {
-					return true, nil
-				}
+		for _, item := range arr {
+			equal, err := evaluateEquality(value, item)
+			if err != nil {
+				return false, err
 			}
-		case float64:
-			for _, item := range arr {
-				switch i := item.(type) {
-				case float64:
-					if i == v {
-						return true, nil
-					}
-				case int:
-					if float64(i) == v {
-						return true, nil
-					}
-				}
-			}
-		case time.Time:
-			for _, item := range arr {
-				if t, ok := item.(time.Time); ok && t.Equal(v) {
-					return true, nil
-				}
-			}
-		case bool:
-			for _, item := range arr {
-				if b, ok := item.(bool); ok && b == v {
-					return true, nil
-				}
+			if equal {
+				return true, nil
 			}
 		}
 		return false, nil
@@ -113,26 +88,9 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 // isValueInRange checks if a value is within a range (inclusive)
 // Supports both numeric values and time.Time comparisons
 func isValueInRange(value, min, max interface{}) (bool, error) {
-	switch v := value.(type) {
-	case float64:
+	if v, ok := toFloat64(value); ok {
 		minVal, okMin := toFloat64(min)
 		maxVal, okMax := toFloat64(max)
-		if okMin && okMax {
-			return v >= minVal && v <= maxVal, nil
-		}
-		// Try int conversion if float64 conversion failed
-		if !okMin {
-			if minInt, ok := min.(int); ok {
-				minVal = float64(minInt)
-				okMin = true
-			}
-		}
-		if !okMax {
-			if maxInt, ok := max.(int); ok {
-				maxVal = float64(maxInt)
-				okMax = true
-			}
-		}
 		if !okMin || !okMax {
 			return false, &tsl.TypeMismatchError{
 				Expected: "numeric values",
@@ -140,9 +98,10 @@ func isValueInRange(value, min, max interface{}) (bool, error) {
 			}
 		}
 		return v >= minVal && v <= maxVal, nil
-	case time.Time:
-		minTime, okMin := min.(time.Time)
-		maxTime, okMax := max.(time.Time)
+	}
+	if v, ok := toDate(value); ok {
+		minTime, okMin := toDate(min)
+		maxTime, okMax := toDate(max)
 		if !okMin || !okMax {
 			return false, &tsl.TypeMismatchError{
 				Expected: "time values",
-- 
2.43.0


From fdb86001c2c80481848cc1d5bc1b44efcd10898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 16/44] fix: LIKE patterns match regular expression characters
 literally, wildcards match newlines

---
 v6/pkg/walkers/semantics/evaluators.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index a60f1c6..171678d 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -135,10 +135,11 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
+	// Convert SQL LIKE pattern to regex pattern, other characters match themselves
+	patternStr = regexp.QuoteMeta(patternStr)
 	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
 	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
+	matched, _ := regexp.MatchString("(?s)^"+patternStr+"$", valueStr)
 	return matched, nil
 }
 
-- 
2.43.0


From 1948fdd1811593f41d1d8de2bb430ecdd5f64855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 17/44] fix: escape the values in Graphviz labels

---
 v6/pkg/walkers/graphviz/walk.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..d5a3606 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -48,16 +48,21 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in record labels
+var escapeLabel = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, `{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`, "\n", `\n`, "\r", `\r`,
+).Replace
+
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
 	if in != "" {
 		in = fmt.Sprintf("%s\n", in)
 	}
-	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
+	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 		nodeID,
 		style,
 		nodeType.String(),
-		value)
+		escapeLabel(fmt.Sprint(value)))
 	return fmt.Sprintf("%s%s", in, nodeStr)
 }
 
-- 
2.43.0


From 6e32bcb21737e6dddee32c42b0e89c54db3e35c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 18/44] fix: Graphviz nodes have distinct names, the input text
 is not repeated per node

---
 v6/pkg/walkers/graphviz/walk.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index d5a3606..065eca3 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -75,15 +75,16 @@ func formatOperatorNode(nodeID string, operator string) string {
 }
 
 // handleChildren processes child nodes and returns their formatted string and IDs
-func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error) {
+func handleChildren(children []*tsl.TSLNode, prefix string, count *int) (string, []string, error) {
 	childrenIDs := []string{}
 	result := ""
 
 	for _, child := range children {
-		childID := randStr(4)
+		*count++
+		childID := fmt.Sprintf("%s_%d", prefix, *count)
 		childrenIDs = append(childrenIDs, childID)
 
-		r, err := Walk(in, child, childID)
+		r, err := walk("", child, childID, prefix, count)
 		if err != nil {
 			return "", nil, err
 		}
@@ -111,10 +112,19 @@ func handleChildren(in string, children []*tsl.TSLNode) (string, []string, error
 //	s, err = graphviz.Walk("", tree, "")
 //	s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
+	// Number the nodes of a tree, random names alone may repeat or be DOT keywords
+	prefix := randStr(4)
+	count := 0
+
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = fmt.Sprintf("%s_%d", prefix, count)
 	}
 
+	return walk(in, n, nodeID, prefix, &count)
+}
+
+// walk is Walk for a node of a tree, count is the number of children named so far
+func walk(in string, n *tsl.TSLNode, nodeID string, prefix string, count *int) (out string, err error) {
 	switch n.Type() {
 	case tsl.KindIdentifier:
 		out = formatLeafNodeWithInput(in, nodeID, identStyle, n.Type(), fmt.Sprintf("'%s'", n.Value()))
@@ -132,7 +142,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Left, expr.Right})
+		childrenStr, childrenIDs, err := handleChildren([]*tsl.TSLNode{expr.Left, expr.Right}, prefix, count)
 		if err != nil {
 			return "", err
 		}
@@ -143,7 +153,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
 
-		childrenStr, childrenIDs, err := handleChildren(in, []*tsl.TSLNode{expr.Right})
+		childrenStr, childrenIDs, err := handleChildren([]*tsl.TSLNode{expr.Right}, prefix, count)
 		if err != nil {
 			return "", err
 		}
@@ -156,7 +166,7 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		// Use arrayStyle instead of opStyle for arrays
 		st = strings.Replace(st, opStyle, arrayStyle, 1)
 
-		childrenStr, childrenIDs, err := handleChildren(in, array.Values)
+		childrenStr, childrenIDs, err := handleChildren(array.Values, prefix, count)
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0


From 267cd132275f55185073e8a2a9158f123673466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:24 +0000
Subject: [PATCH 19/44] fix: draw the null literal in Graphviz output

---
 v6/pkg/walkers/graphviz/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 065eca3..61717e7 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -35,6 +35,7 @@ const stringStyle = baseRecordStyle + " color=blue"
 const booleanStyle = baseRecordStyle + " color=purple"
 const dateStyle = baseRecordStyle + " color=orange"
 const timestampStyle = baseRecordStyle + " color=orange"
+const nullStyle = baseRecordStyle + " color=gray"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
@@ -138,6 +139,8 @@ func walk(in string, n *tsl.TSLNode, nodeID string, prefix string, count *int) (
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, timestampStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, nullStyle, n.Type(), n.Value())
 	case tsl.KindBinaryExpr:
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
-- 
2.43.0


From 27caf051e67eb3dfd4034b6b3156ebce6b74e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 20/44] fix: YAML of texts with line breaks reads back

---
 v6/pkg/tsl/marshal.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/tsl/marshal.go b/v6/pkg/tsl/marshal.go
index ed58a0f..c6b4ae7 100644
--- a/v6/pkg/tsl/marshal.go
+++ b/v6/pkg/tsl/marshal.go
@@ -1,6 +1,11 @@
 package tsl
 
-import "encoding/json"
+import (
+	"encoding/json"
+	"strings"
+
+	"gopkg.in/yaml.v3"
+)
 
 // MarshalJSON implements json.Marshaler interface
 func (n *TSLNode) MarshalJSON() ([]byte, error) {
@@ -89,9 +94,15 @@ func (n *TSLNode) MarshalYAML() (interface{}, error) {
 		}, nil
 	}
 
+	value := n.Value()
+	if s, ok := value.(string); ok && strings.Contains(s, "\n") {
+		// Quote texts of several lines, the block style loses some leading line breaks and spaces
+		value = &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Style: yaml.DoubleQuotedStyle, Value: s}
+	}
+
 	// For all other node types, use the default alias
 	return nodeAlias{
 		Type:  n.Type().String(),
-		Value: n.Value(),
+		Value: value,
 	}, nil
 }
-- 
2.43.0


From 6cf2241afedfd293ce0c89eed4fa78ae78fa7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 21/44] fix: v4 and v5 arithmetic follows precedence, left to
 right

---
 v4/pkg/tsl/consts.go   | 12 +++++++++
 v4/pkg/tsl/listener.go | 55 ++++++++++++++++++++++++++++++++++++++----
 v5/pkg/tsl/consts.go   | 12 +++++++++
 v5/pkg/tsl/listener.go | 55 ++++++++++++++++++++++++++++++++++++++----
 4 files changed, 124 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/tsl/consts.go b/v4/pkg/tsl/consts.go
index cd340c8..3e095e9 100644
--- a/v4/pkg/tsl/consts.go
+++ b/v4/pkg/tsl/consts.go
@@ -65,3 +65,15 @@ var opDic = map[string]string{
 	"/":  DivideOp,
 	"%":  ModuloOp,
 }
+
+// groupOp marks a parenthesized math operation while parsing.
+const groupOp = "$group"
+
+// mathPrecedence maps math operators to their precedence.
+var mathPrecedence = map[string]int{
+	AddOp:      1,
+	SubtractOp: 1,
+	MultiplyOp: 2,
+	DivideOp:   2,
+	ModuloOp:   2,
+}
diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index 3b27280..e5e4d5f 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -276,9 +276,18 @@ func (l *Listener) ExitOr(c *parser.OrContext) {
 	l.push(n)
 }
 
+// ExitMathPar is called when production MathPar is exited.
+func (l *Listener) ExitMathPar(c *parser.MathParContext) {
+	// Mark the parenthesized operation, so its operands are not regrouped.
+	l.push(Node{
+		Func: groupOp,
+		Left: l.popMath(),
+	})
+}
+
 // exitMathOps is called when production math operator is exited.
 func (l *Listener) exitMathOps(op string) {
-	right, left := l.pop(), l.pop()
+	right, left := l.popMath(), l.popMath()
 
 	// Check right op is not a string.
 	if right.Func == StringOp {
@@ -286,13 +295,43 @@ func (l *Listener) exitMathOps(op string) {
 		return
 	}
 
-	n := Node{
+	l.push(joinMath(op, left, right))
+}
+
+// joinMath joins two operands of a math operator.
+//
+// The grammar reads the right operand of an operator greedily, operands are regrouped here to follow
+// the precedence of the operators, operators of the same precedence are evaluated from left to right.
+func joinMath(op string, left Node, right Node) Node {
+	if p, ok := mathPrecedence[right.Func]; ok && p <= mathPrecedence[op] {
+		right.Left = joinMath(op, left, right.Left.(Node))
+		return right
+	}
+
+	if p, ok := mathPrecedence[left.Func]; ok && p < mathPrecedence[op] {
+		left.Right = joinMath(op, left.Right.(Node), right)
+		return left
+	}
+
+	return Node{
 		Func:  op,
 		Left:  left,
 		Right: right,
 	}
+}
 
-	l.push(n)
+// ungroup removes the parentheses marks of a math operation.
+func ungroup(n Node) Node {
+	for n.Func == groupOp {
+		n = n.Left.(Node)
+	}
+
+	if _, ok := mathPrecedence[n.Func]; ok {
+		n.Left = ungroup(n.Left.(Node))
+		n.Right = ungroup(n.Right.(Node))
+	}
+
+	return n
 }
 
 // ExitColumnIdentifier is called when exiting a literal production.
@@ -330,8 +369,14 @@ func (l *Listener) push(i Node) {
 	l.Stack = append(l.Stack, i)
 }
 
-// pop is a helper function for poping a node from the listener Stack.
-func (l *Listener) pop() (n Node) {
+// pop is a helper function for poping a complete node from the listener Stack.
+func (l *Listener) pop() Node {
+	return ungroup(l.popMath())
+}
+
+// popMath is a helper function for poping a node, that may be a part of
+// a math operation, from the listener Stack.
+func (l *Listener) popMath() (n Node) {
 	// Check that we have nodes in the stack.
 	size := len(l.Stack)
 	if size < 1 {
diff --git a/v5/pkg/tsl/consts.go b/v5/pkg/tsl/consts.go
index f784158..912b830 100644
--- a/v5/pkg/tsl/consts.go
+++ b/v5/pkg/tsl/consts.go
@@ -67,3 +67,15 @@ var opDic = map[string]string{
 	"/":  DivideOp,
 	"%":  ModuloOp,
 }
+
+// groupOp marks a parenthesized math operation while parsing.
+const groupOp = "$group"
+
+// mathPrecedence maps math operators to their precedence.
+var mathPrecedence = map[string]int{
+	AddOp:      1,
+	SubtractOp: 1,
+	MultiplyOp: 2,
+	DivideOp:   2,
+	ModuloOp:   2,
+}
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..747a797 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -345,9 +345,18 @@ func (l *Listener) ExitOr(c *parser.OrContext) {
 	l.push(n)
 }
 
+// ExitMathPar is called when production MathPar is exited.
+func (l *Listener) ExitMathPar(c *parser.MathParContext) {
+	// Mark the parenthesized operation, so its operands are not regrouped.
+	l.push(Node{
+		Func: groupOp,
+		Left: l.popMath(),
+	})
+}
+
 // exitMathOps is called when production math operator is exited.
 func (l *Listener) exitMathOps(op string) {
-	right, left := l.pop(), l.pop()
+	right, left := l.popMath(), l.popMath()
 
 	// Check right op is not a string.
 	if right.Func == StringOp {
@@ -355,13 +364,43 @@ func (l *Listener) exitMathOps(op string) {
 		return
 	}
 
-	n := Node{
+	l.push(joinMath(op, left, right))
+}
+
+// joinMath joins two operands of a math operator.
+//
+// The grammar reads the right operand of an operator greedily, operands are regrouped here to follow
+// the precedence of the operators, operators of the same precedence are evaluated from left to right.
+func joinMath(op string, left Node, right Node) Node {
+	if p, ok := mathPrecedence[right.Func]; ok && p <= mathPrecedence[op] {
+		right.Left = joinMath(op, left, right.Left.(Node))
+		return right
+	}
+
+	if p, ok := mathPrecedence[left.Func]; ok && p < mathPrecedence[op] {
+		left.Right = joinMath(op, left.Right.(Node), right)
+		return left
+	}
+
+	return Node{
 		Func:  op,
 		Left:  left,
 		Right: right,
 	}
+}
 
-	l.push(n)
+// ungroup removes the parentheses marks of a math operation.
+func ungroup(n Node) Node {
+	for n.Func == groupOp {
+		n = n.Left.(Node)
+	}
+
+	if _, ok := mathPrecedence[n.Func]; ok {
+		n.Left = ungroup(n.Left.(Node))
+		n.Right = ungroup(n.Right.(Node))
+	}
+
+	return n
 }
 
 // ExitColumnIdentifier is called when exiting a literal production.
@@ -399,8 +438,14 @@ func (l *Listener) push(i Node) {
 	l.Stack = append(l.Stack, i)
 }
 
-// pop is a helper function for poping a node from the listener Stack.
-func (l *Listener) pop() (n Node) {
+// pop is a helper function for poping a complete node from the listener Stack.
+func (l *Listener) pop() Node {
+	return ungroup(l.popMath())
+}
+
+// popMath is a helper function for poping a node, that may be a part of
+// a math operation, from the listener Stack.
+func (l *Listener) popMath() (n Node) {
 	// Check that we have nodes in the stack.
 	size := len(l.Stack)
 	if size < 1 {
-- 
2.43.0


From 6facafefc4a7bd7b7e9a42be75b8188154bc9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 22/44] fix: v4 and v5 IN lists keep all their values, in order

---
 v4/pkg/tsl/listener.go | 19 +++++++------------
 v5/pkg/tsl/listener.go | 19 +++++++------------
 2 files changed, 14 insertions(+), 24 deletions(-)

diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index e5e4d5f..cb83be5 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -207,7 +207,7 @@ func (l *Listener) ExitIsNull(c *parser.IsNullContext) {
 func (l *Listener) ExitIn(c *parser.InContext) {
 	right := Node{
 		Func:  ArrayOp,
-		Right: l.popLiterals([]Node{}),
+		Right: l.popLiterals(len(c.AllLiteralValue())),
 	}
 	left := l.pop()
 	op := ternaryOp(c.KeyNot() == nil, InOp, NotInOp)
@@ -349,19 +349,14 @@ func ternaryOp(conditional bool, lh string, rh string) string {
 	return rh
 }
 
-// popLiterals collect literal values, and create args list.
-func (l *Listener) popLiterals(in []Node) (out []Node) {
-	// Get a literal from stack.
-	p := l.pop()
-
-	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
-		return l.popLiterals(append(in, p))
+// popLiterals collect n literal values, and create args list.
+func (l *Listener) popLiterals(n int) []Node {
+	out := make([]Node, n)
+	for i := n - 1; i >= 0; i-- {
+		out[i] = l.pop()
 	}
 
-	// If p is not a literal, add it back to stack and exit.
-	l.push(p)
-	return in
+	return out
 }
 
 // push is a helper function for pushing new node to the listener Stack.
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index 747a797..a0ce9c2 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -276,7 +276,7 @@ func (l *Listener) ExitIsNull(c *parser.IsNullContext) {
 func (l *Listener) ExitIn(c *parser.InContext) {
 	right := Node{
 		Func:  ArrayOp,
-		Right: l.popLiterals([]Node{}),
+		Right: l.popLiterals(len(c.AllLiteralValue())),
 	}
 	left := l.pop()
 	op := ternaryOp(c.KeyNot() == nil, InOp, NotInOp)
@@ -418,19 +418,14 @@ func ternaryOp(conditional bool, lh string, rh string) string {
 	return rh
 }
 
-// popLiterals collect literal values, and create args list.
-func (l *Listener) popLiterals(in []Node) (out []Node) {
-	// Get a literal from stack.
-	p := l.pop()
-
-	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
-		return l.popLiterals(append(in, p))
+// popLiterals collect n literal values, and create args list.
+func (l *Listener) popLiterals(n int) []Node {
+	out := make([]Node, n)
+	for i := n - 1; i >= 0; i-- {
+		out[i] = l.pop()
 	}
 
-	// If p is not a literal, add it back to stack and exit.
-	l.push(p)
-	return in
+	return out
 }
 
 // push is a helper function for pushing new node to the listener Stack.
-- 
2.43.0


From ae3aa6475b8a2b9d4642ec8892eb420dcd047d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 23/44] fix: v4 and v5 do not walk the tree of an input with
 syntax errors

---
 v4/pkg/tsl/tsl.go | 11 +++++++----
 v5/pkg/tsl/tsl.go | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 5d1f08a..4952732 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -40,16 +40,19 @@ func ParseTSL(input string) (tree Node, err error) {
 	p.RemoveErrorListeners()
 	p.AddErrorListener(errorListener)
 
-	// Parse the expression (by walking the tree).
-	var listener Listener
-	antlr.ParseTreeWalkerDefault.Walk(&listener, p.Start())
+	// Parse the expression.
+	start := p.Start()
 
-	// Check for errors.
+	// Check for errors, the tree of an input with errors may be incomplete.
 	err = errorListener.Err
 	if err != nil {
 		return
 	}
 
+	// Walk the tree.
+	var listener Listener
+	antlr.ParseTreeWalkerDefault.Walk(&listener, start)
+
 	// Get the parsed tree.
 	tree, err = listener.GetTree()
 
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index c882193..1a4076a 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -40,16 +40,19 @@ func ParseTSL(input string) (tree Node, err error) {
 	p.RemoveErrorListeners()
 	p.AddErrorListener(errorListener)
 
-	// Parse the expression (by walking the tree).
-	var listener Listener
-	antlr.ParseTreeWalkerDefault.Walk(&listener, p.Start())
+	// Parse the expression.
+	start := p.Start()
 
-	// Check for errors.
+	// Check for errors, the tree of an input with errors may be incomplete.
 	err = errorListener.Err
 	if err != nil {
 		return
 	}
 
+	// Walk the tree.
+	var listener Listener
+	antlr.ParseTreeWalkerDefault.Walk(&listener, start)
+
 	// Get the parsed tree.
 	tree, err = listener.GetTree()
 
-- 
2.43.0


From 95d3078340ffa2d44463c7d1a3dc67fab15bf0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 24/44] fix: v4 and v5 ParseTSL is safe for concurrent use

---
 v4/pkg/tsl/tsl.go | 8 ++++++++
 v5/pkg/tsl/tsl.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 4952732..8739530 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -16,13 +16,21 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
+// parseMutex guards the lexer and parser state that all generated parsers share.
+var parseMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index 1a4076a..0c2bca1 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -16,13 +16,21 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
+// parseMutex guards the lexer and parser state that all generated parsers share.
+var parseMutex sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseMutex.Lock()
+	defer parseMutex.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
-- 
2.43.0


From f8b7ab2d20c26c27a8b3df907c1f04f6066481fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 25/44] fix: v5 evaluates nested arithmetic and remainders

---
 v5/pkg/walkers/semantics/walk.go | 52 +++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..52606fe 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"math"
 	"regexp"
 	"strings"
 	"time"
@@ -83,7 +84,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if isMathOp(l) {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +106,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if isMathOp(r) {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
@@ -286,24 +287,36 @@ func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	return n, nil
 }
 
-func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
-	var err error
+// isMathOp checks if a node is a math operator.
+func isMathOp(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
 
-	left := n.Left.(tsl.Node)
-	right := n.Right.(tsl.Node)
+	return false
+}
 
-	// Check for identifiers.
-	if left.Func == tsl.IdentOp {
-		left, err = evalIdentNode(left, eval)
-		if err != nil {
-			return n, err
-		}
+// evalOperand evaluates an operand of a math operator.
+func evalOperand(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	if n.Func == tsl.IdentOp {
+		return evalIdentNode(n, eval)
 	}
-	if right.Func == tsl.IdentOp {
-		right, err = evalIdentNode(right, eval)
-		if err != nil {
-			return n, err
-		}
+	if isMathOp(n) {
+		return handleMathOp(n, eval)
+	}
+
+	return n, nil
+}
+
+func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	left, err := evalOperand(n.Left.(tsl.Node), eval)
+	if err != nil {
+		return n, err
+	}
+	right, err := evalOperand(n.Right.(tsl.Node), eval)
+	if err != nil {
+		return n, err
 	}
 
 	// Check for null
@@ -341,6 +354,11 @@ func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 			Func: tsl.NumberOp,
 			Left: left.Left.(float64) / right.Left.(float64),
 		}
+	case tsl.ModuloOp:
+		n = tsl.Node{
+			Func: tsl.NumberOp,
+			Left: math.Mod(left.Left.(float64), right.Left.(float64)),
+		}
 	default:
 		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v %v", left.Left, right.Left)}
 	}
-- 
2.43.0


From b96ec9c1d6b42414fbf91250e39c80db1f14b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 26/44] fix: v4 and v5 BETWEEN includes its upper bound, as in
 SQL

---
 v4/pkg/walkers/semantics/walk.go |  8 ++++----
 v5/pkg/walkers/semantics/walk.go | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..06a81f5 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -277,11 +277,11 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -310,11 +310,11 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 52606fe..777020d 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -578,7 +578,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(string)
 		if !ok {
@@ -588,7 +588,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -631,7 +631,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(float64)
 		if !ok {
@@ -641,7 +641,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -684,7 +684,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return !left.Before(begin) && left.Before(end), nil
+		return !left.Before(begin) && !left.After(end), nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(time.Time)
 		if !ok {
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left.Before(begin) || !left.Before(end), nil
+		return left.Before(begin) || left.After(end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0


From 684fbb8115a3f0825bf8af3e6be81025ca21cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 27/44] fix: v5 compares dates as instants

---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 777020d..d2dc0bc 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -473,9 +473,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -702,7 +702,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -712,7 +712,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From 49f1e2bcfa1c0d3d0849df7c3792857817c1ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 28/44] fix: v4 and v5 LIKE wildcards match line breaks

---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 06a81f5..46f5ecc 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -370,7 +370,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index d2dc0bc..44348e0 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -758,7 +758,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From 0886ee7b43739da40c4ca49feadeeaa23fb2ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 29/44] fix: v5 comparing with a list field is an error, not a
 panic

---
 v5/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 44348e0..f4e68cd 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -132,6 +132,11 @@ func runSemantics(n tsl.Node, eval EvalFunc) (bool, error) {
 			return false, nil
 		}
 
+		// A list value of a record is not a list of literals.
+		if r.Func == tsl.ArrayOp && r.Right == nil {
+			return false, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+		}
+
 		switch l.Func {
 		case tsl.ArrayOp:
 			// This is a case of "has-many-table.fld IN (...)"
-- 
2.43.0


From 3237f98e895449a34ffe08d12494c7456d6d5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 30/44] fix: v4 lists with values of another type are an error,
 not a panic

---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 46f5ecc..b3e3c8f 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			v, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == v
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			v, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != v
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			v, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == v
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			v, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != v
 		}
 		return b, nil
 	}
-- 
2.43.0


From ba5174ba9f700c1ebeb3aa6aa94d2810f975b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 31/44] fix: v5 numbers too large with a unit are refused

---
 v5/pkg/tsl/listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index a0ce9c2..e888e2c 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -102,6 +102,10 @@ func (l *Listener) ExitNumberLiteral(c *parser.NumberLiteralContext) {
 		l.Errs = append(l.Errs, err)
 	}
 
+	if math.IsInf(f*multiplier, 0) && err == nil {
+		l.Errs = append(l.Errs, strconv.ErrRange)
+	}
+
 	l.exitLiteral(NumberOp, f*multiplier)
 }
 
-- 
2.43.0


From 7347ca82b76b6de9fbcab6fdd769143e47a3473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 32/44] fix: v5 SQL compares columns with columns and
 arithmetic

---
 v5/pkg/walkers/sql/walk.go | 49 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..aff65bf 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -120,6 +120,11 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// Check for an identifier or a math operation on the right hand side.
+	if r, ok := n.Right.(tsl.Node); ok && isExpression(r) {
+		return compareStep(n.Func, sql, r)
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
@@ -169,6 +174,48 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	return
 }
 
+// isExpression checks if a node is an identifier or a math operation.
+func isExpression(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
+// sqlOps maps the operators that accept an expression on their right hand side.
+var sqlOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+	tsl.LikeOp:  "LIKE",
+	tsl.ILikeOp: "ILIKE",
+}
+
+// compareStep handle comparing to an expression, an expression is a part of the SQL, not an argument.
+func compareStep(op string, left string, right tsl.Node) (s sq.Sqlizer, err error) {
+	sqlOp, ok := sqlOps[op]
+	if !ok {
+		return nil, tsl.UnexpectedLiteralError{Literal: op}
+	}
+
+	r, err := Walk(right)
+	if err != nil {
+		return nil, err
+	}
+
+	sql, args, err := r.ToSql()
+	if err != nil {
+		return nil, err
+	}
+
+	return sq.Expr(fmt.Sprintf("%s %s %s", left, sqlOp, sql), args...), nil
+}
+
 // Walk travel the TSL tree to create squirrel SQL select operators.
 //
 // Users can call the Walk method inside a squirrel Where to add the query.
@@ -190,7 +237,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		s = sq.Expr(f)
 	case tsl.DateOp:
 		f := n.Left.(time.Time).Format(time.RFC3339)
-		s = sq.Expr(f)
+		s = sq.Expr("'" + f + "'")
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.BooleanOp:
-- 
2.43.0


From 7872a40e20930271ff3f6b4a233375e7d6bec2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 33/44] fix: v4 and v5 mongo filters refuse what they can not
 express

---
 v4/pkg/walkers/mongo/walk.go | 105 +++++++++++++++++++++++++++++------
 v5/pkg/walkers/mongo/walk.go | 105 +++++++++++++++++++++++++++++------
 2 files changed, 176 insertions(+), 34 deletions(-)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..87a651a 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -23,15 +23,38 @@ import (
 	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
 )
 
-// Returns the identifier setring from an IdentOp operator node.
-func identString(n interface{}) string {
+// Returns the identifier string from an IdentOp operator node.
+func identString(n interface{}) (string, error) {
 	// This is an identifier.
-	if str, ok := n.(tsl.Node).Left.(string); ok {
-		return str
+	node := n.(tsl.Node)
+	if node.Func == tsl.IdentOp {
+		return node.Left.(string), nil
 	}
 
-	// This is not an identifier.
-	return ""
+	// This is not an identifier, a mongo filter compares fields.
+	return "", tsl.UnexpectedLiteralError{Literal: node.Func}
+}
+
+// Returns the value of a literal node.
+func literalValue(n interface{}) (interface{}, error) {
+	node := n.(tsl.Node)
+	switch node.Func {
+	case tsl.StringOp, tsl.NumberOp:
+		return node.Left, nil
+	}
+
+	// This is not a literal, a mongo filter compares fields with literals.
+	return nil, tsl.UnexpectedLiteralError{Literal: node.Func}
+}
+
+// Returns the regular expression from a string node.
+func regexValue(n interface{}) (primitive.Regex, error) {
+	node := n.(tsl.Node)
+	if node.Func != tsl.StringOp {
+		return primitive.Regex{}, tsl.UnexpectedLiteralError{Literal: node.Func}
+	}
+
+	return primitive.Regex{Pattern: node.Left.(string)}, nil
 }
 
 // bsonFromArray helper method creates a slice of bson values from an interface,
@@ -46,6 +69,7 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+	values = make([]interface{}, 0, len(nodes))
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
@@ -78,6 +102,9 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 //
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
+	var value interface{}
+	var regex primitive.Regex
+	var ident string
 	var l, r bson.D
 
 	// Note: tsl function constants should be the same as mongo bson
@@ -96,23 +123,63 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		value, err = literalValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, bson.D{{n.Func, value}}}}
 	case tsl.InOp, tsl.NotInOp:
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
 			return
 		}
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, values}}}}
+		b = bson.D{{ident, bson.D{{n.Func, values}}}}
 	case tsl.IsNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", false}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, bson.D{{"$exists", false}}}}
 	case tsl.IsNotNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", true}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{identString(n.Left), primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		regex, err = regexValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, regex}}
 	case tsl.NotRegexOp:
-		b = bson.D{{identString(n.Left),
-			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		regex, err = regexValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident,
+			bson.D{{"$not", regex}}}}
 	case tsl.BetweenOp:
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
 		// Mongo does not have a between function, translating sql's between into
 		// two none eq operators.
 		// Note: sql's between operator is inclusive: begin and end values are included.
@@ -122,10 +189,14 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$and",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$gte", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$lte", values[1]}}}},
+				bson.D{{ident, bson.D{{"$gte", values[0]}}}},
+				bson.D{{ident, bson.D{{"$lte", values[1]}}}},
 			}}}
 	case tsl.NotBetweenOp:
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
 		// Mongo does not have a between function, translating sql's not between into
 		// two none eq operators.
 		values, err = bsonFromArray(n.Right)
@@ -134,8 +205,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$or",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$lt", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$gt", values[1]}}}},
+				bson.D{{ident, bson.D{{"$lt", values[0]}}}},
+				bson.D{{ident, bson.D{{"$gt", values[1]}}}},
 			}}}
 	default:
 		// If here than the operator is not supported.
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..826d10b 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -23,15 +23,38 @@ import (
 	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
 )
 
-// Returns the identifier setring from an IdentOp operator node.
-func identString(n interface{}) string {
+// Returns the identifier string from an IdentOp operator node.
+func identString(n interface{}) (string, error) {
 	// This is an identifier.
-	if str, ok := n.(tsl.Node).Left.(string); ok {
-		return str
+	node := n.(tsl.Node)
+	if node.Func == tsl.IdentOp {
+		return node.Left.(string), nil
 	}
 
-	// This is not an identifier.
-	return ""
+	// This is not an identifier, a mongo filter compares fields.
+	return "", tsl.UnexpectedLiteralError{Literal: node.Func}
+}
+
+// Returns the value of a literal node.
+func literalValue(n interface{}) (interface{}, error) {
+	node := n.(tsl.Node)
+	switch node.Func {
+	case tsl.StringOp, tsl.NumberOp, tsl.BooleanOp, tsl.DateOp:
+		return node.Left, nil
+	}
+
+	// This is not a literal, a mongo filter compares fields with literals.
+	return nil, tsl.UnexpectedLiteralError{Literal: node.Func}
+}
+
+// Returns the regular expression from a string node.
+func regexValue(n interface{}) (primitive.Regex, error) {
+	node := n.(tsl.Node)
+	if node.Func != tsl.StringOp {
+		return primitive.Regex{}, tsl.UnexpectedLiteralError{Literal: node.Func}
+	}
+
+	return primitive.Regex{Pattern: node.Left.(string)}, nil
 }
 
 // bsonFromArray helper method creates a slice of bson values from an interface,
@@ -46,6 +69,7 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 	}
 
 	nodes := n.Right.([]tsl.Node)
+	values = make([]interface{}, 0, len(nodes))
 	for _, v := range nodes {
 		// Check node value type.
 		switch l := v.Left.(type) {
@@ -78,6 +102,9 @@ func bsonFromArray(a interface{}) (values []interface{}, err error) {
 //
 func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
+	var value interface{}
+	var regex primitive.Regex
+	var ident string
 	var l, r bson.D
 
 	// Note: tsl function constants should be the same as mongo bson
@@ -96,23 +123,63 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{n.Func, bson.A{l, r}}}
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp:
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, n.Right.(tsl.Node).Left}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		value, err = literalValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, bson.D{{n.Func, value}}}}
 	case tsl.InOp, tsl.NotInOp:
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
 		values, err = bsonFromArray(n.Right)
 		if err != nil {
 			return
 		}
-		b = bson.D{{identString(n.Left), bson.D{{n.Func, values}}}}
+		b = bson.D{{ident, bson.D{{n.Func, values}}}}
 	case tsl.IsNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", false}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, bson.D{{"$exists", false}}}}
 	case tsl.IsNotNilOp:
-		b = bson.D{{identString(n.Left), bson.D{{"$exists", true}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, bson.D{{"$exists", true}}}}
 	case tsl.RegexOp:
-		b = bson.D{{identString(n.Left), primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		regex, err = regexValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident, regex}}
 	case tsl.NotRegexOp:
-		b = bson.D{{identString(n.Left),
-			bson.D{{"$not", primitive.Regex{n.Right.(tsl.Node).Left.(string), ""}}}}}
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
+		regex, err = regexValue(n.Right)
+		if err != nil {
+			return
+		}
+		b = bson.D{{ident,
+			bson.D{{"$not", regex}}}}
 	case tsl.BetweenOp:
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
 		// Mongo does not have a between function, translating sql's between into
 		// two none eq operators.
 		// Note: sql's between operator is inclusive: begin and end values are included.
@@ -122,10 +189,14 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$and",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$gte", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$lte", values[1]}}}},
+				bson.D{{ident, bson.D{{"$gte", values[0]}}}},
+				bson.D{{ident, bson.D{{"$lte", values[1]}}}},
 			}}}
 	case tsl.NotBetweenOp:
+		ident, err = identString(n.Left)
+		if err != nil {
+			return
+		}
 		// Mongo does not have a between function, translating sql's not between into
 		// two none eq operators.
 		values, err = bsonFromArray(n.Right)
@@ -134,8 +205,8 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 		}
 		b = bson.D{{"$or",
 			bson.A{
-				bson.D{{identString(n.Left), bson.D{{"$lt", values[0]}}}},
-				bson.D{{identString(n.Left), bson.D{{"$gt", values[1]}}}},
+				bson.D{{ident, bson.D{{"$lt", values[0]}}}},
+				bson.D{{ident, bson.D{{"$gt", values[1]}}}},
 			}}}
 	default:
 		// If here than the operator is not supported.
-- 
2.43.0


From 58e21a024c1ea34a6d9f895116c1ddd1a5a87a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 34/44] fix: v4 and v5 escape the values in Graphviz labels

---
 v4/pkg/walkers/graphviz/walk.go | 9 +++++++--
 v5/pkg/walkers/graphviz/walk.go | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..8f559f3 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -42,6 +42,11 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in record labels.
+var escapeLabel = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, `{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`, "\n", `\n`, "\r", `\r`,
+).Replace
+
 // Walk travel the TSL tree to create Graphviz dot nodes.
 //
 // Users can call the Walk method to get the dot file graph string.
@@ -77,7 +82,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -85,7 +90,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..ea0925b 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -43,6 +43,11 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that have a meaning in record labels.
+var escapeLabel = strings.NewReplacer(
+	`\`, `\\`, `"`, `\"`, `{`, `\{`, `}`, `\}`, `|`, `\|`, `<`, `\<`, `>`, `\>`, "\n", `\n`, "\r", `\r`,
+).Replace
+
 // Walk travel the TSL tree to create Graphviz dot nodes.
 //
 // Users can call the Walk method to get the dot file graph string.
@@ -78,7 +83,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -86,7 +91,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-- 
2.43.0


From b40107c54fb130ee3d24ffefeaa98bf8842afbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 35/44] fix: v4 and v5 Graphviz nodes have distinct names, the
 input text is not repeated per node

---
 v4/pkg/walkers/graphviz/walk.go | 21 ++++++++++++++++-----
 v5/pkg/walkers/graphviz/walk.go | 21 ++++++++++++++++-----
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index 8f559f3..b10fe59 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -65,11 +65,20 @@ var escapeLabel = strings.NewReplacer(
 //   s, err = graphviz.Walk("", tree, "")
 //   s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
+	// Number the nodes of a tree, random names alone may repeat or be DOT keywords.
+	prefix := randStr(4)
+	count := 0
+
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = fmt.Sprintf("%s_%d", prefix, count)
 	}
 
+	return walk(in, n, nodeID, prefix, &count)
+}
+
+// walk is Walk for a node of a tree, count is the number of children named so far.
+func walk(in string, n tsl.Node, nodeID string, prefix string, count *int) (out string, err error) {
 	// If we have in string, add a new line break.
 	if in != "" {
 		in = fmt.Sprintf("%s\n", in)
@@ -110,10 +119,11 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			*count++
+			leftID := fmt.Sprintf("%s_%d", prefix, *count)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := walk("", n.Left.(tsl.Node), leftID, prefix, count)
 			if err != nil {
 				return "", err
 			}
@@ -133,10 +143,11 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				*count++
+				rightID := fmt.Sprintf("%s_%d", prefix, *count)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := walk("", v, rightID, prefix, count)
 				if err != nil {
 					return "", err
 				}
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index ea0925b..78413be 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -66,11 +66,20 @@ var escapeLabel = strings.NewReplacer(
 //   s, err = graphviz.Walk("", tree, "")
 //   s = fmt.Sprintf("digraph {\n%s\n}\n", s)
 func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
+	// Number the nodes of a tree, random names alone may repeat or be DOT keywords.
+	prefix := randStr(4)
+	count := 0
+
 	// If node ID is missing, create one.
 	if nodeID == "" {
-		nodeID = randStr(4)
+		nodeID = fmt.Sprintf("%s_%d", prefix, count)
 	}
 
+	return walk(in, n, nodeID, prefix, &count)
+}
+
+// walk is Walk for a node of a tree, count is the number of children named so far.
+func walk(in string, n tsl.Node, nodeID string, prefix string, count *int) (out string, err error) {
 	// If we have in string, add a new line break.
 	if in != "" {
 		in = fmt.Sprintf("%s\n", in)
@@ -119,10 +128,11 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 		// Add left child.
 		if n.Left != nil {
-			leftID := randStr(4)
+			*count++
+			leftID := fmt.Sprintf("%s_%d", prefix, *count)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := walk("", n.Left.(tsl.Node), leftID, prefix, count)
 			if err != nil {
 				return "", err
 			}
@@ -142,10 +152,11 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 
 			// Add all nodes to graph.
 			for _, v := range nn {
-				rightID := randStr(4)
+				*count++
+				rightID := fmt.Sprintf("%s_%d", prefix, *count)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := walk("", v, rightID, prefix, count)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From 359aba4c35f323f580c435fa9254a7c4106dee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 36/44] fix: v4 and v5 regroup whole chains of arithmetic

---
 v4/pkg/tsl/listener.go | 3 +--
 v5/pkg/tsl/listener.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/tsl/listener.go b/v4/pkg/tsl/listener.go
index cb83be5..902b348 100644
--- a/v4/pkg/tsl/listener.go
+++ b/v4/pkg/tsl/listener.go
@@ -304,8 +304,7 @@ func (l *Listener) exitMathOps(op string) {
 // the precedence of the operators, operators of the same precedence are evaluated from left to right.
 func joinMath(op string, left Node, right Node) Node {
 	if p, ok := mathPrecedence[right.Func]; ok && p <= mathPrecedence[op] {
-		right.Left = joinMath(op, left, right.Left.(Node))
-		return right
+		return joinMath(right.Func, joinMath(op, left, right.Left.(Node)), right.Right.(Node))
 	}
 
 	if p, ok := mathPrecedence[left.Func]; ok && p < mathPrecedence[op] {
diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index e888e2c..4760fba 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -377,8 +377,7 @@ func (l *Listener) exitMathOps(op string) {
 // the precedence of the operators, operators of the same precedence are evaluated from left to right.
 func joinMath(op string, left Node, right Node) Node {
 	if p, ok := mathPrecedence[right.Func]; ok && p <= mathPrecedence[op] {
-		right.Left = joinMath(op, left, right.Left.(Node))
-		return right
+		return joinMath(right.Func, joinMath(op, left, right.Left.(Node)), right.Right.(Node))
 	}
 
 	if p, ok := mathPrecedence[left.Func]; ok && p < mathPrecedence[op] {
-- 
2.43.0


From 69a2296fd77a71a481b8ebddba606ce4631d3ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 37/44] fix: v4 arithmetic in memory is an error, also under IS
 NULL

---
 v4/pkg/walkers/semantics/walk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b3e3c8f..1d9ff0d 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -81,6 +81,12 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		return Walk(newNode, eval)
 	}
 
+	// Math operators are not implemented.
+	switch l.Func {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return false, tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
 	// Implement tree semantics.
 	switch n.Func {
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
-- 
2.43.0


From f988eee99b0398dd2da2361e13444034fbf9f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:52 +0000
Subject: [PATCH 38/44] fix: v5 SQL keeps the fraction of a second of a date

---
 v5/pkg/walkers/sql/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index aff65bf..682a340 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -56,7 +56,7 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 			}
 			s = append(s, v)
 		case tsl.DateOp:
-			d := n.Left.(time.Time).Format(time.RFC3339)
+			d := n.Left.(time.Time).Format(time.RFC3339Nano)
 			s = append(s, d)
 		default:
 			s = append(s, n.Left)
@@ -236,7 +236,7 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.DateOp:
-		f := n.Left.(time.Time).Format(time.RFC3339)
+		f := n.Left.(time.Time).Format(time.RFC3339Nano)
 		s = sq.Expr("'" + f + "'")
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
-- 
2.43.0


From 95ca0b3da282e5b926a12ab0675be7cf8ab229e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 39/44] fix: v4 and v5 mongo filters refuse names that are
 operators

---
 v4/pkg/walkers/mongo/walk.go | 16 ++++++++++++----
 v5/pkg/walkers/mongo/walk.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 87a651a..b30d399 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -17,6 +17,8 @@
 package mongo
 
 import (
+	"strings"
+
 	"go.mongodb.org/mongo-driver/bson"
 	"go.mongodb.org/mongo-driver/bson/primitive"
 
@@ -27,12 +29,18 @@ import (
 func identString(n interface{}) (string, error) {
 	// This is an identifier.
 	node := n.(tsl.Node)
-	if node.Func == tsl.IdentOp {
-		return node.Left.(string), nil
+	if node.Func != tsl.IdentOp {
+		// This is not an identifier, a mongo filter compares fields.
+		return "", tsl.UnexpectedLiteralError{Literal: node.Func}
+	}
+
+	// A name starting with a dollar sign is an operator in a mongo filter.
+	ident := node.Left.(string)
+	if strings.HasPrefix(ident, "$") {
+		return "", tsl.UnexpectedLiteralError{Literal: ident}
 	}
 
-	// This is not an identifier, a mongo filter compares fields.
-	return "", tsl.UnexpectedLiteralError{Literal: node.Func}
+	return ident, nil
 }
 
 // Returns the value of a literal node.
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index 826d10b..4bcf577 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -17,6 +17,8 @@
 package mongo
 
 import (
+	"strings"
+
 	"go.mongodb.org/mongo-driver/bson"
 	"go.mongodb.org/mongo-driver/bson/primitive"
 
@@ -27,12 +29,18 @@ import (
 func identString(n interface{}) (string, error) {
 	// This is an identifier.
 	node := n.(tsl.Node)
-	if node.Func == tsl.IdentOp {
-		return node.Left.(string), nil
+	if node.Func != tsl.IdentOp {
+		// This is not an identifier, a mongo filter compares fields.
+		return "", tsl.UnexpectedLiteralError{Literal: node.Func}
+	}
+
+	// A name starting with a dollar sign is an operator in a mongo filter.
+	ident := node.Left.(string)
+	if strings.HasPrefix(ident, "$") {
+		return "", tsl.UnexpectedLiteralError{Literal: ident}
 	}
 
-	// This is not an identifier, a mongo filter compares fields.
-	return "", tsl.UnexpectedLiteralError{Literal: node.Func}
+	return ident, nil
 }
 
 // Returns the value of a literal node.
-- 
2.43.0


From c19a1eb4f36fdf7b79d0adcb71b73f4d24ecf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 40/44] fix: v4 and v5 tsl_parser refuses an unknown output
 format

---
 v4/cmd/tsl_parser/main.go | 2 ++
 v5/cmd/tsl_parser/main.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/v4/cmd/tsl_parser/main.go b/v4/cmd/tsl_parser/main.go
index ad9dbb3..75c190c 100644
--- a/v4/cmd/tsl_parser/main.go
+++ b/v4/cmd/tsl_parser/main.go
@@ -84,6 +84,8 @@ func main() {
 			s = append(s, fmt.Sprintf("sql:  %s\n", sql)...)
 			s = append(s, fmt.Sprintf("args: %v", args)...)
 		}
+	default:
+		err = fmt.Errorf("unsuported output format: %s", *outputPtr)
 	}
 
 	check(err)
diff --git a/v5/cmd/tsl_parser/main.go b/v5/cmd/tsl_parser/main.go
index 5d8059b..b230a85 100644
--- a/v5/cmd/tsl_parser/main.go
+++ b/v5/cmd/tsl_parser/main.go
@@ -84,6 +84,8 @@ func main() {
 			s = append(s, fmt.Sprintf("sql:  %s\n", sql)...)
 			s = append(s, fmt.Sprintf("args: %v", args)...)
 		}
+	default:
+		err = fmt.Errorf("unsuported output format: %s", *outputPtr)
 	}
 
 	check(err)
-- 
2.43.0


From 1cf254804ad50cc8c1a790a36d477204a3deeaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 41/44] fix: v5 tsl_gorm and tsl_mongo search on_loan under the
 name it is stored

---
 v5/cmd/tsl_gorm/main.go  | 2 +-
 v5/cmd/tsl_mongo/main.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index b1374d4..6d0ec9f 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -42,7 +42,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "pages",
 	"spec.rating": "rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on_loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index a34a9ab..a27dfa2 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -44,7 +44,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "spec.pages",
 	"spec.rating": "spec.rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on-loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 3fa5108dfce81928bed19b77d9d737496e723997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 42/44] fix: v4 and v5 tsl_graphql opens its database once, not
 for every query

---
 v4/cmd/tsl_graphql/model.go | 14 ++++++++++----
 v5/cmd/tsl_graphql/model.go | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/v4/cmd/tsl_graphql/model.go b/v4/cmd/tsl_graphql/model.go
index 2ddf90b..1e5a5fc 100644
--- a/v4/cmd/tsl_graphql/model.go
+++ b/v4/cmd/tsl_graphql/model.go
@@ -18,6 +18,7 @@ package main
 import (
 	"context"
 	"database/sql"
+	"sync"
 
 	_ "github.com/mattn/go-sqlite3"
 
@@ -35,11 +36,16 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
+// db is the database handle all queries share.
+var db *sql.DB
+var dbOnce sync.Once
 
-	db, err = sql.Open("sqlite3", url)
-	check(err)
+func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
+	dbOnce.Do(func() {
+		var openErr error
+		db, openErr = sql.Open("sqlite3", url)
+		check(openErr)
+	})
 
 	tx, err = db.BeginTx(ctx, nil)
 
diff --git a/v5/cmd/tsl_graphql/model.go b/v5/cmd/tsl_graphql/model.go
index c4d72f1..7d36141 100644
--- a/v5/cmd/tsl_graphql/model.go
+++ b/v5/cmd/tsl_graphql/model.go
@@ -18,6 +18,7 @@ package main
 import (
 	"context"
 	"database/sql"
+	"sync"
 
 	_ "github.com/mattn/go-sqlite3"
 
@@ -36,11 +37,16 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
+// db is the database handle all queries share.
+var db *sql.DB
+var dbOnce sync.Once
 
-	db, err = sql.Open("sqlite3", url)
-	check(err)
+func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
+	dbOnce.Do(func() {
+		var openErr error
+		db, openErr = sql.Open("sqlite3", url)
+		check(openErr)
+	})
 
 	tx, err = db.BeginTx(ctx, nil)
 
-- 
2.43.0


From d3e0a05f7890fafcc0e6a0d4035d42a5aa8f19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:26 +0000
Subject: [PATCH 43/44] fix: v6 sql: write NULL where a tree has it outside IS

---
 v6/pkg/walkers/sql/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 7bb0886..46d9deb 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -63,8 +63,8 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindUnaryExpr:
 		return unaryStep(n)
 	case tsl.KindNullLiteral:
-		// NULL literal is handled as a special case of IS NULL operator
-		s = sq.Expr("")
+		// The IS NULL operator writes its own NULL
+		s = sq.Expr("NULL")
 	default:
 		err = tsl.UnexpectedLiteralError{Literal: n.Type()}
 	}
-- 
2.43.0


From 9e5caab388b89a7468c84ed837d0f277c7a7b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:52 +0000
Subject: [PATCH 44/44] fix: v6 graphviz: break the line after the text a
 drawing follows

Walk(in, n, id) glued the text in front to an operator or array node, so
that dot reads the last statement of that text and the node as one.
---
 v6/pkg/walkers/graphviz/walk.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 61717e7..a50872b 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -56,9 +56,6 @@ var escapeLabel = strings.NewReplacer(
 
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
-	if in != "" {
-		in = fmt.Sprintf("%s\n", in)
-	}
 	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 		nodeID,
 		style,
@@ -126,6 +123,11 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 
 // walk is Walk for a node of a tree, count is the number of children named so far
 func walk(in string, n *tsl.TSLNode, nodeID string, prefix string, count *int) (out string, err error) {
+	// If we have in string, add a new line break.
+	if in != "" {
+		in = fmt.Sprintf("%s\n", in)
+	}
+
 	switch n.Type() {
 	case tsl.KindIdentifier:
 		out = formatLeafNodeWithInput(in, nodeID, identStyle, n.Type(), fmt.Sprintf("'%s'", n.Value()))
-- 
2.43.0

