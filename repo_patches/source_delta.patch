From 371d927a52823f96a77aed3870ec6a2d8ff9b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:39 +0000
Subject: [PATCH 01/61] fix: bind unary minus and not to their own operand

'-1 + 2' negated the last operand (giving -1), 'not a and b' parsed as
'a and not b', and 'a not b' was accepted, dropping 'a'.
---
 source/lib_compiler/parser.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..9d8c06b 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -110,7 +110,8 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  // note: 'not' is a prefix operator so can never follow an operand
+  return stream_.type() != TOK_NOT && op_type_(stream_.type()) > 0;
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
@@ -227,20 +228,16 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
   // not
   if (const token_t *n = stream_.found(TOK_NOT)) {
+    // a prefix operator must not reduce anything on its left
+    op_stack_.push_back(n);
     parse_expr_ex_(tide);
-    op_push_(n, tide);
     return;
   }
 
-  // unary minus
-  if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
-    ast_node_t *back = exp_stack_.back();
-    exp_stack_.pop_back();
-    auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
-    op->child = back;
-    exp_stack_.push_back(op);
-    return;
+  // unary minus (binds tighter than any binary operator)
+  std::vector<const token_t *> negate;
+  while (const token_t *n = stream_.found(TOK_SUB)) {
+    negate.push_back(n);
   }
 
   parse_lhs_();
@@ -277,6 +274,13 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
     break;
   }
 
+  // apply unary minus to the operand just parsed
+  for (; !negate.empty(); negate.pop_back()) {
+    auto *op = ast.alloc<ast_exp_unary_op_t>(negate.back());
+    op->child = exp_stack_.back();
+    exp_stack_.back() = op;
+  }
+
   if (is_operator_()) {
     const token_t *op = stream_.pop();
     op_push_(op, tide);
-- 
2.43.0


From 74572540a6c8096f32f669444452cb55d1ed4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:58 +0000
Subject: [PATCH 02/61] fix: accept blank lines and comments in an empty block

A block holding nothing but a blank line or a comment (as shown in
LanguageRef.md) was rejected with "statement expected, but got 'end'".
---
 source/lib_compiler/parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 9d8c06b..06df39e 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -381,6 +381,8 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  // consume any blank lines
+  while (stream_.found(TOK_EOL));
 
   // IF body
   stmt->then_block = ast.alloc<ast_block_t>();
@@ -388,6 +390,8 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   while (!stream_.found(TOK_END)) {
     if (stream_.found(TOK_ELSE)) {
       stream_.pop(TOK_EOL);
+      // consume any blank lines
+      while (stream_.found(TOK_EOL));
       has_else = true;
       break;
     }
@@ -424,6 +428,8 @@ ast_node_t* parser_t::parse_while_(const token_t &t) {
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  // consume any blank lines
+  while (stream_.found(TOK_EOL));
 
   // WHILE body
   stmt->body = ast.alloc<ast_block_t>();
@@ -458,6 +464,8 @@ ast_node_t* parser_t::parse_for_(const token_t &t) {
   stmt->end = parse_expr_();
   stream_.pop(TOK_RPAREN);
   stream_.pop(TOK_EOL);
+  // consume any blank lines
+  while (stream_.found(TOK_EOL));
 
   // FOR body
   stmt->body = ast.alloc<ast_block_t>();
@@ -656,6 +664,8 @@ ast_node_t* parser_t::parse_function_(const token_t &t) {
     stream_.pop(TOK_RPAREN);
   }
   stream_.pop(TOK_EOL);
+  // consume any blank lines
+  while (stream_.found(TOK_EOL));
 
   // function body
   func->body = ast.alloc<ast_block_t>();
-- 
2.43.0


From e89d92386fd245b4ba381d7d107b46c0bfcf4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:00 +0000
Subject: [PATCH 03/61] fix: report the unexpected top level token itself

The parser popped a second token and named that one; when the bad token
was the last one it reported past it.
---
 source/lib_compiler/parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 06df39e..e8123cb 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
-- 
2.43.0


From 6d223462a14fba7205e02701e3ce0da7b2af0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:40 +0000
Subject: [PATCH 04/61] fix: stop lexing at the end of a comment that ends the
 source

The lexer stepped over the terminating NUL and kept reading past the
end of the buffer.
---
 source/lib_compiler/lexer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..e43d76b 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -80,6 +80,11 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       for (; *s && *s != '\n'; ++s) {
         // empty
       }
+      if (*s == '\0') {
+        // a comment can end the source without a new line
+        push_(TOK_EOL);
+        break;
+      }
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
-- 
2.43.0


From 0bd6216a88ef69634da782eab0ae289fa5f04efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:43 +0000
Subject: [PATCH 05/61] fix: give new line tokens the number of the line they
 end

Syntax errors at the end of a line were reported one line too late.
---
 source/lib_compiler/lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index e43d76b..e239fba 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -88,9 +88,9 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
+        push_(TOK_EOL);
         ++line_.line;
       }
-      push_(TOK_EOL);
       continue;
     }
 
@@ -211,8 +211,8 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
     case '\n':
       assert(s >= new_line_);
       new_line_ = s + 1;
-      ++line_.line;
       push_(TOK_EOL);
+      ++line_.line;
       continue;
     case '=':
       if (s[1] == '=') {
-- 
2.43.0


From f74014f6edc7ed1d5c6998e14ec1fbf9cdc4aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 06/61] fix: read decimal literals with any number of digits

Both the digits and the scale were accumulated in 32 bit integers, so
3.14159265359 read as 0.515.
---
 source/lib_compiler/lexer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index e239fba..880fb89 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -1,3 +1,5 @@
+#include <cstdlib>
+
 #include "lexer.h"
 #include "errors.h"
 
@@ -296,7 +298,8 @@ void lexer_t::push_string_(const char *start, const char *end) {
 }
 
 void lexer_t::push_val_(const char *s, const char *e) {
-  int32_t v = 0;
+  const std::string str(s, e);
+  uint32_t v = 0;
   int32_t f = 0;
   for (; s != e; ++s) {
     if (*s == '.') {
@@ -306,14 +309,13 @@ void lexer_t::push_val_(const char *s, const char *e) {
     else {
       assert(is_numeric(*s));
       v = v * 10 + (*s - '0');
-      f *= 10;
     }
   }
   if (f == 0) {
-    stream_.push(token_t(v, line_));
+    stream_.push(token_t(int32_t(v), line_));
   }
   else {
-    const float x = float(v) / float(f);
+    const float x = strtof(str.c_str(), nullptr);
     stream_.push(token_t(x, line_));
   }
 }
-- 
2.43.0


From ec8223215fddf88df6863837d1f9d047b7b5e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 07/61] fix: name string and import tokens in error messages

Reporting an unexpected 'import', or a missing string, hit an assert.
---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..b74583c 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -99,6 +99,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
   case TOK_DOT:      return ".";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   default:
     assert(!"unhandled token type");
     return "";
-- 
2.43.0


From 9e4e59a6559a9ef4f6ce86926d43cf4a41eddf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 08/61] fix: do not lex backtick, braces, bar and tilde as
 letters

Any character above '_' was taken for the start of an identifier.
---
 source/lib_compiler/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 880fb89..67e2618 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -10,7 +10,7 @@ namespace {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool is_alpha(const char t) {
-  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t >= '_');
+  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t == '_');
 }
 
 bool is_numeric(const char t) {
-- 
2.43.0


From ee7c3584e8d95eaba25945f4b0caca4509ac4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:23 +0000
Subject: [PATCH 09/61] fix: evaluate unary operators in global initialisers

'var b = -a' crashed when 'a' is not a constant, 'var b = not 1' and
an operand naming a function hit asserts.
---
 source/lib_compiler/sema.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..9ed56ef 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,6 +21,9 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    if (!valid_) {
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
@@ -28,6 +31,9 @@ struct eval_t: public ast_visitor_t {
     case TOK_SUB:
       r = -v;
       break;
+    case TOK_NOT:
+      r = !v;
+      break;
     default:
       assert(!"unknown operator");
     }
@@ -53,8 +59,7 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From df6f385d70695d9c0cb6d48fd2b9f487572da2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 10/61] fix: do not trap on INT_MIN / -1 and INT_MIN % -1

Both killed the process with SIGFPE, at run time and while folding.
---
 source/lib_compiler/optimize.cpp | 5 +++--
 source/lib_compiler/sema.cpp     | 5 +++--
 source/lib_vm/thread.cpp         | 6 ++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..abab687 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,9 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      // note: avoid the overflow trap of INT_MIN / -1
+      case TOK_DIV: v = b == -1 ? int32_t(0u - uint32_t(a)) : a / b; break;
+      case TOK_MOD: v = b == -1 ? 0 : a % b; break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 9ed56ef..3d7c999 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -142,8 +142,9 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    // note: avoid the overflow trap of INT_MIN / -1
+    case TOK_DIV:     return b == -1 ? int32_t(0u - uint32_t(a)) : a / b;
+    case TOK_MOD:     return b == -1 ? 0 : a % b;
     default:
       assert(!"unknown operator");
     }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..e63779c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -196,7 +196,8 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      // note: avoid the overflow trap of INT_MIN / -1
+      const int32_t o = r->v == -1 ? int32_t(0u - uint32_t(l->v)) : l->v / r->v;
       stack_.push_int(o);
     }
     return;
@@ -223,7 +224,8 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      // note: avoid the overflow trap of INT_MIN % -1
+      const int32_t o = r->v == -1 ? 0 : l->v % r->v;
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From a4035ecd6fbdac03bc26edd05553f3b005c510cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:17 +0000
Subject: [PATCH 11/61] fix: give each use of a constant its own literal

All uses shared one node: removing the branch 'if (D)' for a constant 0
turned D into 1 everywhere, and uses reported the line of the constant.
---
 source/lib_compiler/sema.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 3d7c999..83f0b27 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -164,6 +164,7 @@ struct sema_const_t: public ast_visitor_t {
 
   sema_const_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {
   }
 
@@ -183,7 +184,8 @@ struct sema_const_t: public ast_visitor_t {
       case ast_exp_lit_str_e:
       case ast_exp_lit_float_e:
       case ast_exp_none_e:
-        parent->replace_child(n, e);
+        // every use needs its own literal, since later passes may modify it
+        parent->replace_child(n, clone_(e, n->name));
         break;
       default:
         errs_.cant_evaluate_constant(*n->name);
@@ -212,7 +214,28 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(p);
   }
 
+  // copy a literal, placing it where the constant was used
+  ast_node_t *clone_(const ast_node_t *e, const token_t *where) {
+    if (auto *n = e->cast<ast_exp_lit_var_t>()) {
+      auto *out = ast_.alloc<ast_exp_lit_var_t>(n->val);
+      out->token = where;
+      return out;
+    }
+    if (auto *n = e->cast<ast_exp_lit_str_t>()) {
+      auto *out = ast_.alloc<ast_exp_lit_str_t>(n->value);
+      out->token = where;
+      return out;
+    }
+    if (auto *n = e->cast<ast_exp_lit_float_t>()) {
+      auto *out = ast_.alloc<ast_exp_lit_float_t>(n->val);
+      out->token = where;
+      return out;
+    }
+    return ast_.alloc<ast_exp_none_t>(where);
+  }
+
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From 0a347c53ec47d867f63878cabe3a0f4b190d86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 12/61] fix: report misuse of constants and functions instead
 of aborting

Calling a constant, assigning to its element or member, looping over it,
and reading a member of a constant or a function all hit asserts.
---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..124ea9f 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -276,6 +276,7 @@ struct ast_exp_call_t : public ast_node_t {
         args[i] = with;
       }
     }
+    callee = (callee == which) ? with : callee;
   }
 
   const token_t *token;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 83f0b27..dc18746 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -201,6 +201,39 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_member_t *n) override {
+    // constants are plain values so they have no members
+    if (auto *decl = n->decl->cast<ast_decl_var_t>()) {
+      if (decl->is_const) {
+        errs_.cant_evaluate_constant(*n->name);
+      }
+    }
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
@@ -397,7 +430,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        // functions have no members
+        errs_.unknown_identifier(*n->name);
       }
       return;
     }
-- 
2.43.0


From 2a3b6f3c34dbdbf110b7d4f4db5871dbd4a7c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 13/61] fix: accept none as the value of a constant

'const c = none' was rejected as not initialised.
---
 source/lib_compiler/sema.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index dc18746..f40e524 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -291,7 +291,9 @@ struct sema_global_var_t : public ast_visitor_t {
     assert(n->expr);
     switch (n->expr->type) {
     case ast_exp_none_e:
-      n->expr = nullptr;
+      if (!n->is_const) {
+        n->expr = nullptr;
+      }
       break;
     case ast_exp_bin_op_e:
     case ast_exp_unary_op_e: {
-- 
2.43.0


From df34dc3db9b20b35a3ea4c025b5764a0c3d1bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 14/61] fix: let a constant name a constant that is declared
 later

'const a = b' above 'const b = c' above 'const c = 1' was rejected,
while the same constants in the reverse order were accepted.
---
 source/lib_compiler/sema.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index f40e524..c608943 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -309,6 +309,17 @@ struct sema_global_var_t : public ast_visitor_t {
         }
       }
     } break;
+    case ast_exp_ident_e:
+      // a constant can name another constant, even one declared later on
+      if (n->is_const) {
+        ast_node_t *d = n->expr->cast<ast_exp_ident_t>()->decl;
+        auto *c = d->cast<ast_decl_var_t>();
+        if (c && c->is_const && is_literal_(c->expr)) {
+          change_ = true;
+          n->expr = c->expr;
+        }
+      }
+      break;
     case ast_exp_lit_str_e:
     case ast_exp_lit_var_e:
     case ast_exp_lit_float_e:
@@ -332,6 +343,13 @@ struct sema_global_var_t : public ast_visitor_t {
   }
 
 protected:
+  bool is_literal_(const ast_node_t *e) const {
+    return e->is_a<ast_exp_lit_var_t>() ||
+           e->is_a<ast_exp_lit_str_t>() ||
+           e->is_a<ast_exp_lit_float_t>() ||
+           e->is_a<ast_exp_none_t>();
+  }
+
   void run_globals_(ast_program_t *p) {
     for (auto *n : p->children) {
       if (auto *d = n->cast<ast_decl_var_t>()) {
-- 
2.43.0


From c769981d4988431476d111aadc54df5206f82f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:21 +0000
Subject: [PATCH 15/61] fix: keep constants out of the table of globals

Constants have no storage; they were listed with offset 0, the slot of
the first real global (or of none at all).
---
 source/lib_compiler/codegen.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..983ee04 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -455,16 +455,16 @@ struct codegen_pass_t: ast_visitor_t {
   }
 
   void visit(ast_decl_var_t* n) override {
+    if (n->is_const) {
+      // nothing to do for const variables
+      return;
+    }
     // collect the globals
     if (n->is_global()) {
       stream_.add_global(n->name->str_, n->offset);
       return;
     }
     // must be local
-    if (n->is_const) {
-      // nothing to do for const variables
-      return;
-    }
     // set variable
     assert(n->is_local());
     if (n->expr) {
-- 
2.43.0


From 7cc30a6ad8e118f69c0d7ef328e1934d59a3edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 16/61] fix: do not leak variables of a then block into the
 else block

Both branches shared one scope, so the else block could use a variable
of the then block and read whatever was in its slot.
---
 source/lib_compiler/sema.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index c608943..629557d 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -487,8 +487,12 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
-- 
2.43.0


From 3761088c9b312d188fa644a3a5fbcc682bf20987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:02 +0000
Subject: [PATCH 17/61] fix: reset a variable declared without a value to none

It kept the value of an earlier iteration, or of another variable that
used the same stack slot in an earlier block.
---
 source/lib_compiler/codegen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index 983ee04..6b45eb2 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,11 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
+    } else {
+      // the slot may hold the value of an earlier block or iteration
+      emit(INS_NEW_NONE, n->name);
     }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From 38180ccc55c6d789f12253147fb1ed88284bfefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:04 +0000
Subject: [PATCH 18/61] fix: keep the source line of folded expressions

Folded literals had no line, so stepping by line stopped at line -1 in
the middle of a statement; also skip compiler generated code there.
---
 source/lib_compiler/optimize.cpp | 15 +++++++++++----
 source/lib_compiler/sema.cpp     |  4 +++-
 source/lib_vm/thread.cpp         |  3 ++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index abab687..8eae390 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -178,7 +178,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -188,7 +188,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -198,7 +198,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -208,7 +208,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -219,6 +219,13 @@ struct opt_const_expr_t: public ast_visitor_t {
 
 protected:
 
+  // create a literal which keeps the source line of what it replaces
+  ast_node_t *literal_(int32_t v, const token_t *token) {
+    auto *n = ast_.alloc<ast_exp_lit_var_t>(v);
+    n->token = token;
+    return n;
+  }
+
   std::map<const ast_node_t *, int32_t> val_;
 
   bool value_(const ast_node_t *n, int32_t &v) const {
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 629557d..15f2afd 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -300,7 +300,9 @@ struct sema_global_var_t : public ast_visitor_t {
       int32_t val = 0;
       if (eval.eval(n->expr, val)) {
         change_ = true;
-        n->expr = ast_.alloc<ast_exp_lit_var_t>(val);
+        auto *lit = ast_.alloc<ast_exp_lit_var_t>(val);
+        lit->token = n->name;
+        n->expr = lit;
       }
       else {
         if (strict_) {
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index e63779c..fc0e485 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -849,7 +849,8 @@ bool thread_t::step_line() {
     }
     assert(!f_.empty());
     assert(!has_error());
-  } while (line == get_source_line());
+    // skip over any code that has no source line
+  } while (line == get_source_line() || get_source_line() == line_t{});
   return !has_error();
 }
 
-- 
2.43.0


From 4426acbe686217dc080fb19ba73ed396b41a995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 19/61] fix: do not truncate operands of string concatenation

The operand that is not on the left was cut to 15 characters, and adding
an array or a system call to a string hit an assert instead of raising a
type error.
---
 source/lib_vm/thread.cpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index fc0e485..30c82d3 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,25 +32,28 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+bool to_string(std::string &out, const value_t *val) {
+  char buf[64];
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
+    snprintf(buf, sizeof(buf), "%f", val->f);
+    out = buf;
     return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
+    snprintf(buf, sizeof(buf), "%i", val->integer());
+    out = buf;
     return true;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.assign(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
+    out = "none";
     return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    snprintf(buf, sizeof(buf), "function@%d", val->v);
+    out = buf;
     return true;
   default:
-    assert(false);
     return false;
   }
 }
@@ -108,10 +111,10 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
+  std::string text;
+  if (l->is_a<val_type_string>() && to_string(text, r)) {
+    const char *rbuf = text.data();
+    int32_t rsize = int32_t(text.size());
     const int32_t len = l->strlen() + rsize;
     value_t *s = gc_.new_string(len);
     char *dst = s->string();
@@ -121,10 +124,9 @@ void thread_t::do_INS_ADD_() {
     stack_.push(s);
     return;
   }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
+  if (r->is_a<val_type_string>() && to_string(text, l)) {
+    const char *lbuf = text.data();
+    int32_t lsize = int32_t(text.size());
     const int32_t len = lsize + r->strlen();
     value_t *s = gc_.new_string(len);
     char *dst = s->string();
-- 
2.43.0


From c519c86ca1e128791fb57751b3226d92eab628e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:27 +0000
Subject: [PATCH 20/61] fix: collect cyclic, shared and large live data
 correctly

The collector recursed forever on cyclic arrays, and moved old values
into the space that was already over 75% full, running out of memory and
crashing once about a quarter of the heap was live.  Move every live
value to the idle space, once.
---
 source/lib_vm/vm_gc.cpp | 125 +++++++++++++++++++---------------------
 source/lib_vm/vm_gc.h   |   6 +-
 2 files changed, 62 insertions(+), 69 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..9f64223 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -110,89 +110,84 @@ value_t *value_gc_t::copy(const value_t &a) {
 }
 
 void value_gc_t::collect() {
+  // all live values have been moved to the idle space so allocate there now
   swap();
-  space_to().clear();
+  space_from().clear();
   forward_clear();
 }
 
 void value_gc_t::trace(value_t **list, size_t num) {
 
-  // area data should be moved to
-  arena_t &to = space_to();
+  // area data should be moved to, which is empty when a collection starts
+  arena_t &to = space_from();
 
-  for (size_t i = 0; i < num; ++i) {
-    value_t *&v = list[i];
+  // arrays that have been moved but whose elements have not
+  std::vector<value_t *> pending;
 
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
-      const int32_t size = v->array_size();
-      trace(v->array(), size);
-    }
+  while (true) {
+    for (size_t i = 0; i < num; ++i) {
+      value_t *&v = list[i];
 
-    // already collected so skip to avoid cyclic trace loops
-    if (to.owns(v)) {
-      continue;
-    }
-    assert(v == nullptr || space_from().owns(v));
+      // already collected so skip to avoid cyclic trace loops
+      if (v == nullptr || to.owns(v)) {
+        continue;
+      }
+      assert(space_to().owns(v));
 
-    switch (v->type()) {
-    case val_type_none: {
-      assert(list[i] == nullptr);
-      break;
-    }
-    case val_type_syscall:
-    case val_type_func:
-    case val_type_int: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->v = v->v;
-      list[i] = n;
-      break;
-    }
-    case val_type_float: {
-      value_t *n = to.alloc<value_t>(0);
-      n->type_ = v->type();
-      n->f = v->f;
-      list[i] = n;
-      break;
-    }
-    case val_type_string: {
-      assert(int32_t(strlen(v->string())) == v->v);
-      const int32_t size = v->v;
-      value_t *n = to.alloc<value_t>(size + 1);
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->string(), v->string(), size + 1);
-      list[i] = n;
-      break;
-    }
-    case val_type_array: {
-      // if we have global variables, they might have been relocated at which
-      // point our pointers will point to the wrong half space
+      // a value that is reachable in many ways must only be moved once
       if (value_t *x = forward_find(v)) {
         list[i] = x;
-        break;
+        continue;
       }
 
-      // may want to swap in the new pointer prior to trace to break cycles
-
-      const int32_t size = v->array_size();
-      // move into to space
-      value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->array(), v->array(), size * sizeof(value_t *));
-      // keep track of forwarded global arrays that may have to move
+      value_t *n = nullptr;
+      switch (v->type()) {
+      case val_type_syscall:
+      case val_type_func:
+      case val_type_int: {
+        n = to.alloc<value_t>(0);
+        n->type_ = v->type();
+        n->v = v->v;
+        break;
+      }
+      case val_type_float: {
+        n = to.alloc<value_t>(0);
+        n->type_ = v->type();
+        n->f = v->f;
+        break;
+      }
+      case val_type_string: {
+        assert(int32_t(strlen(v->string())) == v->v);
+        const int32_t size = v->v;
+        n = to.alloc<value_t>(size + 1);
+        n->type_ = v->type();
+        n->v = size;
+        memcpy(n->string(), v->string(), size + 1);
+        break;
+      }
+      case val_type_array: {
+        const int32_t size = v->array_size();
+        // move into to space
+        n = to.alloc<value_t>(size * sizeof(value_t *));
+        n->type_ = v->type();
+        n->v = size;
+        memcpy(n->array(), v->array(), size * sizeof(value_t *));
+        pending.push_back(n);
+        break;
+      }
+      default:
+        assert(!"unknown type");
+      }
       forward_add(v, n);
       list[i] = n;
-      break;
     }
-    default:
-      assert(!"unknown type");
+    if (pending.empty()) {
+      break;
     }
+    // collect child elements
+    list = pending.back()->array();
+    num = pending.back()->array_size();
+    pending.pop_back();
   }
 }
 
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 0af2924..7c1d280 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -138,10 +138,8 @@ protected:
     return itt == forward_.end() ? nullptr : itt->second;
   }
 
-  // since getv puts an array on the stack and then geta/seta to set its member
-  // we have to keep a list of already moved arrays.  this could be avoided if
-  // we used different instructions to avoid using getv, and instead looked it
-  // up when we need.
+  // where each live value has been moved to during a collection, so that values
+  // which are reachable in many ways stay shared.
   std::unordered_map<const value_t *, value_t *> forward_;
 
   uint32_t flipflop_;
-- 
2.43.0


From fc1558a7535e241fff51bef62f933b4555a07bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 21/61] fix: fail call_once when given the wrong number of
 arguments

It dereferenced the null thread, e.g. when 'main' takes an argument.
---
 source/lib_vm/vm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..2bd2135 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -62,6 +62,10 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    error = nano::thread_error_t::e_bad_num_args;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From 320d2f347ff9523512789ad9a630be7044351e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:59 +0000
Subject: [PATCH 22/61] fix: run global initialisers to completion

call_init stopped after 8192 cycles, leaving later globals as none.
---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 2bd2135..65b122f 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -49,7 +49,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // run all of the initalizers, however long they take
+  while (!t->finished()) {
+    if (!t->resume(1024 * 8)) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0


From 3c5d07a994ff75ba53d279c84278483b7611d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 23/61] fix: do not block a thread forever on a negative wait

---
 source/lib_builtins/builtin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..18a059b 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -216,7 +216,8 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    // there is nothing to wait for if this is negative
+    t.waits = w > 0 ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From 43f828be3fb4230f98614c7c3e48e7d8f20d7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:03 +0000
Subject: [PATCH 24/61] fix: report thread errors from vm_t::has_error

It always returned false.
---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 65b122f..435dd7e 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -127,6 +127,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From 4bfa055753188e97dbd4e2ded665798fa17cd762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:05 +0000
Subject: [PATCH 25/61] fix: collect garbage while stepping by line

A long line, e.g. a call to a loop, ran out of memory.
---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 30c82d3..8d4276f 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -845,6 +845,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From 5f5b056a7b7e284b08920374c42f564fc5ace506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:07 +0000
Subject: [PATCH 26/61] fix: allow arrays as arguments of a new thread

Passing an array hit an assert while copying it.
---
 source/lib_vm/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 8d4276f..59a5a4b 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -717,7 +717,8 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   // push any arguments
   for (int i = 0; i < argc; ++i) {
     const value_t *v = argv[i];
-    stack_.push(gc_.copy(*v));
+    // note: arrays are passed by reference
+    stack_.push(v->is_value_type() ? gc_.copy(*v) : const_cast<value_t *>(v));
   }
 
   // push the initial frame
-- 
2.43.0


From 34eef82b9d9cb268fd919448cd2ad9a9500cc829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:09 +0000
Subject: [PATCH 27/61] fix: forget the globals when resetting a vm

They kept pointing at memory that the reset has freed.
---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 435dd7e..cb7c623 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -38,6 +38,8 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  // the globals have been freed too
+  g_.clear();
 }
 
 bool vm_t::call_init() {
-- 
2.43.0


From b4072fef80f51991b6451d449b092a5763d1673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 28/61] fix: name the remaining thread errors

get_thread_error hit an assert for e_bad_array_object and e_bad_prepare.
---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..d609988 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -25,6 +25,8 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
   case thread_error_t::e_bad_member_access:   return "e_bad_member_access";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   default:
     assert(false);
     return "";
-- 
2.43.0


From c8bb343deb3f7cce780c2485a748b604d379ceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 29/61] fix: remove the thread of call_once once it is done

A host that only ever uses call_once kept every finished thread, and all
that its stack refers to, until the heap was full.
---
 source/lib_vm/vm.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cb7c623..1fe97cf 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -80,12 +80,16 @@ bool vm_t::call_once(const function_t &func,
       break;
     }
   }
-  if (thread->has_error()) {
-    error = thread->get_error();
-    return false;
+  error = thread->get_error();
+  const bool success = !thread->has_error();
+  if (success) {
+    return_code = thread->get_return_value();
   }
-  return_code = thread->get_return_value();
-  return true;
+  // nobody else owns this thread so it must be removed here, otherwise it would
+  // keep its stack alive forever
+  threads_.remove(thread);
+  delete thread;
+  return success;
 }
 
 thread_t *vm_t::new_thread(const function_t &func,
-- 
2.43.0


From d20f2ecb220118c9dc0e00502e5a423f78726d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 30/61] fix: break on the line a thread starts on, and only
 when arriving

A breakpoint on the first line of a thread was hit in the middle of that
line or not at all, and one added while already on its line was hit at
once.
---
 source/lib_vm/thread.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 59a5a4b..755c8d5 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -874,6 +874,14 @@ bool thread_t::resume(int32_t cycles) {
     return false;
   }
   halted_ = false;
+  // a thread can also start on a line with a breakpoint
+  if (cycles_ == 0 && !breakpoints_.empty()) {
+    const line_t l = get_source_line();
+    if (breakpoints_.count(l) && l != last_line_) {
+      last_line_ = l;
+      return true;
+    }
+  }
   // while we should keep processing instructions
   for (; cycles; --cycles) {
     tick_gc_(cycles);
@@ -908,6 +916,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  // the last line is not tracked while there are no breakpoints
+  if (breakpoints_.empty() && cycles_) {
+    last_line_ = get_source_line();
+  }
   breakpoints_.insert(line);
 }
 
-- 
2.43.0


From 42685e4257bad82d1e0ac98d380015c1a01c5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:34 +0000
Subject: [PATCH 31/61] fix: resume the remaining threads after one of them
 failed

A runtime error in one thread cost all threads behind it their turn.
---
 source/lib_vm/vm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 1fe97cf..caab26c 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -106,6 +106,7 @@ thread_t *vm_t::new_thread(const function_t &func,
 }
 
 bool vm_t::resume(uint32_t cycles) {
+  bool success = true;
   auto itt = threads_.begin();
   for (; itt != threads_.end();) {
     thread_t *t = *itt;
@@ -126,10 +127,11 @@ bool vm_t::resume(uint32_t cycles) {
     if (!t->resume(cycles)) {
       // thread has an error
       assert(t->has_error());
-      return false;
+      // note: the other threads must still get their turn
+      success = false;
     }
   }
-  return true;
+  return success;
 }
 
 bool vm_t::has_error() const {
-- 
2.43.0


From 9bc2a514857332778341d872ca387602ded90f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:36 +0000
Subject: [PATCH 32/61] fix: report write errors when saving a program

A full disk was reported as success.
---
 source/lib_common/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..394a4d1 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -155,8 +155,8 @@ bool program_t::serial_save(const char *path) {
     emit(fd, s);
   }
   // done
-  fclose(fd);
-  return true;
+  const bool error = ferror(fd) != 0;
+  return fclose(fd) == 0 && !error;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From 3cf30b17ab30b6699309b801b8a8cfb025bb01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:41 +0000
Subject: [PATCH 33/61] fix: load long strings and reject damaged program files

Strings of 256 characters or more hit an assert, sizes from the file
were trusted, an unreadable system call name was ignored, and the file
was left open and half a program kept when loading failed.
---
 source/lib_common/program.cpp | 52 +++++++++++++++++++++--------------
 source/lib_common/program.h   |  4 +++
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 394a4d1..474b98c 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -57,9 +57,19 @@ bool consume(FILE *fd, int32_t &val) {
   return 1 == fread(&val, 4, 1, fd);
 }
 
+// read a size, which can never be more than what is left in the file
+bool consume_size(FILE *fd, int32_t &size) {
+  TRY(consume(fd, size));
+  const long pos = ftell(fd);
+  TRY(pos >= 0 && fseek(fd, 0, SEEK_END) == 0);
+  const long end = ftell(fd);
+  TRY(end >= 0 && fseek(fd, pos, SEEK_SET) == 0);
+  return size >= 0 && size <= end - pos;
+}
+
 bool consume(FILE *fd, nano::program_t::linetable_t &s) {
   int32_t num_lines = 0;
-  TRY(consume(fd, num_lines));
+  TRY(consume_size(fd, num_lines));
   for (int i = 0; i < num_lines; ++i) {
     int32_t pc = 0;
     int32_t file = 0;
@@ -74,18 +84,9 @@ bool consume(FILE *fd, nano::program_t::linetable_t &s) {
 
 bool consume(FILE *fd, std::string &string) {
   int32_t size = 0;
-  if (1 != fread(&size, 4, 1, fd)) {
-    return false;
-  }
-  assert(size < 256);
+  TRY(consume_size(fd, size));
   string.resize(size);
-  auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
-    return false;
-  }
-  data[size] = '\0';
-  string.assign(data.get());
-  return true;
+  return fread(&string[0], 1, size, fd) == size_t(size);
 }
 
 bool consume(FILE *fd, nano::function_t &f) {
@@ -96,7 +97,7 @@ bool consume(FILE *fd, nano::function_t &f) {
   TRY(consume(fd, f.code_end_));
   // emit locals
   int32_t num_locals = 0;
-  TRY(consume(fd, num_locals));
+  TRY(consume_size(fd, num_locals));
   for (int i = 0; i < num_locals; ++i) {
     f.locals_.emplace_back();
     auto &local = f.locals_.back();
@@ -105,7 +106,7 @@ bool consume(FILE *fd, nano::function_t &f) {
   }
   // emit args
   int32_t num_args = 0;
-  TRY(consume(fd, num_args));
+  TRY(consume_size(fd, num_args));
   for (int i = 0; i < num_args; ++i) {
     f.args_.emplace_back();
     auto &arg = f.args_.back();
@@ -167,6 +168,16 @@ bool program_t::serial_load(const char *path) {
   }
   // reset this program prior
   reset();
+  const bool success = serial_read_(fd);
+  fclose(fd);
+  if (!success) {
+    // dont keep half a program
+    reset();
+  }
+  return success;
+}
+
+bool program_t::serial_read_(FILE *fd) {
   // read header
   int32_t magic_no = 0;
   TRY(consume(fd, magic_no));
@@ -180,37 +191,36 @@ bool program_t::serial_load(const char *path) {
 #endif
   // read syscalls
   int32_t num_syscalls = 0;
-  TRY(consume(fd, num_syscalls));
+  TRY(consume_size(fd, num_syscalls));
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
-  TRY(consume(fd, num_functions));
+  TRY(consume_size(fd, num_functions));
   for (int32_t i = 0; i < num_functions; ++i) {
     functions_.emplace_back();
     TRY(consume(fd, functions_.back()));
   }
   // read bytecode
   int32_t code_size = 0;
-  TRY(consume(fd, code_size));
+  TRY(consume_size(fd, code_size));
   code_.resize(code_size);
-  if (fread(code_.data(), 1, code_size, fd) != code_size) {
+  if (fread(code_.data(), 1, code_size, fd) != size_t(code_size)) {
     return false;
   }
   // emit the line table
   TRY(consume(fd, line_table_));
   // emit the string table
   int32_t strings_size = 0;
-  TRY(consume(fd, strings_size));
+  TRY(consume_size(fd, strings_size));
   for (int32_t i = 0; i < strings_size; ++i) {
     strings_.emplace_back();
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 1a2b2e7..b7de880 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -6,6 +6,7 @@
 #include <array>
 #include <memory>
 #include <cassert>
+#include <cstdio>
 
 
 #include "common.h"
@@ -94,6 +95,9 @@ protected:
 
   // XXX: add filetable
 
+  // read a program from an open file
+  bool serial_read_(FILE *fd);
+
   // add a line to the line table
   void add_line(int32_t pc, line_t line) {
     line_table_[pc] = line;
-- 
2.43.0


From d56b41384217b3a86fab566934a5b9549dc65e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:43 +0000
Subject: [PATCH 34/61] fix: save the table of globals with a program

A loaded program had lost the names of its globals.
---
 source/lib_common/program.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 474b98c..fd0190b 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -155,6 +155,12 @@ bool program_t::serial_save(const char *path) {
   for (const auto &s : strings_) {
     emit(fd, s);
   }
+  // emit the globals
+  emit(fd, int32_t(globals_.size()));
+  for (const auto &g : globals_) {
+    emit(fd, g.name_);
+    emit(fd, g.offset_);
+  }
   // done
   const bool error = ferror(fd) != 0;
   return fclose(fd) == 0 && !error;
@@ -220,6 +226,14 @@ bool program_t::serial_read_(FILE *fd) {
     strings_.emplace_back();
     TRY(consume(fd, strings_.back()));
   }
+  // read the globals
+  int32_t num_globals = 0;
+  TRY(consume_size(fd, num_globals));
+  for (int32_t i = 0; i < num_globals; ++i) {
+    globals_.emplace_back();
+    TRY(consume(fd, globals_.back().name_));
+    TRY(consume(fd, globals_.back().offset_));
+  }
   // done
   return true;
 }
-- 
2.43.0


From cba0b86452fd2109880c011588382de4fda6bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 35/61] fix: do not keep a source that failed to load

It left a source without text behind, so building crashed, and every
later file was taken to be loaded already.
---
 source/lib_common/source.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..36cb292 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -47,13 +47,21 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 95882f6ad0c78998415f2d766e9f0d46a447a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:47 +0000
Subject: [PATCH 36/61] fix: do not confuse a file with one whose path it
 starts with

After loading 'a.nano', importing 'a.nano2' was silently ignored.
---
 source/lib_common/source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 36cb292..550937c 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -28,7 +28,8 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  // both must end at the same time
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From 303493e5cc30f97c5437027a0348e892d02a997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 37/61] fix: resolve imports of a file given without a
 directory

'nano_driver main.nano' looked for its imports in the root directory.
---
 source/lib_common/source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 550937c..5abe0f0 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -37,6 +37,10 @@ bool path_cmp(const char *x, const char *y) {
 namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
+  // without a directory it is relative to the working directory
+  if (s.file_path().find_first_of("/\\") == std::string::npos) {
+    return;
+  }
   std::string base = base_path(s.file_path());
   in_out = base + "/" + in_out;
 }
-- 
2.43.0


From a0ffa32ea707dfea9ab609cd79df359b800e75c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:50 +0000
Subject: [PATCH 38/61] fix: load a file once however its path is spelled

A file imported as both 'b.nano' and 'sub/../b.nano' was compiled twice
and then rejected for redeclaring its own functions.
---
 source/lib_common/source.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 5abe0f0..2d0c4d7 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -13,6 +13,30 @@ std::string base_path(std::string in) {
   return in;
 }
 
+// remove '.' and '..' from a path so that each file has just one spelling
+std::string normalize(const std::string &in) {
+  std::vector<std::string> parts;
+  std::string part;
+  for (size_t i = 0; i <= in.size(); ++i) {
+    if (i < in.size() && in[i] != '/' && in[i] != '\\') {
+      part += in[i];
+      continue;
+    }
+    if (part == ".." && !parts.empty() && !parts.back().empty() && parts.back() != "..") {
+      parts.pop_back();
+    }
+    else if (part != "." && (!part.empty() || i == 0)) {
+      parts.push_back(part);
+    }
+    part.clear();
+  }
+  std::string out;
+  for (size_t i = 0; i < parts.size(); ++i) {
+    out += (i ? "/" : "") + parts[i];
+  }
+  return out;
+}
+
 // a path compare that is insensitive to slashes and case
 bool path_cmp(const char *x, const char *y) {
   for (; *x != '\0'; ++x, ++y) {
@@ -48,7 +72,7 @@ void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
 bool source_manager_t::load(const char *path) {
   for (const auto &s : sources_) {
     // file already loaded so return
-    if (path_cmp(s->file_path().c_str(), path)) {
+    if (path_cmp(normalize(s->file_path()).c_str(), normalize(path).c_str())) {
       return true;
     }
   }
-- 
2.43.0


From 48c067b0d2c0022a5f8cc6a06cf595c471f6584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:52 +0000
Subject: [PATCH 39/61] fix: tell apart files whose names differ in case only

Where file names are case sensitive, importing 'B.nano' after 'b.nano'
was silently ignored.
---
 source/lib_common/source.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 2d0c4d7..5b38631 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -37,13 +37,17 @@ std::string normalize(const std::string &in) {
   return out;
 }
 
-// a path compare that is insensitive to slashes and case
+// a path compare that is insensitive to slashes, and to case on windows
 bool path_cmp(const char *x, const char *y) {
   for (; *x != '\0'; ++x, ++y) {
-    // XXX: on linux we might want to not be case insensitive
+    if (*x == *y) {
+      continue;
+    }
+#ifdef _WIN32
     if (tolower(*x) == tolower(*y)) {
       continue;
     }
+#endif
     if (*x == '\\' && *y == '/') {
       continue;
     }
-- 
2.43.0


From 9b3d7a259235168d7b0316ffabff703e9aa48da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 40/61] fix: fail to load a directory instead of throwing

Importing a directory tried to allocate its bogus size.
---
 source/lib_common/file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..1255979 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -19,7 +19,8 @@ struct file_t {
     _size = ftell(fd);
     fseek(fd, 0, SEEK_SET);
 
-    if (_size == 0) {
+    // note: some things that can be opened, like directories, have no real size
+    if (_size == 0 || _size > size_t(INT32_MAX)) {
       fclose(fd);
       return false;
     }
-- 
2.43.0


From 9e2cdff3bac09d96f845953df475d5c02e846eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:58 +0000
Subject: [PATCH 41/61] fix: keep member assignments and array literals in the
 ast

They were deleted after the build while still in use, so dumping the ast
(nano_comp -a) read freed memory.
---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..ef420f3 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -141,6 +141,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_func_t* n) override {
     nodes_.insert(n);
     ast_visitor_t::visit(n);
-- 
2.43.0


From e776763f1dbbd8eed9f9a2eabbcc43548788979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:00 +0000
Subject: [PATCH 42/61] fix: report runtime errors on the line they happened

A bad element assignment was reported on the line after it, and an
indirect call with the wrong number of arguments inside of the callee.
---
 source/lib_vm/thread.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 755c8d5..e3131c4 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -445,6 +445,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
@@ -737,6 +738,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 
 void thread_t::step_imp_() {
   // fetch opcode
+  const int32_t pc = pc_;
   const uint8_t opcode = read_opcode_();
   // dispatch
   switch (opcode) {
@@ -783,6 +785,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // stay at the instruction that raised an error so its line can be reported
+  if (has_error()) {
+    pc_ = pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From d0678118a97aeefadd409e1e3df371f0dde85ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:03 +0000
Subject: [PATCH 43/61] fix: check the number of arguments given to a builtin

Calling one through a variable with the wrong number of arguments
corrupted the value stack.
---
 source/lib_builtins/builtin.cpp | 69 ++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index 18a059b..cec5e94 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -11,8 +11,19 @@
 
 namespace nano {
 
+// an indirect call can pass any number of arguments
+static bool check_args(struct nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   switch (v->type()) {
   case val_type_int: {
@@ -29,7 +40,9 @@ static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -42,7 +55,9 @@ static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -55,7 +70,9 @@ static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_a<val_type_int>() &&
@@ -68,7 +85,9 @@ static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   switch (a->type()) {
   case val_type_array: {
@@ -86,7 +105,9 @@ static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && v->is_a<val_type_int>()) {
     char x[2] = {char(v->v), 0};
@@ -97,7 +118,9 @@ static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -108,7 +131,9 @@ static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -119,7 +144,9 @@ static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -130,7 +157,9 @@ static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -141,7 +170,9 @@ static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -152,7 +183,9 @@ static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -163,7 +196,9 @@ static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sqrt(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -212,7 +247,9 @@ static void builtin_new_thread(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
@@ -228,7 +265,9 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_new_array(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-- 
2.43.0


From b4df98cddc2e8451cf65319f2cde0913bf4f4dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 44/61] fix: validate arguments of the driver's system calls

print(none) and putc(none) hit asserts, gets() returned uninitialised
memory at the end of the input, and indirect calls could pass too few
arguments.
---
 source/driver/driver.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..fa8a722 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -23,23 +23,40 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+// an indirect call can pass any number of arguments
+bool check_args(nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_getc(nano::thread_t &t, int32_t) {
+void vm_getc(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   const int32_t ch = getchar();
   t.get_stack().push_int(ch);
 }
 
-void vm_putc(nano::thread_t &t, int32_t) {
+void vm_putc(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -49,9 +66,12 @@ void vm_putc(nano::thread_t &t, int32_t) {
   t.get_stack().push_int(0);
 }
 
-void vm_gets(nano::thread_t &t, int32_t) {
+void vm_gets(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
-  char buffer[80];
+  char buffer[80] = {'\0'};
   fgets(buffer, sizeof(buffer), stdin);
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
@@ -60,10 +80,12 @@ void vm_gets(nano::thread_t &t, int32_t) {
   t.get_stack().push_string(std::string{buffer});
 }
 
-void vm_puts(nano::thread_t &t, int32_t) {
+void vm_puts(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From baf2b1cbbba162051e029a800e45d57c0007b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:30 +0000
Subject: [PATCH 45/61] fix: list every instruction that has an operand or
 branches

---
 source/lib_common/instructions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_common/instructions.cpp b/source/lib_common/instructions.cpp
index f413a79..a861768 100644
--- a/source/lib_common/instructions.cpp
+++ b/source/lib_common/instructions.cpp
@@ -10,10 +10,14 @@ bool ins_has_operand(const instruction_e ins) {
   case INS_CALL:
   case INS_RET:
   case INS_SCALL:
+  case INS_ICALL:
   case INS_POP:
+  case INS_NEW_ARY:
   case INS_NEW_INT:
   case INS_NEW_STR:
   case INS_NEW_FLT:
+  case INS_NEW_FUNC:
+  case INS_NEW_SCALL:
   case INS_LOCALS:
   case INS_GLOBALS:
   case INS_GETV:
@@ -35,6 +39,7 @@ bool ins_will_branch(const instruction_e ins) {
   case INS_FJMP:
   case INS_TJMP:
   case INS_CALL:
+  case INS_ICALL:
   case INS_RET:
     return true;
   default:
-- 
2.43.0


From 149dc07037fabb148b908694a7ae5e9d1e22aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:32 +0000
Subject: [PATCH 46/61] fix: look up declarations in a deterministic order

---
 source/lib_compiler/sema.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 15f2afd..3e2ef4d 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -401,7 +401,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
       switch (f->type) {
       case ast_decl_func_e:
       case ast_decl_var_e:
-        scope_[0].insert(f);
+        scope_[0].push_back(f);
         break;
       default:
         break;
@@ -506,7 +506,7 @@ struct sema_decl_annotate_t : public ast_visitor_t {
 
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
-    scope_.back().insert(n);
+    scope_.back().push_back(n);
   }
 
   ast_node_t *find_decl(const std::string &name) {
@@ -531,7 +531,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     return out;
   }
 
-  std::vector<std::set<ast_node_t *>> scope_;
+  // note: kept in declaration order so that lookups are deterministic
+  std::vector<std::vector<ast_node_t *>> scope_;
 
   error_manager_t &errs_;
   nano_t &nano_;
-- 
2.43.0


From 70ae5ca957576287cbe3b0906eda2c18091a7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:19 +0000
Subject: [PATCH 47/61] fix: calling none raises a type error instead of
 aborting

---
 source/lib_vm/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index e3131c4..566bf32 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -431,8 +431,8 @@ void thread_t::do_INS_SCALL_() {
 
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
+  // note: a none value may be a nullptr
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
     do_syscall_(operand, num_args);
-- 
2.43.0


From 67a878aa57623d549ca7f4fb0d0bebb3dbaf4102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:51 +0000
Subject: [PATCH 48/61] fix: a file called 'unknown' is not taken for a source
 loaded from a string

---
 source/lib_common/source.cpp | 4 ++++
 source/lib_common/source.h   | 1 -
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 5b38631..246a33b 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -75,6 +75,10 @@ void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
 
 bool source_manager_t::load(const char *path) {
   for (const auto &s : sources_) {
+    // sources that came from a string have no path
+    if (s->file_path().empty()) {
+      continue;
+    }
     // file already loaded so return
     if (path_cmp(normalize(s->file_path()).c_str(), normalize(path).c_str())) {
       return true;
diff --git a/source/lib_common/source.h b/source/lib_common/source.h
index bd3bdb3..bf7c5c8 100644
--- a/source/lib_common/source.h
+++ b/source/lib_common/source.h
@@ -36,7 +36,6 @@ struct source_t {
     _data.reset(new char[size + 1]);
     memcpy(_data.get(), string, size);
     _data[size] = '\0';
-    _filename = "unknown";
     _gen_lines();
     return true;
   }
-- 
2.43.0


From 6d5a889cac9df12cc5e86ad77da89bc1d240aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:51 +0000
Subject: [PATCH 49/61] fix: nano_comp accepts paths of any length

---
 source/comp/driver.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..51252e4 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <string>
 
 #include "../lib_compiler/nano.h"
 #include "../lib_compiler/codegen.h"
@@ -21,9 +22,9 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  // note: a path can be of any length
+  const std::string path = std::string(base) + ext;
+  return fopen(path.c_str(), "wb");
 }
 
 void usage(const char *path) {
-- 
2.43.0


From 78452e8fc0e4d5c42434dbe7264b437037458d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:25 +0000
Subject: [PATCH 50/61] fix: the source line seen by a host callback is the one
 being executed

---
 source/lib_vm/thread.cpp | 6 +++++-
 source/lib_vm/thread.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 566bf32..a353c34 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -66,6 +66,7 @@ thread_t::thread_t(vm_t &vm)
   , finished_(true)
   , halted_(false)
   , pc_(0)
+  , inst_pc_(-1)
   , vm_(vm)
   , gc_(*(vm.gc_))
   , stack_(*this, *(vm.gc_))
@@ -739,6 +740,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 void thread_t::step_imp_() {
   // fetch opcode
   const int32_t pc = pc_;
+  inst_pc_ = pc;
   const uint8_t opcode = read_opcode_();
   // dispatch
   switch (opcode) {
@@ -785,6 +787,7 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  inst_pc_ = -1;
   // stay at the instruction that raised an error so its line can be reported
   if (has_error()) {
     pc_ = pc;
@@ -865,7 +868,8 @@ bool thread_t::step_line() {
 }
 
 line_t thread_t::get_source_line() const {
-  return vm_.program_.get_line(pc_);
+  // note: the host can ask while an instruction is being executed
+  return vm_.program_.get_line(inst_pc_ < 0 ? pc_ : inst_pc_);
 }
 
 void thread_t::tick_gc_(int32_t cycles) {
diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index 0666309..bf33286 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -143,6 +143,9 @@ protected:
   // program counter
   int32_t pc_;
 
+  // address of the instruction being executed, or -1 between instructions
+  int32_t inst_pc_;
+
   // parent virtual machine
   vm_t &vm_;
 
-- 
2.43.0


From fdd8d0834f0f927b2f3b4cdd514631b548bcb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:30 +0000
Subject: [PATCH 51/61] fix: run a global's initialiser even when it is none

---
 source/lib_compiler/sema.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 3e2ef4d..9f0a552 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -291,9 +291,6 @@ struct sema_global_var_t : public ast_visitor_t {
     assert(n->expr);
     switch (n->expr->type) {
     case ast_exp_none_e:
-      if (!n->is_const) {
-        n->expr = nullptr;
-      }
       break;
     case ast_exp_bin_op_e:
     case ast_exp_unary_op_e: {
-- 
2.43.0


From ec55d00f1bf7eba2fabf456937d57f4288f9b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:06 +0000
Subject: [PATCH 52/61] fix: prepare a thread again from scratch

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index a353c34..fecbe9e 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -695,6 +695,7 @@ void thread_t::reset() {
   f_.clear();
   halted_ = false;
   finished_ = false;
+  waits = 0;
 }
 
 bool thread_t::prepare(const function_t &func, int32_t argc,
@@ -704,7 +705,10 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   finished_ = true;
   cycles_ = 0;
   halted_ = false;
+  waits = 0;
 
+  // drop anything left over from a previous execution
+  f_.clear();
   stack_.clear();
 
   // load the target pc (entry point)
-- 
2.43.0


From fab33a518e82e8573bf72663cecfcd9bc38b12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 53/61] fix: show the full width of the screen

flip copied as many columns as the screen has rows: a wide screen was cut off
and a tall one was overrun.
---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 59dab76..bc55944 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -284,7 +284,7 @@ void vm_flip(nano::thread_t &t, int32_t) {
     uint32_t *d = (uint32_t *)global.screen_->pixels;
 
     for (uint32_t y = 0; y < h; ++y) {
-      for (uint32_t x = 0, j = 0; x < h; ++x, j += 3) {
+      for (uint32_t x = 0, j = 0; x < w; ++x, j += 3) {
         const uint32_t c = s[x];
         d[j + 0 + p0] = d[j + 1 + p0] = d[j + 2 + p0] = c;
         d[j + 0 + p1] = d[j + 1 + p1] = d[j + 2 + p1] = c;
-- 
2.43.0


From 20c5099e6854b6d1e6046d94e651486563d0ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 54/61] fix: report whether the video window could be opened

video() returned 1 when the window could not be created and 0 when it could.
---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index bc55944..bf43f82 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -82,7 +82,7 @@ void vm_video(nano::thread_t &t, int32_t) {
     if (global.window_) {
       global.screen_ = SDL_GetWindowSurface(global.window_);
     }
-    if (!global.window_ || !global.screen_) {
+    if (global.window_ && global.screen_) {
       ok = true;
     }
   }
-- 
2.43.0


From 60be3a2a9c7ba5c64dbe42e6723589ee39aebb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 55/61] fix: forget the old surface when a new video window
 fails

Drawing went on to the surface of the previous window with the size of the new
one.
---
 source/driver_sdl/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index bf43f82..90d67f4 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -79,6 +79,8 @@ void vm_video(nano::thread_t &t, int32_t) {
                                       global.width_ * 3,
                                       global.height_ * 3,
                                       0);
+    // do not draw to the surface of a previous window
+    global.screen_ = nullptr;
     if (global.window_) {
       global.screen_ = SDL_GetWindowSurface(global.window_);
     }
-- 
2.43.0


From 3c86b6dcf9ddc43b7d5ee9d07a2e94cb483ffdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 56/61] fix: refuse impossible video sizes

A size of zero or less, or one whose area overflows, allocated a buffer that did
not match the size the drawing functions clip to.
---
 source/driver_sdl/driver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 90d67f4..e974d7c 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -67,7 +67,12 @@ void vm_video(nano::thread_t &t, int32_t) {
 
   bool ok = false;
 
-  if (w->is_a<val_type_int>() && h->is_a<val_type_int>()) {
+  // the screen is scaled by three and SDL limits the size of a window
+  const int32_t max_size = 16384 / 3;
+
+  if (w->is_a<val_type_int>() && h->is_a<val_type_int>() &&
+      w->v > 0 && w->v <= max_size &&
+      h->v > 0 && h->v <= max_size) {
     global.width_ = (uint32_t)w->v;
     global.height_ = (uint32_t)h->v;
     global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);
-- 
2.43.0


From 63f7a1446caca4413ec73fc4e5404cb77a865e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 57/61] fix: do not sleep for weeks when the time is negative

The wake up time wrapped around shortly after the start.
---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index e974d7c..c0f19fa 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -53,7 +53,7 @@ void vm_cls(nano::thread_t &t, int32_t) {
 void vm_sleep(nano::thread_t &t, int32_t) {
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
-    tick_mark = SDL_GetTicks() + val->as_int();
+    tick_mark = SDL_GetTicks() + std::max<int32_t>(val->as_int(), 0);
     t.halt();
   }
   // return value
-- 
2.43.0


From 6bdb14471afbaa7cea1ca0aa279202687af89d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 58/61] fix: stop the SDL driver when initialisation fails

main was started with globals that were never set.
---
 source/driver_sdl/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index c0f19fa..0f5fe9c 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -383,6 +383,7 @@ int main(int argc, char **argv) {
 
   if (!vm.call_init()) {
     fprintf(stderr, "failed while executing @init\n");
+    exit(1);
   }
 
   if (!vm.new_thread(*func, 0, nullptr)) {
-- 
2.43.0


From a682f7d7b781fbc97082198c5d312d04a01a621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:25 +0000
Subject: [PATCH 59/61] fix: check the number of arguments of the SDL driver's
 system calls

Calling one through a variable with the wrong number of arguments popped values
that belong to the caller.
---
 source/driver_sdl/driver.cpp | 59 ++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 0f5fe9c..03af660 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -31,14 +31,29 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+// an indirect call can pass any number of arguments
+bool check_args(nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_cls(nano::thread_t &t, int32_t) {
+void vm_cls(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   uint32_t *v = global.video_.get();
   for (uint32_t y = 0; y < global.height_; ++y) {
     for (uint32_t x = 0; x < global.width_; ++x) {
@@ -50,7 +65,10 @@ void vm_cls(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_sleep(nano::thread_t &t, int32_t) {
+void vm_sleep(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
     tick_mark = SDL_GetTicks() + std::max<int32_t>(val->as_int(), 0);
@@ -60,7 +78,10 @@ void vm_sleep(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_video(nano::thread_t &t, int32_t) {
+void vm_video(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   using namespace nano;
   const value_t *h = t.get_stack().pop();
   const value_t *w = t.get_stack().pop();
@@ -98,7 +119,10 @@ void vm_video(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_int(ok ? 1 : 0));
 }
 
-void vm_setrgb(nano::thread_t &t, int32_t) {
+void vm_setrgb(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 3)) {
+    return;
+  }
   using namespace nano;
   const value_t *b = t.get_stack().pop();
   const value_t *g = t.get_stack().pop();
@@ -145,7 +169,10 @@ static inline void span(int32_t x0, int32_t x1, int32_t y0) {
   }
 }
 
-void vm_circle(nano::thread_t &t, int32_t) {
+void vm_circle(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 3)) {
+    return;
+  }
   using namespace nano;
 
   const value_t *r = t.get_stack().pop();
@@ -207,7 +234,10 @@ static inline void line(int32_t x0, int32_t y0, int32_t x1, int32_t y1) {
   }
 }
 
-void vm_line(nano::thread_t &t, int32_t) {
+void vm_line(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 4)) {
+    return;
+  }
   using namespace nano;
   const value_t *y1 = t.get_stack().pop();
   const value_t *x1 = t.get_stack().pop();
@@ -222,7 +252,10 @@ void vm_line(nano::thread_t &t, int32_t) {
   }
 }
 
-void vm_keydown(nano::thread_t &t, int32_t) {
+void vm_keydown(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *key = t.get_stack().pop();
   if (!key->is_a<val_type_string>()) {
@@ -263,7 +296,10 @@ void vm_keydown(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_plot(nano::thread_t &t, int32_t) {
+void vm_plot(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 2)) {
+    return;
+  }
   using namespace nano;
 
   const value_t *y = t.get_stack().pop();
@@ -275,7 +311,10 @@ void vm_plot(nano::thread_t &t, int32_t) {
   }
 }
 
-void vm_flip(nano::thread_t &t, int32_t) {
+void vm_flip(nano::thread_t &t, int32_t nargs) {
+  if (!check_args(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
 
   const uint32_t w = global.width_;
-- 
2.43.0


From aa33cbb4da0c4425423200424c02aaec1a8f95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:05 +0000
Subject: [PATCH 60/61] fix: forget the last line when a thread is prepared
 again

A breakpoint on the first line of the function was not hit because the
line the thread stopped on in its previous execution was remembered.
---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index fecbe9e..a134339 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -710,6 +710,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   // drop anything left over from a previous execution
   f_.clear();
   stack_.clear();
+  last_line_ = line_t{};
 
   // load the target pc (entry point)
   pc_ = func.code_start_;
-- 
2.43.0


From 4870dcacbcb3f577b03cee7454875a014a4db66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:05 +0000
Subject: [PATCH 61/61] fix: a failed thread has no return value

get_return_value() read the top of the stack of a failed thread, which
can be empty.
---
 source/lib_vm/thread.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.h b/source/lib_vm/thread.h
index bf33286..a96852f 100644
--- a/source/lib_vm/thread.h
+++ b/source/lib_vm/thread.h
@@ -51,7 +51,8 @@ struct thread_t {
 
   // return the current error code
   value_t *get_return_value() const {
-    return finished_ ? stack_.peek() : nullptr;
+    // note: a failed thread has no return value and its stack can be empty
+    return finished_ && !has_error() ? stack_.peek() : nullptr;
   }
 
   // return the total cycle count
-- 
2.43.0

