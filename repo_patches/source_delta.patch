From 0f851bc0c5bfd913183fb48d614f31012364e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 001/137] verification hook: count scanning steps under
 cfg(verif_hooks)

---
 src/lib.rs          |  3 +++
 src/parser/lexer.rs |  6 ++++++
 src/verif_hooks.rs  | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 5615613..60f3020 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,9 +1,12 @@
+#![allow(unexpected_cfgs)]
 mod error;
 mod lvar_collector;
 mod node;
 mod parser;
 mod source_info;
 mod token;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
 pub use error::*;
 pub use lvar_collector::*;
 pub use node::*;
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..b3de792 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -123,6 +123,8 @@ impl<'a> Lexer<'a> {
     }
 
     pub(crate) fn peek_token(&mut self) -> Result<Token, LexerErr> {
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::tick();
         if let Some(tok) = &self.buf {
             return Ok(tok.clone());
         };
@@ -134,6 +136,8 @@ impl<'a> Lexer<'a> {
     }
 
     pub(crate) fn peek_token_skip_lt(&mut self) -> Result<Token, LexerErr> {
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::tick();
         if let Some(tok) = &self.buf_skip_lt {
             return Ok(tok.clone());
         };
@@ -1229,6 +1233,8 @@ impl<'a> Lexer<'a> {
     /// Peek the next char.
     /// Returns Some(char) or None if the cursor reached EOF.
     fn peek(&self) -> Option<char> {
+        #[cfg(verif_hooks)]
+        crate::verif_hooks::tick();
         self.code.get(self.pos..)?.chars().next()
     }
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..ad303c7
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,35 @@
+//! Verification hooks (compiled only with `--cfg verif_hooks`).
+//!
+//! Counts the scanning steps of the lexer on the current thread, so that a parse which does
+//! not terminate (or needs far too much work) ends deterministically instead of hanging.
+
+use std::cell::Cell;
+
+thread_local! {
+    static USED: Cell<u64> = const { Cell::new(0) };
+    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// The message of the panic raised when the limit is exceeded.
+pub const WORK_LIMIT: &str = "verif_hooks: work limit exceeded";
+
+/// Reset the counter and set the limit for the current thread.
+pub fn set_limit(limit: u64) {
+    USED.with(|u| u.set(0));
+    LIMIT.with(|l| l.set(limit));
+}
+
+/// Steps used since the last call of `set_limit`.
+pub fn used() -> u64 {
+    USED.with(|u| u.get())
+}
+
+pub(crate) fn tick() {
+    let n = USED.with(|u| {
+        u.set(u.get() + 1);
+        u.get()
+    });
+    if n > LIMIT.with(|l| l.get()) {
+        panic!("{}", WORK_LIMIT);
+    }
+}
-- 
2.43.0


From 0661dfda7e24047ac3e41c7057dddc7edf055045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 002/137] fix: drop peeked tokens when the parser goes back to
 a saved position

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..034d9a3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,6 +112,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        // A peeked token is only valid for the position it was read at.
+        self.lexer.flush();
     }
 
     fn scope_mut(&mut self) -> &mut LvarScope {
-- 
2.43.0


From 9d8540829e241dfdc3f8f153cbed15e1ff35d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 003/137] fix: an assignment in an argument, hash or parameter
 list ends at the comma

---
 src/parser.rs            | 12 +++++++++++-
 src/parser/expression.rs | 11 +++++++++--
 src/parser/literals.rs   |  8 ++++++++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 034d9a3..0721840 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -562,6 +562,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_formal_params(
         &mut self,
         terminator: impl Into<Option<Punct>>,
+    ) -> Result<Vec<FormalParam>, LexerErr> {
+        // A comma separates parameters here. cf. def f(a = b = 1, c)
+        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let params = self.parse_formal_param_list(terminator.into());
+        self.suppress_mul_assign = old;
+        params
+    }
+
+    fn parse_formal_param_list(
+        &mut self,
+        terminator: Option<Punct>,
     ) -> Result<Vec<FormalParam>, LexerErr> {
         #[derive(Debug, Clone, PartialEq, PartialOrd)]
         enum Kind {
@@ -573,7 +584,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             KWRest,
         }
 
-        let terminator = terminator.into();
         let mut args = vec![];
         let mut state = Kind::Required;
 
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..9945673 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -227,7 +227,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             let lhs = self.check_lhs(lhs)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
@@ -902,7 +902,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// arg, *splat_arg, kw: kw_arg, **double_splat_arg, &block <punct>
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
-        let punct = punct.into();
+        // A comma separates arguments here. cf. f(a = 1, 2)
+        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let arglist = self.parse_arglist_elements(punct.into());
+        self.suppress_mul_assign = old;
+        arglist
+    }
+
+    fn parse_arglist_elements(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..d0764e2 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -175,6 +175,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
+        // A comma separates elements here. cf. { :a => b = 1, :c => 2 }
+        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let node = self.parse_hash_elements();
+        self.suppress_mul_assign = old;
+        node
+    }
+
+    fn parse_hash_elements(&mut self) -> Result<Node, LexerErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
-- 
2.43.0


From 9d523a08bf3401f61749b29f2716c023c8b1b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 004/137] fix: declare a parameter before its default
 expression is parsed

---
 src/parser.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0721840..8056636 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -651,6 +651,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let name = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
+                    // The parameter itself is visible in its default expression.
+                    self.new_param(name.clone(), self.prev_loc().merge(loc))?;
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_primary(true)?
                     } else {
@@ -667,10 +669,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             ))
                         }
                     };
-                    args.push(FormalParam::optional(name.clone(), default, loc));
-                    self.new_param(name, loc)?;
+                    args.push(FormalParam::optional(name, default, loc));
                 } else if self.consume_punct_no_term(Punct::Colon)? {
                     // Keyword param
+                    let lvar = self.new_param(name.clone(), self.prev_loc().merge(loc))?;
                     let next = self.peek_no_term()?.kind;
                     let default =
                         if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
@@ -693,8 +695,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     } else {
                         state = Kind::KeyWord;
                     };
-                    args.push(FormalParam::keyword(name.clone(), default, loc));
-                    let lvar = self.new_param(name, loc)?;
+                    args.push(FormalParam::keyword(name, default, loc));
                     self.add_kw_param(lvar);
                 } else {
                     // Required param
-- 
2.43.0


From b0ce93630b9a8bd8f8fae8457d4dc7e4b790bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 005/137] fix: nested statements do not inherit the
 restrictions of the surrounding list or loop condition

---
 src/parser/expression.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 9945673..ed42c4f 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -2,6 +2,18 @@ use super::*;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
+        // What is suppressed in the surrounding construct is allowed in nested statements.
+        let mul = std::mem::replace(&mut self.suppress_mul_assign, false);
+        let acc = std::mem::replace(&mut self.suppress_acc_assign, false);
+        let do_block = std::mem::replace(&mut self.suppress_do_block, false);
+        let node = self.parse_statements();
+        self.suppress_mul_assign = mul;
+        self.suppress_acc_assign = acc;
+        self.suppress_do_block = do_block;
+        node
+    }
+
+    fn parse_statements(&mut self) -> Result<Node, LexerErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
         self.peek()?;
         let loc = self.loc();
-- 
2.43.0


From 148492e03aefee1f38c1f7b52c993d334d498ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 006/137] fix: a minus sign as operand of **, !, ~ and + no
 longer panics

---
 src/parser/expression.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ed42c4f..6b8b964 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -502,25 +502,42 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_exponent(&mut self) -> Result<Node, LexerErr> {
         let lhs = self.parse_unary()?;
         if self.consume_punct_no_term(Punct::DMul)? {
-            let rhs = self.parse_exponent()?;
+            let rhs = if self.peek_is_minus()? {
+                self.parse_unary_minus()?
+            } else {
+                self.parse_exponent()?
+            };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
             Ok(lhs)
         }
     }
 
+    fn peek_is_minus(&mut self) -> Result<bool, LexerErr> {
+        Ok(self.peek()?.kind == TokenKind::Punct(Punct::Minus))
+    }
+
+    /// Parse operand of unary operators.
+    fn parse_unary_operand(&mut self) -> Result<Node, LexerErr> {
+        if self.peek_is_minus()? {
+            self.parse_unary_minus()
+        } else {
+            self.parse_unary()
+        }
+    }
+
     fn parse_unary(&mut self) -> Result<Node, LexerErr> {
         if self.consume_punct(Punct::BitNot)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::BitNot, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Not)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Not, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Not, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else if self.consume_punct(Punct::Plus)? {
             let loc = self.prev_loc();
-            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
+            let lhs = Node::new_unop(UnOp::Pos, self.parse_unary_operand()?, loc);
             Ok(lhs)
         } else {
             self.parse_method_call()
@@ -774,7 +791,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     },
                     TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                    kind => Err(error_unexpected(
+                        self.prev_loc(),
+                        format!("Unexpected token: {:?}", kind),
+                    )),
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From b1af8b20c91988e452e9b15d2cafc657eacbe978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 007/137] fix: an assignment as operand of !, ~, + and **
 assigns to that operand

---
 src/parser/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6b8b964..20544c8 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -505,7 +505,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let rhs = if self.peek_is_minus()? {
                 self.parse_unary_minus()?
             } else {
-                self.parse_exponent()?
+                let rhs = self.parse_exponent()?;
+                self.parse_accesory_assign(rhs)?
             };
             Ok(Node::new_binop(BinOp::Exp, lhs, rhs))
         } else {
@@ -522,7 +523,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.peek_is_minus()? {
             self.parse_unary_minus()
         } else {
-            self.parse_unary()
+            let operand = self.parse_unary()?;
+            self.parse_accesory_assign(operand)
         }
     }
 
-- 
2.43.0


From a769ccc40ccf63bf3d042403029f5e9f50acdb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 008/137] fix: interpolate class and special variables, and
 only what is a variable

---
 src/parser/lexer.rs    | 46 +++++++++++++++++++++++++++++++++---------
 src/parser/literals.rs | 11 ++++++++--
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b3de792..e6c8019 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -795,6 +795,32 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine whether the text following '#' is an interpolation. (#{, #@a, #@@a, #$a, #$1, #$&, ..)
+    fn is_interpolation(&self) -> bool {
+        let is_ident_start =
+            |ch: Option<char>| matches!(ch, Some(ch) if ch.is_ascii_alphabetic() || ch == '_' || !ch.is_ascii());
+        let mut iter = match self.code.get(self.pos..) {
+            Some(code) => code.chars(),
+            None => return false,
+        };
+        match iter.next() {
+            Some('{') => true,
+            Some('@') => match iter.next() {
+                Some('@') => is_ident_start(iter.next()),
+                ch => is_ident_start(ch),
+            },
+            Some('$') => match iter.next() {
+                Some(ch) => {
+                    is_ident_start(Some(ch))
+                        || ch.is_ascii_digit()
+                        || "~*$?!@/\\;,.=:<>\"&`'+".contains(ch)
+                }
+                None => false,
+            },
+            _ => false,
+        }
+    }
+
     /// Read interpolation string with `open` as opening char and `term` as a terminator.
     fn read_interpolate(
         &mut self,
@@ -834,13 +860,13 @@ impl<'a> Lexer<'a> {
                     };
                     self.read_escaped_char(&mut s)?;
                 }
-                '#' => match self.peek() {
+                '#' => {
                     // string interpolation
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(s, level))
+                    if self.is_interpolation() {
+                        return Ok(InterpolateState::NewInterpolation(s, level));
                     }
-                    _ => s.push_char('#'),
-                },
+                    s.push_char('#');
+                }
                 '\n' => {
                     s.push_char('\n');
                     if self.heredoc_pos > self.pos {
@@ -1040,12 +1066,12 @@ impl<'a> Lexer<'a> {
                         }
                     };
                 }
-                '#' => match self.peek() {
-                    Some(ch) if ch == '{' || ch == '$' || ch == '@' => {
-                        return Ok(InterpolateState::NewInterpolation(body.into(), 0))
+                '#' => {
+                    if self.is_interpolation() {
+                        return Ok(InterpolateState::NewInterpolation(body.into(), 0));
                     }
-                    _ => body.push('#'),
-                },
+                    body.push('#');
+                }
                 c => body.push(c),
             }
         }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index d0764e2..2616b7f 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -325,7 +325,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(Node::new_lambda(params, body, lvar, loc))
     }
 
-    /// Parse template (#{..}, #$s, #@a).
+    /// Parse template (#{..}, #$s, #@a, #@@a).
     fn parse_template(&mut self, nodes: &mut Vec<Node>) -> Result<(), LexerErr> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
@@ -339,7 +339,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
+                kind => {
+                    return Err(error_unexpected(
+                        loc,
+                        format!("Unexpected token: {:?}", kind),
+                    ))
+                }
             };
             nodes.push(node);
         };
-- 
2.43.0


From 8445cf0008c2ec263d7f7e62c1f7e719e6022e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:55 +0000
Subject: [PATCH 009/137] fix: a character literal does not depend on the token
 its character starts

---
 src/parser/lexer.rs    | 7 ++++---
 src/parser/literals.rs | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e6c8019..7f24f4d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -962,15 +962,16 @@ impl<'a> Lexer<'a> {
     }
 
     /// Read char literal.
-    pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<(), LexerErr> {
-        let c = self.get()?;
+    pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<Loc, LexerErr> {
         self.flush();
+        self.token_start_pos = self.pos;
+        let c = self.get()?;
         if c == '\\' {
             self.read_escaped_char(buf)?;
         } else {
             buf.push_char(c);
         };
-        Ok(())
+        Ok(self.cur_loc())
     }
 
     /// Convert postfix of regular expression.
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 2616b7f..249503f 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -4,10 +4,10 @@ use super::*;
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse char literals.
     pub(super) fn parse_char_literal(&mut self) -> Result<Node, LexerErr> {
-        let loc = self.loc();
+        let loc = self.prev_loc();
         let mut s = RubyString::new();
-        self.lexer.read_char_literal(&mut s)?;
-        Ok(Node::new_string(s, loc.merge(self.prev_loc)))
+        let char_loc = self.lexer.read_char_literal(&mut s)?;
+        Ok(Node::new_string(s, loc.merge(char_loc)))
     }
 
     /// Parse string literals.
-- 
2.43.0


From a91ca3cc1c8fc8c133350915c5f89d1a42910d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 010/137] fix: a lexical error while asking for the current
 location does not panic

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 8056636..064fbb3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -276,7 +276,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+        match self.peek_no_term() {
+            Ok(tok) => tok.loc(),
+            Err(err) => err.1,
+        }
     }
 
     fn prev_loc(&self) -> Loc {
-- 
2.43.0


From 858f08c86cb72f9c8787cc2bbf0643d27ac3ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 011/137] fix: an unexpected character at the end of input is
 reported, not a panic

---
 src/parser/lexer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 7f24f4d..a95952c 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -82,12 +82,14 @@ impl<'a> Lexer<'a> {
     }
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
-        let loc = Loc(pos, pos);
+        let ch = match self.code[pos..].chars().next() {
+            Some(ch) => ch,
+            None => return Self::error_eof(pos),
+        };
+        // The location covers the whole character.
+        let loc = Loc(pos, pos + ch.len_utf8() - 1);
         LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
+            ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
             loc,
         )
     }
-- 
2.43.0


From fcc9059f6b194f5530840ef7f9dc2f6a5ecb7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 012/137] fix: a lexical error found while peeking is not lost

---
 src/parser/lexer.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index a95952c..898f7e8 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -131,8 +131,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let tok = self.read_token();
         self.restore_state(save);
+        let tok = tok?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -144,14 +145,14 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
-        loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+        let tok = loop {
+            match self.read_token() {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                res => break res,
             }
-        }
+        };
         self.restore_state(save);
+        let tok = tok?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From a84bec83b9871265cdf6f10fded801354da72d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 013/137] fix: interpolation in a command here-document does
 not panic

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 249503f..e339938 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -165,7 +165,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From cd8e7ca9dec15f2561d62309e46a1f7e24f85404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 014/137] fix: large octal and binary literals become big
 integers

---
 src/parser/lexer.rs | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 898f7e8..ff6730b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -726,44 +726,42 @@ impl<'a> Lexer<'a> {
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
+        match self.peek() {
+            Some('0'..='7') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
-            self.get()?;
-        }
-        Ok(self.new_numlit(val as i64))
+        let start_pos = self.pos;
+        while self.consume_octal().is_some() || self.consume('_') {}
+        self.new_radix_number(start_pos, 8)
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
             None => return Err(Self::error_eof(self.pos)),
         };
-        self.get()?;
-        loop {
-            match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
-                Some('_') => {}
-                _ => break,
-            }
-            self.get()?;
+        let start_pos = self.pos;
+        while self.consume('0') || self.consume('1') || self.consume('_') {}
+        self.new_radix_number(start_pos, 2)
+    }
+
+    /// Make an integer token from the digits between `start_pos` and the current position.
+    fn new_radix_number(&self, start_pos: usize, radix: u32) -> Result<Token, LexerErr> {
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), radix) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
         }
-        Ok(self.new_numlit(val as i64))
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 38dee96abd14066b6c505a364f202d14cf2cfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 015/137] fix: the smallest 64-bit integer literal is a machine
 integer

---
 src/parser/expression.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 20544c8..c1b91d1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1,4 +1,5 @@
 use super::*;
+use num::ToPrimitive;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
@@ -791,7 +792,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         Some(i) => Ok(Node::new_integer(i, loc)),
                         None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
                     },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
+                    TokenKind::BignumLit(num) => {
+                        let num = -num;
+                        match num.to_i64() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(num, loc)),
+                        }
+                    }
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
                     kind => Err(error_unexpected(
                         self.prev_loc(),
-- 
2.43.0


From 06c294bc6347cb2d559f7fd6d4697818319f328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 016/137] fix: an integer literal with a leading zero is octal

---
 src/parser/lexer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ff6730b..2fa526e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -638,6 +638,14 @@ impl<'a> Lexer<'a> {
                 return self.read_octal_number();
             } else if self.consume('b') {
                 return self.read_bin_number();
+            } else if self.peek_digit() || self.peek() == Some('_') {
+                // e.g. 0755
+                self.consume('_');
+                let tok = self.read_octal_number()?;
+                if self.peek_digit() {
+                    return Err(Self::error_parse("Invalid octal digit.", self.pos));
+                }
+                return Ok(tok);
             }
         };
         let mut s = ch.to_string();
-- 
2.43.0


From b97206608d1dd24231fdf1ba263b14fd2df627e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 017/137] fix: a huge numbered variable does not overflow

---
 src/parser/lexer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 2fa526e..059cea7 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -421,9 +421,15 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id.saturating_mul(10).saturating_add(ch as u32 - '0' as u32);
+            }
+            match id.checked_add(100) {
+                Some(id) => Ok(self.new_special_var(id)),
+                None => Err(Self::error_parse(
+                    "Numbered variable is too big.",
+                    self.token_start_pos,
+                )),
             }
-            Ok(self.new_special_var(id as u32 + 100))
         } else {
             let tok = match self.peek() {
                 Some(ch) if ch.is_ascii_punctuation() => {
-- 
2.43.0


From 598384af82209dbcdaa0369a677c6a9219a8f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 018/137] fix: only ASCII digits start a number

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 059cea7..5bab80c 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -230,7 +230,7 @@ impl<'a> Lexer<'a> {
 
             if ch.is_ascii_alphabetic() || ch == '_' {
                 return self.read_identifier(ch, VarKind::Identifier);
-            } else if ch.is_numeric() {
+            } else if ch.is_ascii_digit() {
                 return self.read_number_literal(ch);
             } else if ch.is_ascii_punctuation() {
                 match ch {
-- 
2.43.0


From de4122366bf9de2bf8a14e26fe493e03ca041bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 019/137] fix: reject numbers with a misplaced digit separator

---
 src/parser/lexer.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 5bab80c..295eac1 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -695,6 +695,7 @@ impl<'a> Lexer<'a> {
             }
             float_flag = true;
         }
+        self.check_digit_separators(self.token_start_pos, 10)?;
         let number = if float_flag {
             match s.parse::<f64>() {
                 Ok(f) => NReal::Float(f),
@@ -728,6 +729,7 @@ impl<'a> Lexer<'a> {
 
         while self.consume_hex().is_some() || self.consume('_') {}
 
+        self.check_digit_separators(start_pos, 16)?;
         let s = &self.code[start_pos..self.pos];
         match BigInt::parse_bytes(s.as_bytes(), 16) {
             Some(b) => match b.to_i64() {
@@ -766,8 +768,19 @@ impl<'a> Lexer<'a> {
         self.new_radix_number(start_pos, 2)
     }
 
+    /// Check that every '_' in the number which starts at `start_pos` is followed by a digit.
+    fn check_digit_separators(&self, start_pos: usize, radix: u32) -> Result<(), LexerErr> {
+        let mut parts = self.code[start_pos..self.pos].split('_').skip(1);
+        if parts.all(|part| part.starts_with(|ch: char| ch.is_digit(radix))) {
+            Ok(())
+        } else {
+            Err(Self::error_parse("Trailing '_' in number.", self.pos))
+        }
+    }
+
     /// Make an integer token from the digits between `start_pos` and the current position.
     fn new_radix_number(&self, start_pos: usize, radix: u32) -> Result<Token, LexerErr> {
+        self.check_digit_separators(start_pos, radix)?;
         let s = &self.code[start_pos..self.pos];
         match BigInt::parse_bytes(s.as_bytes(), radix) {
             Some(b) => match b.to_i64() {
-- 
2.43.0


From 9f01f1c0ab1890955578f998669763c040b593cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 020/137] fix: an invalid character in \u{..} is an error, not
 an endless loop

---
 src/parser/lexer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 295eac1..76828a5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -961,8 +961,9 @@ impl<'a> Lexer<'a> {
         if strict {
             for _ in 0..4 {
                 u = 16 * u
-                    + self.expect_hex().map_err(|_| {
-                        Self::error_parse("Invalid Unicode escape sequence.", self.pos)
+                    + self.expect_hex().map_err(|err| match err.0 {
+                        ParseErrKind::UnexpectedEOF => err,
+                        _ => Self::error_parse("Invalid Unicode escape sequence.", self.pos),
                     })?;
             }
         } else {
@@ -977,6 +978,10 @@ impl<'a> Lexer<'a> {
                 u = u * 16 + h;
                 i += 1;
             }
+            if i == 0 {
+                // neither a digit, a space nor '}'.
+                return Err(self.error_unexpected(self.pos));
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 2017b398274f48e7b398b85e8e99174f515d806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 021/137] fix: the do of a for loop is not a block of the
 iterated call

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index dc5ab3b..17e1211 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -101,7 +101,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        // The do belongs to the loop.
+        let old_suppress_do_flag = std::mem::replace(&mut self.suppress_do_block, true);
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
-- 
2.43.0


From 0fd4a008c0df0412185f136768c2aa260ccbac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 022/137] fix: a name before else, elsif, when, in, ensure or
 the end of input is not a command

---
 src/parser/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index c1b91d1..bb8e6e3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1153,7 +1153,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         if self.lexer.trailing_space() {
             match tok.kind {
-                TokenKind::LineTerm => false,
+                TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
                     Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
                         true
@@ -1179,6 +1179,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::When
+                        | Reserved::In
+                        | Reserved::Elsif
+                        | Reserved::Else
+                        | Reserved::Ensure
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From cf245eb6ce32a26fefb403b4957efe08bf09e8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 023/137] fix: ~ and ** can start the first argument of a
 command

---
 src/parser/expression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bb8e6e3..ee3b82f 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1155,13 +1155,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match tok.kind {
                 TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
-                        true
-                    }
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
                     | Punct::Mul
+                    | Punct::DMul
                     | Punct::Div
                     | Punct::BitAnd
                     | Punct::Rem
-- 
2.43.0


From 683dbfaf0c5c57fd4f6ca1d1e50bb98efb5cf45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 024/137] fix: a continuation line separates a name from its
 argument like a space

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 76828a5..8b466c2 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -160,6 +160,8 @@ impl<'a> Lexer<'a> {
     /// Examine if the next char is a whitespace or not.
     pub(crate) fn trailing_space(&self) -> bool {
         match self.peek() {
+            // continuation line
+            Some('\\') => self.peek2() == Some('\n'),
             Some(ch) => ch.is_ascii_whitespace(),
             _ => false,
         }
-- 
2.43.0


From b37249ac97a9da87b7c32c20e624963ca8ea9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 025/137] fix: keep safe navigation in a&.b 1 and a&.(1)

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ee3b82f..97aed12 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -650,7 +650,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_mcall(receiver, "call".to_string(), arglist, false, loc);
+            let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
@@ -662,7 +662,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     receiver,
                     id,
                     self.parse_arglist_block(None)?,
-                    false,
+                    safe_nav,
                     loc,
                 ));
             }
-- 
2.43.0


From 3c0e9fe59f9b677ff2c0311d66e69023dde8efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 026/137] fix: reject an argument list without closing
 parenthesis

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 97aed12..08cc6de 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1002,7 +1002,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -1033,7 +1033,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From 76130a9b087100cbfc3a5520b21129b7e2667ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 027/137] fix: accept a block argument after hash arguments

---
 src/parser/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 08cc6de..59272cd 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -992,6 +992,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                     }
                                 }
                             };
+                            // block argument. cf. f(1 => 2, &block)
+                            if self.consume_punct(Punct::BitAnd)? {
+                                arglist.block = Some(Box::new(self.parse_arg()?));
+                                break;
+                            }
                             let key = self.parse_arg()?;
                             self.expect_punct(Punct::FatArrow)?;
                             let value = self.parse_arg()?;
-- 
2.43.0


From 55f02afaea6753696e203d2f21e06a4abff5147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 028/137] fix: a keyword argument named like a variable of an
 outer block

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 59272cd..0bc3897 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1014,7 +1014,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(0, id) => {
+                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
                         if self.consume_punct_no_term(Punct::Colon)? {
                             // keyword args
                             arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-- 
2.43.0


From 3a7efeb4a665aa94a4069cb68752b61c19214f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 029/137] fix: an operator after a symbol is not part of the
 symbol

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 8b466c2..9d181ce 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -585,7 +585,9 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like
+                            && ch == '='
+                            && !matches!(self.peek2(), Some('>') | Some('=') | Some('~'))) =>
                 {
                     self.get().unwrap();
                 }
-- 
2.43.0


From a8cc858907334ccebc15a9b5ad02d3e3b61578dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 030/137] fix: labels in argument lists and hashes are names
 directly followed by a colon

---
 src/parser/expression.rs | 19 +++++--------------
 src/parser/lexer.rs      |  5 +++++
 src/parser/literals.rs   | 39 ++++++++++++++++++++++-----------------
 3 files changed, 32 insertions(+), 31 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0bc3897..5f14e40 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -976,6 +976,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct(Punct::BitAnd)? {
                 // block argument
                 arglist.block = Some(Box::new(self.parse_arg()?));
+            } else if let Some((name, _)) = self.consume_label()? {
+                // keyword args
+                arglist.kw_args.push((name, self.parse_arg()?));
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
@@ -1013,20 +1016,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     arglist.args.push(node);
                     return Ok(arglist);
                 }
-                match &node.kind {
-                    NodeKind::Ident(id, ..) | NodeKind::LocalVar(_, id) => {
-                        if self.consume_punct_no_term(Punct::Colon)? {
-                            // keyword args
-                            arglist.kw_args.push((id.to_string(), self.parse_arg()?));
-                        } else {
-                            // positional args
-                            arglist.args.push(node);
-                        }
-                    }
-                    _ => {
-                        arglist.args.push(node);
-                    }
-                }
+                // positional args
+                arglist.args.push(node);
             }
             if !self.consume_punct(Punct::Comma)? {
                 break;
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 9d181ce..0da0968 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -175,6 +175,11 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine if the next char is ':' which is not a part of '::'.
+    pub(crate) fn trailing_label_colon(&self) -> bool {
+        self.peek() == Some(':') && self.peek2() != Some(':')
+    }
+
     /// Examine if the next char of the token is space.
     pub(crate) fn has_trailing_space(&self, tok: &Token) -> bool {
         match self
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index e339938..ae505cb 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -174,6 +174,22 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(node)
     }
 
+    /// If the next token is a label (a name or a string directly followed by ':'),
+    /// consume it and return its name and location.
+    pub(super) fn consume_label(&mut self) -> Result<Option<(String, Loc)>, LexerErr> {
+        let tok = self.peek()?;
+        if let Some(name) = tok.can_be_symbol() {
+            let save = self.save_state();
+            self.get()?;
+            if self.lexer.trailing_label_colon() {
+                self.expect_punct(Punct::Colon)?;
+                return Ok(Some((name.to_owned(), tok.loc())));
+            }
+            self.restore_state(save);
+        }
+        Ok(None)
+    }
+
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
         // A comma separates elements here. cf. { :a => b = 1, :c => 2 }
         let old = std::mem::replace(&mut self.suppress_mul_assign, true);
@@ -189,24 +205,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RBrace)? {
                 return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));
             };
-            let ident_loc = self.loc();
-            let mut symbol_flag = false;
-            let key = match self.peek()?.can_be_symbol() {
-                Some(id) => {
-                    let save = self.save_state();
-                    self.get().unwrap();
-                    if self.consume_punct(Punct::Colon)? {
-                        symbol_flag = true;
-                        Node::new_symbol(id.to_owned(), ident_loc)
-                    } else {
-                        self.restore_state(save);
-                        self.parse_arg()?
-                    }
+            let key = match self.consume_label()? {
+                Some((name, loc)) => Node::new_symbol(name, loc),
+                None => {
+                    let key = self.parse_arg()?;
+                    self.expect_punct(Punct::FatArrow)?;
+                    key
                 }
-                None => self.parse_arg()?,
-            };
-            if !symbol_flag {
-                self.expect_punct(Punct::FatArrow)?
             };
             let value = self.parse_arg()?;
             kvp.push((key, value));
-- 
2.43.0


From 40d248150fb1a1952c181d82d3ce8b24fee93660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 031/137] fix: in '..' and %q a backslash escapes only itself
 and the delimiters

---
 src/parser/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0da0968..fc83a6d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -939,18 +939,18 @@ impl<'a> Lexer<'a> {
                     }
                 }
                 '\\' => {
-                    // continuation line
-                    if self.consume_newline() {
+                    // continuation line (only in regular expressions)
+                    if escape_backslash && self.consume_newline() {
                         continue;
                     };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
-                    } else if c == '\\' {
+                    if c == '\\' {
                         s.push('\\');
                         if escape_backslash {
                             s.push('\\');
                         }
+                    } else if !escape_backslash && (c == term || open == Some(c)) {
+                        s.push(c);
                     } else {
                         s.push('\\');
                         s.push(c);
-- 
2.43.0


From 31985582c616660235c0ba4ed74ffaddf326ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 032/137] fix: any white space separates the elements of %w and
 %i

---
 src/parser/literals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index ae505cb..ab30021 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -88,7 +88,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 // e.g. "foo\ bar" => "foo bar"
                 'w' => {
                     let ary = content
-                        .split(|c| c == ' ' || c == '\n')
+                        .split(|c: char| c.is_ascii_whitespace() || c == '\x0b')
                         .filter(|x| x != &"")
                         .map(|x| Node::new_string(x.to_string().into(), loc))
                         .collect();
@@ -96,7 +96,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 'i' => {
                     let ary = content
-                        .split(|c| c == ' ' || c == '\n')
+                        .split(|c: char| c.is_ascii_whitespace() || c == '\x0b')
                         .filter(|x| x != &"")
                         .map(|x| Node::new_symbol(x.to_owned(), loc))
                         .collect();
-- 
2.43.0


From c218457a38340258d38ad2ed96b5dbe6795a40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 033/137] fix: nested delimiters after an interpolation in
 percent strings

---
 src/parser/literals.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index ab30021..ade3027 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -34,16 +34,24 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: RubyString,
-        delimiter: Option<char>,
-        level: usize,
+        mut delimiter: Option<char>,
+        mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
         loop {
             self.parse_template(&mut nodes)?;
+            // Nested brackets are allowed in %Q(..) etc. also after an interpolation.
+            let open = match delimiter {
+                Some(')') => Some('('),
+                Some('}') => Some('{'),
+                Some(']') => Some('['),
+                Some('>') => Some('<'),
+                _ => None,
+            };
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
@@ -54,8 +62,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 name += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(next_s, next_delimiter, next_level) => {
                                 let t = self.get()?;
+                                delimiter = next_delimiter;
+                                level = next_level;
                                 name += next_s.as_str();
                                 loc = loc.merge(t.loc);
                                 break;
@@ -71,7 +81,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     nodes.push(Node::new_string(name, loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, next_level) => {
+                    level = next_level;
                     nodes.push(Node::new_string(s.into(), loc));
                 }
                 _ => unreachable!("{:?}", tok),
-- 
2.43.0


From b794ace5185175c74581638766bd2e6ae576ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 034/137] fix: octal escape above 0x7f is a byte

---
 src/parser/lexer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index fc83a6d..9e7cbd5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1204,10 +1204,14 @@ impl<'a> Lexer<'a> {
                 return Ok(());
             }
             c if ('0'..='7').contains(&c) => {
-                if let Some(num) = self.consume_tri_octal(c) {
-                    num as char
-                } else {
-                    c
+                match self.consume_tri_octal(c) {
+                    // An octal escape denotes a byte.
+                    Some(num) if num > 0x7f => {
+                        buf.push_byte(num);
+                        return Ok(());
+                    }
+                    Some(num) => num as char,
+                    None => c,
                 }
             }
             c => c,
-- 
2.43.0


From e265290e48da6717065431659e5d5fce53a55da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 035/137] fix: back references above 1 in regular expressions

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 9e7cbd5..8e40c21 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1098,7 +1098,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if ('1'..='9').contains(&ch) && !self.peek_digit() {
                                 body.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From 9ac15161ebafdea7b9d797caaad31122e02a74a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 036/137] fix: <=> has the precedence of ==

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5f14e40..875b8e6 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -316,6 +316,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_punct_no_term(Punct::TEq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Match)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Match, lhs, rhs))
@@ -347,9 +350,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Compare, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From 2fb9b9113f8f9ba8de48246e09589a1f3ad9a32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 037/137] fix: source excerpts of wide lines, multi-line ranges
 and the end of input

---
 src/source_info.rs | 93 +++++++++++++++-------------------------------
 1 file changed, 30 insertions(+), 63 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 307aedf..33b51bb 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -67,60 +67,44 @@ impl SourceInfo {
         if self.code.is_empty() {
             return "(internal)".to_string();
         }
+        // The end of the input is a valid location.
         let code = self.code.clone() + " ";
+        let loc = Loc(
+            std::cmp::min(loc.0, self.code.len()),
+            std::cmp::min(loc.1, self.code.len()),
+        );
         let mut res_string = String::new();
-        let lines = self.get_lines(loc);
         let mut found = false;
         let term = console::Term::stdout();
-        let term_width = term.size().1 as usize;
-        for line in &lines {
+        let term_width = std::cmp::max(term.size().1 as usize, 1);
+        for line in &self.get_lines(&loc) {
             if !found {
                 res_string += &format!("{}:{}\n", self.file_name(), line.line_no);
                 found = true;
             };
 
-            let start = line.top;
-            let mut end = line.end;
-            if self.get_next_char(end) == Some('\n') && end > 0 {
-                end -= 1
-            }
-            let mut lead = if loc.0 <= line.top {
-                0
-            } else {
-                console::measure_text_width(&code[start..loc.0])
-            };
-            let offset = lead / term_width * term_width;
-            lead -= offset;
             let range_start = std::cmp::max(loc.0, line.top);
             let range_end = std::cmp::min(loc.1, line.end);
-            let term_end = start + (range_end - start) / term_width * term_width + term_width - 1;
+            let lead = console::measure_text_width(&code[line.top..range_start]);
             let length = console::measure_text_width(&code[range_start..=range_end]);
-            res_string += &code[(start + offset)..=std::cmp::min(end, term_end)];
+            // Show only the columns of the screen lines which have the range in it.
+            let offset = lead / term_width * term_width;
+            let limit = (lead + std::cmp::max(length, 1) - 1) / term_width * term_width + term_width;
+            let mut column = 0;
+            let mut top_column = None;
+            for (pos, ch) in code[line.top..line.end].char_indices() {
+                if offset <= column && column < limit {
+                    top_column.get_or_insert(column);
+                    res_string.push(ch);
+                }
+                let pos = line.top + pos;
+                column += console::measure_text_width(&code[pos..pos + ch.len_utf8()]);
+            }
             res_string += "\n";
-            res_string += &" ".repeat(lead);
+            res_string += &" ".repeat(lead - top_column.unwrap_or(offset));
             res_string += &"^".repeat(length);
             res_string += "\n";
         }
-
-        if !found {
-            res_string += "NOT FOUND\n";
-            let line = match lines.last() {
-                Some(line) => (line.line_no + 1, line.end + 1, loc.1),
-                None => (1, 0, loc.1),
-            };
-            let lead = console::measure_text_width(&code[line.1..loc.0]);
-            let length = console::measure_text_width(&code[loc.0..loc.1]);
-            let is_cr = loc.1 >= code.len() || self.get_next_char(loc.1) == Some('\n');
-            res_string += &format!("{}:{}\n", self.file_name(), line.0);
-            res_string += if !is_cr {
-                &code[line.1..=loc.1]
-            } else {
-                &code[line.1..loc.1]
-            };
-            res_string += &" ".repeat(lead);
-            res_string += &"^".repeat(length + 1);
-            res_string += "\n";
-        }
         res_string
     }
 }
@@ -138,28 +122,9 @@ impl SourceInfo {
     }
 
     pub fn get_line(&self, loc: &Loc) -> usize {
-        let mut line_top = 0;
-        self.code
-            .char_indices()
-            .filter_map(|(pos, ch)| if ch == '\n' { Some(pos) } else { None })
-            .enumerate()
-            .map(|(idx, pos)| {
-                let top = line_top;
-                line_top = pos + 1;
-                Line::new(idx + 1, top, pos)
-            })
-            .find_map(|line| {
-                if line.end >= loc.0 && line.top <= loc.0 {
-                    Some(line.line_no)
-                } else {
-                    None
-                }
-            })
-            .unwrap()
-    }
-
-    fn get_next_char(&self, pos: usize) -> Option<char> {
-        self.code[pos..].chars().next()
+        let pos = std::cmp::min(loc.0, self.code.len());
+        let newlines = self.code.as_bytes()[..pos].iter().filter(|ch| **ch == b'\n');
+        newlines.count() + 1
     }
 
     fn get_lines(&self, loc: &Loc) -> Vec<Line> {
@@ -180,12 +145,14 @@ impl SourceInfo {
                 if loc.0 == loc.1 {
                     line.top <= loc.1 && line.end >= loc.0
                 } else {
-                    line.top < loc.1 && line.end > loc.0
+                    line.top <= loc.1 && line.end > loc.0
                 }
             })
             .collect();
-        if line_top < code_len && code_len > loc.0 && line_top < loc.1 {
-            lines.push(Line::new(lines.len() + 1, line_top, code_len));
+        // The last line without a newline, or the end of the input.
+        if line_top <= loc.1 && (line_top < code_len || line_top <= loc.0) {
+            let line_no = self.code.matches('\n').count() + 1;
+            lines.push(Line::new(line_no, line_top, code_len));
         }
         lines
     }
-- 
2.43.0


From 724948547ad06251327a9245843633986743db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 038/137] fix: lexical errors are located at a whole character

---
 src/parser/lexer.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 8e40c21..6a9ecc4 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -99,8 +99,10 @@ impl<'a> Lexer<'a> {
         LexerErr(ParseErrKind::UnexpectedEOF, loc)
     }
 
-    fn error_parse(msg: &str, pos: usize) -> LexerErr {
-        let loc = Loc(pos, pos);
+    fn error_parse(&self, msg: &str, pos: usize) -> LexerErr {
+        // The location covers the whole character.
+        let len = self.code[pos..].chars().next().map_or(1, char::len_utf8);
+        let loc = Loc(pos, pos + len - 1);
         LexerErr(
             ParseErrKind::SyntaxError(format!("Parse error. '{}'", msg)),
             loc,
@@ -432,7 +434,7 @@ impl<'a> Lexer<'a> {
             }
             match id.checked_add(100) {
                 Some(id) => Ok(self.new_special_var(id)),
-                None => Err(Self::error_parse(
+                None => Err(self.error_parse(
                     "Numbered variable is too big.",
                     self.token_start_pos,
                 )),
@@ -658,7 +660,7 @@ impl<'a> Lexer<'a> {
                 self.consume('_');
                 let tok = self.read_octal_number()?;
                 if self.peek_digit() {
-                    return Err(Self::error_parse("Invalid octal digit.", self.pos));
+                    return Err(self.error_parse("Invalid octal digit.", self.pos));
                 }
                 return Ok(tok);
             }
@@ -708,7 +710,7 @@ impl<'a> Lexer<'a> {
         let number = if float_flag {
             match s.parse::<f64>() {
                 Ok(f) => NReal::Float(f),
-                Err(err) => return Err(Self::error_parse(&format!("{:?}", err), self.pos)),
+                Err(err) => return Err(self.error_parse(&format!("{:?}", err), self.pos)),
             }
         } else {
             match BigInt::parse_bytes(s.as_bytes(), 10) {
@@ -716,7 +718,7 @@ impl<'a> Lexer<'a> {
                     Some(i) => NReal::Integer(i),
                     None => NReal::Bignum(b),
                 },
-                None => return Err(Self::error_parse("Invalid number literal.", self.pos)),
+                None => return Err(self.error_parse("Invalid number literal.", self.pos)),
             }
         };
         if self.consume('i') {
@@ -734,7 +736,7 @@ impl<'a> Lexer<'a> {
     fn read_hex_number(&mut self) -> Result<Token, LexerErr> {
         let start_pos = self.pos;
         self.expect_hex()
-            .map_err(|_| Self::error_parse("Numeric literal without digits.", self.pos))?;
+            .map_err(|_| self.error_parse("Numeric literal without digits.", self.pos))?;
 
         while self.consume_hex().is_some() || self.consume('_') {}
 
@@ -745,7 +747,7 @@ impl<'a> Lexer<'a> {
                 Some(i) => Ok(self.new_numlit(i)),
                 None => Ok(self.new_bignumlit(b)),
             },
-            None => Err(Self::error_parse("Invalid hex number literal.", self.pos)),
+            None => Err(self.error_parse("Invalid hex number literal.", self.pos)),
         }
     }
 
@@ -783,7 +785,7 @@ impl<'a> Lexer<'a> {
         if parts.all(|part| part.starts_with(|ch: char| ch.is_digit(radix))) {
             Ok(())
         } else {
-            Err(Self::error_parse("Trailing '_' in number.", self.pos))
+            Err(self.error_parse("Trailing '_' in number.", self.pos))
         }
     }
 
@@ -796,7 +798,7 @@ impl<'a> Lexer<'a> {
                 Some(i) => Ok(self.new_numlit(i)),
                 None => Ok(self.new_bignumlit(b)),
             },
-            None => Err(Self::error_parse("Invalid number literal.", self.pos)),
+            None => Err(self.error_parse("Invalid number literal.", self.pos)),
         }
     }
 
@@ -972,14 +974,14 @@ impl<'a> Lexer<'a> {
                 u = 16 * u
                     + self.expect_hex().map_err(|err| match err.0 {
                         ParseErrKind::UnexpectedEOF => err,
-                        _ => Self::error_parse("Invalid Unicode escape sequence.", self.pos),
+                        _ => self.error_parse("Invalid Unicode escape sequence.", self.pos),
                     })?;
             }
         } else {
             let mut i = 0;
             while let Some(h) = self.consume_hex() {
                 if i == 6 {
-                    return Err(Self::error_parse(
+                    return Err(self.error_parse(
                         "Invalid Unicode escape sequence; maximum length is 6 digits.",
                         self.pos,
                     ));
@@ -996,7 +998,7 @@ impl<'a> Lexer<'a> {
             s.push_char(u);
             Ok(())
         } else {
-            Err(Self::error_parse(
+            Err(self.error_parse(
                 "Invalid Unicode escape sequence",
                 self.pos,
             ))
@@ -1255,7 +1257,7 @@ impl<'a> Lexer<'a> {
             ParseMode::Command => '`',
         };
         if !no_term && !self.consume(term_ch) {
-            return Err(Self::error_parse(
+            return Err(self.error_parse(
                 "Unterminated here document identifier.",
                 self.pos,
             ));
@@ -1283,7 +1285,7 @@ impl<'a> Lexer<'a> {
             }
 
             if next.is_err() {
-                return Err(Self::error_parse(
+                return Err(self.error_parse(
                     &format!(
                         r#"Can not find string "{}" anywhere before EOF."#,
                         &self.code[delimiter]
-- 
2.43.0


From c275ab41d00b3d80c743a819b7a6882f0f5f2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 039/137] fix: location of method names and symbols ends at
 their last byte

---
 src/parser/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6a9ecc4..ed03a0e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -605,7 +605,7 @@ impl<'a> Lexer<'a> {
         };
         Ok((
             self.current_slice().to_string(),
-            Loc(self.token_start_pos, self.pos),
+            self.cur_loc(),
         ))
     }
 
@@ -624,7 +624,7 @@ impl<'a> Lexer<'a> {
                 self.consume_ident();
                 Ok(Some((
                     self.current_slice().to_string(),
-                    Loc(self.token_start_pos, self.pos),
+                    self.cur_loc(),
                 )))
             }
             '\"' | '\'' => Ok(None),
-- 
2.43.0


From 9a70b91c895636366f7d1a9a6d5572d0181b8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 040/137] fix: locations of here documents

---
 src/parser/literals.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index ade3027..e5d38ad 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -136,11 +136,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(error_unexpected(loc, "Unexpectd <<."));
         }
         let (mode, start, end) = self.lexer.read_heredocument()?;
-        let node = match mode {
-            ParseMode::Single => Node::new_string(
-                self.lexer.code[start..end].to_string().into(),
-                Loc(start, end),
-            ),
+        // An empty body is located at "<<".
+        let loc = if start < end {
+            Loc(start, end - 1)
+        } else {
+            self.prev_loc()
+        };
+        let mut node = match mode {
+            ParseMode::Single => {
+                Node::new_string(self.lexer.code[start..end].to_string().into(), loc)
+            }
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_double();
@@ -152,12 +157,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 res?
             }
         };
+        if start == end {
+            node.loc = loc;
+        }
         Ok(node)
     }
 
     fn here_double(&mut self) -> Result<Node, LexerErr> {
         let tok = self.lexer.read_string_literal_double(None, None, 0)?;
         let loc = tok.loc();
+        self.prev_loc = loc;
         let node = match tok.kind {
             TokenKind::StringLit(s) => Node::new_string(s, loc),
             TokenKind::OpenString(s, term, level) => {
@@ -171,6 +180,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn here_command(&mut self) -> Result<Node, LexerErr> {
         let tok = self.lexer.read_command_literal(None, None, 0)?;
         let loc = tok.loc();
+        self.prev_loc = loc;
         let node = match tok.kind {
             TokenKind::CommandLit(s) => {
                 let content = Node::new_string(s.into(), loc);
-- 
2.43.0


From 6c5fb4a028f160f85f7eb50745f51f98cc34adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 041/137] fix: variables assigned in a here document stay known

---
 src/parser/literals.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index e5d38ad..50bb7ec 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -149,11 +149,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_double();
+                // The body belongs to the current scope.
+                self.scope = parser.scope;
                 res?
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_command();
+                self.scope = parser.scope;
                 res?
             }
         };
-- 
2.43.0


From 1089da3dd99b7d6ee32cfa2e1113e7257f00ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 042/137] fix: an unterminated here document is an unexpected
 end of input

---
 src/parser/lexer.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ed03a0e..4a0cc01 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1284,14 +1284,9 @@ impl<'a> Lexer<'a> {
                 break;
             }
 
+            // Can not find the terminator anywhere before EOF.
             if next.is_err() {
-                return Err(self.error_parse(
-                    &format!(
-                        r#"Can not find string "{}" anywhere before EOF."#,
-                        &self.code[delimiter]
-                    ),
-                    self.pos,
-                ));
+                return Err(Self::error_eof(self.pos));
             };
             heredoc_end = end + 1;
             //res += line;
-- 
2.43.0


From 3fc3a2a869a014edecde11b01deebdd03b45bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 043/137] fix: literals and continuation lines which span a
 here document

---
 src/parser/lexer.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4a0cc01..95b5502 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -908,9 +908,7 @@ impl<'a> Lexer<'a> {
                 }
                 '\n' => {
                     s.push_char('\n');
-                    if self.heredoc_pos > self.pos {
-                        self.pos = self.heredoc_pos;
-                    }
+                    self.skip_heredocument();
                 }
                 c => s.push_char(c),
             }
@@ -957,6 +955,13 @@ impl<'a> Lexer<'a> {
                         s.push('\\');
                         s.push(c);
                     }
+                    if c == '\n' {
+                        self.skip_heredocument();
+                    }
+                }
+                '\n' => {
+                    s.push('\n');
+                    self.skip_heredocument();
                 }
                 c => s.push(c),
             }
@@ -1117,6 +1122,10 @@ impl<'a> Lexer<'a> {
                     }
                     body.push('#');
                 }
+                '\n' => {
+                    body.push('\n');
+                    self.skip_heredocument();
+                }
                 c => body.push(c),
             }
         }
@@ -1357,21 +1366,26 @@ impl<'a> Lexer<'a> {
 
     fn consume_newline(&mut self) -> bool {
         if self.consume('\n') {
-            if self.heredoc_pos > self.pos {
-                self.pos = self.heredoc_pos;
-            };
+            self.skip_heredocument();
             true
         } else {
             false
         }
     }
 
+    /// Skip the bodies of the here documents which started in the line just ended.
+    fn skip_heredocument(&mut self) {
+        if self.heredoc_pos > self.pos {
+            self.pos = self.heredoc_pos;
+        }
+    }
+
     /// Consume continue line. ("\\n")
     /// Return true if consumed.
     fn consume_cont_line(&mut self) -> bool {
         if self.peek2() == Some('\n') && self.peek() == Some('\\') {
-            self.pos += 2;
-            true
+            self.pos += 1;
+            self.consume_newline()
         } else {
             false
         }
-- 
2.43.0


From 13d6fd08ee416bae7048d89093174389f5516d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 044/137] fix: input cut off in a ternary, multiple assignment
 or interpolation is an unexpected end of input

---
 src/parser.rs            | 12 ++++++++++--
 src/parser/expression.rs |  9 +++------
 src/parser/literals.rs   |  3 +--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 064fbb3..5acbc4c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -286,6 +286,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.prev_loc
     }
 
+    /// Error at the next token, which is not the one expected.
+    fn error_next(&mut self, msg: &str) -> LexerErr {
+        match self.peek_no_term() {
+            Ok(tok) if tok.is_eof() => error_eof(tok.loc),
+            Ok(tok) => error_unexpected(tok.loc, msg),
+            Err(err) => err,
+        }
+    }
+
     /// Get next token (skipping line terminators).
     /// Return RubyError if it was EOF.
     fn get(&mut self) -> Result<Token, LexerErr> {
@@ -535,8 +544,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         Ok("[]")
                     }
                 } else {
-                    let loc = self.loc();
-                    Err(error_unexpected(loc, "Invalid operator."))
+                    Err(self.error_next("Invalid operator."))
                 }
             }
             _ => Err(error_unexpected(self.prev_loc(), "Invalid operator.")),
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 875b8e6..ead5b7b 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -160,8 +160,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         self.suppress_acc_assign = old;
         if !self.consume_punct_no_term(Punct::Assign)? {
-            let loc = self.loc();
-            return Err(error_unexpected(loc, "Expected '='."));
+            return Err(self.error_next("Expected '='."));
         }
 
         let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
@@ -257,8 +256,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
             if !self.consume_punct_no_term(Punct::Colon)? {
-                let loc = self.loc();
-                return Err(error_unexpected(loc, "Expect ':'."));
+                return Err(self.error_next("Expect ':'."));
             };
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
@@ -841,8 +839,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         let lhs = self.check_lhs(first_lhs)?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
-                        let loc = self.loc();
-                        return Err(error_unexpected(loc, "Expected '=' or ','."));
+                        return Err(self.error_next("Expected '=' or ','."));
                     }
                 }
                 _ => {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 50bb7ec..3fdf294 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -359,8 +359,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct(Punct::LBrace)? {
             nodes.push(self.parse_comp_stmt()?);
             if !self.consume_punct(Punct::RBrace)? {
-                let loc = self.prev_loc();
-                return Err(error_unexpected(loc, "Expect '}'"));
+                return Err(self.error_next("Expect '}'"));
             }
         } else {
             let tok = self.get()?;
-- 
2.43.0


From 948603db881ca01e65c987b9ada83bff2119f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 045/137] fix: a newline is allowed before the ':' of a ternary

---
 src/parser/expression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ead5b7b..20e19bd 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -255,8 +255,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = cond.loc();
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
-            if !self.consume_punct_no_term(Punct::Colon)? {
-                return Err(self.error_next("Expect ':'."));
+            if !self.consume_punct(Punct::Colon)? {
+                let tok = self.peek()?;
+                if tok.is_eof() {
+                    return Err(error_eof(tok.loc));
+                }
+                return Err(error_unexpected(tok.loc, "Expect ':'."));
             };
             let else_ = self.parse_arg()?;
             let node = Node::new_if(cond, then_, else_, loc);
-- 
2.43.0


From 58c243fac46b681aa1e79faf5703ff08cd891a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 046/137] fix: reject assignment to a literal, pseudo variable
 or call

---
 src/parser/expression.rs | 33 ++++++++++++++++++++++++++++-----
 src/parser/literals.rs   |  2 ++
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 20e19bd..de793ca 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -190,15 +190,23 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         term: impl Into<Option<Punct>>,
     ) -> Result<Vec<Node>, LexerErr> {
         let term = term.into();
-        let old = self.suppress_mul_assign;
         // multiple assignment must be suppressed in parsing arg list.
-        self.suppress_mul_assign = true;
+        let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let old_acc = std::mem::replace(&mut self.suppress_acc_assign, false);
+        let args = self.parse_mul_assign_rhs_elements(term);
+        self.suppress_mul_assign = old;
+        self.suppress_acc_assign = old_acc;
+        args
+    }
 
+    fn parse_mul_assign_rhs_elements(
+        &mut self,
+        term: Option<Punct>,
+    ) -> Result<Vec<Node>, LexerErr> {
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
-                    self.suppress_mul_assign = old;
                     return Ok(args);
                 }
             };
@@ -215,7 +223,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
-        self.suppress_mul_assign = old;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -946,8 +953,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
         // A comma separates arguments here. cf. f(a = 1, 2)
         let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let old_acc = std::mem::replace(&mut self.suppress_acc_assign, false);
         let arglist = self.parse_arglist_elements(punct.into());
         self.suppress_mul_assign = old;
+        self.suppress_acc_assign = old_acc;
         arglist
     }
 
@@ -1140,7 +1149,21 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if let NodeKind::Splat(lhs) = lhs.kind {
             return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));
         }
-        Ok(lhs)
+        match &lhs.kind {
+            NodeKind::LocalVar(..)
+            | NodeKind::InstanceVar(_)
+            | NodeKind::GlobalVar(_)
+            | NodeKind::SpecialVar(_)
+            | NodeKind::ClassVar(_)
+            | NodeKind::Const { .. }
+            | NodeKind::Index { .. }
+            | NodeKind::DiscardLhs => Ok(lhs),
+            // attribute assignment
+            NodeKind::MethodCall {
+                method, arglist, ..
+            } if *arglist == ArgList::default() && !method.ends_with(&['!', '?'][..]) => Ok(lhs),
+            _ => Err(error_unexpected(loc, "Invalid assignment target.")),
+        }
     }
 
     fn is_command(&mut self) -> bool {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 3fdf294..05faef6 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -217,8 +217,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
         // A comma separates elements here. cf. { :a => b = 1, :c => 2 }
         let old = std::mem::replace(&mut self.suppress_mul_assign, true);
+        let old_acc = std::mem::replace(&mut self.suppress_acc_assign, false);
         let node = self.parse_hash_elements();
         self.suppress_mul_assign = old;
+        self.suppress_acc_assign = old_acc;
         node
     }
 
-- 
2.43.0


From 7fb42913657069e0b7184ed6baaff3862300a749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 047/137] fix: a name ending with ! or ? is not a variable

---
 src/parser/expression.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index de793ca..a1b06f2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1121,6 +1121,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn check_lhs(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         let loc = lhs.loc();
         if let NodeKind::Ident(name) = lhs.kind {
+            if name.ends_with(&['!', '?'][..]) {
+                return Err(error_unexpected(loc, "Invalid assignment target."));
+            }
             if name.starts_with('_') {
                 let mut iter = name.chars();
                 iter.next();
-- 
2.43.0


From c7c551c5242b65790416b28ab89fa0acdd358777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 048/137] fix: an assigned variable is known in its own
 right-hand side

---
 src/parser/expression.rs | 41 ++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index a1b06f2..cb4e8a3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -163,11 +163,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Err(self.error_next("Expected '='."));
         }
 
-        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+        // The variables are already known in rhs.
         for lhs in &mut mlhs {
             let mut node = self.check_lhs(std::mem::take(lhs))?;
             std::mem::swap(lhs, &mut node);
         }
+        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
 
         Ok(Node::new_mul_assign(mlhs, mrhs))
     }
@@ -246,8 +247,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             let lhs = self.check_lhs(lhs)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
             // <lhs> <assign_op> <arg>
@@ -478,8 +479,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
         if !self.suppress_acc_assign {
             if self.consume_punct_no_term(Punct::Assign)? {
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 let lhs = self.check_lhs(lhs)?;
+                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                 return Ok(Node::new_mul_assign(vec![lhs], mrhs));
             } else if let Some(op) = self.consume_assign_op_no_term()? {
                 return self.parse_assign_op(lhs, op);
@@ -494,16 +495,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         match op {
             BinOp::LOr | BinOp::LAnd => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
             }
             _ => {
                 self.get()?;
-                let rhs = self.parse_arg()?;
                 let lhs = self.check_lhs(lhs)?;
+                let rhs = self.parse_arg()?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
@@ -714,6 +715,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return self.parse_function_args(node);
                 };
                 if let Some(outer) = self.is_local_var(&name) {
+                    if !suppress_unparen_call && self.is_lvar_command() {
+                        return self.parse_command(name, loc);
+                    }
                     Ok(Node::new_lvar(name, outer, loc))
                 } else {
                     // FUNCTION or COMMAND or LHS for assignment
@@ -846,8 +850,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     if self.consume_punct_no_term(Punct::Comma)? {
                         self.parse_mul_assign(first_lhs)
                     } else if self.consume_punct_no_term(Punct::Assign)? {
-                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         let lhs = self.check_lhs(first_lhs)?;
+                        let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
                         return Err(self.error_next("Expected '=' or ','."));
@@ -1169,6 +1173,31 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Check whether a name of a local variable is followed by an argument,
+    /// which makes it a method name. cf. p = p 1
+    fn is_lvar_command(&mut self) -> bool {
+        if !self.lexer.trailing_space() {
+            return false;
+        }
+        match self.peek_no_term() {
+            Ok(tok) => matches!(
+                tok.kind,
+                TokenKind::Ident(_)
+                    | TokenKind::Const(_)
+                    | TokenKind::InstanceVar(_)
+                    | TokenKind::GlobalVar(_)
+                    | TokenKind::ClassVar(_)
+                    | TokenKind::IntegerLit(_)
+                    | TokenKind::BignumLit(_)
+                    | TokenKind::FloatLit(_)
+                    | TokenKind::ImaginaryLit(_)
+                    | TokenKind::StringLit(_)
+                    | TokenKind::OpenString(..)
+            ),
+            Err(_) => false,
+        }
+    }
+
     fn is_command(&mut self) -> bool {
         let tok = match self.peek_no_term() {
             Ok(tok) => tok,
-- 
2.43.0


From d76418425a4b812ab01ac91edfdf42d533649d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 049/137] fix: a do-block belongs to the outermost
 unparenthesized call

---
 src/parser/expression.rs | 17 +++++++++++++++--
 src/parser/literals.rs   |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index cb4e8a3..c30a227 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -194,7 +194,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // multiple assignment must be suppressed in parsing arg list.
         let old = std::mem::replace(&mut self.suppress_mul_assign, true);
         let old_acc = std::mem::replace(&mut self.suppress_acc_assign, false);
+        let old_do = self.suppress_do_block;
+        if term.is_some() {
+            self.suppress_do_block = false;
+        }
         let args = self.parse_mul_assign_rhs_elements(term);
+        self.suppress_do_block = old_do;
         self.suppress_mul_assign = old;
         self.suppress_acc_assign = old_acc;
         args
@@ -622,7 +627,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(Node::new_yield(ArgList::default(), loc));
         };
         let args = if self.consume_punct(Punct::LParen)? {
-            self.parse_arglist(Punct::RParen)?
+            let old = std::mem::replace(&mut self.suppress_do_block, false);
+            let arglist = self.parse_arglist(Punct::RParen);
+            self.suppress_do_block = old;
+            arglist?
         } else {
             self.parse_arglist(None)?
         };
@@ -938,7 +946,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         &mut self,
         delimiter: impl Into<Option<Punct>>,
     ) -> Result<ArgList, LexerErr> {
-        let mut arglist = self.parse_arglist(delimiter)?;
+        let delimiter = delimiter.into();
+        // A do-block belongs to the outermost one of nested unparenthesized calls.
+        let old = std::mem::replace(&mut self.suppress_do_block, delimiter.is_none());
+        let arglist = self.parse_arglist(delimiter);
+        self.suppress_do_block = old;
+        let mut arglist = arglist?;
         if let Some(actual_block) = self.parse_block()? {
             if arglist.block.is_some() {
                 return Err(error_unexpected(
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 05faef6..50db0dc 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -218,7 +218,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // A comma separates elements here. cf. { :a => b = 1, :c => 2 }
         let old = std::mem::replace(&mut self.suppress_mul_assign, true);
         let old_acc = std::mem::replace(&mut self.suppress_acc_assign, false);
+        let old_do = std::mem::replace(&mut self.suppress_do_block, false);
         let node = self.parse_hash_elements();
+        self.suppress_do_block = old_do;
         self.suppress_mul_assign = old;
         self.suppress_acc_assign = old_acc;
         node
-- 
2.43.0


From 6455f5fdd64166239f712256b8798ae66d5d93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 050/137] fix: depth and visibility of variables of the extern
 context

---
 src/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5acbc4c..b497e78 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -209,20 +209,20 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// If exiets, return true.
     fn is_local_var(&mut self, id: &str) -> Option<usize> {
         let mut outer = 0;
-        for c in self.scope.iter().rev() {
+        for (i, c) in self.scope.iter().enumerate().rev() {
             if c.lvar.table.get_lvarid(id).is_some() {
                 return Some(outer);
             }
             match c.kind {
+                // The outermost scope is directly in the extern context.
+                ScopeKind::Block | ScopeKind::Eval if i == 0 => {}
                 ScopeKind::Block => outer += 1,
                 ScopeKind::For => {}
-                _ => break,
+                _ => return None,
             }
         }
-        if let Some(a) = &self.extern_context {
-            return a.find_lvar(id);
-        }
-        None
+        let depth = self.extern_context?.find_lvar(id)?;
+        Some(outer + depth)
     }
 
     /// Check whether numbered parameters exist in outer blocks.
-- 
2.43.0


From 9da1894952e564f826639fcb06b6f297d2acedda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 051/137] fix: yield takes arguments and method calls like
 other calls

---
 src/parser/expression.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index c30a227..2bd8941 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -563,13 +563,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
@@ -617,22 +618,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
-            return Ok(Node::new_yield(ArgList::default(), loc));
-        };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             let old = std::mem::replace(&mut self.suppress_do_block, false);
             let arglist = self.parse_arglist(Punct::RParen);
             self.suppress_do_block = old;
             arglist?
-        } else {
+        } else if self.is_command() {
             self.parse_arglist(None)?
+        } else {
+            ArgList::default()
         };
         Ok(Node::new_yield(args, loc))
     }
-- 
2.43.0


From 3888f2570e23815664619317c5d49e98be85512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 052/137] fix: return, break and next without a value before
 while, until, and, or and :

---
 src/parser/flow_control.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 17e1211..c840fa9 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -187,8 +187,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let tok = self.peek_no_term()?;
         // TODO: This is not correct.
         if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
+            || matches!(
+                tok.kind,
+                TokenKind::Reserved(
+                    Reserved::If
+                        | Reserved::Unless
+                        | Reserved::While
+                        | Reserved::Until
+                        | Reserved::And
+                        | Reserved::Or
+                )
+            )
+            // else part of a ternary
+            || tok.kind == TokenKind::Punct(Punct::Colon) && self.lexer.has_trailing_space(&tok)
             || tok.check_stmt_end()
         {
             let val = Node::new_nil(loc);
-- 
2.43.0


From cfc74fa84c432ec8f5b4349c399fe909ef4a41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 053/137] fix: global variables whose name starts with _

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 95b5502..426bacc 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -441,7 +441,7 @@ impl<'a> Lexer<'a> {
             }
         } else {
             let tok = match self.peek() {
-                Some(ch) if ch.is_ascii_punctuation() => {
+                Some(ch) if ch.is_ascii_punctuation() && ch != '_' => {
                     let ch = self.get()?;
                     match ch {
                         '&' => self.new_special_var(SPECIAL_LASTMATCH),
-- 
2.43.0


From 85063a73315766b21bb79eb9421d2842a93e1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 054/137] fix: rescue modifier binds to the right-hand side of
 an assignment

---
 src/parser/expression.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 2bd8941..bf33326 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -176,12 +176,26 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse rhs of multiple assignment.
     /// If Parser.mul_assign_rhs is true, only a single assignment is allowed.
     fn parse_mul_assign_rhs_if_allowed(&mut self) -> Result<Vec<Node>, LexerErr> {
-        if self.suppress_mul_assign {
-            let node = vec![self.parse_arg()?];
-            Ok(node)
+        let mut mrhs = if self.suppress_mul_assign {
+            vec![self.parse_arg()?]
+        } else {
+            self.parse_mul_assign_rhs(None)?
+        };
+        if mrhs.len() == 1 && !matches!(mrhs[0].kind, NodeKind::Splat(_)) {
+            let rhs = self.parse_rhs_rescue(mrhs.remove(0))?;
+            mrhs.push(rhs);
+        }
+        Ok(mrhs)
+    }
+
+    /// Parse "rescue" after the rhs of an assignment. cf. a = b rescue c
+    fn parse_rhs_rescue(&mut self, rhs: Node) -> Result<Node, LexerErr> {
+        if self.consume_reserved_no_skip_line_term(Reserved::Rescue)? {
+            let rescue = self.parse_arg()?;
+            let entry = RescueEntry::new_postfix(rescue);
+            Ok(Node::new_begin(rhs, vec![entry], None, None))
         } else {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
-            Ok(mrhs)
+            Ok(rhs)
         }
     }
 
@@ -502,6 +516,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 self.get()?;
                 let lhs = self.check_lhs(lhs)?;
                 let rhs = self.parse_arg()?;
+                let rhs = self.parse_rhs_rescue(rhs)?;
                 let node =
                     Node::new_binop(op, lhs.clone(), Node::new_mul_assign(vec![lhs], vec![rhs]));
                 Ok(node)
@@ -510,6 +525,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 self.get()?;
                 let lhs = self.check_lhs(lhs)?;
                 let rhs = self.parse_arg()?;
+                let rhs = self.parse_rhs_rescue(rhs)?;
                 Ok(Node::new_assign_op(op, lhs, rhs))
             }
         }
-- 
2.43.0


From a62f776cc88370ce1b6ce5375f6d0efaf704973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:08 +0000
Subject: [PATCH 055/137] fix: location of negative numbers and top-level
 constants covers the whole literal

---
 src/parser/expression.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bf33326..379c811 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -819,24 +819,28 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Ok(Node::new_command(content))
             }
             TokenKind::Punct(punct) => match punct {
-                Punct::Minus => match self.get()?.kind {
-                    TokenKind::IntegerLit(num) => match num.checked_neg() {
-                        Some(i) => Ok(Node::new_integer(i, loc)),
-                        None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
-                    },
-                    TokenKind::BignumLit(num) => {
-                        let num = -num;
-                        match num.to_i64() {
+                Punct::Minus => {
+                    let kind = self.get()?.kind;
+                    let loc = loc.merge(self.prev_loc());
+                    match kind {
+                        TokenKind::IntegerLit(num) => match num.checked_neg() {
                             Some(i) => Ok(Node::new_integer(i, loc)),
-                            None => Ok(Node::new_bignum(num, loc)),
+                            None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
+                        },
+                        TokenKind::BignumLit(num) => {
+                            let num = -num;
+                            match num.to_i64() {
+                                Some(i) => Ok(Node::new_integer(i, loc)),
+                                None => Ok(Node::new_bignum(num, loc)),
+                            }
                         }
+                        TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
+                        kind => Err(error_unexpected(
+                            self.prev_loc(),
+                            format!("Unexpected token: {:?}", kind),
+                        )),
                     }
-                    TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    kind => Err(error_unexpected(
-                        self.prev_loc(),
-                        format!("Unexpected token: {:?}", kind),
-                    )),
-                },
+                }
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
                     self.suppress_mul_assign = false;
@@ -856,6 +860,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Punct::Arrow => self.parse_lambda_literal(),
                 Punct::Scope => {
                     let name = self.expect_const()?;
+                    let loc = loc.merge(self.prev_loc());
                     Ok(Node::new_const(name, true, None, vec![], loc))
                 }
                 Punct::Div => self.parse_regexp(),
-- 
2.43.0


From bb85194563ff43a542178865e6256fec1ebead73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 056/137] fix: skip the body of a here document before a method
 name on the next line

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 426bacc..11e9a51 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -548,7 +548,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_whitespace() || self.consume_newline() {}
+        while self.consume_newline() || self.consume_whitespace() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
-- 
2.43.0


From f9b85386c77e95a19209c74a6c85a7c523ab1018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:11 +0000
Subject: [PATCH 057/137] fix: rescue clause without exceptions may be followed
 by then

---
 src/parser/expression.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 379c811..1d8f41d 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1091,8 +1091,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             };
             let mut assign = None;
             let mut exception = vec![];
-            if !self.consume_term()? {
-                if !self.peek_punct_no_term(Punct::FatArrow) {
+            if self.consume_term()? {
+                self.consume_reserved(Reserved::Then)?;
+            } else {
+                let next = self.peek_no_term()?.kind;
+                if next != TokenKind::Punct(Punct::FatArrow)
+                    && next != TokenKind::Reserved(Reserved::Then)
+                {
                     exception = self.parse_mul_assign_rhs(None)?;
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
-- 
2.43.0


From eaee9b6dac01c846aa9d92ee904df0bc3545ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 058/137] fix: owner of a singleton method is resolved like any
 other name

---
 src/parser/define.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 499ed56..f573508 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -36,10 +36,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 } else if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    (
-                        Some(Node::new_lvar(s, 0, loc)),
-                        self.read_method_name(true)?.0,
-                    )
+                    let singleton = match self.is_local_var(&s) {
+                        Some(outer) => Node::new_lvar(s, outer, loc),
+                        None => Node::new_identifier(s, loc),
+                    };
+                    (Some(singleton), self.read_method_name(true)?.0)
                 } else {
                     (None, self.read_method_ext(s)?)
                 }
-- 
2.43.0


From 00cf458fe07ae41bbe109bf3bbcacc61f878df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 059/137] fix: class ::Foo is defined in the top level

---
 src/parser/define.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index f573508..d0d3e0a 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -106,6 +106,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 ),
                 None => match parent {
                     Some(parent) => (Some(*parent), name),
+                    // class ::Foo is defined in the top level, wherever it is written.
+                    None if toplevel => {
+                        let object = "Object".to_string();
+                        (Some(Node::new_const(object, true, None, vec![], loc)), name)
+                    }
                     None => (None, name),
                 },
             },
-- 
2.43.0


From 5851bbedd05745654ca1920ecdda9532c03600ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 060/137] fix: a space before '(' makes it part of the first
 argument for method calls and super too

---
 src/parser/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 1d8f41d..854e184 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -650,7 +650,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_super(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist_block(None)?
@@ -683,7 +684,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
         } else {
             if self.is_command() {
-- 
2.43.0


From 198bf5dd6e92024307250eadaac574f678622c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:33 +0000
Subject: [PATCH 061/137] fix: '|' closes block parameters that end with the
 default of a keyword parameter

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index b497e78..3fb1595 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -691,6 +691,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         } else if let Some(term) = terminator {
                             if next == TokenKind::Punct(term) {
                                 None
+                            } else if term == Punct::BitOr {
+                                Some(self.parse_primary(true)?)
                             } else {
                                 Some(self.parse_arg()?)
                             }
-- 
2.43.0


From 2c31c05314772d1b995b30ea0e6a7d888b315f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 062/137] fix: symbols of instance and class variables with
 non-ASCII names

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 11e9a51..d1b671a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -618,7 +618,7 @@ impl<'a> Lexer<'a> {
                 self.consume('@');
                 self.consume('@');
                 let ch = self.get()?;
-                if !ch.is_ascii_alphabetic() && ch != '_' {
+                if ch.is_ascii() && !ch.is_ascii_alphabetic() && ch != '_' {
                     return Err(self.error_unexpected(self.pos - ch.len_utf8()));
                 }
                 self.consume_ident();
-- 
2.43.0


From 7abe6c01057881f8a378f95b62af62da16b1f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 063/137] fix: a line continuation may precede a method name

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d1b671a..085fd6c 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -548,7 +548,7 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_newline() || self.consume_whitespace() {}
+        while self.consume_newline() || self.consume_cont_line() || self.consume_whitespace() {}
         self.token_start_pos = self.pos;
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
-- 
2.43.0


From e0cf5bd547ced21970648ae77a326dc2924cbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 064/137] fix: do-blocks inside of defined?(..)

---
 src/parser/expression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 854e184..7a0d430 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -929,8 +929,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Defined => {
                     if self.consume_punct_no_term(Punct::LParen)? {
                         self.defined_mode = true;
-                        let node = self.parse_expr()?;
+                        // A do-block in parentheses belongs to the call in there.
+                        let old = std::mem::replace(&mut self.suppress_do_block, false);
+                        let node = self.parse_expr();
+                        self.suppress_do_block = old;
                         self.defined_mode = false;
+                        let node = node?;
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
                     } else {
-- 
2.43.0


From 62ae10e95aa50b29537c287b0e73c2b2ef873c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 065/137] fix: method calls and scoped constants as defaults of
 block parameters

---
 src/parser.rs            | 4 ++--
 src/parser/expression.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3fb1595..164a9f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -665,7 +665,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     // The parameter itself is visible in its default expression.
                     self.new_param(name.clone(), self.prev_loc().merge(loc))?;
                     let default = if let Some(Punct::BitOr) = terminator {
-                        self.parse_primary(true)?
+                        self.parse_method_call()?
                     } else {
                         self.parse_arg()?
                     };
@@ -692,7 +692,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else if term == Punct::BitOr {
-                                Some(self.parse_primary(true)?)
+                                Some(self.parse_method_call()?)
                             } else {
                                 Some(self.parse_arg()?)
                             }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7a0d430..bf2965a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -578,7 +578,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
-    fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
+    pub(super) fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-- 
2.43.0


From 047483a1ed40ffe39f95195ab784c75b0c729e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 066/137] fix: 'return', 'break' and 'next' without a value
 before 'then' and 'do'

---
 src/parser/flow_control.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index c840fa9..ef4caab 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -196,6 +196,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::Until
                         | Reserved::And
                         | Reserved::Or
+                        | Reserved::Then
+                        | Reserved::Do
                 )
             )
             // else part of a ternary
-- 
2.43.0


From 6489dde9bc568a1c17f83315e0b0cad53e585b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 067/137] fix: do-blocks in the exception list of a rescue
 clause

---
 src/parser/expression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bf2965a..6bffb74 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1104,7 +1104,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if next != TokenKind::Punct(Punct::FatArrow)
                     && next != TokenKind::Reserved(Reserved::Then)
                 {
-                    exception = self.parse_mul_assign_rhs(None)?;
+                    let old = std::mem::replace(&mut self.suppress_do_block, false);
+                    let list = self.parse_mul_assign_rhs(None);
+                    self.suppress_do_block = old;
+                    exception = list?;
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
                     let lhs = self.parse_arg()?;
-- 
2.43.0


From 285e6fee3c35d997ab71381d4dd5c42cb06e23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 068/137] fix: escapes and nested classes in character classes
 of free-format regular expressions

---
 src/node.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 029cb0c..08eeead 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -880,11 +880,12 @@ impl Node {
 enum FreeFormatMode {
     Normal,
     Escape,
-    CharacterClass,
     Comment,
 }
 struct FreeFormatContext {
     state: FreeFormatMode,
+    /// nesting of character classes
+    class_depth: usize,
     body: String,
 }
 
@@ -892,6 +893,7 @@ impl FreeFormatContext {
     fn new() -> Self {
         FreeFormatContext {
             state: FreeFormatMode::Normal,
+            class_depth: 0,
             body: String::new(),
         }
     }
@@ -900,14 +902,19 @@ impl FreeFormatContext {
         for ch in body.chars() {
             match self.state {
                 FreeFormatMode::Normal => {
-                    if ch == '#' {
-                        self.state = FreeFormatMode::Comment;
+                    if ch == '\\' {
+                        self.body.push(ch);
+                        self.state = FreeFormatMode::Escape;
                     } else if ch == '[' {
                         self.body.push(ch);
-                        self.state = FreeFormatMode::CharacterClass;
-                    } else if ch == '\\' {
+                        self.class_depth += 1;
+                    } else if self.class_depth > 0 {
                         self.body.push(ch);
-                        self.state = FreeFormatMode::Escape;
+                        if ch == ']' {
+                            self.class_depth -= 1;
+                        }
+                    } else if ch == '#' {
+                        self.state = FreeFormatMode::Comment;
                     } else if !ch.is_ascii_whitespace() {
                         self.body.push(ch);
                     }
@@ -916,12 +923,6 @@ impl FreeFormatContext {
                     self.body.push(ch);
                     self.state = FreeFormatMode::Normal;
                 }
-                FreeFormatMode::CharacterClass => {
-                    self.body.push(ch);
-                    if ch == ']' {
-                        self.state = FreeFormatMode::Normal;
-                    }
-                }
                 FreeFormatMode::Comment => {
                     if ch == '\n' {
                         self.state = FreeFormatMode::Normal;
-- 
2.43.0


From abbb9b5e7ee4ae338551492f12a43c6eccc83474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 069/137] fix: assignments inside of a primary expression on
 the left-hand side of a multiple assignment

---
 src/parser/expression.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6bffb74..b88f5da 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -711,6 +711,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_primary(&mut self, suppress_unparen_call: bool) -> Result<Node, LexerErr> {
+        // e.g. a, (b = c)[0] = ..
+        let old = std::mem::replace(&mut self.suppress_acc_assign, false);
+        let node = self.parse_primary_node(suppress_unparen_call);
+        self.suppress_acc_assign = old;
+        node
+    }
+
+    fn parse_primary_node(&mut self, suppress_unparen_call: bool) -> Result<Node, LexerErr> {
         let tok = self.get()?;
         let loc = tok.loc();
         match tok.kind {
-- 
2.43.0


From 6d4eb73d671d1b8dc14491d530509b80e8a5d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 070/137] fix: do-blocks in the target of a rescue clause

---
 src/parser/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b88f5da..e0b2b9d 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1118,8 +1118,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     exception = list?;
                 };
                 if self.consume_punct_no_term(Punct::FatArrow)? {
-                    let lhs = self.parse_arg()?;
-                    assign = Some(self.check_lhs(lhs)?);
+                    let old = std::mem::replace(&mut self.suppress_do_block, false);
+                    let lhs = self.parse_arg();
+                    self.suppress_do_block = old;
+                    assign = Some(self.check_lhs(lhs?)?);
                 }
                 self.parse_then()?;
             };
-- 
2.43.0


From 5d099d651c624b281c49e5a5f38cee225c47c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 071/137] fix: accept any non-ASCII letter or symbol at the
 start of an instance, class or global variable name

---
 src/parser/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 085fd6c..ad0877d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -474,7 +474,12 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_alphanumeric() || ch == '_' || ch == '&' || ch == '\'' {
+                        if ch.is_ascii_alphanumeric()
+                            || !ch.is_ascii()
+                            || ch == '_'
+                            || ch == '&'
+                            || ch == '\''
+                        {
                         } else {
                             return Err(self.error_unexpected(pos));
                         }
-- 
2.43.0


From 9e3345c7209481f36d458d42b4999144f5e63f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 072/137] fix: the location of an error at the end of a
 here-document body covers a whole character

---
 src/parser/literals.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 50db0dc..f26abf2 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -142,6 +142,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else {
             self.prev_loc()
         };
+        // The end of the body is the first character of the terminator.
+        let len = self.lexer.code[end..].chars().next().map_or(1, char::len_utf8);
+        let whole_char = |err: LexerErr| match err {
+            LexerErr(kind, Loc(_, pos)) if pos == end => LexerErr(kind, Loc(end, end + len - 1)),
+            err => err,
+        };
         let mut node = match mode {
             ParseMode::Single => {
                 Node::new_string(self.lexer.code[start..end].to_string().into(), loc)
@@ -151,13 +157,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let res = parser.here_double();
                 // The body belongs to the current scope.
                 self.scope = parser.scope;
-                res?
+                res.map_err(whole_char)?
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
                 let res = parser.here_command();
                 self.scope = parser.scope;
-                res?
+                res.map_err(whole_char)?
             }
         };
         if start == end {
-- 
2.43.0


From 6cbb990feb80a2f9c930e4007eea85705b9e6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 073/137] fix: locate the error for invalid UTF-8 at the
 literal instead of the first byte of the source

---
 src/lib.rs             | 4 ++--
 src/parser/lexer.rs    | 8 ++++----
 src/parser/literals.rs | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 60f3020..517203b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,13 +105,13 @@ impl RubyString {
         }
     }
 
-    fn as_string(self) -> Result<String, LexerErr> {
+    fn as_string(self, loc: Loc) -> Result<String, LexerErr> {
         match self {
             RubyString::Bytes(bytes) => {
                 let s = String::from_utf8(bytes).map_err(|_| {
                     LexerErr(
                         ParseErrKind::SyntaxError("Invalid UTF-8.".to_string()),
-                        Loc(0, 0),
+                        loc,
                     )
                 })?;
                 Ok(s)
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ad0877d..0d3dc2b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -203,7 +203,7 @@ impl<'a> Lexer<'a> {
                 postfix,
                 free_format,
             } => Ok(self.new_regexlit(body, postfix, free_format)),
-            InterpolateState::NewInterpolation(s, _) => Ok(self.new_open_reg(s.as_string()?)),
+            InterpolateState::NewInterpolation(s, _) => Ok(self.new_open_reg(s.as_string(self.cur_loc())?)),
             _ => unreachable!(),
         }
     }
@@ -817,7 +817,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => Ok(self.new_stringlit(s)),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_string(s.as_string()?, term, level))
+                Ok(self.new_open_string(s.as_string(self.cur_loc())?, term, level))
             }
             _ => unreachable!(),
         }
@@ -833,7 +833,7 @@ impl<'a> Lexer<'a> {
         match self.read_interpolate(open, term, level)? {
             InterpolateState::Finished(s) => self.new_commandlit(s),
             InterpolateState::NewInterpolation(s, level) => {
-                Ok(self.new_open_command(s.as_string()?, term, level))
+                Ok(self.new_open_command(s.as_string(self.cur_loc())?, term, level))
             }
             _ => unreachable!(),
         }
@@ -1568,7 +1568,7 @@ impl<'a> Lexer<'a> {
 
     fn new_commandlit(&self, string: RubyString) -> Result<Token, LexerErr> {
         Ok(Annot::new(
-            TokenKind::CommandLit(string.as_string()?),
+            TokenKind::CommandLit(string.as_string(self.cur_loc())?),
             self.cur_loc(),
         ))
     }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index f26abf2..450cdbf 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -275,7 +275,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let loc = symbol_loc.merge(node.loc());
                 return Ok(Node::new_mcall_noarg(node, method, false, loc));
             }
-            TokenKind::StringLit(ident) => ident.to_owned().as_string()?,
+            TokenKind::StringLit(ident) => ident.to_owned().as_string(symbol_loc)?,
             _ => return Err(error_unexpected(symbol_loc, "Expect identifier or string.")),
         };
         Ok(Node::new_symbol(id, loc.merge(self.prev_loc())))
-- 
2.43.0


From 28f9e969b587b07ec67f14029c065d3183561cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:59 +0000
Subject: [PATCH 074/137] fix: location of a receiver which is a method call
 without arguments

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index e0b2b9d..7d87ba0 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -704,7 +704,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
 
         let node = match receiver.kind {
-            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, loc),
+            NodeKind::Ident(id) => Node::new_fcall_noarg(id, false, receiver.loc),
             _ => receiver,
         };
         Ok(Node::new_mcall(node, id, arglist, safe_nav, loc))
-- 
2.43.0


From 082381ca9d4b826125049e09962488cc924ac1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 075/137] fix: location of a destructured parameter on a new
 line

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 164a9f9..6d0c556 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -752,16 +752,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
-        let loc = self.loc();
         let name = self.expect_ident()?;
+        let loc = self.prev_loc();
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
         while self.consume_punct(Punct::Comma)? {
             if self.consume_punct(Punct::RParen)? {
                 return Ok(FormalParam::destruct_param(idents));
             }
-            let loc = self.loc();
             let name = self.expect_ident()?;
+            let loc = self.prev_loc();
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
         }
-- 
2.43.0


From cda8fef693a097ae47bdd1e7761b80369035a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 076/137] fix: location of the string in an empty command
 here-document

---
 src/parser/literals.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 450cdbf..bcd3059 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -149,6 +149,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             err => err,
         };
         let mut node = match mode {
+            ParseMode::Command if start == end => {
+                Node::new_command(Node::new_string(String::new().into(), loc))
+            }
             ParseMode::Single => {
                 Node::new_string(self.lexer.code[start..end].to_string().into(), loc)
             }
-- 
2.43.0


From 67444c3cfa710b8ef1848311e97e02bd2ec9d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 077/137] fix: location of a multiple assignment covers all of
 its right-hand side

---
 src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 08eeead..cf4345f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -578,12 +578,12 @@ impl Node {
     pub(crate) fn new_mul_assign(mlhs: Vec<Node>, mrhs: Vec<Node>) -> Self {
         let splat_flag = mrhs.iter().any(|n| n.is_splat());
         let mrhs = if splat_flag || mlhs.len() == 1 && mrhs.len() != 1 {
-            let loc = mrhs[0].loc();
+            let loc = mrhs.iter().fold(mrhs[0].loc(), |loc, n| loc.merge(n.loc()));
             vec![Node::new_array(mrhs, loc)]
         } else {
             mrhs
         };
-        let loc = mlhs[0].loc().merge(mrhs.last().unwrap().loc());
+        let loc = mrhs.iter().fold(mlhs[0].loc(), |loc, n| loc.merge(n.loc()));
         Node::new(NodeKind::MulAssign(mlhs, mrhs), loc)
     }
 
-- 
2.43.0


From 2f294028b3ea3e35b05e836250dabd737f853a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:31 +0000
Subject: [PATCH 078/137] fix: ';' is not skipped where a line break is
 allowed, as in 'a + ; b'

---
 src/parser/expression.rs   | 4 ++--
 src/parser/flow_control.rs | 1 +
 src/token.rs               | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7d87ba0..fca443a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -15,8 +15,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_statements(&mut self) -> Result<Node, LexerErr> {
-        // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
-        self.peek()?;
+        // COMP_STMT : (TERM+)? (STMT (TERM STMT)*)? (TERM+)?
+        self.consume_term()?;
         let loc = self.loc();
         let mut nodes = vec![];
 
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index ef4caab..649e11d 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -139,6 +139,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = self.prev_loc();
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = false;
+        self.consume_term()?;
         let cond = if self.peek()?.kind != TokenKind::Reserved(Reserved::When) {
             Some(self.parse_expr()?)
         } else {
diff --git a/src/token.rs b/src/token.rs
index afa69c4..84b34fa 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -289,7 +289,7 @@ impl Token {
 impl Token {
     /// Examine the token, and return true if it is a line terminator.
     pub(crate) fn is_line_term(&self) -> bool {
-        self.kind == TokenKind::LineTerm || self.kind == TokenKind::Punct(Punct::Semi)
+        self.kind == TokenKind::LineTerm
     }
 
     /// Examine the token, and return true if it is EOF.
-- 
2.43.0


From 9ea78f21f8e4dae355241cdbd51ded01497be9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 079/137] fix: a newline ends an unparenthesized list

---
 src/parser.rs              | 25 ++++++++++++++-----------
 src/parser/expression.rs   | 10 +++++-----
 src/parser/flow_control.rs |  2 +-
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6d0c556..6533ec2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -355,6 +355,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
     }
 
+    /// Consume a comma or => of a list. Without a closing bracket, a newline ends the list.
+    fn consume_separator(
+        &mut self,
+        expect: Punct,
+        terminator: Option<Punct>,
+    ) -> Result<bool, LexerErr> {
+        match terminator {
+            Some(_) => self.consume_punct(expect),
+            None => self.consume_punct_no_term(expect),
+        }
+    }
+
     fn consume_assign_op_no_term(&mut self) -> Result<Option<BinOp>, LexerErr> {
         if let TokenKind::Punct(Punct::AssignOp(op)) = self.peek_no_term()?.kind {
             Ok(Some(op))
@@ -732,17 +744,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 };
             }
-            match terminator {
-                Some(_) => {
-                    if !self.consume_punct(Punct::Comma)? {
-                        break;
-                    }
-                }
-                None => {
-                    if !self.consume_punct_no_term(Punct::Comma)? {
-                        break;
-                    }
-                }
+            if !self.consume_separator(Punct::Comma, terminator)? {
+                break;
             }
         }
         if let Some(term) = terminator {
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index fca443a..9fb00e4 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -239,7 +239,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let node = self.parse_arg()?;
                 args.push(node);
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_separator(Punct::Comma, term)? {
                 break;
             }
         }
@@ -1039,10 +1039,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else {
                 let node = self.parse_arg()?;
                 let loc = node.loc();
-                if self.consume_punct(Punct::FatArrow)? {
+                if self.consume_separator(Punct::FatArrow, punct)? {
                     let value = self.parse_arg()?;
                     let mut kvp = vec![(node, value)];
-                    if self.consume_punct(Punct::Comma)? {
+                    if self.consume_separator(Punct::Comma, punct)? {
                         loop {
                             // Support trailing comma
                             if let Some(punct) = punct {
@@ -1061,7 +1061,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             self.expect_punct(Punct::FatArrow)?;
                             let value = self.parse_arg()?;
                             kvp.push((key, value));
-                            if !self.consume_punct(Punct::Comma)? {
+                            if !self.consume_separator(Punct::Comma, punct)? {
                                 break;
                             }
                         }
@@ -1076,7 +1076,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 // positional args
                 arglist.args.push(node);
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_separator(Punct::Comma, punct)? {
                 break;
             } else {
                 let loc = self.prev_loc();
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 649e11d..a338e8a 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -91,7 +91,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     break;
                 }
             }
-            if !self.consume_punct(Punct::Comma)? {
+            if !self.consume_separator(Punct::Comma, terminator)? {
                 break;
             }
             if let Some(term) = terminator {
-- 
2.43.0


From 71ed9313b81f90fbf1acf91d68d3b24aa5b88c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:06 +0000
Subject: [PATCH 080/137] fix: -e accepts a source that begins with '-'

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6ed58f3..44b6e7c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -9,7 +9,7 @@ use std::path::Path;
 #[clap(author, version, about, long_about = None, trailing_var_arg = true)]
 struct Cli {
     /// one line of script. Several -e's allowed. Omit [programfile]
-    #[arg(short, num_args(0..))]
+    #[arg(short, num_args(0..=1), allow_hyphen_values = true)]
     exec: Option<String>,
 
     /// print the version number, then turn on verbose mode
-- 
2.43.0


From 654815245c770f83faf71ffa41bdcec6fd4a96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 081/137] fix: an argument list does not end at a leading
 comma, as in foo(, 1

---
 src/parser/expression.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 9fb00e4..8cec0f2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1009,9 +1009,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_arglist_elements(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
-        if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
-            return Ok(arglist);
-        }
         loop {
             if let Some(punct) = punct {
                 if self.consume_punct(punct)? {
-- 
2.43.0


From 5c122decf7152c15c4c2ab73a1191d8df750298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 082/137] fix: check the position of a destructuring parameter

---
 src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6533ec2..0e563a5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -618,6 +618,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             let mut loc = self.loc();
             if self.consume_punct(Punct::LParen)? {
+                // Destructuring param is a kind of required param.
+                match state {
+                    Kind::Required => {}
+                    Kind::PostReq | Kind::Optional | Kind::Rest => state = Kind::PostReq,
+                    _ => {
+                        return Err(error_unexpected(
+                            loc,
+                            "Required parameter is not allowed in ths position.",
+                        ))
+                    }
+                };
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
                 // Argument delegation
-- 
2.43.0


From 20e17cc1ed0531323968f8471a48735d0f6da813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 083/137] fix: '...' is a parameter of methods only, and not
 visible in a singleton class

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e563a5..ba62269 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -142,6 +142,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     break;
                 }
             }
+            if ctx.kind == ScopeKind::Class {
+                break;
+            }
         }
         Err(error_unexpected(self.prev_loc(), "Unexpected ..."))
     }
@@ -632,7 +635,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
                 // Argument delegation
-                if state > Kind::Required {
+                if state > Kind::Required || self.scope.last().unwrap().kind != ScopeKind::Method {
                     return Err(error_unexpected(
                         loc,
                         "parameter delegate is not allowed in ths position.",
-- 
2.43.0


From 139f55cfe1c8fd777812c63427ce6cd24732ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:52 +0000
Subject: [PATCH 084/137] fix: reject arguments and blocks after a forwarded
 argument list

---
 src/parser/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 8cec0f2..acf098f 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -983,7 +983,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.suppress_do_block = old;
         let mut arglist = arglist?;
         if let Some(actual_block) = self.parse_block()? {
-            if arglist.block.is_some() {
+            if arglist.block.is_some() || arglist.forwarding {
                 return Err(error_unexpected(
                     actual_block.loc(),
                     "Both block arg and actual block given.",
@@ -1018,6 +1018,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::Range3)? {
                 self.check_forwarding()?;
                 arglist.forwarding = true;
+                // '...' is the last argument.
+                break;
             } else if self.consume_punct(Punct::Mul)? {
                 // splat argument
                 let loc = self.prev_loc();
-- 
2.43.0


From 7c70c4ee35a93d442a197aca932faad4745f1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 085/137] fix: yield takes no block argument

---
 src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index acf098f..666be25 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -645,6 +645,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else {
             ArgList::default()
         };
+        if let Some(block) = &args.block {
+            return Err(error_unexpected(
+                block.loc(),
+                "Block argument should not be given.",
+            ));
+        }
         Ok(Node::new_yield(args, loc))
     }
 
-- 
2.43.0


From 87e6c67c3fe73a2d69d33fffc97ed306cef96d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 086/137] fix: reject assignment to a call with empty
 parentheses

---
 src/parser/expression.rs | 7 ++++++-
 src/parser/lexer.rs      | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 666be25..1eeed3a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1226,7 +1226,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             // attribute assignment
             NodeKind::MethodCall {
                 method, arglist, ..
-            } if *arglist == ArgList::default() && !method.ends_with(&['!', '?'][..]) => Ok(lhs),
+            } if *arglist == ArgList::default()
+                && !method.ends_with(&['!', '?'][..])
+                && !self.lexer.followed_by_lparen(loc) =>
+            {
+                Ok(lhs)
+            }
             _ => Err(error_unexpected(loc, "Invalid assignment target.")),
         }
     }
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0d3dc2b..18dfe4b 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -177,6 +177,11 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine if the char just behind `loc` is '('.
+    pub(crate) fn followed_by_lparen(&self, loc: Loc) -> bool {
+        self.code.as_bytes().get(loc.1 + 1) == Some(&b'(')
+    }
+
     /// Examine if the next char is ':' which is not a part of '::'.
     pub(crate) fn trailing_label_colon(&self) -> bool {
         self.peek() == Some(':') && self.peek2() != Some(':')
-- 
2.43.0


From 8ad96da1e41d1e2a4935bf7cceb9e6e0b2089d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 087/137] fix: numbered parameters in blocks with ordinary
 parameters and in for loops

---
 src/parser.rs          | 50 ++++++++++++++++++++++++++++--------------
 src/parser/literals.rs | 10 ++++++---
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba62269..751e15e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -228,13 +228,26 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Some(outer + depth)
     }
 
-    /// Check whether numbered parameters exist in outer blocks.
+    /// Check whether a numbered parameter is allowed in the current block.
     fn check_outer_numbered_param(&mut self, loc: Loc) -> Result<(), LexerErr> {
-        //let mut outer = 0;
-        if let Some(loc) = self.scope.last_mut().unwrap().lvar.prohibit_numbered_param {
+        // A for loop is not a block of its own.
+        let mut scopes = self
+            .scope
+            .iter_mut()
+            .rev()
+            .filter(|c| c.kind != ScopeKind::For)
+            .take_while(|c| c.kind == ScopeKind::Block);
+        let block = match scopes.next() {
+            Some(block) => block,
+            None => return Ok(()),
+        };
+        if block.ordinary_param {
+            return Err(error_unexpected(loc, "Ordinary parameter is defined."));
+        }
+        if let Some(loc) = block.lvar.prohibit_numbered_param {
             return Err(error_nested_numbered_param(loc));
         }
-        for c in self.scope.iter_mut().rev().skip(1) {
+        for c in scopes {
             if let Some(loc) = c.lvar.numbered_param {
                 return Err(error_nested_numbered_param(loc));
             }
@@ -242,16 +255,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if prohibit.is_none() {
                 *prohibit = Some(loc);
             }
-            match c.kind {
-                ScopeKind::Block => {} //outer += 1,
-                ScopeKind::For => {}
-                _ => break,
-            }
         }
-        self.scope.last_mut().unwrap().lvar.numbered_param = Some(loc);
-        /*if let Some(a) = &self.extern_context {
-            return a.find_lvar(id);
-        }*/
+        block.lvar.numbered_param = Some(loc);
         Ok(())
     }
 
@@ -490,11 +495,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.scope.push(LvarScope::new_block(None));
         self.loop_stack.push(LoopKind::Block);
 
-        let (params, ordinary_param) = if self.consume_punct(Punct::BitOr)? {
-            (self.parse_formal_params(Punct::BitOr)?, true)
+        let params = if self.consume_punct(Punct::BitOr)? {
+            let params = self.parse_formal_params(Punct::BitOr)?;
+            self.scope.last_mut().unwrap().ordinary_param = true;
+            params
         } else {
-            self.consume_punct(Punct::LOr)?;
-            (vec![], false)
+            if self.consume_punct(Punct::LOr)? {
+                self.scope.last_mut().unwrap().ordinary_param = true;
+            }
+            vec![]
         };
 
         let body = if do_flag {
@@ -866,6 +875,8 @@ enum ScopeKind {
 struct LvarScope {
     kind: ScopeKind,
     lvar: LvarCollector,
+    /// The block has a parameter list.
+    ordinary_param: bool,
 }
 
 impl LvarScope {
@@ -873,6 +884,7 @@ impl LvarScope {
         LvarScope {
             lvar: LvarCollector::new(),
             kind: ScopeKind::Method,
+            ordinary_param: false,
         }
     }
 
@@ -880,6 +892,7 @@ impl LvarScope {
         LvarScope {
             lvar: lvar_collector.unwrap_or_default(),
             kind: ScopeKind::Eval,
+            ordinary_param: false,
         }
     }
 
@@ -887,6 +900,7 @@ impl LvarScope {
         LvarScope {
             lvar: lvar_collector.unwrap_or_default(),
             kind: ScopeKind::Class,
+            ordinary_param: false,
         }
     }
 
@@ -894,6 +908,7 @@ impl LvarScope {
         LvarScope {
             lvar: lvar_collector.unwrap_or_default(),
             kind: ScopeKind::Block,
+            ordinary_param: false,
         }
     }
 
@@ -901,6 +916,7 @@ impl LvarScope {
         LvarScope {
             lvar: LvarCollector::new(),
             kind: ScopeKind::For,
+            ordinary_param: false,
         }
     }
 }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index bcd3059..b165477 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -340,10 +340,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             || peek == TokenKind::Reserved(Reserved::Do)
         {
             vec![]
-        } else if self.consume_punct(Punct::LParen)? {
-            self.parse_formal_params(Punct::RParen)?
         } else {
-            self.parse_formal_params(None)?
+            let params = if self.consume_punct(Punct::LParen)? {
+                self.parse_formal_params(Punct::RParen)?
+            } else {
+                self.parse_formal_params(None)?
+            };
+            self.scope.last_mut().unwrap().ordinary_param = true;
+            params
         };
         let body = if self.consume_punct(Punct::LBrace)? {
             let body = self.parse_comp_stmt()?;
-- 
2.43.0


From 3552a90f12e3f1804635bd8c1adb71f9a8c150c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 088/137] fix: reject an empty unicode escape

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 18dfe4b..f9aa9d2 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1212,11 +1212,13 @@ impl<'a> Lexer<'a> {
             }
             'u' => {
                 if self.consume('{') {
+                    let mut empty = true;
                     loop {
                         while self.consume(' ') {}
-                        if self.consume('}') {
+                        if !empty && self.consume('}') {
                             break;
                         }
+                        empty = false;
                         self.read_unicode_escape_sequence(buf, false)?;
                     }
                 } else {
-- 
2.43.0


From a579a8289ae204cd428a7715fec6da133d166782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 089/137] fix: names of instance and class variables do not
 begin with a digit, '&' or a quote

---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f9aa9d2..33fbbce 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -479,11 +479,11 @@ impl<'a> Lexer<'a> {
                 let pos = self.pos;
                 match self.get() {
                     Ok(ch) => {
-                        if ch.is_ascii_alphanumeric()
+                        if ch.is_ascii_alphabetic()
                             || !ch.is_ascii()
                             || ch == '_'
-                            || ch == '&'
-                            || ch == '\''
+                            || var_kind == VarKind::GlobalVar
+                                && (ch.is_ascii_digit() || ch == '&' || ch == '\'')
                         {
                         } else {
                             return Err(self.error_unexpected(pos));
-- 
2.43.0


From d5d43dd2929fbf69026bcc199d3c856f304c40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 090/137] fix: a separator is required after parameters without
 parentheses

---
 src/parser/define.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index d0d3e0a..80bc165 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -187,7 +187,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None
         };
         let args = self.parse_formal_params(term)?;
-        self.consume_term()?;
+        if !self.consume_term()? && term.is_none() {
+            return Err(self.error_next("Expected a separator after the parameters."));
+        }
         Ok(args)
     }
 
-- 
2.43.0


From 762085f14a06b973e7e69ef17813ce96426ce860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 091/137] fix: a separator is required after a superclass and
 after the object of a singleton class

---
 src/parser/define.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 80bc165..e80a472 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -127,7 +127,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else {
             None
         };
-        self.consume_term()?;
+        if !self.consume_term()? && superclass.is_some() {
+            return Err(self.error_next("Expected a separator after the superclass."));
+        }
 
         self.scope.push(LvarScope::new_class(None));
         self.loop_stack.push(LoopKind::Top);
@@ -147,7 +149,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // end
         let singleton = self.parse_expr()?;
         let loc = loc.merge(self.prev_loc());
-        self.consume_term()?;
+        if !self.consume_term()? {
+            return Err(self.error_next("Expected a separator after the object."));
+        }
 
         self.scope.push(LvarScope::new_class(None));
         self.loop_stack.push(LoopKind::Top);
-- 
2.43.0


From 3c8f6f99a7e411eb9b9b4d4f0c95f78e55213a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 092/137] fix: input cut off after 'class' in a method or in
 the target of a rescue clause is an unexpected end of input

---
 src/parser/expression.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 1eeed3a..6ea2401 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -918,6 +918,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         self.parse_singleton_class(loc)
                     } else {
                         if self.is_method_context() {
+                            // "class <<" is allowed.
+                            let next = self.peek()?;
+                            if next.is_eof() {
+                                return Err(error_eof(next.loc));
+                            }
                             return Err(error_unexpected(
                                 loc,
                                 "SyntaxError: class definition in method body.",
@@ -1126,7 +1131,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let old = std::mem::replace(&mut self.suppress_do_block, false);
                     let lhs = self.parse_arg();
                     self.suppress_do_block = old;
-                    assign = Some(self.check_lhs(lhs?)?);
+                    let lhs = lhs?;
+                    if self.peek_no_term()?.is_eof() {
+                        // e.g. rescue => self[0]
+                        return Err(self.error_next("Unexpected end."));
+                    }
+                    assign = Some(self.check_lhs(lhs)?);
                 }
                 self.parse_then()?;
             };
-- 
2.43.0


From 53e44e0f68e039768613e64fff21c3780eadc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 093/137] fix: input cut off in a unicode escape is an
 unexpected end of input

---
 src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 33fbbce..471db2a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1008,6 +1008,10 @@ impl<'a> Lexer<'a> {
                 // neither a digit, a space nor '}'.
                 return Err(self.error_unexpected(self.pos));
             }
+            if self.peek().is_none() {
+                // more digits may follow.
+                return Err(Self::error_eof(self.pos));
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 952217a64ac346ee8714f41ab4834e17ae61330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 094/137] fix: the parenthesised variables of a for loop need a
 closing parenthesis

---
 src/parser/flow_control.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index a338e8a..c2cbef8 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -92,6 +92,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             }
             if !self.consume_separator(Punct::Comma, terminator)? {
+                if let Some(term) = terminator {
+                    self.expect_punct(term)?;
+                }
                 break;
             }
             if let Some(term) = terminator {
-- 
2.43.0


From b2d50718207795f8aad5ca21c9ce2f3c0617cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 095/137] fix: a numbered parameter can be followed by a comma
 in a list

---
 src/parser/expression.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6ea2401..ea17814 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -776,7 +776,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
-            TokenKind::NumberedParam(i, name) => {
+            TokenKind::NumberedParam(_, name) => {
                 if self.lexer.trailing_lparen() {
                     // _1()
                     let node = Node::new_identifier(name.clone(), loc);
@@ -787,8 +787,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let node = Node::new_identifier(name.to_string(), loc);
                 if let Ok(tok) = self.peek_no_term() {
                     match tok.kind {
-                        // Multiple assignment
-                        TokenKind::Punct(Punct::Comma) => return Err(error_numbered_param(loc, i)),
                         // Method call with block and no args
                         // _1 {}
                         TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
-- 
2.43.0


From b8865f084d8e62adc0af5f5dd705a7192e3496ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 096/137] fix: a name like _1 at the top level of a binding is
 not a numbered parameter

---
 src/parser.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 751e15e..45bdb92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -230,9 +230,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     /// Check whether a numbered parameter is allowed in the current block.
     fn check_outer_numbered_param(&mut self, loc: Loc) -> Result<(), LexerErr> {
-        // A for loop is not a block of its own.
-        let mut scopes = self
-            .scope
+        // A for loop is not a block of its own, nor is the outermost scope.
+        let mut scopes = self.scope[1..]
             .iter_mut()
             .rev()
             .filter(|c| c.kind != ScopeKind::For)
-- 
2.43.0


From 78af375ce1d24ac7f339a31f51f7ff4d2bb945e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 097/137] fix: character classes of a regular expression extend
 across interpolations

---
 src/parser/lexer.rs    | 16 +++++++++-------
 src/parser/literals.rs |  5 +++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 471db2a..b650e70 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -201,8 +201,10 @@ impl<'a> Lexer<'a> {
     }
 
     /// Get token as a regular expression.
-    pub(crate) fn get_regexp(&mut self) -> Result<Token, LexerErr> {
-        match self.read_regexp_sub()? {
+    ///
+    /// `char_class` is the nest level of character classes, which can contain interpolations.
+    pub(crate) fn get_regexp(&mut self, char_class: &mut usize) -> Result<Token, LexerErr> {
+        match self.read_regexp_sub(char_class)? {
             InterpolateState::FinishedRegex {
                 body,
                 postfix,
@@ -1067,9 +1069,8 @@ impl<'a> Lexer<'a> {
     }
 
     /// Scan as regular expression.
-    fn read_regexp_sub(&mut self) -> Result<InterpolateState, LexerErr> {
+    fn read_regexp_sub(&mut self, char_class: &mut usize) -> Result<InterpolateState, LexerErr> {
         let mut body = "".to_string();
-        let mut char_class = 0;
         loop {
             match self.get()? {
                 '/' => {
@@ -1081,11 +1082,12 @@ impl<'a> Lexer<'a> {
                     });
                 }
                 '[' => {
-                    char_class += 1;
+                    *char_class += 1;
                     body.push('[');
                 }
                 ']' => {
-                    char_class -= 1;
+                    // A `]` outside of a character class is an ordinary character.
+                    *char_class = char_class.saturating_sub(1);
                     body.push(']');
                 }
                 '\\' => {
@@ -1093,7 +1095,7 @@ impl<'a> Lexer<'a> {
                     match ch {
                         'a' => body += "\\a",
                         // '\b' is valid only in the inner of character class. Otherwise, shoud be treated as "\x08".
-                        'b' => body += if char_class == 0 { "\\b" } else { "\\x08" },
+                        'b' => body += if *char_class == 0 { "\\b" } else { "\\x08" },
                         'e' => body += "\\x1b",
                         'f' => body += "\\f",
                         'n' => body += "\\n",
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index b165477..234df57 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -286,7 +286,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     pub(super) fn parse_regexp(&mut self) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
-        let tok = self.lexer.get_regexp()?;
+        let mut char_class = 0;
+        let tok = self.lexer.get_regexp(&mut char_class)?;
         let mut nodes = match tok.kind {
             TokenKind::Regex {
                 body: s,
@@ -305,7 +306,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         loop {
             self.parse_template(&mut nodes)?;
-            let tok = self.lexer.get_regexp()?;
+            let tok = self.lexer.get_regexp(&mut char_class)?;
             let loc = tok.loc();
             match tok.kind {
                 TokenKind::Regex {
-- 
2.43.0


From 3af711ebe1047688b794677961807af8d2009f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 098/137] fix: only ASCII white spaces indent the terminator of
 a here-document

---
 src/parser/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b650e70..d31a9a2 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1304,7 +1304,9 @@ impl<'a> Lexer<'a> {
             let next = self.get();
             let line = &self.code[start..end];
             if term_mode == TermMode::AllowIndent || term_mode == TermMode::Squiggly {
-                if line.trim_start() == &self.code[delimiter.clone()] {
+                // Only ASCII white spaces can indent the terminator.
+                let line = line.trim_start_matches(|c| matches!(c, ' ' | '\t'..='\r'));
+                if line == &self.code[delimiter.clone()] {
                     break;
                 }
             } else if line == &self.code[delimiter.clone()] {
-- 
2.43.0


From c4aeb359bdaef3549981a4e487113a62d526e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 099/137] fix: any string, command or variable can follow a
 method name without a space as its argument

---
 src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ea17814..d0c5e1c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1319,10 +1319,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             matches!(
                 tok.kind,
                 TokenKind::GlobalVar(_)
+                    | TokenKind::SpecialVar(_)
                     | TokenKind::InstanceVar(_)
+                    | TokenKind::ClassVar(_)
                     | TokenKind::StringLit(_)
+                    | TokenKind::OpenString(..)
+                    | TokenKind::CommandLit(_)
+                    | TokenKind::OpenCommand(..)
                     | TokenKind::FloatLit(_)
                     | TokenKind::BignumLit(_)
+                    | TokenKind::ImaginaryLit(_)
                     | TokenKind::IntegerLit(_)
             )
         }
-- 
2.43.0


From 749a2e900b2917916b33357263b374303cb2aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 100/137] fix: a comment can stand between a dot and the method
 name, and behind alias

---
 src/parser/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d31a9a2..6f94281 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -560,8 +560,11 @@ impl<'a> Lexer<'a> {
         allow_assign_like: bool,
     ) -> Result<(String, Loc), LexerErr> {
         self.flush();
-        while self.consume_newline() || self.consume_cont_line() || self.consume_whitespace() {}
-        self.token_start_pos = self.pos;
+        self.skip_whitespace();
+        while self.peek() == Some('#') {
+            self.goto_eol();
+            self.skip_whitespace();
+        }
         let ch = self.get()?;
         if ch.is_ascii_punctuation() && ch != '_' {
             // re-definable operators
-- 
2.43.0


From 0c4ddebb56e7502c725edbbdf22c0512d0749da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 101/137] fix: symbols and global variables in alias can be in
 the next line, and names are located at their spelling

---
 src/parser/define.rs     | 25 +++++++++++++------------
 src/parser/expression.rs |  7 ++++++-
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index e80a472..23a1d4d 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -163,19 +163,20 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(crate) fn alias_name(&mut self) -> Result<Node, LexerErr> {
-        if self.consume_punct_no_term(Punct::Colon)? {
-            self.parse_symbol()
-        } else if let TokenKind::GlobalVar(_) = self.peek_no_term()?.kind {
-            let tok = self.get()?;
-            match &tok.kind {
-                TokenKind::GlobalVar(name) => Ok(Node::new_symbol(name.to_owned(), tok.loc)),
-                _ => unreachable!(),
+        // The name can be in the next line.
+        match self.peek().map(|tok| tok.kind) {
+            Ok(TokenKind::Punct(Punct::Colon)) => {
+                self.get()?;
+                self.parse_symbol()
+            }
+            Ok(TokenKind::GlobalVar(name)) => {
+                let loc = self.get()?.loc;
+                Ok(Node::new_symbol(name, loc))
+            }
+            _ => {
+                let (name, loc) = self.read_method_name(true)?;
+                Ok(Node::new_symbol(name, loc))
             }
-        } else {
-            Ok(Node::new_symbol(
-                self.read_method_name(true)?.0,
-                self.prev_loc(),
-            ))
         }
     }
 
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d0c5e1c..4cab1fd 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -960,9 +960,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
                 Reserved::Alias => {
+                    let is_gvar =
+                        matches!(self.peek(), Ok(tok) if matches!(tok.kind, TokenKind::GlobalVar(_)));
                     let new_name = self.alias_name()?;
+                    if is_gvar && self.is_line_term()? {
+                        return Err(self.error_next("Expected a global variable."));
+                    }
                     let old_name = self.alias_name()?;
-                    let loc = loc.merge(self.prev_loc());
+                    let loc = loc.merge(old_name.loc());
                     Ok(Node::new_alias(new_name, old_name, loc))
                 }
                 Reserved::Super => self.parse_super(),
-- 
2.43.0


From 69935881d2ecb9b3c789efe63040e81c86eb84be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 102/137] fix: the object of a singleton method definition is
 followed by a dot, and can be nil, true or false

---
 src/parser/define.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 23a1d4d..5d201f2 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -15,14 +15,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = tok.loc;
         let (singleton, name) = match tok.kind {
             TokenKind::GlobalVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                if !self.consume_singleton_dot()? {
+                    return Err(self.error_next("Expected '.'."));
+                }
                 (
                     Some(Node::new_global_var(name, loc)),
                     self.read_method_name(true)?.0,
                 )
             }
             TokenKind::InstanceVar(name) => {
-                self.consume_punct_no_term(Punct::Dot)?;
+                if !self.consume_singleton_dot()? {
+                    return Err(self.error_next("Expected '.'."));
+                }
                 (
                     Some(Node::new_instance_var(name, loc)),
                     self.read_method_name(true)?.0,
@@ -30,15 +34,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             TokenKind::Reserved(r) => (None, self.read_method_ext(r.to_str().to_string())?),
             TokenKind::Ident(s) => {
-                if s.as_str() == "self" {
-                    self.consume_punct_no_term(Punct::Dot)?;
-                    (Some(Node::new_self(loc)), self.read_method_name(true)?.0)
-                } else if self.consume_punct_no_term(Punct::Dot)?
-                    || self.consume_punct_no_term(Punct::Scope)?
-                {
-                    let singleton = match self.is_local_var(&s) {
-                        Some(outer) => Node::new_lvar(s, outer, loc),
-                        None => Node::new_identifier(s, loc),
+                if self.consume_singleton_dot()? {
+                    let singleton = match s.as_str() {
+                        "self" => Node::new_self(loc),
+                        "nil" => Node::new_nil(loc),
+                        "true" => Node::new_bool(true, loc),
+                        "false" => Node::new_bool(false, loc),
+                        _ => match self.is_local_var(&s) {
+                            Some(outer) => Node::new_lvar(s, outer, loc),
+                            None => Node::new_identifier(s, loc),
+                        },
                     };
                     (Some(singleton), self.read_method_name(true)?.0)
                 } else {
@@ -47,9 +52,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             TokenKind::NumberedParam(i, _) => return Err(error_numbered_param(loc, i)),
             TokenKind::Const(s) => {
-                if self.consume_punct_no_term(Punct::Dot)?
-                    || self.consume_punct_no_term(Punct::Scope)?
-                {
+                if self.consume_singleton_dot()? {
                     (
                         Some(Node::new_const(s, false, None, vec![], loc)),
                         self.read_method_name(true)?.0,
@@ -78,6 +81,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(decl)
     }
 
+    /// Consume "." or "::" between the object and the name of a singleton method.
+    fn consume_singleton_dot(&mut self) -> Result<bool, LexerErr> {
+        Ok(self.consume_punct_no_term(Punct::Dot)? || self.consume_punct_no_term(Punct::Scope)?)
+    }
+
     /// Parse class definition.
     pub(super) fn parse_class(&mut self, is_module: bool) -> Result<Node, LexerErr> {
         // クラス定義 : "class" クラスパス [行終端子禁止] ("<" 式)? 分離子 本体文 "end"
-- 
2.43.0


From f8f87a48e4c7d222203ad69add89c3a4328d7ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 103/137] fix: a line break behind a backslash in a regular
 expression is dropped, and a here-document body behind it skipped

---
 src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 6f94281..4e25add 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1094,6 +1094,10 @@ impl<'a> Lexer<'a> {
                     body.push(']');
                 }
                 '\\' => {
+                    // continuation line
+                    if self.consume_newline() {
+                        continue;
+                    };
                     let ch = self.get()?;
                     match ch {
                         'a' => body += "\\a",
-- 
2.43.0


From 169f80ed77f6a82dff995f2b77be28e5da73c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 104/137] fix: control sequences occupy no column in source
 excerpts

---
 src/source_info.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/source_info.rs b/src/source_info.rs
index 33b51bb..32122de 100644
--- a/src/source_info.rs
+++ b/src/source_info.rs
@@ -92,16 +92,20 @@ impl SourceInfo {
             let limit = (lead + std::cmp::max(length, 1) - 1) / term_width * term_width + term_width;
             let mut column = 0;
             let mut top_column = None;
-            for (pos, ch) in code[line.top..line.end].char_indices() {
-                if offset <= column && column < limit {
-                    top_column.get_or_insert(column);
-                    res_string.push(ch);
+            for (part, is_ansi) in console::AnsiCodeIterator::new(&code[line.top..line.end]) {
+                for (pos, ch) in part.char_indices() {
+                    if offset <= column && column < limit {
+                        top_column.get_or_insert(column);
+                        res_string.push(ch);
+                    }
+                    // Control sequences occupy no column.
+                    if !is_ansi {
+                        column += console::measure_text_width(&part[pos..pos + ch.len_utf8()]);
+                    }
                 }
-                let pos = line.top + pos;
-                column += console::measure_text_width(&code[pos..pos + ch.len_utf8()]);
             }
             res_string += "\n";
-            res_string += &" ".repeat(lead - top_column.unwrap_or(offset));
+            res_string += &" ".repeat(lead.saturating_sub(top_column.unwrap_or(offset)));
             res_string += &"^".repeat(length);
             res_string += "\n";
         }
-- 
2.43.0


From 31bf72b1b2fc5ee07f55d8c3767aae617bc5f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 105/137] fix: text read directly by the lexer ends the
 location of a literal or a name

---
 src/parser.rs          | 6 +++---
 src/parser/literals.rs | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 45bdb92..9efccfa 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -463,9 +463,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn read_method_name(&mut self, allow_assign_like: bool) -> Result<(String, Loc), LexerErr> {
-        self.lexer
-            .read_method_name(allow_assign_like)
-            .map(|(s, loc)| (s, loc))
+        let (name, loc) = self.lexer.read_method_name(allow_assign_like)?;
+        self.prev_loc = loc;
+        Ok((name, loc))
     }
 
     fn read_method_ext(&mut self, s: String) -> Result<String, LexerErr> {
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 234df57..0ee50c8 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -7,6 +7,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = self.prev_loc();
         let mut s = RubyString::new();
         let char_loc = self.lexer.read_char_literal(&mut s)?;
+        self.prev_loc = char_loc;
         Ok(Node::new_string(s, loc.merge(char_loc)))
     }
 
@@ -53,6 +54,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 .lexer
                 .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
+            self.prev_loc = loc;
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
                     loop {
@@ -94,6 +96,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let tok = self.lexer.get_percent_notation()?;
         let loc = tok.loc;
         if let TokenKind::PercentNotation(kind, content) = tok.kind {
+            self.prev_loc = loc;
             match kind {
                 // TODO: backslash-space must be valid in %w and %i.
                 // e.g. "foo\ bar" => "foo bar"
@@ -121,6 +124,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 _ => Err(error_unexpected(loc, "Unsupported % notation.")),
             }
         } else if let TokenKind::StringLit(s) = tok.kind {
+            self.prev_loc = loc;
             Ok(Node::new_string(s, loc))
         } else if let TokenKind::OpenString(s, term, level) = tok.kind {
             let node = self.parse_interporated_string_literal(s.into(), term, level)?;
@@ -267,6 +271,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         // Symbol literal
         if let Some((id, ident_loc)) = self.lexer.read_symbol_literal()? {
+            self.prev_loc = ident_loc;
             return Ok(Node::new_symbol(id, loc.merge(ident_loc)));
         };
         let token = self.get()?;
@@ -288,6 +293,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let start_loc = self.prev_loc();
         let mut char_class = 0;
         let tok = self.lexer.get_regexp(&mut char_class)?;
+        self.prev_loc = tok.loc;
         let mut nodes = match tok.kind {
             TokenKind::Regex {
                 body: s,
@@ -308,6 +314,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.parse_template(&mut nodes)?;
             let tok = self.lexer.get_regexp(&mut char_class)?;
             let loc = tok.loc();
+            self.prev_loc = loc;
             match tok.kind {
                 TokenKind::Regex {
                     body: s,
-- 
2.43.0


From 80f20c6cbcdb68a3932ff2910d743ef6b32bf0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 106/137] fix: the location of adjacent string literals covers
 all of them

---
 src/parser/literals.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 0ee50c8..de451a9 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -14,15 +14,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse string literals.
     /// Adjacent string literals are to be combined.
     pub(super) fn parse_string_literal(&mut self, mut s: RubyString) -> Result<Node, LexerErr> {
-        let loc = self.prev_loc();
+        let mut loc = self.prev_loc();
         loop {
             match self.peek_no_term()?.kind {
                 TokenKind::StringLit(next_s) => {
-                    self.get()?;
+                    loc = loc.merge(self.get()?.loc);
                     s += &next_s;
                 }
                 TokenKind::OpenString(next_s, delimiter, level) => {
-                    self.get()?;
+                    // The literal begins with the first of them.
+                    self.prev_loc = loc.merge(self.get()?.loc);
                     s += next_s.as_str();
                     return self.parse_interporated_string_literal(s, delimiter, level);
                 }
-- 
2.43.0


From 9ca28ceded3b5be64d8ad3f39208a5fd2f2869b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 107/137] fix: the options of a %r literal belong to its
 location

---
 src/parser/lexer.rs    | 2 +-
 src/parser/literals.rs | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4e25add..52172fa 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1518,7 +1518,7 @@ impl<'a> Lexer<'a> {
         }
     }
 
-    fn cur_loc(&self) -> Loc {
+    pub(crate) fn cur_loc(&self) -> Loc {
         let end = std::cmp::max(self.token_start_pos, self.pos - 1);
         Loc(self.token_start_pos, end)
     }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index de451a9..8630d32 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -118,9 +118,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     Ok(Node::new_array(ary, tok.loc))
                 }
                 'r' => {
-                    let ary = vec![Node::new_string(content.into(), loc)];
                     let (op, free_format) = self.lexer.check_postfix();
-                    Ok(Node::new_regexp(ary, op, free_format, tok.loc))
+                    let loc = self.lexer.cur_loc();
+                    self.prev_loc = loc;
+                    let ary = vec![Node::new_string(content.into(), loc)];
+                    Ok(Node::new_regexp(ary, op, free_format, loc))
                 }
                 _ => Err(error_unexpected(loc, "Unsupported % notation.")),
             }
-- 
2.43.0


From d4c58e76eb7c89ba3717816e7b01376ec040a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 108/137] fix: a for loop is located from its first to its last
 keyword

---
 src/parser/flow_control.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index c2cbef8..944724d 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -75,7 +75,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // for <ident>, .. in <iter> do
         //   COMP_STMT
         // end
-        //let loc = self.prev_loc();
+        let loc = self.prev_loc();
         let mut vars = vec![];
         let terminator = if self.consume_punct(Punct::LParen)? {
             Some(Punct::RParen)
@@ -109,7 +109,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let iter = self.parse_expr()?;
         self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
-        let loc = self.prev_loc();
 
         self.scope.push(LvarScope::new_for());
         self.loop_stack.push(LoopKind::For);
@@ -123,10 +122,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.loop_stack.pop().unwrap();
         let lvar = self.scope.pop().unwrap().lvar;
 
-        let loc = loc.merge(self.prev_loc());
         let body = BlockInfo::new(formal_params, body, lvar, self.prev_loc());
 
         self.expect_reserved(Reserved::End)?;
+        let loc = loc.merge(self.prev_loc());
         let node = Node::new(
             NodeKind::For {
                 param: vars,
-- 
2.43.0


From 05fd7766c54268d9cf0df29d8b3c71108680e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 109/137] fix: the location of a begin covers its rescue bodies

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index cf4345f..a727c91 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -777,6 +777,9 @@ impl Node {
         ensure: Option<Node>,
     ) -> Self {
         let mut loc = body.loc();
+        for entry in &rescue {
+            loc = loc.merge(entry.body.loc());
+        }
         let else_ = match else_ {
             Some(else_) => {
                 loc = loc.merge(else_.loc);
-- 
2.43.0


From 498dd5ea2e78b654f934410b50399c0913f3dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 110/137] fix: a call of a capitalized method behind :: is
 located at its name

---
 src/parser/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 4cab1fd..5bc954e 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -596,10 +596,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if let TokenKind::Const(_) = self.peek()?.kind {
                     let loc = node.loc;
                     let name = self.expect_const()?;
+                    let name_loc = self.prev_loc();
                     if self.consume_punct_no_term(Punct::LParen)? {
                         // Foo::Bar()
                         let arglist = self.parse_arglist_block(Punct::RParen)?;
-                        Node::new_mcall(node, name, arglist, false, self.prev_loc())
+                        Node::new_mcall(node, name, arglist, false, name_loc)
                     } else if let NodeKind::Const {
                         toplevel,
                         parent,
-- 
2.43.0


From 7f33af6eb702d56c6ce21cf620d59067636f386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 111/137] fix: a parameter behind a line break is located at
 itself, and a rest parameter covers its name

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9efccfa..c343c69 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -627,7 +627,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(args);
                 }
             }
-            let mut loc = self.loc();
+            let mut loc = self.peek()?.loc;
             if self.consume_punct(Punct::LParen)? {
                 // Destructuring param is a kind of required param.
                 match state {
@@ -672,6 +672,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 };
                 match self.consume_ident()? {
                     Some(name) => {
+                        loc = loc.merge(self.prev_loc());
                         args.push(FormalParam::rest(name.clone(), loc));
                         self.new_param(name, self.prev_loc())?;
                     }
-- 
2.43.0


From 740eafbd5e99173c3612e8e4380619d52dbed75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 112/137] fix: more arguments make a command of the name of a
 local variable

---
 src/parser/expression.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 5bc954e..bcac0a9 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1263,6 +1263,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     | TokenKind::Const(_)
                     | TokenKind::InstanceVar(_)
                     | TokenKind::GlobalVar(_)
+                    | TokenKind::SpecialVar(_)
                     | TokenKind::ClassVar(_)
                     | TokenKind::IntegerLit(_)
                     | TokenKind::BignumLit(_)
@@ -1270,6 +1271,19 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     | TokenKind::ImaginaryLit(_)
                     | TokenKind::StringLit(_)
                     | TokenKind::OpenString(..)
+                    | TokenKind::CommandLit(_)
+                    | TokenKind::OpenCommand(..)
+                    | TokenKind::Punct(Punct::Arrow)
+                    | TokenKind::Punct(Punct::Not)
+                    | TokenKind::Punct(Punct::BitNot)
+                    | TokenKind::Reserved(
+                        Reserved::Begin
+                            | Reserved::Case
+                            | Reserved::Def
+                            | Reserved::Defined
+                            | Reserved::Super
+                            | Reserved::Yield
+                    )
             ),
             Err(_) => false,
         }
-- 
2.43.0


From ea246f12b2198ae5047d69eec1d7f6fbdbb62eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 113/137] fix: a line break between a dot and the parenthesis
 of a call without name

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index bcac0a9..372e968 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -684,7 +684,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         //      ｜ 一次式 ［行終端子禁止］ "::" メソッド名 括弧付き実引数 ブロック?
         //      ｜ 一次式 ［行終端子禁止］ "::" 定数以外のメソッド名 ブロック?
         let loc = self.prev_loc;
-        if self.consume_punct_no_term(Punct::LParen)? {
+        if self.consume_punct(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
             let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
-- 
2.43.0


From 341f1359d23bbd174047f8286167bcb0acb289ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 114/137] fix: a line break is allowed before a safe navigation
 operator as before a dot

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 372e968..b593fc3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -590,7 +590,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
-            } else if self.consume_punct_no_term(Punct::SafeNav)? {
+            } else if self.consume_punct(Punct::SafeNav)? {
                 self.parse_primary_method(node, true)?
             } else if self.consume_punct_no_term(Punct::Scope)? {
                 if let TokenKind::Const(_) = self.peek()?.kind {
-- 
2.43.0


From 01ad7653bed84f5aba9b6d0c0b2b8510c15e5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 115/137] fix: option variables are global variables, other
 punctuation is not

---
 src/parser/lexer.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 52172fa..b06b49e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -455,7 +455,18 @@ impl<'a> Lexer<'a> {
                         '\'' => self.new_special_var(SPECIAL_POSTMATCH),
                         ':' => self.new_special_var(SPECIAL_LOADPATH),
                         '"' => self.new_special_var(SPECIAL_LOADEDFEATURES),
-                        _ => self.new_global_var(format!("${}", ch)),
+                        // command line options ($-w, ..)
+                        '-' => match self.peek() {
+                            Some(ch) if ch.is_ascii_alphanumeric() || ch == '_' || !ch.is_ascii() => {
+                                self.get()?;
+                                self.new_global_var(self.current_slice())
+                            }
+                            _ => return Err(self.error_unexpected(self.pos)),
+                        },
+                        ch if "~*$?!@/\\;,.=<>`+".contains(ch) => {
+                            self.new_global_var(format!("${}", ch))
+                        }
+                        _ => return Err(self.error_unexpected(self.pos - 1)),
                     }
                 }
                 _ => self.read_identifier(None, VarKind::GlobalVar)?,
@@ -868,6 +879,10 @@ impl<'a> Lexer<'a> {
                     is_ident_start(Some(ch))
                         || ch.is_ascii_digit()
                         || "~*$?!@/\\;,.=:<>\"&`'+".contains(ch)
+                        || ch == '-' && {
+                            let ch = iter.next();
+                            is_ident_start(ch) || matches!(ch, Some(ch) if ch.is_ascii_digit())
+                        }
                 }
                 None => false,
             },
-- 
2.43.0


From e9116beca53ac66a53126a2707506e6f0abe0884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 116/137] fix: a symbol can be the name of a global variable

---
 src/parser/lexer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index b06b49e..8d451d5 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -653,6 +653,11 @@ impl<'a> Lexer<'a> {
                     self.cur_loc(),
                 )))
             }
+            '$' => {
+                self.get()?;
+                self.read_global_var()?;
+                Ok(Some((self.current_slice().to_string(), self.cur_loc())))
+            }
             '\"' | '\'' => Ok(None),
             _ => self.read_method_name(true).map(Some),
         }
-- 
2.43.0


From 96d0f8a5a2b66877e523110a37644947a1fddfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 117/137] fix: an alias can name a special variable, and does
 not mix variables and methods

---
 src/parser/define.rs     | 18 ++++++++++++++++++
 src/parser/expression.rs |  6 ++++--
 src/parser/lexer.rs      |  4 ++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 5d201f2..b42f8de 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -170,6 +170,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(Node::new_singleton_class_decl(singleton, body, lvar, loc))
     }
 
+    /// Examine whether the next token is a global variable.
+    pub(super) fn peek_gvar(&mut self) -> bool {
+        matches!(
+            self.peek(),
+            Ok(tok) if matches!(tok.kind, TokenKind::GlobalVar(_) | TokenKind::SpecialVar(_))
+        )
+    }
+
     pub(crate) fn alias_name(&mut self) -> Result<Node, LexerErr> {
         // The name can be in the next line.
         match self.peek().map(|tok| tok.kind) {
@@ -181,6 +189,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let loc = self.get()?.loc;
                 Ok(Node::new_symbol(name, loc))
             }
+            Ok(TokenKind::SpecialVar(id)) => {
+                let loc = self.get()?.loc;
+                if id >= 100 {
+                    return Err(error_unexpected(
+                        loc,
+                        "Can't make alias for the number variables.",
+                    ));
+                }
+                Ok(Node::new_symbol(self.lexer.slice(loc).to_string(), loc))
+            }
             _ => {
                 let (name, loc) = self.read_method_name(true)?;
                 Ok(Node::new_symbol(name, loc))
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index b593fc3..7747982 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -961,12 +961,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
                 Reserved::Alias => {
-                    let is_gvar =
-                        matches!(self.peek(), Ok(tok) if matches!(tok.kind, TokenKind::GlobalVar(_)));
+                    let is_gvar = self.peek_gvar();
                     let new_name = self.alias_name()?;
                     if is_gvar && self.is_line_term()? {
                         return Err(self.error_next("Expected a global variable."));
                     }
+                    if is_gvar != self.peek_gvar() {
+                        return Err(self.error_next("Unexpected name of alias."));
+                    }
                     let old_name = self.alias_name()?;
                     let loc = loc.merge(old_name.loc());
                     Ok(Node::new_alias(new_name, old_name, loc))
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 8d451d5..1eab2e9 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -115,6 +115,10 @@ impl<'a> Lexer<'a> {
         &self.code[self.token_start_pos..self.pos]
     }
 
+    pub(crate) fn slice(&self, loc: Loc) -> &str {
+        &self.code[loc.0..=loc.1]
+    }
+
     pub(crate) fn get_line(&self, pos: usize) -> usize {
         self.code[0..=pos].chars().filter(|ch| *ch == '\n').count() + 1
     }
-- 
2.43.0


From c07e6c311f41266a821217a4e9c9ba69e56af9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 118/137] fix: the variables of the last match can not be
 assigned

---
 src/parser/expression.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7747982..dfb9ff3 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1230,6 +1230,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if let NodeKind::Splat(lhs) = lhs.kind {
             return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));
         }
+        // The variables of the last match can not be set.
+        match &lhs.kind {
+            NodeKind::SpecialVar(id)
+                if *id != SPECIAL_LOADPATH && *id != SPECIAL_LOADEDFEATURES =>
+            {
+                return Err(error_unexpected(loc, "Can't set variable."))
+            }
+            NodeKind::GlobalVar(name) if name == "$`" || name == "$+" => {
+                return Err(error_unexpected(loc, "Can't set variable."))
+            }
+            _ => {}
+        }
         match &lhs.kind {
             NodeKind::LocalVar(..)
             | NodeKind::InstanceVar(_)
-- 
2.43.0


From 67bd3c7034ed0d938a55d4bd5bd33d566fcee13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 119/137] fix: only a block can have a trailing comma behind
 its parameters

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c343c69..5a9a35b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -624,6 +624,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         loop {
             if let Some(term) = terminator {
                 if self.consume_punct(term)? {
+                    // Only a block can have a trailing comma. cf. |a,|
+                    if !args.is_empty() && (term != Punct::BitOr || state != Kind::Required) {
+                        return Err(error_unexpected(self.prev_loc(), "Expect parameter."));
+                    }
                     return Ok(args);
                 }
             }
-- 
2.43.0


From 9b5f64bc2afebb39ab0a2bdf1eb24768aefe2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 120/137] fix: parameters and variables of for are named like
 local variables

---
 src/parser.rs              | 31 +++++++++++++++++++++++++++----
 src/parser/flow_control.rs |  2 +-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5a9a35b..9f150eb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -658,7 +658,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             } else if self.consume_punct(Punct::BitAnd)? {
                 // Block param
-                let name = self.expect_ident()?;
+                let name = self.expect_local_name()?;
                 loc = loc.merge(self.prev_loc());
                 args.push(FormalParam::block(name.clone(), loc));
                 self.new_block_param(name, loc)?;
@@ -677,6 +677,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 match self.consume_ident()? {
                     Some(name) => {
                         loc = loc.merge(self.prev_loc());
+                        self.check_local_name(&name)?;
                         args.push(FormalParam::rest(name.clone(), loc));
                         self.new_param(name, self.prev_loc())?;
                     }
@@ -684,7 +685,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
             } else if self.consume_punct(Punct::DMul)? {
                 // Keyword rest param
-                let name = self.expect_ident()?;
+                let name = self.expect_local_name()?;
                 loc = loc.merge(self.prev_loc());
                 if state >= Kind::KWRest {
                     return Err(error_unexpected(
@@ -699,6 +700,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 self.new_kwrest_param(name, self.prev_loc())?;
             } else {
                 let name = self.expect_ident()?;
+                // nil and the like can be the name of a keyword.
+                if self.peek_no_term()?.kind != TokenKind::Punct(Punct::Colon)
+                    || name.ends_with(&['!', '?'][..])
+                {
+                    self.check_local_name(&name)?;
+                }
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
                     // The parameter itself is visible in its default expression.
@@ -781,8 +788,24 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(args)
     }
 
-    fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
+    /// Expect the name of a parameter or a variable of `for`.
+    fn expect_local_name(&mut self) -> Result<String, LexerErr> {
         let name = self.expect_ident()?;
+        self.check_local_name(&name)?;
+        Ok(name)
+    }
+
+    fn check_local_name(&self, name: &str) -> Result<(), LexerErr> {
+        match name {
+            "self" | "nil" | "true" | "false" | "__LINE__" | "__FILE__" => {}
+            name if name.ends_with(&['!', '?'][..]) => {}
+            _ => return Ok(()),
+        }
+        Err(error_unexpected(self.prev_loc(), "Expect local variable."))
+    }
+
+    fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
+        let name = self.expect_local_name()?;
         let loc = self.prev_loc();
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
@@ -790,7 +813,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RParen)? {
                 return Ok(FormalParam::destruct_param(idents));
             }
-            let name = self.expect_ident()?;
+            let name = self.expect_local_name()?;
             let loc = self.prev_loc();
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 944724d..e55f6bf 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -83,7 +83,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             None
         };
         loop {
-            let name = self.expect_ident()?;
+            let name = self.expect_local_name()?;
             let outer = self.add_local_var_if_new(&name);
             vars.push((outer, name));
             if let Some(term) = terminator {
-- 
2.43.0


From 07890f2cbdeefe6e162a44c4516eecff122fc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 121/137] fix: a case has at least one when

---
 src/parser/flow_control.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index e55f6bf..80a9f18 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -149,11 +149,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         self.consume_term()?;
         let mut when_ = vec![];
-        while self.consume_reserved(Reserved::When)? {
+        self.expect_reserved(Reserved::When)?;
+        loop {
             let arg = self.parse_mul_assign_rhs(None)?;
             self.parse_then()?;
             let body = self.parse_comp_stmt()?;
             when_.push(CaseBranch::new(arg, body));
+            if !self.consume_reserved(Reserved::When)? {
+                break;
+            }
         }
         let else_ = if self.consume_reserved(Reserved::Else)? {
             self.parse_comp_stmt()?
-- 
2.43.0


From 0ec2bba6c2494e1576d012c8b3f0b81f8ff10771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 122/137] fix: the name of a singleton method can not be that
 of a numbered parameter

---
 src/parser/define.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index b42f8de..4fcd1c9 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -20,7 +20,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 (
                     Some(Node::new_global_var(name, loc)),
-                    self.read_method_name(true)?.0,
+                    self.read_singleton_name()?,
                 )
             }
             TokenKind::InstanceVar(name) => {
@@ -29,7 +29,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 (
                     Some(Node::new_instance_var(name, loc)),
-                    self.read_method_name(true)?.0,
+                    self.read_singleton_name()?,
                 )
             }
             TokenKind::Reserved(r) => (None, self.read_method_ext(r.to_str().to_string())?),
@@ -45,7 +45,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             None => Node::new_identifier(s, loc),
                         },
                     };
-                    (Some(singleton), self.read_method_name(true)?.0)
+                    (Some(singleton), self.read_singleton_name()?)
                 } else {
                     (None, self.read_method_ext(s)?)
                 }
@@ -55,7 +55,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 if self.consume_singleton_dot()? {
                     (
                         Some(Node::new_const(s, false, None, vec![], loc)),
-                        self.read_method_name(true)?.0,
+                        self.read_singleton_name()?,
                     )
                 } else {
                     (None, self.read_method_ext(s)?)
@@ -86,6 +86,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(self.consume_punct_no_term(Punct::Dot)? || self.consume_punct_no_term(Punct::Scope)?)
     }
 
+    /// Read the name of a singleton method.
+    fn read_singleton_name(&mut self) -> Result<String, LexerErr> {
+        let (name, loc) = self.read_method_name(true)?;
+        match name.as_bytes() {
+            [b'_', i @ b'1'..=b'9'] => Err(error_numbered_param(loc, i - b'0')),
+            _ => Ok(name),
+        }
+    }
+
     /// Parse class definition.
     pub(super) fn parse_class(&mut self, is_module: bool) -> Result<Node, LexerErr> {
         // クラス定義 : "class" クラスパス [行終端子禁止] ("<" 式)? 分離子 本体文 "end"
-- 
2.43.0


From 6bfd129b7b1e47f8225235f8a70cc66ab5ef25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 123/137] fix: _0 is an ordinary name

---
 src/parser/expression.rs | 2 +-
 src/parser/lexer.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index dfb9ff3..dc3570a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1206,7 +1206,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let mut iter = name.chars();
                 iter.next();
                 if let Some(ch1) = iter.next() {
-                    if ch1.is_ascii_digit() && iter.next().is_none() {
+                    if matches!(ch1, '1'..='9') && iter.next().is_none() {
                         // lhs is numbered parameter literal
                         return Err(error_numbered_param(
                             lhs.loc,
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 1eab2e9..c50bb9e 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -519,7 +519,7 @@ impl<'a> Lexer<'a> {
             let mut iter = tok.chars();
             iter.next();
             if let Some(ch1) = iter.next() {
-                if ch1.is_ascii_digit() && iter.next().is_none() {
+                if matches!(ch1, '1'..='9') && iter.next().is_none() {
                     return Ok(self.new_numbered_param(ch1));
                 }
             }
-- 
2.43.0


From 57c39a0f25fbc40538e0f4269123caca08778982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 124/137] fix: a regular expression can have the options e and
 s

---
 src/parser/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index c50bb9e..4fb128d 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1088,6 +1088,8 @@ impl<'a> Lexer<'a> {
                 // Encoding+ utf-8
             } else if self.consume('n') {
                 // Encoding+ ASCII-8bit
+            } else if self.consume('e') || self.consume('s') {
+                // Encoding+ EUC-JP, Windows-31J
             } else {
                 break;
             };
-- 
2.43.0


From ade5efa826c4ab23ec5aebae163f1c6febd5c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 125/137] fix: prefixes of numbers can be capitals, and 0d is
 one

---
 src/parser/lexer.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4fb128d..ed06f94 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -684,12 +684,14 @@ impl<'a> Lexer<'a> {
     /// Read number literal.
     fn read_number_literal(&mut self, ch: char) -> Result<Token, LexerErr> {
         if ch == '0' {
-            if self.consume('x') {
+            if self.consume('x') || self.consume('X') {
                 return self.read_hex_number();
-            } else if self.consume('o') {
+            } else if self.consume('o') || self.consume('O') {
                 return self.read_octal_number();
-            } else if self.consume('b') {
+            } else if self.consume('b') || self.consume('B') {
                 return self.read_bin_number();
+            } else if self.consume('d') || self.consume('D') {
+                return self.read_decimal_number();
             } else if self.peek_digit() || self.peek() == Some('_') {
                 // e.g. 0755
                 self.consume('_');
@@ -814,6 +816,17 @@ impl<'a> Lexer<'a> {
         self.new_radix_number(start_pos, 2)
     }
 
+    /// Read decimal number with the prefix 0d.
+    fn read_decimal_number(&mut self) -> Result<Token, LexerErr> {
+        let start_pos = self.pos;
+        match self.consume_numeric() {
+            Some(_) => {}
+            None => return Err(self.error_unexpected(self.pos)),
+        };
+        while self.consume_numeric().is_some() || self.consume('_') {}
+        self.new_radix_number(start_pos, 10)
+    }
+
     /// Check that every '_' in the number which starts at `start_pos` is followed by a digit.
     fn check_digit_separators(&self, start_pos: usize, radix: u32) -> Result<(), LexerErr> {
         let mut parts = self.code[start_pos..self.pos].split('_').skip(1);
-- 
2.43.0


From be9bfe50d3d7f22db7630a0f5f9460a08c9fda1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 126/137] fix: **= is an operator assignment

---
 src/parser/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index ed06f94..4d5b050 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -290,6 +290,9 @@ impl<'a> Lexer<'a> {
                         if self.consume('=') {
                             return Ok(self.new_punct(Punct::AssignOp(BinOp::Mul)));
                         } else if self.consume('*') {
+                            if self.consume('=') {
+                                return Ok(self.new_punct(Punct::AssignOp(BinOp::Exp)));
+                            }
                             return Ok(self.new_punct(Punct::DMul));
                         } else {
                             return Ok(self.new_punct(Punct::Mul));
-- 
2.43.0


From f05db412397f58dd24ad60e93f72978198a62c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:44 +0000
Subject: [PATCH 127/137] fix: an else without a rescue is a syntax error

---
 src/parser/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index dc3570a..984e4d7 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1150,6 +1150,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             rescue.push(RescueEntry::new(exception, assign, rescue_body));
         }
         let else_ = if self.consume_reserved(Reserved::Else)? {
+            if rescue.is_empty() {
+                return Err(error_unexpected(
+                    self.prev_loc(),
+                    "else without rescue is useless.",
+                ));
+            }
             Some(self.parse_comp_stmt()?)
         } else {
             None
-- 
2.43.0


From 10f6803d3f5518b8066f46e68c4180ec603c2e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:48 +0000
Subject: [PATCH 128/137] fix: a required keyword can end a parameter list
 without parentheses

---
 src/parser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9f150eb..1cb6149 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -732,7 +732,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let lvar = self.new_param(name.clone(), self.prev_loc().merge(loc))?;
                     let next = self.peek_no_term()?.kind;
                     let default =
-                        if next == TokenKind::Punct(Punct::Comma) || next == TokenKind::LineTerm {
+                        if matches!(
+                            next,
+                            TokenKind::LineTerm | TokenKind::Punct(Punct::Comma | Punct::Semi)
+                        ) {
                             None
                         } else if let Some(term) = terminator {
                             if next == TokenKind::Punct(term) {
@@ -742,6 +745,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             } else {
                                 Some(self.parse_arg()?)
                             }
+                        } else if self.scope.last().unwrap().kind == ScopeKind::Block
+                            && matches!(
+                                next,
+                                TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do)
+                            )
+                        {
+                            // the body of a lambda, cf. -> a: { }
+                            None
                         } else {
                             Some(self.parse_arg()?)
                         };
-- 
2.43.0


From 0f53ece5a67bcb352de12b32cd17f27dc7422648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 129/137] fix: the do body of a lambda literal can have rescue
 and ensure

---
 src/parser/literals.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 8630d32..ff87de7 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -365,9 +365,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.expect_punct(Punct::RBrace)?;
             body
         } else if self.consume_reserved(Reserved::Do)? {
-            let body = self.parse_comp_stmt()?;
-            self.expect_reserved(Reserved::End)?;
-            body
+            self.parse_begin()?
         } else {
             let loc = self.loc();
             let tok = self.get()?;
-- 
2.43.0


From bf8d766feb96c66d443f49e9dff51897edac8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 130/137] fix: = can be the first character of a regular
 expression and a delimiter of a percent literal

---
 src/parser/expression.rs | 9 +++++++++
 src/parser/lexer.rs      | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 984e4d7..21ddce2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -880,6 +880,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 }
                 Punct::Div => self.parse_regexp(),
                 Punct::Rem => self.parse_percent_notation(),
+                // '=' is the first character or the delimiter of a literal. cf. /=a/ and %=a=
+                Punct::AssignOp(BinOp::Div) => {
+                    self.lexer.unread_equal();
+                    self.parse_regexp()
+                }
+                Punct::AssignOp(BinOp::Rem) => {
+                    self.lexer.unread_equal();
+                    self.parse_percent_notation()
+                }
                 Punct::Question => self.parse_char_literal(),
                 Punct::Shl => self.parse_heredocument(),
                 Punct::Mul => {
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4d5b050..901d140 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -204,6 +204,11 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Put back the '=' at the end of the last token.
+    pub(crate) fn unread_equal(&mut self) {
+        self.pos -= 1;
+    }
+
     /// Get token as a regular expression.
     ///
     /// `char_class` is the nest level of character classes, which can contain interpolations.
-- 
2.43.0


From c053757f0164e327f3c4e3e443711da27622eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 131/137] fix: a reserved word can be the first label of a
 command

---
 src/parser/expression.rs | 3 +++
 src/parser/lexer.rs      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 21ddce2..69b9378 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -762,6 +762,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         match tok.kind {
                             // Multiple assignment
                             TokenKind::Punct(Punct::Comma) => return Ok(node),
+                            TokenKind::Reserved(Reserved::Do) if self.lexer.is_label(&tok) => {}
                             // Method call with block and no args
                             TokenKind::Punct(Punct::LBrace) | TokenKind::Reserved(Reserved::Do) => {
                                 return self.parse_function_args(node)
@@ -1344,6 +1345,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     | Punct::Shl => !self.lexer.has_trailing_space(&tok),
                     _ => false,
                 },
+                // cf. foo if: 1
+                TokenKind::Reserved(_) if self.lexer.is_label(&tok) => true,
                 TokenKind::Reserved(r) => !matches!(
                     r,
                     Reserved::Do
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 901d140..0a94b45 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -191,6 +191,14 @@ impl<'a> Lexer<'a> {
         self.peek() == Some(':') && self.peek2() != Some(':')
     }
 
+    /// Examine if the token is directly followed by ':' which is not a part of '::'.
+    pub(crate) fn is_label(&self, tok: &Token) -> bool {
+        match self.code.get(tok.loc.1 + 1..) {
+            Some(s) => s.starts_with(':') && !s.starts_with("::"),
+            None => false,
+        }
+    }
+
     /// Examine if the next char of the token is space.
     pub(crate) fn has_trailing_space(&self, tok: &Token) -> bool {
         match self
-- 
2.43.0


From cc40a6232753873b0bd19fca793e5eeed8f49d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 132/137] fix: a character literal can be the first argument of
 a command

---
 src/parser/expression.rs |  1 +
 src/parser/lexer.rs      | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 69b9378..ebce7c2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1343,6 +1343,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     | Punct::BitAnd
                     | Punct::Rem
                     | Punct::Shl => !self.lexer.has_trailing_space(&tok),
+                    Punct::Question => self.lexer.is_char_literal(&tok),
                     _ => false,
                 },
                 // cf. foo if: 1
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0a94b45..e541b47 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -199,6 +199,22 @@ impl<'a> Lexer<'a> {
         }
     }
 
+    /// Examine if the token '?' begins a character literal as the first argument of a command.
+    /// cf. `p ?a` and `p ?abc : d`
+    pub(crate) fn is_char_literal(&self, tok: &Token) -> bool {
+        let is_ident = |c: char| c.is_ascii_alphanumeric() || c == '_' || !c.is_ascii();
+        let mut chars = match self.code.get(tok.loc.1 + 1..) {
+            Some(s) => s.chars(),
+            None => return false,
+        };
+        match chars.next() {
+            Some(c) if c.is_ascii_whitespace() || c == '\x0b' => false,
+            Some(c) if c.is_ascii_alphanumeric() || c == '_' => !chars.next().map_or(false, is_ident),
+            Some(_) => true,
+            None => false,
+        }
+    }
+
     /// Examine if the next char of the token is space.
     pub(crate) fn has_trailing_space(&self, tok: &Token) -> bool {
         match self
-- 
2.43.0


From cbf75b10f5bcd3da1edb86f533fda86b2f92a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 133/137] fix: defined? can be the operand of an operator

---
 src/parser/expression.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ebce7c2..e09d494 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -955,7 +955,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Reserved::Redo => self.parse_redo(),
                 Reserved::Begin => self.parse_begin(),
                 Reserved::Defined => {
-                    if self.consume_punct_no_term(Punct::LParen)? {
+                    if !self.lexer.has_trailing_space(&tok)
+                        && self.consume_punct_no_term(Punct::LParen)?
+                    {
                         self.defined_mode = true;
                         // A do-block in parentheses belongs to the call in there.
                         let old = std::mem::replace(&mut self.suppress_do_block, false);
@@ -966,8 +968,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         self.expect_punct(Punct::RParen)?;
                         Ok(Node::new_defined(node))
                     } else {
-                        let tok = self.get()?;
-                        Err(error_unexpected(tok.loc, "expected '('.".to_string()))
+                        // cf. !defined? a
+                        self.defined_mode = true;
+                        let node = self.parse_arg();
+                        self.defined_mode = false;
+                        Ok(Node::new_defined(node?))
                     }
                 }
                 Reserved::Alias => {
-- 
2.43.0


From d77520b469a23d8da3066fe5794521606f98734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:02 +0000
Subject: [PATCH 134/137] fix: a backslash and CRLF continue the line

---
 src/parser/lexer.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e541b47..a3d1757 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -167,7 +167,7 @@ impl<'a> Lexer<'a> {
     pub(crate) fn trailing_space(&self) -> bool {
         match self.peek() {
             // continuation line
-            Some('\\') => self.peek2() == Some('\n'),
+            Some('\\') => self.is_cont_line(),
             Some(ch) => ch.is_ascii_whitespace(),
             _ => false,
         }
@@ -1478,14 +1478,22 @@ impl<'a> Lexer<'a> {
         }
     }
 
-    /// Consume continue line. ("\\n")
+    /// Consume continue line. ("\\n" or "\\r\n")
     /// Return true if consumed.
     fn consume_cont_line(&mut self) -> bool {
-        if self.peek2() == Some('\n') && self.peek() == Some('\\') {
-            self.pos += 1;
-            self.consume_newline()
-        } else {
-            false
+        if !self.is_cont_line() {
+            return false;
+        }
+        self.pos += 1;
+        self.consume('\r');
+        self.consume_newline()
+    }
+
+    /// Examine if a backslash and a newline are next.
+    fn is_cont_line(&self) -> bool {
+        match self.code.get(self.pos..) {
+            Some(s) => s.starts_with("\\\n") || s.starts_with("\\\r\n"),
+            None => false,
         }
     }
 
-- 
2.43.0


From d6aed348ffa5bf83b2f6c71f3462fc2ce0a138ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 135/137] fix: CRLF is a newline in literals and here-documents

---
 src/parser/lexer.rs    | 10 +++++++++-
 src/parser/literals.rs |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index a3d1757..6a0be40 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1381,6 +1381,7 @@ impl<'a> Lexer<'a> {
             let end = self.pos;
             let next = self.get();
             let line = &self.code[start..end];
+            let line = line.strip_suffix('\r').unwrap_or(line);
             if term_mode == TermMode::AllowIndent || term_mode == TermMode::Squiggly {
                 // Only ASCII white spaces can indent the terminator.
                 let line = line.trim_start_matches(|c| matches!(c, ' ' | '\t'..='\r'));
@@ -1425,8 +1426,13 @@ impl<'a> Lexer<'a> {
 
     /// Get one char and move to the next.
     /// Returns Ok(char) or ParseErr if the cursor reached EOF.
+    /// "\r\n" is a newline.
     fn get(&mut self) -> Result<char, LexerErr> {
         match self.peek() {
+            Some('\r') if self.peek2() == Some('\n') => {
+                self.pos += 2;
+                Ok('\n')
+            }
             Some(ch) => {
                 self.pos += ch.len_utf8();
                 Ok(ch)
@@ -1463,6 +1469,9 @@ impl<'a> Lexer<'a> {
     }
 
     fn consume_newline(&mut self) -> bool {
+        if self.peek() == Some('\r') && self.peek2() == Some('\n') {
+            self.pos += 1;
+        }
         if self.consume('\n') {
             self.skip_heredocument();
             true
@@ -1485,7 +1494,6 @@ impl<'a> Lexer<'a> {
             return false;
         }
         self.pos += 1;
-        self.consume('\r');
         self.consume_newline()
     }
 
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index ff87de7..9e7bcf0 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -160,7 +160,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 Node::new_command(Node::new_string(String::new().into(), loc))
             }
             ParseMode::Single => {
-                Node::new_string(self.lexer.code[start..end].to_string().into(), loc)
+                Node::new_string(self.lexer.code[start..end].replace("\r\n", "\n").into(), loc)
             }
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
-- 
2.43.0


From 675362545e9f93e02af2ef878500ba3bf66ea399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 136/137] fix: no trailing comma after a splat among assignment
 targets

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index e09d494..6995ce7 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -131,7 +131,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let old = self.suppress_acc_assign;
         self.suppress_acc_assign = true;
         loop {
-            if self.peek_punct_no_term(Punct::Assign) {
+            if !splat_flag && self.peek_punct_no_term(Punct::Assign) {
                 for n in &mlhs {
                     loc.merge(n.loc());
                 }
-- 
2.43.0


From c7994f45eef675a0f3c86be31ce2131ee8424fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 137/137] fix: positional arguments after keyword arguments are
 rejected

---
 src/parser/expression.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 6995ce7..e4f760b 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1039,6 +1039,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         arglist
     }
 
+    /// Positional arguments can not follow keyword arguments.
+    fn check_positional(arglist: &ArgList, loc: Loc) -> Result<(), LexerErr> {
+        if arglist.kw_args.is_empty() && arglist.hash_splat.is_empty() {
+            Ok(())
+        } else {
+            Err(error_unexpected(
+                loc,
+                "Positional argument after keyword arguments.",
+            ))
+        }
+    }
+
     fn parse_arglist_elements(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         loop {
@@ -1055,6 +1067,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct(Punct::Mul)? {
                 // splat argument
                 let loc = self.prev_loc();
+                Self::check_positional(&arglist, loc)?;
                 let array = self.parse_arg()?;
                 arglist.splat = true;
                 arglist.args.push(Node::new_splat(array, loc));
@@ -1105,6 +1118,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(arglist);
                 }
                 // positional args
+                Self::check_positional(&arglist, loc)?;
                 arglist.args.push(node);
             }
             if !self.consume_separator(Punct::Comma, punct)? {
-- 
2.43.0

