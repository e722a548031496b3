From d109cdd49d3fc3c67c07da75c717c0e7594c89cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 01/42] fix: restore the lexer position when looking ahead
 fails

A failing peek_token()/peek_token_skip_lt() left the cursor behind the
offending token, so a caller that tolerates the error silently skipped
source text (`a "abc` was accepted as `a`).
---
 src/parser/lexer.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f708b18..4a857c8 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -127,8 +127,9 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let tok = self.read_token()?;
+        let res = self.read_token();
         self.restore_state(save);
+        let tok = res?;
         self.buf = Some(tok.clone());
         Ok(tok)
     }
@@ -138,14 +139,16 @@ impl<'a> Lexer<'a> {
             return Ok(tok.clone());
         };
         let save = self.save_state();
-        let mut tok;
+        let mut res;
         loop {
-            tok = self.read_token()?;
-            if tok.is_eof() || !tok.is_line_term() {
-                break;
+            res = self.read_token();
+            match &res {
+                Ok(tok) if !tok.is_eof() && tok.is_line_term() => {}
+                _ => break,
             }
         }
         self.restore_state(save);
+        let tok = res?;
         self.buf_skip_lt = Some(tok.clone());
         Ok(tok)
     }
-- 
2.43.0


From 0ae9e8580d8427daa4869cf5c62beec5c7657003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 02/42] fix: drop looked-ahead tokens when the parser
 backtracks

restore_state() kept tokens peeked at the abandoned position, so e.g.
`{a -1 => 2}` was parsed as `{-(-1) => 2}`.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 45dfc29..31596eb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -112,6 +112,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn restore_state(&mut self, state: (usize, usize)) {
         self.lexer.restore_state(state);
+        // tokens peeked at the abandoned position are no longer valid.
+        self.lexer.flush();
     }
 
     fn scope_mut(&mut self) -> &mut LvarScope {
-- 
2.43.0


From f192f686e1339ac1c69347ce5ed915a8e59b3f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 03/42] fix: report lexer errors found while fetching the next
 token's location

Parser::loc() unwrapped the look-ahead, so an unterminated literal at such
a place (e.g. `def f a, "abc`) panicked instead of returning an error.
---
 src/parser.rs              | 12 ++++++------
 src/parser/expression.rs   |  8 ++++----
 src/parser/flow_control.rs |  6 +++---
 src/parser/literals.rs     |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 31596eb..deb5e96 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -275,8 +275,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(self.peek_no_term()?.is_line_term())
     }
 
-    fn loc(&mut self) -> Loc {
-        self.peek_no_term().unwrap().loc()
+    fn loc(&mut self) -> Result<Loc, LexerErr> {
+        Ok(self.peek_no_term()?.loc())
     }
 
     fn prev_loc(&self) -> Loc {
@@ -532,7 +532,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         Ok("[]")
                     }
                 } else {
-                    let loc = self.loc();
+                    let loc = self.loc()?;
                     Err(error_unexpected(loc, "Invalid operator."))
                 }
             }
@@ -583,7 +583,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     return Ok(args);
                 }
             }
-            let mut loc = self.loc();
+            let mut loc = self.loc()?;
             if self.consume_punct(Punct::LParen)? {
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
@@ -728,7 +728,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
-        let loc = self.loc();
+        let loc = self.loc()?;
         let name = self.expect_ident()?;
         self.new_param(name.clone(), loc)?;
         let mut idents = vec![(name, loc)];
@@ -736,7 +736,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RParen)? {
                 return Ok(FormalParam::destruct_param(idents));
             }
-            let loc = self.loc();
+            let loc = self.loc()?;
             let name = self.expect_ident()?;
             self.new_param(name.clone(), loc)?;
             idents.push((name, loc));
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 496d987..2dfe38f 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -4,7 +4,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
         // COMP_STMT : (STMT (TERM STMT)*)? (TERM+)?
         self.peek()?;
-        let loc = self.loc();
+        let loc = self.loc()?;
         let mut nodes = vec![];
 
         loop {
@@ -147,7 +147,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         }
         self.suppress_acc_assign = old;
         if !self.consume_punct_no_term(Punct::Assign)? {
-            let loc = self.loc();
+            let loc = self.loc()?;
             return Err(error_unexpected(loc, "Expected '='."));
         }
 
@@ -244,7 +244,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::Question)? {
             let then_ = self.parse_arg()?;
             if !self.consume_punct_no_term(Punct::Colon)? {
-                let loc = self.loc();
+                let loc = self.loc()?;
                 return Err(error_unexpected(loc, "Expect ':'."));
             };
             let else_ = self.parse_arg()?;
@@ -800,7 +800,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         let lhs = self.check_lhs(first_lhs)?;
                         Ok(Node::new_mul_assign(vec![lhs], mrhs))
                     } else {
-                        let loc = self.loc();
+                        let loc = self.loc()?;
                         return Err(error_unexpected(loc, "Expected '=' or ','."));
                     }
                 }
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index dc5ab3b..1a4113e 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -27,7 +27,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_reserved(Reserved::Else)? {
             self.parse_comp_stmt()?
         } else {
-            Node::new_comp_stmt(vec![], self.loc())
+            Node::new_comp_stmt(vec![], self.loc()?)
         };
         Ok(Node::new_if(cond, then_, else_, loc))
     }
@@ -44,7 +44,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let else_ = if self.consume_reserved(Reserved::Else)? {
             self.parse_comp_stmt()?
         } else {
-            Node::new_comp_stmt(vec![], self.loc())
+            Node::new_comp_stmt(vec![], self.loc()?)
         };
         self.expect_reserved(Reserved::End)?;
         Ok(Node::new_if(cond, else_, then_, loc))
@@ -152,7 +152,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let else_ = if self.consume_reserved(Reserved::Else)? {
             self.parse_comp_stmt()?
         } else {
-            Node::new_comp_stmt(vec![], self.loc())
+            Node::new_comp_stmt(vec![], self.loc()?)
         };
         self.expect_reserved(Reserved::End)?;
         self.suppress_mul_assign = old;
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 25531d0..9a39c99 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -4,7 +4,7 @@ use super::*;
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse char literals.
     pub(super) fn parse_char_literal(&mut self) -> Result<Node, LexerErr> {
-        let loc = self.loc();
+        let loc = self.loc()?;
         let mut s = RubyString::new();
         self.lexer.read_char_literal(&mut s)?;
         Ok(Node::new_string(s, loc.merge(self.prev_loc)))
@@ -181,7 +181,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             if self.consume_punct(Punct::RBrace)? {
                 return Ok(Node::new_hash(kvp, loc.merge(self.prev_loc())));
             };
-            let ident_loc = self.loc();
+            let ident_loc = self.loc()?;
             let mut symbol_flag = false;
             let key = match self.peek()?.can_be_symbol() {
                 Some(id) => {
@@ -304,7 +304,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             self.expect_reserved(Reserved::End)?;
             body
         } else {
-            let loc = self.loc();
+            let loc = self.loc()?;
             let tok = self.get()?;
             return Err(error_unexpected(
                 loc,
-- 
2.43.0


From 56311919edc802497f86d80c06b0c706dac37361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 04/42] fix: do not tokenize the character of a character
 literal

`?"` tried to read a string literal starting at the quote and failed;
any character may follow `?`.
---
 src/parser/lexer.rs    | 7 ++++---
 src/parser/literals.rs | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4a857c8..e46d737 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -935,15 +935,16 @@ impl<'a> Lexer<'a> {
     }
 
     /// Read char literal.
-    pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<(), LexerErr> {
-        let c = self.get()?;
+    /// Return the location from the preceding '?' to the end of the literal.
+    pub(crate) fn read_char_literal(&mut self, buf: &mut RubyString) -> Result<Loc, LexerErr> {
         self.flush();
+        let c = self.get()?;
         if c == '\\' {
             self.read_escaped_char(buf)?;
         } else {
             buf.push_char(c);
         };
-        Ok(())
+        Ok(self.cur_loc())
     }
 
     /// Convert postfix of regular expression.
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 9a39c99..91bcbcd 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -4,9 +4,8 @@ use super::*;
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Parse char literals.
     pub(super) fn parse_char_literal(&mut self) -> Result<Node, LexerErr> {
-        let loc = self.loc()?;
         let mut s = RubyString::new();
-        self.lexer.read_char_literal(&mut s)?;
+        let loc = self.lexer.read_char_literal(&mut s)?;
         Ok(Node::new_string(s, loc.merge(self.prev_loc)))
     }
 
-- 
2.43.0


From ec9a7bc3c27246d9c01db3f1eb6bc286292338d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 05/42] fix: an unexpected end of input is an error, not a
 panic

error_unexpected() unwrapped the char at the error position; at the end of
the source (`1e`, `:`, `<<-`) there is none.
---
 src/parser/lexer.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e46d737..dbc60cb 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -83,13 +83,13 @@ impl<'a> Lexer<'a> {
 
     fn error_unexpected(&self, pos: usize) -> LexerErr {
         let loc = Loc(pos, pos);
-        LexerErr(
-            ParseErrKind::SyntaxError(format!(
-                "Unexpected char. {:?}",
-                self.code[pos..].chars().next().unwrap()
-            )),
-            loc,
-        )
+        match self.code[pos..].chars().next() {
+            Some(ch) => LexerErr(
+                ParseErrKind::SyntaxError(format!("Unexpected char. {:?}", ch)),
+                loc,
+            ),
+            None => Self::error_eof(pos),
+        }
     }
 
     fn error_eof(pos: usize) -> LexerErr {
-- 
2.43.0


From e3cc4ca0178d20443cf008173c56f85c4f217f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 06/42] fix: octal and binary literals beyond 64 bits

The value was accumulated in a u64 and cast to i64: large literals panicked
in debug builds and wrapped in release builds. Use BigInt like the hex path.
---
 src/parser/lexer.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index dbc60cb..d0244ba 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -722,8 +722,9 @@ impl<'a> Lexer<'a> {
 
     /// Read octal number.
     fn read_octal_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='7') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='7') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
@@ -732,19 +733,27 @@ impl<'a> Lexer<'a> {
         self.get()?;
         loop {
             match self.peek() {
-                Some(ch @ '0'..='7') => val = val * 8 + (ch as u64 - '0' as u64),
+                Some('0'..='7') => {}
                 Some('_') => {}
                 _ => break,
             }
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), 8) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid octal number literal.", self.pos)),
+        }
     }
 
     /// Read binary number.
     fn read_bin_number(&mut self) -> Result<Token, LexerErr> {
-        let mut val = match self.peek() {
-            Some(ch @ '0'..='1') => ch as u64 - '0' as u64,
+        let start_pos = self.pos;
+        match self.peek() {
+            Some('0'..='1') => {}
             Some(_) => {
                 return Err(self.error_unexpected(self.pos));
             }
@@ -753,13 +762,20 @@ impl<'a> Lexer<'a> {
         self.get()?;
         loop {
             match self.peek() {
-                Some(ch @ '0'..='1') => val = val * 2 + (ch as u64 - '0' as u64),
+                Some('0'..='1') => {}
                 Some('_') => {}
                 _ => break,
             }
             self.get()?;
         }
-        Ok(self.new_numlit(val as i64))
+        let s = &self.code[start_pos..self.pos];
+        match BigInt::parse_bytes(s.as_bytes(), 2) {
+            Some(b) => match b.to_i64() {
+                Some(i) => Ok(self.new_numlit(i)),
+                None => Ok(self.new_bignumlit(b)),
+            },
+            None => Err(Self::error_parse("Invalid binary number literal.", self.pos)),
+        }
     }
 
     /// Read string literal ("..", %Q{..}, %{..})
-- 
2.43.0


From 7cae5e3ac24d474142e7bfa0a896971182ca552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 07/42] fix: numbered global variables must not overflow

`$99999999999` overflowed the u32 id (panic in debug, another variable in
release builds).
---
 src/parser/lexer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index d0244ba..35fbb68 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -5,6 +5,9 @@ use std::ops::Range;
 #[derive(Debug, Clone, PartialEq)]
 pub(crate) struct LexerErr(pub ParseErrKind, pub Loc);
 
+/// The largest n allowed in $n.
+const MAX_NTH_REF: u32 = 100_000_000;
+
 #[derive(Clone, PartialEq)]
 pub(crate) enum ParseMode {
     Double,
@@ -417,7 +420,13 @@ impl<'a> Lexer<'a> {
             }
             let mut id = ch as u32 - '0' as u32;
             while let Some(ch) = self.consume_numeric() {
-                id = id * 10 + ch as u32 - '0' as u32;
+                id = id * 10 + (ch as u32 - '0' as u32);
+                if id > MAX_NTH_REF {
+                    return Err(Self::error_parse(
+                        "Too big number variable.",
+                        self.token_start_pos,
+                    ));
+                }
             }
             Ok(self.new_special_var(id as u32 + 100))
         } else {
-- 
2.43.0


From b8b317161682ac3e979b77f9ed784325d86649d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 08/42] fix: reject \u{..} without hexadecimal digits

"\u{g}" and an unterminated "\u{" looped for ever, growing the string
without consuming input.
---
 src/parser/lexer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 35fbb68..0e663e1 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -947,6 +947,12 @@ impl<'a> Lexer<'a> {
                 u = u * 16 + h;
                 i += 1;
             }
+            if i == 0 {
+                return Err(Self::error_parse(
+                    "Invalid Unicode escape sequence.",
+                    self.pos,
+                ));
+            }
         };
         if let Some(u) = char::from_u32(u) {
             s.push_char(u);
-- 
2.43.0


From 0e820618fc7bce09f67f8a28fa2f29d176150999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 09/42] fix: interpolation of special and class variables

"#$&", "#$1" and "#@@x" hit an unreachable!() in parse_template().
---
 src/parser/literals.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 91bcbcd..6983e58 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -329,8 +329,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let loc = tok.loc();
             let node = match tok.kind {
                 TokenKind::GlobalVar(name) => Node::new_global_var(name, loc),
+                TokenKind::SpecialVar(id) => Node::new_special_var(id, loc),
                 TokenKind::InstanceVar(name) => Node::new_instance_var(name, loc),
-                _ => unreachable!("{:?}", tok),
+                TokenKind::ClassVar(name) => Node::new_class_var(name, loc),
+                _ => return Err(error_unexpected(loc, "Expect variable or '{' after '#'.")),
             };
             nodes.push(node);
         };
-- 
2.43.0


From ec48ce8da593f6b9c120d5e7d74bd178f6622387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 10/42] fix: a misplaced unary minus is an error, not a panic

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 2dfe38f..83c84a8 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -762,7 +762,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     },
                     TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
-                    _ => unreachable!(),
+                    _ => Err(error_unexpected(loc, "Unexpected '-'.")),
                 },
                 Punct::LParen => {
                     let old = self.suppress_mul_assign;
-- 
2.43.0


From a056d8727ad87b72fc2aef02d7bb8b25c43a427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 11/42] fix: interpolation in a command here document

---
 src/parser/literals.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 6983e58..0ddd178 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -164,7 +164,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let content = Node::new_string(s.into(), loc);
                 Node::new_command(content)
             }
-            TokenKind::OpenString(s, term, level) => {
+            TokenKind::OpenCommand(s, term, level) => {
                 let content = self.parse_interporated_string_literal(s.into(), term, level)?;
                 Node::new_command(content)
             }
-- 
2.43.0


From 5faf2ff48ebd3a0ad5b1da7a951f7719227a3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 12/42] fix: keep the safe navigation flag of every method call
 form

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 83c84a8..7dc63f7 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -618,7 +618,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if self.consume_punct_no_term(Punct::LParen)? {
             let arglist = self.parse_arglist_block(Punct::RParen)?;
             //let loc = receiver.loc().merge(self.loc());
-            let node = Node::new_mcall(receiver, "call".to_string(), arglist, false, loc);
+            let node = Node::new_mcall(receiver, "call".to_string(), arglist, safe_nav, loc);
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
@@ -630,7 +630,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     receiver,
                     id,
                     self.parse_arglist_block(None)?,
-                    false,
+                    safe_nav,
                     loc,
                 ));
             }
-- 
2.43.0


From be24b0f3068e986a0f0578cb314387230ecd2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 13/42] fix: back references \2..\9 in regular expressions

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 0e663e1..f482c5f 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1060,7 +1060,7 @@ impl<'a> Lexer<'a> {
                             // TODO: It is necessary to count capture groups
                             // to determine whether backref or octal digit.
                             // Current impl. may cause problems.
-                            if '1' >= ch && ch <= '9' && !self.peek_digit() {
+                            if ('1'..='9').contains(&ch) && !self.peek_digit() {
                                 body.push(ch);
                             } else if ('0'..='7').contains(&ch) {
                                 let hex = format!("x{:02x}", self.consume_tri_octal(ch).unwrap());
-- 
2.43.0


From d27c3dabd4a0aef3e3d66ee77342d8199477f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 14/42] fix: keep local variables introduced in a here document

---
 src/parser/literals.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 0ddd178..d49a549 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -131,13 +131,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             ),
             ParseMode::Double => {
                 let mut parser = self.new_with_range(start, end);
-                let res = parser.here_double();
-                res?
+                let res = parser.here_double()?;
+                self.scope = parser.scope;
+                res
             }
             ParseMode::Command => {
                 let mut parser = self.new_with_range(start, end);
-                let res = parser.here_command();
-                res?
+                let res = parser.here_command()?;
+                self.scope = parser.scope;
+                res
             }
         };
         Ok(node)
-- 
2.43.0


From e33969f8160268a1d95667badf006a7114c94271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 15/42] fix: report a nested numbered parameter where it occurs

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index deb5e96..45fb21d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -228,11 +228,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Check whether numbered parameters exist in outer blocks.
     fn check_outer_numbered_param(&mut self, loc: Loc) -> Result<(), LexerErr> {
         //let mut outer = 0;
-        if let Some(loc) = self.scope.last_mut().unwrap().lvar.prohibit_numbered_param {
+        // the recorded location may belong to another source (`parse_program_binding`),
+        // so that the error is reported at the current occurrence.
+        let lvar = &self.scope.last().unwrap().lvar;
+        if lvar.prohibit_numbered_param.is_some() {
             return Err(error_nested_numbered_param(loc));
         }
         for c in self.scope.iter_mut().rev().skip(1) {
-            if let Some(loc) = c.lvar.numbered_param {
+            if c.lvar.numbered_param.is_some() {
                 return Err(error_nested_numbered_param(loc));
             }
             let prohibit = &mut c.lvar.prohibit_numbered_param;
-- 
2.43.0


From 8cd89c1dbd988fadd3fb59545f7a5787ca03a0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:31 +0000
Subject: [PATCH 16/42] fix: resolve the receiver of a singleton method
 definition

---
 src/parser/define.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/define.rs b/src/parser/define.rs
index 499ed56..f573508 100644
--- a/src/parser/define.rs
+++ b/src/parser/define.rs
@@ -36,10 +36,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 } else if self.consume_punct_no_term(Punct::Dot)?
                     || self.consume_punct_no_term(Punct::Scope)?
                 {
-                    (
-                        Some(Node::new_lvar(s, 0, loc)),
-                        self.read_method_name(true)?.0,
-                    )
+                    let singleton = match self.is_local_var(&s) {
+                        Some(outer) => Node::new_lvar(s, outer, loc),
+                        None => Node::new_identifier(s, loc),
+                    };
+                    (Some(singleton), self.read_method_name(true)?.0)
                 } else {
                     (None, self.read_method_ext(s)?)
                 }
-- 
2.43.0


From 89f1d148a0a5b692e7393c7258390eee63c9fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 17/42] fix: read the statements of a nested body free of the
 modes around it

---
 src/parser/expression.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 7dc63f7..3111b44 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -6,11 +6,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         self.peek()?;
         let loc = self.loc()?;
         let mut nodes = vec![];
+        // a suppression is for the construct around this body, not for its statements.
+        let old_acc_assign = self.suppress_acc_assign;
+        let old_mul_assign = self.suppress_mul_assign;
+        let old_do_block = self.suppress_do_block;
+        self.suppress_acc_assign = false;
+        self.suppress_mul_assign = false;
+        self.suppress_do_block = false;
 
         loop {
             if self.peek()?.check_stmt_end() {
-                let node = Node::new_comp_stmt(nodes, loc);
-                return Ok(node);
+                break;
             }
 
             let node = self.parse_stmt()?;
@@ -19,6 +25,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
+        self.suppress_acc_assign = old_acc_assign;
+        self.suppress_mul_assign = old_mul_assign;
+        self.suppress_do_block = old_do_block;
         let node = Node::new_comp_stmt(nodes, loc);
         Ok(node)
     }
-- 
2.43.0


From f48894cbade992d758314b16e7672cceedf096cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 18/42] fix: require the closing parenthesis of an argument
 list

---
 src/parser/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 3111b44..1159755 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -963,7 +963,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         }
                     }
                     if let Some(punct) = punct {
-                        self.consume_punct(punct)?;
+                        self.expect_punct(punct)?;
                     };
                     let node = Node::new_hash(kvp, loc);
                     arglist.args.push(node);
@@ -994,7 +994,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         if let Some(punct) = punct {
-            self.consume_punct(punct)?;
+            self.expect_punct(punct)?;
         };
         Ok(arglist)
     }
-- 
2.43.0


From e3994b88a76f3261d967a0d9ebb523d9598b2491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 19/42] fix: take no argument from the end of the text or a
 closing keyword

---
 src/parser/expression.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 1159755..9c77670 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1114,7 +1114,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         };
         if self.lexer.trailing_space() {
             match tok.kind {
-                TokenKind::LineTerm => false,
+                TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
                     Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
                         true
@@ -1140,6 +1140,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         | Reserved::And
                         | Reserved::Or
                         | Reserved::Then
+                        | Reserved::Else
+                        | Reserved::Elsif
+                        | Reserved::When
+                        | Reserved::Ensure
+                        | Reserved::In
                         | Reserved::End
                 ),
                 _ => true,
-- 
2.43.0


From a102eb5d1596f9d0eff69de349e83434afadd9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 20/42] fix: separate list elements at the comma after an
 assignment

---
 src/parser.rs            | 16 +++++++++++++---
 src/parser/expression.rs | 10 +++++++++-
 src/parser/literals.rs   |  9 +++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 45fb21d..5a242b8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -647,7 +647,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     let default = if let Some(Punct::BitOr) = terminator {
                         self.parse_primary(true)?
                     } else {
-                        self.parse_arg()?
+                        self.parse_default_value()?
                     };
                     loc = loc.merge(self.prev_loc());
                     match state {
@@ -672,10 +672,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_arg()?)
+                                Some(self.parse_default_value()?)
                             }
                         } else {
-                            Some(self.parse_arg()?)
+                            Some(self.parse_default_value()?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
@@ -730,6 +730,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(args)
     }
 
+    /// Parse the default value of a parameter.
+    fn parse_default_value(&mut self) -> Result<Node, LexerErr> {
+        // a comma separates the parameters, not the right-hand sides of an assignment.
+        let old = self.suppress_mul_assign;
+        self.suppress_mul_assign = true;
+        let node = self.parse_arg()?;
+        self.suppress_mul_assign = old;
+        Ok(node)
+    }
+
     fn parse_destruct_param(&mut self) -> Result<FormalParam, LexerErr> {
         let loc = self.loc()?;
         let name = self.expect_ident()?;
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 9c77670..14c38a2 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -911,7 +911,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// arg, *splat_arg, kw: kw_arg, **double_splat_arg, &block <punct>
     /// punct: punctuator for terminating arg list. Set None for unparenthesized argument list.
     fn parse_arglist(&mut self, punct: impl Into<Option<Punct>>) -> Result<ArgList, LexerErr> {
-        let punct = punct.into();
+        // a comma separates the arguments, not the right-hand sides of an assignment.
+        let old = self.suppress_mul_assign;
+        self.suppress_mul_assign = true;
+        let arglist = self.parse_arglist_items(punct.into())?;
+        self.suppress_mul_assign = old;
+        Ok(arglist)
+    }
+
+    fn parse_arglist_items(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
         if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index d49a549..fecdcd4 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -176,6 +176,15 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     pub(super) fn parse_hash_literal(&mut self) -> Result<Node, LexerErr> {
+        // a comma separates the pairs, not the right-hand sides of an assignment.
+        let old = self.suppress_mul_assign;
+        self.suppress_mul_assign = true;
+        let node = self.parse_hash_pairs()?;
+        self.suppress_mul_assign = old;
+        Ok(node)
+    }
+
+    fn parse_hash_pairs(&mut self) -> Result<Node, LexerErr> {
         let mut kvp = vec![];
         let loc = self.prev_loc();
         loop {
-- 
2.43.0


From e6fe9d7c82bcd8c53cdd18d437817e699cd9ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 21/42] fix: read the `do` of a for loop as the start of its
 body

---
 src/parser/flow_control.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 1a4113e..3ec61c3 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -101,7 +101,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.expect_reserved(Reserved::In)?;
+        // `do` opens the body of the loop, not a block in the iterated expression.
+        let old_suppress_do_flag = self.suppress_do_block;
+        self.suppress_do_block = true;
         let iter = self.parse_expr()?;
+        self.suppress_do_block = old_suppress_do_flag;
         self.parse_do()?;
         let loc = self.prev_loc();
 
-- 
2.43.0


From 4c560bc20b92762c2e5d7a9a79116d5f7f884e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 22/42] fix: give a `do` block to the call written without
 parentheses

---
 src/parser/expression.rs | 15 ++++++++++++++-
 src/parser/literals.rs   |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 14c38a2..61d3adc 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -190,12 +190,18 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let old = self.suppress_mul_assign;
         // multiple assignment must be suppressed in parsing arg list.
         self.suppress_mul_assign = true;
+        // within brackets, `do` can only open a block.
+        let old_do_block = self.suppress_do_block;
+        if term.is_some() {
+            self.suppress_do_block = false;
+        }
 
         let mut args = vec![];
         loop {
             if let Some(term) = term {
                 if self.consume_punct(term)? {
                     self.suppress_mul_assign = old;
+                    self.suppress_do_block = old_do_block;
                     return Ok(args);
                 }
             };
@@ -213,6 +219,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
         }
         self.suppress_mul_assign = old;
+        self.suppress_do_block = old_do_block;
         if let Some(term) = term {
             self.expect_punct(term)?;
         };
@@ -914,7 +921,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // a comma separates the arguments, not the right-hand sides of an assignment.
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = true;
-        let arglist = self.parse_arglist_items(punct.into())?;
+        // a `do` block belongs to the method called without parentheses,
+        // not to its last argument.
+        let punct = punct.into();
+        let old_do_block = self.suppress_do_block;
+        self.suppress_do_block = punct.is_none();
+        let arglist = self.parse_arglist_items(punct)?;
+        self.suppress_do_block = old_do_block;
         self.suppress_mul_assign = old;
         Ok(arglist)
     }
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index fecdcd4..6cfbfea 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -179,7 +179,11 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // a comma separates the pairs, not the right-hand sides of an assignment.
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = true;
+        // within braces, `do` can only open a block.
+        let old_do_block = self.suppress_do_block;
+        self.suppress_do_block = false;
         let node = self.parse_hash_pairs()?;
+        self.suppress_do_block = old_do_block;
         self.suppress_mul_assign = old;
         Ok(node)
     }
-- 
2.43.0


From fedc79aebf589a0b4071cbdc26b60e8d72d32428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 23/42] fix: list parameters before the variables of their
 default values

---
 src/lvar_collector.rs | 25 ++++++++++++++++++++++---
 src/parser.rs         |  2 +-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/lvar_collector.rs b/src/lvar_collector.rs
index 15f01cf..eb914e9 100644
--- a/src/lvar_collector.rs
+++ b/src/lvar_collector.rs
@@ -49,6 +49,8 @@ pub struct LvarCollector {
     pub forwarding_param: Option<LvarId>,
     pub numbered_param: Option<crate::Loc>,
     pub prohibit_numbered_param: Option<crate::Loc>,
+    /// the number of parameters, which precede the other variables in `table`.
+    param_num: usize,
 }
 
 impl LvarCollector {
@@ -63,6 +65,7 @@ impl LvarCollector {
             forwarding_param: None,
             numbered_param: None,
             prohibit_numbered_param: None,
+            param_num: 0,
         }
     }
 }
@@ -78,6 +81,7 @@ impl LvarCollector {
             forwarding_param: None,
             numbered_param: None,
             prohibit_numbered_param: None,
+            param_num: 0,
         }
     }
 
@@ -105,10 +109,25 @@ impl LvarCollector {
         }
     }
 
+    /// Add a new parameter `val` to the `LvarCollector`, after the other parameters and
+    /// before any variable introduced by their default values.
+    /// Return None if `val` already exists.
+    pub(crate) fn insert_param(&mut self, val: String) -> Option<LvarId> {
+        match self.table.get_lvarid(&val) {
+            Some(_) => None,
+            None => {
+                let id = self.param_num;
+                self.table.0.insert(id, val);
+                self.param_num += 1;
+                Some(LvarId::from(id))
+            }
+        }
+    }
+
     /// Add a new block parameter `val` to the `LvarCollector`.
     /// Return None if `val` already exists.
     pub fn insert_block_param(&mut self, val: String) -> Option<LvarId> {
-        let lvar = self.insert_new(val)?;
+        let lvar = self.insert_param(val)?;
         self.block = Some(lvar);
         Some(lvar)
     }
@@ -116,7 +135,7 @@ impl LvarCollector {
     /// Add a new keyword parameter `val` to the `LvarCollector`.
     /// Return None if `val` already exists.
     pub fn insert_kwrest_param(&mut self, val: String) -> Option<LvarId> {
-        let lvar = self.insert_new(val)?;
+        let lvar = self.insert_param(val)?;
         self.kwrest = Some(lvar);
         Some(lvar)
     }
@@ -124,7 +143,7 @@ impl LvarCollector {
     /// Add a delegate parameter `val` to the `LvarCollector`.
     /// Return None if `val` already exists.
     pub fn insert_delegate_param(&mut self) -> Option<LvarId> {
-        let lvar = self.insert_new("...".to_string())?;
+        let lvar = self.insert_param("...".to_string())?;
         self.forwarding_param = Some(lvar);
         Some(lvar)
     }
diff --git a/src/parser.rs b/src/parser.rs
index 5a242b8..3177b57 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -168,7 +168,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     /// Add the `id` as a new parameter in the current context.
     /// If a parameter with the same name already exists, return error.
     fn new_param(&mut self, name: String, loc: Loc) -> Result<LvarId, LexerErr> {
-        match self.scope_mut().lvar.insert_new(name) {
+        match self.scope_mut().lvar.insert_param(name) {
             Some(lvar) => Ok(lvar),
             None => Err(error_unexpected(loc, "Duplicated argument name.")),
         }
-- 
2.43.0


From da49df5dd608b9f5198285785309c13b1eaf3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 24/42] fix: take no value for a keyword where no argument
 starts

---
 src/parser/expression.rs   | 56 +++++++++++++++++++++++++++++++++-----
 src/parser/flow_control.rs |  8 +-----
 2 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 61d3adc..db7589c 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -586,13 +586,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
+        if !self.starts_argument()? {
             return Ok(Node::new_yield(ArgList::default(), loc));
         };
         let args = if self.consume_punct(Punct::LParen)? {
@@ -1128,6 +1122,54 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(lhs)
     }
 
+    /// Check whether an argument of a keyword (return, yield, ..) starts at the next token.
+    pub(super) fn starts_argument(&mut self) -> Result<bool, LexerErr> {
+        let tok = self.peek_no_term()?;
+        let res = match tok.kind {
+            TokenKind::Eof | TokenKind::LineTerm => false,
+            TokenKind::Punct(p) => match p {
+                Punct::LParen
+                | Punct::LBracket
+                | Punct::LBrace
+                | Punct::Scope
+                | Punct::Range3
+                | Punct::Plus
+                | Punct::Minus
+                | Punct::Mul
+                | Punct::DMul
+                | Punct::Div
+                | Punct::Rem
+                | Punct::Shl
+                | Punct::BitAnd
+                | Punct::BitNot
+                | Punct::Not
+                | Punct::Arrow => true,
+                Punct::Colon | Punct::Question => !self.lexer.has_trailing_space(&tok),
+                _ => false,
+            },
+            TokenKind::Reserved(r) => !matches!(
+                r,
+                Reserved::And
+                    | Reserved::Do
+                    | Reserved::Else
+                    | Reserved::Elsif
+                    | Reserved::End
+                    | Reserved::Ensure
+                    | Reserved::If
+                    | Reserved::In
+                    | Reserved::Or
+                    | Reserved::Rescue
+                    | Reserved::Then
+                    | Reserved::Unless
+                    | Reserved::Until
+                    | Reserved::When
+                    | Reserved::While
+            ),
+            _ => true,
+        };
+        Ok(res)
+    }
+
     fn is_command(&mut self) -> bool {
         let tok = match self.peek_no_term() {
             Ok(tok) => tok,
diff --git a/src/parser/flow_control.rs b/src/parser/flow_control.rs
index 3ec61c3..17e2140 100644
--- a/src/parser/flow_control.rs
+++ b/src/parser/flow_control.rs
@@ -185,13 +185,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_break_sub(&mut self) -> Result<(Node, Loc), LexerErr> {
         let loc = self.prev_loc();
-        let tok = self.peek_no_term()?;
-        // TODO: This is not correct.
-        if tok.is_term()
-            || tok.kind == TokenKind::Reserved(Reserved::Unless)
-            || tok.kind == TokenKind::Reserved(Reserved::If)
-            || tok.check_stmt_end()
-        {
+        if !self.starts_argument()? {
             let val = Node::new_nil(loc);
             return Ok((val, loc));
         };
-- 
2.43.0


From 126c5acb0a15409a16c6bd1745d0ab0a490a69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 25/42] fix: keep the order of parameters after a destructuring
 one

---
 src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3177b57..e7324c8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -588,6 +588,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             }
             let mut loc = self.loc()?;
             if self.consume_punct(Punct::LParen)? {
+                // Destructuring param
+                match state {
+                    Kind::Required => {}
+                    Kind::Optional | Kind::Rest | Kind::PostReq => state = Kind::PostReq,
+                    _ => {
+                        return Err(error_unexpected(
+                            loc,
+                            "Destructuring parameter is not allowed in ths position.",
+                        ))
+                    }
+                }
                 args.push(self.parse_destruct_param()?);
             } else if self.consume_punct(Punct::Range3)? {
                 // Argument delegation
-- 
2.43.0


From 052db362cef1dc197bef287688ef68ed0afa2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:36 +0000
Subject: [PATCH 26/42] fix: read one right-hand side where commas separate
 elements

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index db7589c..64e95ec 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -243,7 +243,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(lhs);
         }
         if self.consume_punct_no_term(Punct::Assign)? {
-            let mrhs = self.parse_mul_assign_rhs(None)?;
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
             let lhs = self.check_lhs(lhs)?;
             Ok(Node::new_mul_assign(vec![lhs], mrhs))
         } else if let Some(op) = self.consume_assign_op_no_term()? {
-- 
2.43.0


From 5b47f59adba7928af6f5ea9b04d1c2bdd42f7aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 27/42] fix: an argument list cannot begin with a comma

---
 src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 64e95ec..0f2d5d1 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -928,7 +928,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_arglist_items(&mut self, punct: Option<Punct>) -> Result<ArgList, LexerErr> {
         let mut arglist = ArgList::default();
-        if self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
+        if punct.is_none() && self.peek()?.kind == TokenKind::Punct(Punct::Comma) {
             return Ok(arglist);
         }
         loop {
-- 
2.43.0


From de10d723eb2a1ac62041affc979b72184674e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 28/42] fix: end a keyword parameter's default at the bar of a
 block

---
 src/parser.rs            | 19 ++++++++++---------
 src/parser/expression.rs |  2 +-
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e7324c8..7437510 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -655,11 +655,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 let name = self.expect_ident()?;
                 if self.consume_punct(Punct::Assign)? {
                     // Optional param
-                    let default = if let Some(Punct::BitOr) = terminator {
-                        self.parse_primary(true)?
-                    } else {
-                        self.parse_default_value()?
-                    };
+                    let default = self.parse_default_value(terminator)?;
                     loc = loc.merge(self.prev_loc());
                     match state {
                         Kind::Required => state = Kind::Optional,
@@ -683,10 +679,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                             if next == TokenKind::Punct(term) {
                                 None
                             } else {
-                                Some(self.parse_default_value()?)
+                                Some(self.parse_default_value(terminator)?)
                             }
                         } else {
-                            Some(self.parse_default_value()?)
+                            Some(self.parse_default_value(terminator)?)
                         };
                     loc = loc.merge(self.prev_loc());
                     if state == Kind::KWRest {
@@ -742,11 +738,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     /// Parse the default value of a parameter.
-    fn parse_default_value(&mut self) -> Result<Node, LexerErr> {
+    fn parse_default_value(&mut self, terminator: Option<Punct>) -> Result<Node, LexerErr> {
         // a comma separates the parameters, not the right-hand sides of an assignment.
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = true;
-        let node = self.parse_arg()?;
+        let node = if let Some(Punct::BitOr) = terminator {
+            // `|` ends the parameters.
+            self.parse_arg_bitand()?
+        } else {
+            self.parse_arg()?
+        };
         self.suppress_mul_assign = old;
         Ok(node)
     }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 0f2d5d1..8d313ec 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -374,7 +374,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(lhs)
     }
 
-    fn parse_arg_bitand(&mut self) -> Result<Node, LexerErr> {
+    pub(super) fn parse_arg_bitand(&mut self) -> Result<Node, LexerErr> {
         let mut lhs = self.parse_arg_shift()?;
         loop {
             if self.consume_punct_no_term(Punct::BitAnd)? {
-- 
2.43.0


From e17cf3fa68a89d44c043190384d6601fbaf69c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 29/42] fix: the = of an operator does not belong to a symbol
 or method name before it

---
 src/parser/lexer.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f482c5f..4f25620 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -582,7 +582,7 @@ impl<'a> Lexer<'a> {
                 Some(ch)
                     if (ch == '!' && self.peek2() != Some('='))
                         || ch == '?'
-                        || (allow_assign_like && ch == '=' && self.peek2() != Some('>')) =>
+                        || (allow_assign_like && ch == '=' && self.is_assign_ext()) =>
                 {
                     self.get().unwrap();
                 }
@@ -626,7 +626,7 @@ impl<'a> Lexer<'a> {
     pub(crate) fn read_method_ext(&mut self, s: String) -> Result<String, LexerErr> {
         self.flush();
         let id =
-            if !(s.ends_with(&['!', '?'][..])) && self.peek2() != Some('>') && self.consume('=') {
+            if !(s.ends_with(&['!', '?'][..])) && self.is_assign_ext() && self.consume('=') {
                 format!("{}=", s)
             } else {
                 s
@@ -1275,6 +1275,23 @@ impl<'a> Lexer<'a> {
         iter.next()
     }
 
+    /// Peek the char after the next next one.
+    fn peek3(&self) -> Option<char> {
+        let mut iter = self.code.get(self.pos..)?.chars();
+        iter.next()?;
+        iter.next()?;
+        iter.next()
+    }
+
+    /// Whether "=" here belongs to the name in front of it: not the beginning of "=>", "=~" or "==".
+    fn is_assign_ext(&self) -> bool {
+        match self.peek2() {
+            Some('>') | Some('~') => false,
+            Some('=') => self.peek3() == Some('>'), // "=" and "=>"
+            _ => true,
+        }
+    }
+
     /// Get one char and move to the next.
     /// Returns Ok(char) or ParseErr if the cursor reached EOF.
     fn get(&mut self) -> Result<char, LexerErr> {
-- 
2.43.0


From f6e488470e26c294f73a0f09e5dd6455235452e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 30/42] fix: read the default value of a parameter apart from
 the construct around it

---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 7437510..6d0cbad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -742,12 +742,16 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         // a comma separates the parameters, not the right-hand sides of an assignment.
         let old = self.suppress_mul_assign;
         self.suppress_mul_assign = true;
+        // neither does `do` belong to the construct that the parameters stand in.
+        let old_do = self.suppress_do_block;
+        self.suppress_do_block = false;
         let node = if let Some(Punct::BitOr) = terminator {
             // `|` ends the parameters.
             self.parse_arg_bitand()?
         } else {
             self.parse_arg()?
         };
+        self.suppress_do_block = old_do;
         self.suppress_mul_assign = old;
         Ok(node)
     }
-- 
2.43.0


From 1ee844d80030e784e72b2efed07fe6a538f92ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 31/42] fix: <=> binds as the equality operators do

---
 src/parser/expression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 8d313ec..f711162 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -319,6 +319,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if self.consume_punct_no_term(Punct::TEq)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Cmp(CmpKind::TEq), lhs, rhs))
+        } else if self.consume_punct_no_term(Punct::Cmp)? {
+            let rhs = self.parse_arg_comp()?;
+            Ok(Node::new_binop(BinOp::Compare, lhs, rhs))
         } else if self.consume_punct_no_term(Punct::Match)? {
             let rhs = self.parse_arg_comp()?;
             Ok(Node::new_binop(BinOp::Match, lhs, rhs))
@@ -350,9 +353,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             } else if self.consume_punct_no_term(Punct::Lt)? {
                 let rhs = self.parse_arg_bitor()?;
                 lhs = Node::new_binop(BinOp::Cmp(CmpKind::Lt), lhs, rhs);
-            } else if self.consume_punct_no_term(Punct::Cmp)? {
-                let rhs = self.parse_arg_bitor()?;
-                lhs = Node::new_binop(BinOp::Compare, lhs, rhs);
             } else {
                 break;
             }
-- 
2.43.0


From 894b1cb9d26f807c53d714595485ac3bc4c80abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 32/42] fix: reject an assignment to what is not assignable

---
 src/node.rs              | 27 +++++++++++++++++++++++++++
 src/parser/expression.rs |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 029cb0c..9a33334 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -234,6 +234,15 @@ impl ArgList {
         }
     }
 
+    /// Check whether no argument and no block is given.
+    pub(crate) fn is_empty(&self) -> bool {
+        self.args.is_empty()
+            && self.kw_args.is_empty()
+            && self.hash_splat.is_empty()
+            && self.block.is_none()
+            && !self.forwarding
+    }
+
     pub fn from_args(args: Vec<Node>) -> Self {
         ArgList {
             args,
@@ -351,6 +360,24 @@ impl Node {
         }
     }
 
+    /// Check whether a value can be assigned to `self`.
+    pub(crate) fn is_assignable(&self) -> bool {
+        match &self.kind {
+            NodeKind::LocalVar(..)
+            | NodeKind::InstanceVar(_)
+            | NodeKind::GlobalVar(_)
+            | NodeKind::SpecialVar(_)
+            | NodeKind::ClassVar(_)
+            | NodeKind::Const { .. }
+            | NodeKind::Index { .. }
+            | NodeKind::DiscardLhs => true,
+            NodeKind::MethodCall {
+                method, arglist, ..
+            } => !method.ends_with(&['!', '?'][..]) && arglist.is_empty(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_integer(&self) -> bool {
         matches!(&self.kind, NodeKind::Integer(_) | NodeKind::Bignum(_))
     }
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index f711162..389ad01 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1104,6 +1104,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                 }
             }
+            if name.ends_with(&['!', '?'][..]) {
+                return Err(error_unexpected(loc, "Can not assign to this expression."));
+            }
             let outer = self.add_local_var_if_new(&name);
             return Ok(Node::new_lvar(name, outer, lhs.loc));
         } else if let NodeKind::Const { .. } = lhs.kind {
@@ -1119,6 +1122,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         } else if let NodeKind::Splat(lhs) = lhs.kind {
             return Ok(Node::new_splat(self.check_lhs(*lhs)?, loc));
         }
+        if !lhs.is_assignable() {
+            return Err(error_unexpected(loc, "Can not assign to this expression."));
+        }
         Ok(lhs)
     }
 
-- 
2.43.0


From 0bbcf37bac1d55ed6007c44e60f632d8acc53a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 33/42] fix: an assignment is the operand of the operator
 before it

---
 src/parser/expression.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index 389ad01..e9b7612 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -440,7 +440,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_unary_minus(&mut self) -> Result<Node, LexerErr> {
         let save = self.save_state();
-        let lhs = if self.consume_punct(Punct::Minus)? {
+        if self.consume_punct(Punct::Minus)? {
             let save2 = self.save_state();
             let loc = self.prev_loc();
             match self.peek_no_term()?.kind {
@@ -450,8 +450,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         self.restore_state(save2);
                         let lhs = self.parse_exponent()?;
                         let loc = loc.merge(lhs.loc());
-                        let lhs = Node::new_unop(UnOp::Neg, lhs, loc);
-                        return self.parse_accesory_assign(lhs);
+                        return Ok(Node::new_unop(UnOp::Neg, lhs, loc));
                     } else {
                         self.restore_state(save);
                         let lhs = self.parse_exponent()?;
@@ -462,11 +461,10 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             };
             let lhs = self.parse_unary_minus()?;
             let loc = loc.merge(lhs.loc());
-            Node::new_unop(UnOp::Neg, lhs, loc)
+            Ok(Node::new_unop(UnOp::Neg, lhs, loc))
         } else {
-            self.parse_exponent()?
-        };
-        self.parse_accesory_assign(lhs)
+            self.parse_exponent()
+        }
     }
 
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
@@ -527,7 +525,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             let lhs = Node::new_unop(UnOp::Pos, self.parse_unary()?, loc);
             Ok(lhs)
         } else {
-            self.parse_method_call()
+            let lhs = self.parse_method_call()?;
+            self.parse_accesory_assign(lhs)
         }
     }
 
-- 
2.43.0


From 0401408e0519d6771ad958b2cdf6f5f0e0058dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 34/42] fix: an assignment within a target is read in full

---
 src/parser.rs            |  3 ---
 src/parser/expression.rs | 22 +++++++---------------
 src/parser/literals.rs   |  1 -
 3 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6d0cbad..12f49d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -41,8 +41,6 @@ pub struct Parser<'a, OuterContext: LocalsContext> {
     /// loop stack.
     loop_stack: Vec<LoopKind>,
     extern_context: Option<&'a OuterContext>,
-    /// this flag suppress accesory assignment. e.g. x=3
-    suppress_acc_assign: bool,
     /// this flag suppress accesory multiple assignment. e.g. x = 2,3
     suppress_mul_assign: bool,
     /// this flag suppress parse do-end style block.
@@ -95,7 +93,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             scope: vec![scope],
             loop_stack: vec![LoopKind::Top],
             extern_context,
-            suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
             defined_mode: false,
diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index e9b7612..aa71458 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -7,10 +7,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = self.loc()?;
         let mut nodes = vec![];
         // a suppression is for the construct around this body, not for its statements.
-        let old_acc_assign = self.suppress_acc_assign;
         let old_mul_assign = self.suppress_mul_assign;
         let old_do_block = self.suppress_do_block;
-        self.suppress_acc_assign = false;
         self.suppress_mul_assign = false;
         self.suppress_do_block = false;
 
@@ -25,7 +23,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
-        self.suppress_acc_assign = old_acc_assign;
         self.suppress_mul_assign = old_mul_assign;
         self.suppress_do_block = old_do_block;
         let node = Node::new_comp_stmt(nodes, loc);
@@ -124,8 +121,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         let loc = first_lhs.loc;
         let mut splat_flag = matches!(first_lhs.kind, NodeKind::Splat(_));
         let mut mlhs = vec![first_lhs];
-        let old = self.suppress_acc_assign;
-        self.suppress_acc_assign = true;
         loop {
             if self.peek_punct_no_term(Punct::Assign) {
                 for n in &mlhs {
@@ -154,7 +149,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                 break;
             }
         }
-        self.suppress_acc_assign = old;
         if !self.consume_punct_no_term(Punct::Assign)? {
             let loc = self.loc()?;
             return Err(error_unexpected(loc, "Expected '='."));
@@ -468,15 +462,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_accesory_assign(&mut self, lhs: Node) -> Result<Node, LexerErr> {
-        if !self.suppress_acc_assign {
-            if self.consume_punct_no_term(Punct::Assign)? {
-                let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
-                let lhs = self.check_lhs(lhs)?;
-                return Ok(Node::new_mul_assign(vec![lhs], mrhs));
-            } else if let Some(op) = self.consume_assign_op_no_term()? {
-                return self.parse_assign_op(lhs, op);
-            }
-        };
+        if self.consume_punct_no_term(Punct::Assign)? {
+            let mrhs = self.parse_mul_assign_rhs_if_allowed()?;
+            let lhs = self.check_lhs(lhs)?;
+            return Ok(Node::new_mul_assign(vec![lhs], mrhs));
+        } else if let Some(op) = self.consume_assign_op_no_term()? {
+            return self.parse_assign_op(lhs, op);
+        }
         Ok(lhs)
     }
 
diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 6cfbfea..fe3405f 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -363,7 +363,6 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             scope: self.scope.clone(),
             loop_stack: vec![],
             extern_context: self.extern_context.clone(),
-            suppress_acc_assign: false,
             suppress_mul_assign: false,
             suppress_do_block: false,
             defined_mode: false,
-- 
2.43.0


From 0e99e8b09ca31e740a757cb928df848c2c983e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 35/42] fix: a parenthesis after a space belongs to the first
 argument

---
 src/parser/expression.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index aa71458..e94952e 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -580,7 +580,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         if !self.starts_argument()? {
             return Ok(Node::new_yield(ArgList::default(), loc));
         };
-        let args = if self.consume_punct(Punct::LParen)? {
+        let args = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist(Punct::RParen)?
         } else {
             self.parse_arglist(None)?
@@ -590,7 +591,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_super(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
         } else if self.is_command() {
             self.parse_arglist_block(None)?
@@ -623,7 +625,8 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             return Ok(node);
         };
         let (id, loc) = self.read_method_name(false)?;
-        let arglist = if self.consume_punct_no_term(Punct::LParen)? {
+        let arglist = if self.lexer.trailing_lparen() {
+            self.expect_punct(Punct::LParen)?;
             self.parse_arglist_block(Punct::RParen)?
         } else {
             if self.is_command() {
-- 
2.43.0


From 3c60cdba72509c3b969a5ae1a09c2bc5102afd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 36/42] fix: yield takes operators by their spacing and can be
 called on

---
 src/parser/expression.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index e94952e..ab8c4ec 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -523,13 +523,14 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     }
 
     fn parse_method_call(&mut self) -> Result<Node, LexerErr> {
-        if self.consume_reserved(Reserved::Yield)? {
-            return self.parse_yield();
-        }
         // 一次式メソッド呼び出し
         // スコープ付き定数参照 :: 一次式 [行終端子禁止][空白類禁止] "::" 定数識別子
         //      ｜"::" 定数識別子
-        let mut node = self.parse_primary(false)?;
+        let mut node = if self.consume_reserved(Reserved::Yield)? {
+            self.parse_yield()?
+        } else {
+            self.parse_primary(false)?
+        };
         loop {
             node = if self.consume_punct(Punct::Dot)? {
                 self.parse_primary_method(node, false)?
@@ -577,7 +578,7 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
 
     fn parse_yield(&mut self) -> Result<Node, LexerErr> {
         let loc = self.prev_loc();
-        if !self.starts_argument()? {
+        if !self.starts_argument()? || self.is_operator()? {
             return Ok(Node::new_yield(ArgList::default(), loc));
         };
         let args = if self.lexer.trailing_lparen() {
@@ -1170,6 +1171,28 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         Ok(res)
     }
 
+    /// Check whether the next token is, by the spaces around it, an operator
+    /// whose left operand ends here, and not the start of an argument.
+    fn is_operator(&mut self) -> Result<bool, LexerErr> {
+        let tok = self.peek_no_term()?;
+        Ok(match tok.kind {
+            TokenKind::Punct(Punct::LBracket) | TokenKind::Punct(Punct::Scope) => {
+                !self.lexer.trailing_space()
+            }
+            TokenKind::Punct(
+                Punct::Plus
+                | Punct::Minus
+                | Punct::Mul
+                | Punct::DMul
+                | Punct::Div
+                | Punct::Rem
+                | Punct::Shl
+                | Punct::BitAnd,
+            ) => !self.lexer.trailing_space() || self.lexer.has_trailing_space(&tok),
+            _ => false,
+        })
+    }
+
     fn is_command(&mut self) -> bool {
         let tok = match self.peek_no_term() {
             Ok(tok) => tok,
-- 
2.43.0


From 110830c106e34bb146c45c4ec2bede32bf0df16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 37/42] fix: ~ and ** start the arguments of a command

---
 src/parser/expression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index ab8c4ec..d08aa5a 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1202,13 +1202,17 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
             match tok.kind {
                 TokenKind::LineTerm | TokenKind::Eof => false,
                 TokenKind::Punct(p) => match p {
-                    Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not => {
-                        true
-                    }
+                    Punct::LParen
+                    | Punct::LBracket
+                    | Punct::Scope
+                    | Punct::Arrow
+                    | Punct::Not
+                    | Punct::BitNot => true,
                     Punct::Colon
                     | Punct::Plus
                     | Punct::Minus
                     | Punct::Mul
+                    | Punct::DMul
                     | Punct::Div
                     | Punct::BitAnd
                     | Punct::Rem
-- 
2.43.0


From fd10be5db54693fe23d4541b208668b2e58cc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 38/42] fix: the smallest 64-bit integer is an Integer

---
 src/parser/expression.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.rs b/src/parser/expression.rs
index d08aa5a..a64d445 100644
--- a/src/parser/expression.rs
+++ b/src/parser/expression.rs
@@ -1,4 +1,5 @@
 use super::*;
+use num::ToPrimitive;
 
 impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_comp_stmt(&mut self) -> Result<Node, LexerErr> {
@@ -765,7 +766,13 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                         Some(i) => Ok(Node::new_integer(i, loc)),
                         None => Ok(Node::new_bignum(-BigInt::from(num), loc)),
                     },
-                    TokenKind::BignumLit(num) => Ok(Node::new_bignum(-num, loc)),
+                    TokenKind::BignumLit(num) => {
+                        let num = -num;
+                        match num.to_i64() {
+                            Some(i) => Ok(Node::new_integer(i, loc)),
+                            None => Ok(Node::new_bignum(num, loc)),
+                        }
+                    }
                     TokenKind::FloatLit(num) => Ok(Node::new_float(-num, loc)),
                     _ => Err(error_unexpected(loc, "Unexpected '-'.")),
                 },
-- 
2.43.0


From 2f3626298350a812c48bc310887673320b32c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 39/42] fix: a single-quoted literal has only its own
 delimiters and the backslash to escape

---
 src/parser/lexer.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 4f25620..076e1fd 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -900,18 +900,14 @@ impl<'a> Lexer<'a> {
                     }
                 }
                 '\\' => {
-                    // continuation line
-                    if self.consume_newline() {
-                        continue;
-                    };
                     let c = self.get()?;
-                    if c == '\'' {
-                        s.push('\'');
-                    } else if c == '\\' {
+                    if c == '\\' {
                         s.push('\\');
                         if escape_backslash {
                             s.push('\\');
                         }
+                    } else if !escape_backslash && (c == term || open == Some(c)) {
+                        s.push(c);
                     } else {
                         s.push('\\');
                         s.push(c);
-- 
2.43.0


From e76e853fe8aeca27b094770a3bb6ea5f9ed91525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 40/42] fix: an octal escape is a byte

---
 src/parser/lexer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 076e1fd..13289a0 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -1163,6 +1163,10 @@ impl<'a> Lexer<'a> {
             }
             c if ('0'..='7').contains(&c) => {
                 if let Some(num) = self.consume_tri_octal(c) {
+                    if num > 0x7f {
+                        buf.push_byte(num);
+                        return Ok(());
+                    }
                     num as char
                 } else {
                     c
-- 
2.43.0


From 042157e4436d64910b9c86e7128db8850a444d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 41/42] fix: brackets nest in a % literal beyond an
 interpolation

---
 src/parser/literals.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index fe3405f..799a844 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -34,15 +34,22 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
         &mut self,
         s: RubyString,
         delimiter: Option<char>,
-        level: usize,
+        mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
+        let open = match delimiter {
+            Some(')') => Some('('),
+            Some('}') => Some('{'),
+            Some(']') => Some('['),
+            Some('>') => Some('<'),
+            _ => None,
+        };
         loop {
             self.parse_template(&mut nodes)?;
             let tok = self
                 .lexer
-                .read_string_literal_double(None, delimiter, level)?;
+                .read_string_literal_double(open, delimiter, level)?;
             let mut loc = tok.loc();
             match tok.kind {
                 TokenKind::StringLit(mut name) => {
@@ -70,8 +77,9 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                     }
                     nodes.push(Node::new_string(name, loc));
                 }
-                TokenKind::OpenString(s, _, _) => {
+                TokenKind::OpenString(s, _, next_level) => {
                     nodes.push(Node::new_string(s.into(), loc));
+                    level = next_level;
                 }
                 _ => unreachable!("{:?}", tok),
             }
-- 
2.43.0


From 3e43465b68806d48d3831c93fedcd6e07099317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 42/42] fix: an interpolated literal beside a % literal ends
 with its own delimiter

---
 src/parser/literals.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/parser/literals.rs b/src/parser/literals.rs
index 799a844..a600c71 100644
--- a/src/parser/literals.rs
+++ b/src/parser/literals.rs
@@ -33,20 +33,20 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
     pub(super) fn parse_interporated_string_literal(
         &mut self,
         s: RubyString,
-        delimiter: Option<char>,
+        mut delimiter: Option<char>,
         mut level: usize,
     ) -> Result<Node, LexerErr> {
         let start_loc = self.prev_loc();
         let mut nodes = vec![Node::new_string(s, start_loc)];
-        let open = match delimiter {
-            Some(')') => Some('('),
-            Some('}') => Some('{'),
-            Some(']') => Some('['),
-            Some('>') => Some('<'),
-            _ => None,
-        };
         loop {
             self.parse_template(&mut nodes)?;
+            let open = match delimiter {
+                Some(')') => Some('('),
+                Some('}') => Some('{'),
+                Some(']') => Some('['),
+                Some('>') => Some('<'),
+                _ => None,
+            };
             let tok = self
                 .lexer
                 .read_string_literal_double(open, delimiter, level)?;
@@ -60,10 +60,12 @@ impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
                                 name += &next_s;
                                 loc = loc.merge(t.loc);
                             }
-                            TokenKind::OpenString(next_s, _, _) => {
+                            TokenKind::OpenString(next_s, next_delimiter, next_level) => {
                                 let t = self.get()?;
                                 name += next_s.as_str();
                                 loc = loc.merge(t.loc);
+                                delimiter = next_delimiter;
+                                level = next_level;
                                 break;
                             }
                             _ => {
-- 
2.43.0

