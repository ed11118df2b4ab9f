From 915606cb1f85760b11280546898f3ef822e2cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 01/28] fix: do not write the table hint before the opening
 brace of a table

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 3577d98..b35e7aa 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -580,7 +580,7 @@ impl ConfiguredWrite for Node {
                 let bnl = cfg.fmt.write_newline_at_multiline_table == Some(true) && !opts.is_oneline.get();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), &hint)), "{{", IncFuncLevel())?;
+                cfg_write!(f, cfg, buf, state, IfNewLine(bnl, Hint(&Loc(0, 0), "")), "{{", IncFuncLevel())?;
 
                 let ind = match cfg.fmt.force_single_line_table == Some(true)
                     && opts.is_iv_table == Some(true)
-- 
2.43.0


From ecc81107a37b806c34e107127a58d2471851aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 02/28] fix: accept a plus sign in the exponent of a numeral

---
 src/parser/lexer_util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index d0db6e5..378b5a7 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -74,9 +74,9 @@ pub fn get_float_end(chars: &mut TChars, start: usize) -> (usize, bool, String)
 
             let mut cur_ind = i;
             match chars.peek() {
-                Some(&(si, '-')) => {
+                Some(&(si, sign @ '-')) | Some(&(si, sign @ '+')) => {
                     chars.next();
-                    result.push('-');
+                    result.push(sign);
                     cur_ind = si;
                 }
                 Some(&(_, _)) => {}
-- 
2.43.0


From 7a5679b0d0dca947aaec019546d6bdfcdb70a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 03/28] fix: accept the 0X prefix of hexadecimal numerals

---
 src/parser/lua_lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 4b85454..6a17b40 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -406,10 +406,11 @@ impl<'input> Iterator for Lexer<'input> {
                 Some(&(i, '0')) => {
                     self.chars.next();
                     match self.chars.peek() {
-                        Some(&(_, 'x')) => {
+                        Some(&(_, x @ 'x')) | Some(&(_, x @ 'X')) => {
                             self.chars.next();
                             let (end, succ, mut val) = get_hex_integer_end(&mut self.chars, i + 2);
-                            val.insert_str(0, "0x");
+                            val.insert(0, x);
+                            val.insert(0, '0');
 
                             match succ {
                                 true => return ok(i, Numeral(val), end),
-- 
2.43.0


From 2b3ff6cb83fb85f83bbff9d99ae9e4329c2d2787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 04/28] fix: a backslash does not escape the closing bracket of
 a long string or comment

---
 src/parser/lexer_util.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 378b5a7..9fee021 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -147,13 +147,12 @@ pub fn get_multiline_string_level(chars: &mut TChars, start: usize) -> usize {
 pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize) -> (usize, usize, bool, String) {
     // we already got "[==[" symbols
     let mut end = start;
-    let mut escaped = false;
     let mut result = String::new();
 
     loop {
         match chars.next() {
             Some((text_end, ch)) => {
-                if !escaped && ch == ']' {
+                if ch == ']' {
                     let cur_level = get_multiline_string_level(chars, text_end + 1);
 
                     if level == cur_level {
@@ -174,7 +173,6 @@ pub fn get_multiline_string_ends(chars: &mut TChars, level: usize, start: usize)
                 }
 
                 end = text_end;
-                escaped = ch == '\\';
             }
             None => return (end + 1, end + 1, false, result),
         }
-- 
2.43.0


From 256c830b73f94644d4d902f5d807e44f786f5326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 05/28] fix: keep a space between an index bracket and a long
 string

---
 src/parser/lua_ast.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index b35e7aa..c2a472f 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -338,6 +338,15 @@ impl list::ListOfItems<Node> for Node {
 }
 
 impl Node {
+    // `[` directly followed by a long bracket literal would be read as another long bracket
+    fn after_square_bracket_hint(&self) -> &'static str {
+        match self {
+            Node::MultiLineStringLiteral(..) => " ",
+            Node::BinaryOp(_, _, _, l, _) => l.after_square_bracket_hint(),
+            _ => "",
+        }
+    }
+
     fn test_oneline_table_cfg(&self, cfg: &Config) -> Option<Config> {
         if let Node::TableConstructor(span, _, _, _) = self {
             if cfg.fmt.max_width.is_some()
@@ -630,7 +639,7 @@ impl ConfiguredWrite for Node {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e1, locs[1], "]", locs[2], "=", locs[3], e2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e1.after_square_bracket_hint()), e1, Hint(&locs[1], ""), "]", Hint(&locs[2], " "),
                            "=", Hint(&locs[3], " "), e2)
             }
             FieldNamed(span, locs, e1, e2) => {
@@ -644,7 +653,7 @@ impl ConfiguredWrite for Node {
 
             TableIndex(span, locs, e) => {
                 out_of_range_write!(f, cfg, buf, state, span, "[", locs[0], e, locs[1], "]");
-                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], ""), e, Hint(&locs[1], ""), "]")
+                cfg_write!(f, cfg, buf, state, "[", Hint(&locs[0], e.after_square_bracket_hint()), e, Hint(&locs[1], ""), "]")
             }
             TableMember(span, locs, n) => {
                 out_of_range_write!(f, cfg, buf, state, span, ".", locs[0], n);
-- 
2.43.0


From e7745c35ffe1477922229e974622d7b13fe10848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 06/28] fix: keep the text of a comment that ends the file
 after its opening bracket

---
 src/parser/lexer_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/lexer_util.rs b/src/parser/lexer_util.rs
index 9fee021..67f75a6 100644
--- a/src/parser/lexer_util.rs
+++ b/src/parser/lexer_util.rs
@@ -208,7 +208,10 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
 
                             return (text_start, text_end, token_end, None, succ, result);
                         }
-                        None => return (text_start, text_start + level + 1, text_start + level + 1, None, true, String::new()),
+                        None => {
+                            let level_str = (0..level).map(|_| "=").collect::<String>();
+                            return (text_start, text_start + level + 1, text_start + level + 1, None, true, format!("[{}", level_str));
+                        }
                     }
                 }
                 Some(&(square_2_index, '[')) => {
@@ -223,7 +226,7 @@ pub fn get_comment_start_ends_and_type(chars: &mut TChars, start: usize) -> (usi
                     result.insert(0, '[');
                     return (text_start, text_end, token_end, None, succ, result);
                 }
-                None => return (text_start, text_start + 1, text_start + 1, None, true, String::new()),
+                None => return (text_start, text_start + 1, text_start + 1, None, true, String::from("[")),
             }
         }
         _ => {
-- 
2.43.0


From 2ce0f58aff9a10d6a19a84b9969f6288561e4a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 07/28] fix: accept unary operators after a unary operator or
 in an exponent

---
 src/parser/lua_syntax.lalrpop | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/parser/lua_syntax.lalrpop b/src/parser/lua_syntax.lalrpop
index 5dee540..091299c 100644
--- a/src/parser/lua_syntax.lalrpop
+++ b/src/parser/lua_syntax.lalrpop
@@ -529,20 +529,40 @@ Op9<T>: Node = {
 }
 
 Op10<T>: Node = {
+    OpUnary<T>,
+    Op11<T>,
+}
+
+// "- -x" is not supported
+Op10NoMinus<T>: Node = {
+    OpUnaryNoMinus<T>,
+    Op11<T>,
+}
+
+OpUnary<T>: Node = {
+    OpUnaryNoMinus<T>,
+    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op10NoMinus<T>> <rs:@R>
+        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
+}
+
+OpUnaryNoMinus<T>: Node = {
     <ls:@L> "not" <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryNot(Loc(ls, rs), [Loc(l1, r1)], Box::new(e)),
-    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "#"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("#"), Box::new(e)),
-    <ls:@L> "-"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
-        => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("-"), Box::new(e)),
-    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op11<T>> <rs:@R>
+    <ls:@L> "~"   <l1:@R> <r1:@L> <e:Op10<T>> <rs:@R>
         => Node::UnaryOp(Loc(ls, rs), [Loc(l1, r1)], Str("~"), Box::new(e)),
-    Op11<T>,
 }
 
-// right-associative operation, but we make it left-associative
 Op11<T>: Node = {
-    <ls:@L> <e1:Op11<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
+    <ls:@L> <e1:OpPow<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:OpUnary<T>> <rs:@R>
+        => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
+    OpPow<T>,
+}
+
+// right-associative operation, but we make it left-associative
+OpPow<T>: Node = {
+    <ls:@L> <e1:OpPow<T>> <l1:@R> <r1:@L> "^" <l2:@R> <r2:@L> <e2:T> <rs:@R>
         => Node::BinaryOp(Loc(ls, rs), [Loc(l1, r1), Loc(l2, r2)], Str("^"), Box::new(e1), Box::new(e2)),
     T,
 }
-- 
2.43.0


From bc417e3a493e1832701a72de14009cf8dec91110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 08/28] fix: report an unreadable config file instead of
 panicking

---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..1eea081 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -304,7 +304,7 @@ impl Config {
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
         let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+            .map_err(|err| format!("An error occured while reading config file `{}`: {}", file_path.display(), err))?;
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From e99d1c3d3b76f6da795eaeac7ab17783ec68d4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 09/28] fix: report unreadable standard input instead of
 panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3872269..2917275 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("{}", format!("An error occured while reading buffer: {}", err));
+            return;
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From f300a1f7855cc3fb8391f496e29bddb551481092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 10/28] fix: keep the suffixes of a parenthesized expression
 that is partially out of the line range

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index c2a472f..d20b5d3 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -704,7 +704,7 @@ impl ConfiguredWrite for Node {
             }
 
             VarRoundSuffix(span, locs, n1, n2) => {
-                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")");
+                out_of_range_write!(f, cfg, buf, state, span, "(", locs[0], n1, locs[1], ")", locs[2], n2);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
-- 
2.43.0


From a4001bca243ca2c0efea45a423831f7ee3308a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 11/28] fix: extend the line range to the whole top-level
 return statement

---
 src/formatting/reconstruction.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index d8ff175..33d93da 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -45,8 +45,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | GoTo(span, _, n)
         | WhileDo(span, _, n)
         | RepeatUntil(span, _, n)
-        | RetStatExpr(span, _, n)
-        | RetStatExprComma(span, _, n)
         | Chunk(span, n, _)
         | DoBEnd(span, _, n) => {
             update_pos_range(span, state);
@@ -128,8 +126,6 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         | TableConstructorEmpty(span, _)
         | DoEnd(span, _)
         | Name(span, _)
-        | RetStatNone(span)
-        | RetStatNoneComma(span, _)
         | Semicolon(span)
         | SheBang(span, _)
         | FuncBody(span, _) => {
@@ -166,6 +162,20 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
             reconstruct_node_tree(&mut *n, cfg, state);
         }
 
+        // `return` is a statement of its block, but it is not an item of the StatementList
+        RetStatNone(span) | RetStatNoneComma(span, _) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+            state.block_nested_level -= 1;
+        }
+        RetStatExpr(span, _, n) | RetStatExprComma(span, _, n) => {
+            state.block_nested_level += 1;
+            update_pos_range(span, state);
+
+            reconstruct_node_tree(&mut *n, cfg, state);
+            state.block_nested_level -= 1;
+        }
+
         // custom
         Fields(_, v, opts) => {
             let mut is_iv_table = true;
-- 
2.43.0


From 19e3f75967f37b018fa4978d23e03ecbc490e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 12/28] fix: extend the line range to the statements that
 follow a semicolon and start with a bracket

---
 src/formatting/reconstruction.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/formatting/reconstruction.rs b/src/formatting/reconstruction.rs
index 33d93da..60211c1 100644
--- a/src/formatting/reconstruction.rs
+++ b/src/formatting/reconstruction.rs
@@ -149,7 +149,15 @@ pub fn reconstruct_node_tree(node: &mut Node, cfg: &Config, state: &mut State) {
         StatementList(_, v) => {
             state.block_nested_level += 1;
             for (_, node) in v {
-                reconstruct_node_tree(node, cfg, state);
+                match node {
+                    // a pair of statements of the same block
+                    StatementList(_, pair) => {
+                        for (_, node) in pair {
+                            reconstruct_node_tree(node, cfg, state);
+                        }
+                    }
+                    _ => reconstruct_node_tree(node, cfg, state),
+                }
             }
             state.block_nested_level -= 1;
         }
-- 
2.43.0


From 19bd2972652a303f32af1b2912eda50622e04f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 13/28] fix: do not write the newline at the end of the file if
 it is out of the line range

---
 src/formatting/util.rs | 4 ++++
 src/parser/lua_ast.rs  | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..8de5acb 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -76,6 +76,10 @@ pub fn test_out_of_range(range: &Option<(usize, usize)>, span: &Loc) -> bool {
     return false;
 }
 
+pub fn test_range_reaches(range: &Option<(usize, usize)>, pos: usize) -> bool {
+    return range.map_or(true, |(_, r)| r >= pos);
+}
+
 pub fn test_not_completely_contained(range: &Option<(usize, usize)>, span: &Loc) -> bool {
     if let Some(&(l, r)) = range.as_ref() {
         return (span.0 < l && span.1 > l) || (span.0 < r && span.1 > r);
diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index d20b5d3..1f7ac61 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -1214,11 +1214,11 @@ impl ConfiguredWrite for Node {
                 cfg_write!(f, cfg, buf, state, n1, IfNewLine(nl, Hint(&locs[0], " ")), n2)
             }
             Chunk(locl, n, locr) => {
-                let nl = cfg.fmt.write_newline_at_eof == Some(true);
+                let nl = cfg.fmt.write_newline_at_eof == Some(true) && util::test_range_reaches(&state.pos_range, locr.1);
                 cfg_write!(f, cfg, buf, state, Hint(&locl, ""), n, IfNewLine(nl, Hint(&locr, "")))
             }
             SheBangChunk(locl, n, locm, b, locr) => {
-                let nl = cfg.fmt.write_newline_at_eof == Some(true);
+                let nl = cfg.fmt.write_newline_at_eof == Some(true) && util::test_range_reaches(&state.pos_range, locr.1);
                 cfg_write!(f, cfg, buf, state, Hint(&locl, ""), n, Hint(&locm, ""), b, IfNewLine(nl, Hint(&locr, "")))
             }
 
-- 
2.43.0


From 1cdf2e9b8c12f68f1fe51f7c866a26ce9f5e7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 14/28] fix: do not mix up the positions in a comment block
 with the positions in the file when formatting a line range

---
 src/formatting/list.rs     | 9 ++++-----
 src/formatting/loc_hint.rs | 9 +++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..ccb0213 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -2,7 +2,6 @@ use std::fmt::Write;
 
 use super::decoration::*;
 use super::loc_hint::*;
-use super::util;
 use crate::config::*;
 use crate::parser::common::*;
 use crate::{cfg_write, cfg_write_helper};
@@ -60,8 +59,8 @@ where
                 let item = &items[i];
                 write!(f, "{}", get_sep(prev_item_tp))?;
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                if Hint::new(&item.0, "").out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, Hint::new(&item.0, ""))?;
                 } else {
                     let need_newline = list_node.need_newlines(cfg)
                         && item.1.need_newline(&prev_item_tp.1, list_node, f, cfg, buf, state);
@@ -109,8 +108,8 @@ where
             for i in 1..items.len() {
                 let item = &items[i];
 
-                if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                if Hint::new(&item.0, "").out_of_range(state) {
+                    cfg_write!(f, cfg, buf, state, Hint::new(&item.0, ""))?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 6ff98b8..0c06aff 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -13,6 +13,7 @@ pub struct SpaceLocHint<'a, 'b>(pub &'a Loc, pub &'b str);
 pub trait LocHintConstructible<'a, 'b> {
     fn new(loc: &'a Loc, s: &'b str) -> Self;
     fn get_loc(&self) -> &'a Loc;
+    fn out_of_range(&self, state: &State) -> bool;
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
@@ -23,6 +24,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for CommentLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.pos_range, self.0)
+    }
 }
 
 impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
@@ -33,6 +38,10 @@ impl<'a, 'b> LocHintConstructible<'a, 'b> for SpaceLocHint<'a, 'b> {
     fn get_loc(&self) -> &'a Loc {
         self.0
     }
+
+    fn out_of_range(&self, state: &State) -> bool {
+        util::test_out_of_range(&state.comment_pos_range, self.0)
+    }
 }
 
 impl CommentLocHint<'_, '_> {
-- 
2.43.0


From 9f0809219e628011fbcc5d98c72a1c621d2b139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 15/28] fix: accept vertical tabs and form feeds between tokens

---
 src/parser/comment_lexer.rs | 2 +-
 src/parser/lua_lexer.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/comment_lexer.rs b/src/parser/comment_lexer.rs
index 509f0c4..1d79665 100644
--- a/src/parser/comment_lexer.rs
+++ b/src/parser/comment_lexer.rs
@@ -80,7 +80,7 @@ impl<'input> Iterator for Lexer<'input> {
                     }
                     return None;
                 }
-                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0B')) | Some(&(_, '\x0C')) => {
                     self.chars.next();
                 }
 
diff --git a/src/parser/lua_lexer.rs b/src/parser/lua_lexer.rs
index 6a17b40..d3aae7d 100644
--- a/src/parser/lua_lexer.rs
+++ b/src/parser/lua_lexer.rs
@@ -231,7 +231,7 @@ impl<'input> Iterator for Lexer<'input> {
                     return None;
                 }
 
-                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) => {
+                Some(&(_, ' ')) | Some(&(_, '\n')) | Some(&(_, '\r')) | Some(&(_, '\t')) | Some(&(_, '\x0B')) | Some(&(_, '\x0C')) => {
                     self.chars.next();
                 }
 
-- 
2.43.0


From 7a610e620ce6e9375709b80f4367c3588abd853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 16/28] fix: do not panic when a force_single_line option is
 set without max_width

---
 src/formatting/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 8de5acb..70ef5a0 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,7 +48,7 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
+                match $cfg.fmt.max_width.map_or(false, |max_width| left_len + right_len < max_width) {
                     true => Some(buffer),
                     false => None,
                 }
-- 
2.43.0


From a26d64bd073c2b2c9d732fc8385000facbca9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 17/28] fix: do not panic when a gap with comments or spaces
 follows a multi-byte character

---
 src/formatting/loc_hint.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatting/loc_hint.rs b/src/formatting/loc_hint.rs
index 0c06aff..ae83c56 100644
--- a/src/formatting/loc_hint.rs
+++ b/src/formatting/loc_hint.rs
@@ -86,9 +86,10 @@ impl ConfiguredWrite for CommentLocHint<'_, '_> {
             Ok(node_tree) => {
                 let mut formatted_comment_block = String::new();
                 formatted_comment_block.push(f.chars().last().unwrap_or(' '));
+                let first_len = formatted_comment_block.len();
 
                 match node_tree.configured_write(&mut formatted_comment_block, cfg, &comment_buffer, state) {
-                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[1..]),
+                    Ok(_) => self.write_formatted_comment_block(f, cfg, buf, &formatted_comment_block[first_len..]),
                     Err(err) => Err(err),
                 }
             }
-- 
2.43.0


From 4ce8cd3fd32d62d0ead0b8bd3aaf291595222fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 18/28] fix: leave the gap of an empty table alone unless table
 constructors are broken into lines

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 1f7ac61..f72d9f5 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -623,7 +623,7 @@ impl ConfiguredWrite for Node {
 
                 let mut test_str = String::new();
                 Hint(&locs[0], &hint).configured_write(&mut test_str, cfg, buf, state)?;
-                let nl = test_str.find('\n').is_some();
+                let nl = cfg.fmt.newline_format_table_constructor == Some(1) && test_str.find('\n').is_some();
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "{{", IfNewLine(nl, Hint(&locs[0], &hint)), "}}")
-- 
2.43.0


From 651fd6445ee6c3b55bba939a6ff22fbc3286cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 19/28] fix: use the assignments of a config file that ends
 with return

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 1eea081..f7b1f58 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -298,6 +298,7 @@ impl Config {
                     self.load_options_from_config(node);
                 }
             }
+            StatsRetStat(_, _, stts, _) => self.load_options_from_config(stts),
             _ => {}
         }
     }
-- 
2.43.0


From 06bc8ce99d58425c00b22aad9c4c4617ed3d3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 20/28] fix: decide by the tokens of a construct, not by the
 spaces in it, whether to try it on one line

---
 src/parser/lua_ast.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index f72d9f5..4953e37 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -2,6 +2,7 @@ use std::cell::Cell;
 use std::fmt::Write;
 
 use super::common::*;
+use super::lua_lexer::Lexer;
 use crate::config::*;
 use crate::formatting::decoration::*;
 use crate::formatting::list;
@@ -337,6 +338,20 @@ impl list::ListOfItems<Node> for Node {
     }
 }
 
+// Is it worth trying to write `span` on one line? Only its tokens say that, not the spaces and comments between them
+fn test_may_fit(span: &Loc, cfg: &Config, buf: &str, state: &State) -> bool {
+    let max_len = cfg.fmt.max_width.unwrap_or(0).saturating_mul(2);
+    let mut len = 0;
+
+    for (start, _, end) in Lexer::new(span.substr(buf, state, 0)).flatten() {
+        len += end - start;
+        if len >= max_len {
+            return false;
+        }
+    }
+    true
+}
+
 impl Node {
     // `[` directly followed by a long bracket literal would be read as another long bracket
     fn after_square_bracket_hint(&self) -> &'static str {
@@ -347,12 +362,12 @@ impl Node {
         }
     }
 
-    fn test_oneline_table_cfg(&self, cfg: &Config) -> Option<Config> {
+    fn test_oneline_table_cfg(&self, cfg: &Config, buf: &str, state: &State) -> Option<Config> {
         if let Node::TableConstructor(span, _, _, _) = self {
             if cfg.fmt.max_width.is_some()
                 && cfg.fmt.newline_format_table_constructor.is_some()
                 && cfg.fmt.force_single_line_table == Some(true)
-                && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                && test_may_fit(span, cfg, buf, state)
             {
                 // disable IfNewLine within table constructor
                 // one-line tables are forced to have no trailing separator
@@ -375,7 +390,7 @@ impl Node {
             FieldNamedBracket(span, _, _, _) | FieldNamed(span, _, _, _) | FieldSequential(span, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_table_field.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && test_may_fit(span, cfg, buf, state) =>
             {
                 return test_oneline_no_nl!(f, cfg, buf, state, self);
             }
@@ -401,7 +416,7 @@ impl Node {
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.force_single_line_if == Some(true)
                     && cfg.fmt.newline_format_if.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0) =>
+                    && test_may_fit(span, cfg, buf, state) =>
             {
                 // disable IfNewLine within table constructor
                 let mut test_cfg = cfg.clone();
@@ -419,7 +434,7 @@ impl Node {
             FuncBody(span, _) | FuncPBody(span, _, _) | FuncBodyB(span, _, _) | FuncPBodyB(span, _, _, _)
                 if cfg.fmt.max_width.is_some()
                     && cfg.fmt.newline_format_function.is_some()
-                    && span.1 - span.0 < 2 * cfg.fmt.max_width.unwrap_or(0)
+                    && test_may_fit(span, cfg, buf, state)
                     && ((state.function_nested_level == 0
                         && cfg.fmt.force_single_line_top_level_function == Some(true))
                         || (state.function_nested_level > 0
@@ -570,7 +585,7 @@ impl ConfiguredWrite for Node {
             TableConstructor(span, locs, n, opts) => {
                 out_of_range_write!(f, cfg, buf, state, span, "{{", locs[0], n, locs[1], "}}");
 
-                if let Some(test_cfg) = self.test_oneline_table_cfg(cfg) {
+                if let Some(test_cfg) = self.test_oneline_table_cfg(cfg, buf, state) {
                     match test_oneline_no_nl!(f, &test_cfg, buf, state, self) {
                         Some(line) => {
                             opts.is_oneline.set(true);
-- 
2.43.0


From 5c68a9927e29ea0eb53f0cb017de1993c651a864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 21/28] fix: do not follow symbolic links back to a directory
 that is being searched

---
 src/file_util.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 216ddfd..b03d530 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -4,14 +4,27 @@ use std::io::{self, Error, ErrorKind};
 use std::path::{Path, PathBuf};
 
 pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str) -> io::Result<Vec<PathBuf>> {
+    get_path_files_below(path, recursive, ext, filter_prefix, &mut Vec::new())
+}
+
+// `parents` are the directories we came through: a symbolic link to one of them must not be followed
+fn get_path_files_below(
+    path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str, parents: &mut Vec<PathBuf>,
+) -> io::Result<Vec<PathBuf>> {
     let mut paths = Vec::new();
 
     if path.is_dir() {
+        let real_path = fs::canonicalize(path)?;
+        if parents.contains(&real_path) {
+            return Ok(paths);
+        }
+        parents.push(real_path);
+
         for entry in fs::read_dir(path)? {
             let inner_path = entry?.path();
 
             if inner_path.is_dir() && recursive {
-                paths.append(&mut get_path_files(&inner_path, true, ext, filter_prefix)?);
+                paths.append(&mut get_path_files_below(&inner_path, true, ext, filter_prefix, parents)?);
             } else if inner_path.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
                 && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
@@ -20,6 +33,8 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
                 paths.push(inner_path);
             }
         }
+
+        parents.pop();
     } else if path.is_file() {
         paths.push(path.to_path_buf());
     } else {
-- 
2.43.0


From 4f7c5b06c34ab6d8bfb2cf3f3e22512379232191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 22/28] fix: do not skip files whose names are not valid
 unicode in directories

---
 src/file_util.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index b03d530..6e628a7 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -27,7 +27,7 @@ fn get_path_files_below(
                 paths.append(&mut get_path_files_below(&inner_path, true, ext, filter_prefix, parents)?);
             } else if inner_path.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
-                && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
+                && inner_path.file_name().and_then(|s| Some(!s.to_string_lossy().starts_with(filter_prefix)))
                     == Some(true)
             {
                 paths.push(inner_path);
@@ -49,8 +49,7 @@ pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::R
         for entry in fs::read_dir(path)? {
             let inner_path = entry?.path();
             if inner_path.is_file()
-                && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(s.starts_with(file_prefix)))
-                    == Some(true)
+                && inner_path.file_name().and_then(|s| Some(s.to_string_lossy().starts_with(file_prefix))) == Some(true)
                 && inner_path.extension().and_then(OsStr::to_str) == Some(file_ext)
             {
                 return Ok(Some(inner_path));
-- 
2.43.0


From bd12648687635d4e6ca9fe138429a98598efbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 23/28] fix: do not panic on arguments that are not valid
 unicode

---
 src/main.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2917275..e24b8f7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 use regex::Regex;
 use std::env;
+use std::ffi::OsString;
 use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
@@ -8,12 +9,22 @@ use luafmt::config::Config;
 use luafmt::file_util;
 use luafmt::formatter;
 
-fn get_options_and_filenames() -> (Vec<String>, Vec<String>) {
-    let args: Vec<String> = env::args().skip(1).collect();
-    let (options, mut sources): (Vec<_>, Vec<_>) = args.into_iter().partition(|arg| arg.starts_with('-'));
+fn get_options_and_filenames() -> (Vec<String>, Vec<OsString>) {
+    // arguments are not necessarily valid unicode
+    let args: Vec<OsString> = env::args_os().skip(1).collect();
+    let (options, mut sources): (Vec<_>, Vec<_>) =
+        args.into_iter().partition(|arg| arg.to_string_lossy().starts_with('-'));
     sources.sort();
 
-    (options, sources)
+    let options = options.into_iter().filter_map(|option| match option.into_string() {
+        Ok(option) => Some(option),
+        Err(option) => {
+            eprintln!("Unrecognized option `{}`", option.to_string_lossy());
+            None
+        }
+    });
+
+    (options.collect(), sources)
 }
 
 #[derive(Debug, PartialEq)]
@@ -98,7 +109,7 @@ fn main() {
                         process_file_path(file_path, &config, &program_opts);
                     }
                 }
-                Err(_) => eprintln!("Unresolved path: `{}`", rel_path),
+                Err(_) => eprintln!("Unresolved path: `{}`", path_buf.display()),
             }
         }
     }
-- 
2.43.0


From 7c14439665377b8b9eaba3fcbd3d81fa4f156b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 24/28] fix: decide on indentation of suffixes of a
 parenthesized expression behind its closing bracket

---
 src/parser/lua_ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lua_ast.rs b/src/parser/lua_ast.rs
index 4953e37..6989f8f 100644
--- a/src/parser/lua_ast.rs
+++ b/src/parser/lua_ast.rs
@@ -724,7 +724,7 @@ impl ConfiguredWrite for Node {
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, "(", Hint(&locs[0], ""), n1, Hint(&locs[1], ""), ")")?;
 
-                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[0], "")) == Ok(true);
+                let ind = n2.test_indent(f, cfg, buf, state, Hint(&locs[2], "")) == Ok(true);
 
                 #[cfg_attr(rustfmt, rustfmt_skip)]
                 cfg_write!(f, cfg, buf, state, If(ind, &IncIndent(None)), Hint(&locs[2], ""), n2, If(ind, &DecIndent()))
-- 
2.43.0


From 93071b7700f0c4fc3832bd7f02a50820745c596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:46 +0000
Subject: [PATCH 25/28] fix: run on a stack that suffices for deeply nested
 sources

---
 src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e24b8f7..feab19e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -4,11 +4,16 @@ use std::ffi::OsString;
 use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::thread;
 
 use luafmt::config::Config;
 use luafmt::file_util;
 use luafmt::formatter;
 
+// Lua allows 200 levels of nesting, the default stack does not
+const STACK_SIZE: usize = 256 * 1024 * 1024;
+
 fn get_options_and_filenames() -> (Vec<String>, Vec<OsString>) {
     // arguments are not necessarily valid unicode
     let args: Vec<OsString> = env::args_os().skip(1).collect();
@@ -80,6 +85,17 @@ fn process_file_path(file_path: &PathBuf, config: &Config, program_opts: &Progra
 }
 
 fn main() {
+    match thread::Builder::new().stack_size(STACK_SIZE).spawn(run) {
+        Ok(thread) => {
+            if thread.join().is_err() {
+                process::exit(101);
+            }
+        }
+        Err(_) => run(),
+    }
+}
+
+fn run() {
     let (options, rel_paths) = get_options_and_filenames();
     let (config, program_opts) = parse_options(&options);
 
-- 
2.43.0


From 10233841fadcaa4a93416931efa668741b453a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 26/28] fix: do not turn a line comment into a multiline
 comment by trimming its text

---
 src/parser/comment_ast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 9758393..748948c 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -19,6 +19,10 @@ pub enum Node {
     Chunk(Loc, Box<Node>, Loc),
 }
 
+fn opens_long_bracket(text: &str) -> bool {
+    text.starts_with('[') && text[1..].trim_start_matches('=').starts_with('[')
+}
+
 impl list::ListOfItems<Node> for Node {
     fn items(&self) -> Option<&Vec<(Loc, Node)>> {
         use Node::*;
@@ -135,6 +139,9 @@ impl ConfiguredWrite for Node {
                             // do not print the `prefix` if trimmed `s` is empty
                             if strimmed.is_empty() {
                                 write!(f, "--\n")?;
+                            } else if opens_long_bracket(&format!("{}{}", prefix, strimmed)) {
+                                // keep it from starting a multiline comment
+                                write!(f, "-- {}{}\n", prefix, strimmed)?;
                             } else {
                                 write!(f, "--{}{}\n", prefix, strimmed)?;
                             }
-- 
2.43.0


From 048ffaa559695be121c71fe374f2566526bb9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 27/28] fix: do not close a multiline comment early by trimming
 its text

---
 src/parser/comment_ast.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser/comment_ast.rs b/src/parser/comment_ast.rs
index 748948c..597f63b 100644
--- a/src/parser/comment_ast.rs
+++ b/src/parser/comment_ast.rs
@@ -161,7 +161,13 @@ impl ConfiguredWrite for Node {
                         let level_str = (0..*level).map(|_| "=").collect::<String>();
                         match (
                             cfg.fmt.hint_before_multiline_comment_text.as_ref(),
-                            cfg.fmt.hint_after_multiline_comment_text.as_ref(),
+                            // keep a bracket that ends the text from closing the comment
+                            cfg.fmt.hint_after_multiline_comment_text.as_ref().map(|suffix| {
+                                match format!("{}{}", s.trim_end(), suffix).ends_with(&format!("]{}", level_str)) {
+                                    true => format!("{} ", suffix),
+                                    false => suffix.clone(),
+                                }
+                            }),
                         ) {
                             (Some(prefix), Some(suffix)) => {
                                 write!(f, "--[{}[{}{}{}]{}]", level_str, prefix, s.trim(), suffix, level_str)
-- 
2.43.0


From 1d67ba223863d575575d03e800cae68256e8c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 28/28] fix: a line break in the value of --name=value made the
 option unrecognised

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index feab19e..774e488 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,7 +50,7 @@ fn parse_options(options: &Vec<String>) -> (Config, ProgramOpts) {
     let mut program_opts = ProgramOpts::default();
 
     for option in options.iter() {
-        let re_config_opt = Regex::new(r"^--([a-zA-Z_0-9]+)=(.*)$").unwrap();
+        let re_config_opt = Regex::new(r"(?s)^--([a-zA-Z_0-9]+)=(.*)$").unwrap();
         let re_program_opt = Regex::new(r"^[-]{1,2}([a-z]+)$").unwrap();
 
         match re_config_opt.captures_iter(option).next() {
-- 
2.43.0

