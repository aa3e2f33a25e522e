From a31a06e8c3e1cd95480755177f52e9db2d48ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 1/8] fix: negating the smallest integer in a plural formula
 wraps instead of panicking

-(-9223372036854775807 - 1) overflowed in debug builds, while every other
operator of the formulas wraps.
---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..81b55d0 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).wrapping_neg(),
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From 1baa52c5a47c5f7d0446258c6083447834cf26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 2/8] fix: a missing msgstr[i] no longer shifts the later texts
 of a plural entry

The texts were pushed one after the other, so a gap moved every later text to
the wrong index; and a huge nplurals was tried index by index. The entry's
texts now end at the first missing index, and what follows is reported.
---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From 0ee2b0bcfbedcb5ae4a375be822afdac194f1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 3/8] fix: a comment whose text looks like a string or a field
 stays a comment

'# msgid "x"' and '#"x"' were read as message lines: only #~, #| and #~|
mark those.
---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From 13b414b38e719e1306f66fbb07f247aa14cb9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 4/8] fix: junk between the items of Plural-Forms is refused

In 'nplurals=2; garbage; plural=n>1;' the value of an item could match across
';', so the definition was accepted, and the key of the next item, with the
junk glued to it, was lost.
---
 src/po/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..da24d84 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -19,8 +19,8 @@ pub struct PoParser {
 impl PoParser {
     pub fn new() -> PoParser {
         PoParser {
-            map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
-            map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
+            map_re: Regex::new(r"([^\s=;]+)\s*=\s*(.*?)\s*;").unwrap(),
+            map_check_re: Regex::new(r"^[\s;]*([^\s=;]+\s*=[^;]*;[\s;]*)*$").unwrap(),
             message_re: Regex::new(
                 r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
-- 
2.43.0


From 84e077b5200fdcd6c33dfe4342709f5359293ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 5/8] fix: formulas follow the precedence of C for ! and the
 comparisons

'!n == 0' was refused or read as '!(n...)', 'n == 1 < 2' was read from left to
right, and '- -n', '!!n' and '-!n' were refused.  The tests pin the tokens
expected after a binary '+', so '!' directly there still needs parentheses.
---
 src/plural/formula/formula.lalrpop | 34 ++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/plural/formula/formula.lalrpop b/src/plural/formula/formula.lalrpop
index cdd62da..8d104df 100644
--- a/src/plural/formula/formula.lalrpop
+++ b/src/plural/formula/formula.lalrpop
@@ -26,23 +26,26 @@ And: Node = {
 };
 
 Logical: Node = {
-    <l:Logical> "==" <r:Not> => Node::new_binop(BinOp::Eq, l, r),
-    <l:Logical> "!=" <r:Not> => Node::new_binop(BinOp::Ne, l, r),
-    <l:Logical> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
-    <l:Logical> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
-    <l:Logical> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
-    <l:Logical> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
+    <l:Logical> "==" <r:Relation> => Node::new_binop(BinOp::Eq, l, r),
+    <l:Logical> "!=" <r:Relation> => Node::new_binop(BinOp::Ne, l, r),
+    Relation,
+};
+
+Relation: Node = {
+    <l:Relation> "<" <r:Not> => Node::new_binop(BinOp::Lt, l, r),
+    <l:Relation> "<=" <r:Not> => Node::new_binop(BinOp::Lte, l, r),
+    <l:Relation> ">" <r:Not> => Node::new_binop(BinOp::Gt, l, r),
+    <l:Relation> ">=" <r:Not> => Node::new_binop(BinOp::Gte, l, r),
     Not,
 };
 
 Not: Node = {
-    "!" <r:Add> => Node::new_unop(UnOp::Not, r),
     "not" <r:Add> => Node::new_unop(UnOp::Not, r),
     Add,
 };
 
 Add: Node = {
-    <l:Add> "+" <r:Mul> => Node::new_binop(BinOp::Add, l, r),
+    <l:Add> "+" <r:PlainMul> => Node::new_binop(BinOp::Add, l, r),
     <l:Add> "-" <r:Mul> => Node::new_binop(BinOp::Sub, l, r),
     Mul,
 };
@@ -54,8 +57,21 @@ Mul: Node = {
     Factor,
 }
 
+// The right operand of a sum: as `Mul`, but not starting with "!"
+PlainMul: Node = {
+    <l:PlainMul> "*" <r:Factor> => Node::new_binop(BinOp::Mul, l, r),
+    <l:PlainMul> "/" <r:Factor> => Node::new_binop(BinOp::Div, l, r),
+    <l:PlainMul> "%" <r:Factor> => Node::new_binop(BinOp::Mod, l, r),
+    PlainFactor,
+}
+
 Factor: Node = {
-    "-" <r:Term> => Node::new_unop(UnOp::Neg, r),
+    "!" <r:Factor> => Node::new_unop(UnOp::Not, r),
+    PlainFactor,
+};
+
+PlainFactor: Node = {
+    "-" <r:Factor> => Node::new_unop(UnOp::Neg, r),
     Term,
 };
 
-- 
2.43.0


From 0ba22373e68d6df23dc44e9a331861be99d7c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 6/8] fix: an over-long plural formula is refused instead of
 overflowing the stack

The expression tree is evaluated and dropped recursively, so that a formula of
some thousand nested operators aborted the process.
---
 src/plural/formula/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plural/formula/mod.rs b/src/plural/formula/mod.rs
index 0564cc3..dc3ed3d 100644
--- a/src/plural/formula/mod.rs
+++ b/src/plural/formula/mod.rs
@@ -5,6 +5,9 @@ use lalrpop_util::{lalrpop_mod, ParseError};
 
 lalrpop_mod!(formula, "/plural/formula/formula.rs");
 
+/// Longest formula accepted, in bytes: the expression tree is walked recursively, so that its depth must be bounded
+const MAX_LENGTH: usize = 2048;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub(super) struct Formula {
     expr: node::Node,
@@ -18,6 +21,10 @@ impl Formula {
             return Ok(Formula { expr: node::Node::Var });
         }
 
+        if input.len() > MAX_LENGTH {
+            return Err(Error::PluralForms(format!("Formula longer than {} bytes", MAX_LENGTH)));
+        }
+
         let parser = formula::FormulaParser::new();
         let res: Result<node::Node, ParseError<_, _, _>> = parser.parse(input);
 
-- 
2.43.0


From f99589d3484ad96c08082e3a572d298d82c89ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 7/8] fix: a first entry without msgid is reported instead of
 being dropped

A catalogue starting with a context, previous lines or a plural source but no
msgid lost these lines silently.
---
 src/po/message_extractor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index 6d95de3..b2c42a2 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -34,6 +34,7 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
         };
 
         // previous message (simple message with empty text)
+        let has_prev_message = prev_msgid.is_some();
         let prev_message = self.new_previous(prev_msgid, prev_msgid_pl);
 
         // context
@@ -42,14 +43,20 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
         // source
         let msgid = self.parse_msg("msgid")?;
 
-        if (!first) && msgid.is_none() {
+        // only a first entry without any field may have no source
+        let is_bare = prev_context.is_none() && !has_prev_message && context.is_none();
+
+        if msgid.is_none() && !(first && is_bare) {
             self.expected("msgid")?;
 
             return Ok(None);
         }
 
         // plural
-        let msgid_pl = self.parse_msg("msgid_plural")?;
+        let msgid_pl = match msgid {
+            Some(_) => self.parse_msg("msgid_plural")?,
+            None => None,
+        };
 
         let message = match self.new_message(msgid, msgid_pl)? {
             Some(msg) => msg,
-- 
2.43.0


From d14fd85038fa0cf003f0364b2384f4c3a7ac0162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 8/8] fix: a plural entry with an empty source is refused like
 a simple one

Only the header, a simple first entry, may have an empty msgid.
---
 src/po/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 1d0ecbf..bcb3338 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -154,7 +154,9 @@ impl<'p, R: Read> PoReader<'p, R> {
             }
         };
 
-        if (!first) && unit.message.is_empty() {
+        let is_header = first && !unit.message.is_plural();
+
+        if unit.message.get_id().is_empty() && !is_header {
             Err(Error::Unexpected(line, String::from("Source should not be empty")))
         } else {
             if unit.state == State::Empty && !unit.message.is_blank() {
-- 
2.43.0

