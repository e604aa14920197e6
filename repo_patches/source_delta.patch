From 49545dcf03198a889ddf21b16c7527bb2a435520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 1/9] fix: accept fully consumed text with non ASCII characters

The number of characters parsed was compared with the text length in bytes
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 484d1f3..8f88db7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -510,7 +510,8 @@ fn parse_with_debug(
     } else {
         parser::expression::parse(parser::Status::init(s, &rules))?
     };
-    match (st.pos.n == s.len(), st.potential_error.clone()) {
+    let consumed_all = st.it_parsing.as_str().is_empty();
+    match (consumed_all, st.potential_error.clone()) {
         (true, _) => Ok(ast),
         (false, Some(e)) => Err(e),
         (false, None) => Err(parser::Error::from_status_normal(
-- 
2.43.0


From ce026c78f204161d3bf77efd72fb2b9d9af6b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 2/9] fix: error context on text with non ASCII characters

Character positions were used as byte offsets to get the line before the
error, producing a wrong context or a panic
---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 85c773b..c06041c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -160,10 +160,13 @@ mod test;
 //-----------------------------------------------------------------------
 impl Error {
     pub(crate) fn from_status(status: &Status, descr: &str, prior: ErrPriority) -> Self {
+        let parsed_len = status.text2parse.len() - status.it_parsing.as_str().len();
+        let parsed = &status.text2parse[..parsed_len];
+        let line_begin = parsed.rfind('\n').map_or(0, |i| i + 1);
         Error {
             pos: status.pos.clone(),
             descr: descr.to_owned(),
-            line_before: status.text2parse[status.pos.start_line..status.pos.n].to_string(),
+            line_before: parsed[line_begin..].to_string(),
             line_after: status
                 .it_parsing
                 .clone()
-- 
2.43.0


From c80085b28f56c8749c759622f31874431918b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 3/9] fix: a repetition with maximum 0 matches zero times

The maximum was checked just after an iteration, so rep!(e, 0, 0) was
repeating without limit
---
 src/parser/expression/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index 00ab4d9..e88f3e3 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -296,32 +296,32 @@ fn parse_not<'a>(status: Status<'a>, expression: &'a Expression) -> ResultExpr<'
 fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a> {
     let big_min_bound = |counter| counter >= rep_info.min.0;
     let touch_max_bound = |counter: usize| match rep_info.max {
-        Some(ref m) => counter + 1 == m.0,
+        Some(ref m) => counter >= m.0,
         None => false,
     };
 
     let init_tc: (_, _, Vec<ast::Node>) = (status, 0, vec![]);
     Ok(tail_call(init_tc, |acc| {
+        if touch_max_bound(acc.1) {
+            return TailCall::Return(Ok((acc.0, acc.2)));
+        }
         let try_parse = parse_expr(acc.0.clone(), &rep_info.expression);
-        match (try_parse, big_min_bound(acc.1), touch_max_bound(acc.1)) {
-            (Err(e), true, _) => {
+        match (try_parse, big_min_bound(acc.1)) {
+            (Err(e), true) => {
                 if e.priority == ErrPriority::Critical {
                     TailCall::Return(Err(e))
                 } else {
                     TailCall::Return(Ok((acc.0.set_potential_error(e), acc.2)))
                 }
             }
-            (Err(e), false, _) => TailCall::Return(Err(e)),
+            (Err(e), false) => TailCall::Return(Err(e)),
             //     Err(Error::from_status(
             //     &acc.0,
             //     &format!("inside repeat {:#?}", e),
             // ))),
-            (Ok((status, vnodes)), _, false) => {
+            (Ok((status, vnodes)), _) => {
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
-            (Ok((status, vnodes)), _, true) => {
-                TailCall::Return(Ok((status, acc.2.iappend(vnodes))))
-            }
         }
     })?)
 }
-- 
2.43.0


From a72964777b6ad8270355e462add0588a6def64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 4/9] fix: unbounded repetition of an expression matching
 nothing ends

rep!(rep!(lit!("a"), 0), 0) was looping forever
---
 src/parser/expression/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/expression/mod.rs b/src/parser/expression/mod.rs
index e88f3e3..feec9d3 100644
--- a/src/parser/expression/mod.rs
+++ b/src/parser/expression/mod.rs
@@ -320,6 +320,13 @@ fn parse_repeat<'a>(status: Status<'a>, rep_info: &'a RepInfo) -> ResultExpr<'a>
             //     &format!("inside repeat {:#?}", e),
             // ))),
             (Ok((status, vnodes)), _) => {
+                //  repeating an iteration that consumes nothing, would never end
+                if rep_info.max.is_none()
+                    && status.pos.n == acc.0.pos.n
+                    && big_min_bound(acc.1 + 1)
+                {
+                    return TailCall::Return(Ok((status, acc.2.iappend(vnodes))));
+                }
                 TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))
             }
         }
-- 
2.43.0


From d30a641fc96abbf43fac0ba386e48aca235d6dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 5/9] fix: the end of file atom yields an EOF node

It was yielding a value node with the text "EOF", wich is not in the input
---
 src/parser/atom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/atom/mod.rs b/src/parser/atom/mod.rs
index cca195d..215fa67 100644
--- a/src/parser/atom/mod.rs
+++ b/src/parser/atom/mod.rs
@@ -155,7 +155,7 @@ fn parse_match<'a>(status: Status<'a>, match_rules: &MatchRules) -> Result<'a> {
 fn parse_eof(status: Status) -> Result {
     match status.get_char() {
         Ok((st, _ch)) => Err(Error::from_status_normal(&st, "expected EOF")),
-        Err(st) => ok!(st, "EOF"),
+        Err(st) => Ok((st, ast::Node::EOF)),
     }
 }
 
-- 
2.43.0


From d5940be29f6bb36fc0efc3b2832393f904c7e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 6/9] fix: accept empty single quoted literals in peg

---
 src/peg/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 7089a61..5e1a9b0 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -788,7 +788,10 @@ fn consume_literal_no_esc(
 
     consuming_rule("lit_noesc", nodes, context, |nodes, context| {
         let (nodes, context) = consume_single_quote(nodes, context)?;
-        let (val, nodes) = flat::consume_val(nodes)?;
+        let (val, nodes) = match flat::peek_first_node(nodes)? {
+            flat::Node::Val(_) => flat::consume_val(nodes)?,
+            _ => ("", nodes),
+        };
 
         let val = val.replace(r#"\"#, r#"\\"#);
         let vclone = val.clone();
-- 
2.43.0


From bc9b23620fe03a328ece1d0c24756ecb642265f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 7/9] fix: peg single quoted literals with a backslash

The backslash was duplicated in the rules, to compensate that the code
generator was not escaping it. Now the generator escapes backslashes
---
 src/peg/gcode.rs | 3 ++-
 src/peg/mod.rs   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 3c5eb83..38189ff 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -84,7 +84,8 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 
 fn atom2code(atom: &Atom) -> String {
     let replace_esc = |s: String| {
-        s.replace("\n", r#"\n"#)
+        s.replace(r#"\"#, r#"\\"#)
+            .replace("\n", r#"\n"#)
             .replace("\r", r#"\r"#)
             .replace("\t", r#"\t"#)
             .replace(r#"""#, r#"\""#)
diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 5e1a9b0..36b31de 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -793,7 +793,7 @@ fn consume_literal_no_esc(
             _ => ("", nodes),
         };
 
-        let val = val.replace(r#"\"#, r#"\\"#);
+        let val = val.to_string();
         let vclone = val.clone();
         push_err!(&format!("l:({})", vclone), {
             let (nodes, context) = consume_single_quote(nodes, context)?;
-- 
2.43.0


From 4b736d76b99629177122107f3df652b727ab24fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 8/9] fix: peg sequences with elements after error(...)

 main = 'a' error("b") 'c'   is valid on peg grammar, but it was rejected
---
 src/peg/mod.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/peg/mod.rs b/src/peg/mod.rs
index 36b31de..9dc10b1 100644
--- a/src/peg/mod.rs
+++ b/src/peg/mod.rs
@@ -505,16 +505,29 @@ fn consume_and(
             } else {
                 let (expr, nodes, context) = consume_rep_or_neg(nodes, context)?;
                 let eov = eov.ipush(expr);
-                let next_node = flat::peek_first_node(nodes)?;
-
-                match (next_node, flat::get_nodename(next_node)) {
-                    (flat::Node::BeginRule(_), Ok("and")) => rec_consume_and(eov, nodes, context),
-                    _ => Ok((eov, nodes, context)),
-                }
+                rec_consume_next_ands(eov, nodes, context)
             }
         })
     }
 
+    //  error does not take next elements of the sequence,
+    //  therefore, there could be several ands on same level
+    fn rec_consume_next_ands(
+        eov: ExprOrVecExpr,
+        nodes: &[flat::Node],
+        context: Context,
+    ) -> result::Result<(ExprOrVecExpr, &[flat::Node], Context), Error> {
+        let next_node = flat::peek_first_node(nodes)?;
+
+        match (next_node, flat::get_nodename(next_node)) {
+            (flat::Node::BeginRule(_), Ok("and")) => {
+                let (eov, nodes, context) = rec_consume_and(eov, nodes, context)?;
+                rec_consume_next_ands(eov, nodes, context)
+            }
+            _ => Ok((eov, nodes, context)),
+        }
+    }
+
     let build_and_expr = |vexpr| Expression::And(expression::MultiExpr(vexpr));
     //  --------------------------
 
-- 
2.43.0


From b128563e8bf6f77e8189e5876c156efd1e72733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 9/9] fix: generated code reproduces any name, class and eof

Names, class chars and ranges with quotes, backslashes, ends of line...
classes without ranges, and the end of file atom, produced code which was
not valid or with a different content
---
 src/lib.rs       | 22 ++++++++++++++++++++++
 src/peg/gcode.rs | 47 +++++++++++++++++++++++++++++------------------
 2 files changed, 51 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8f88db7..6fec440 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,6 +237,28 @@ macro_rules! dot {
     }};
 }
 
+/// Atom::EOF (end of file)
+///
+/// example
+/// ```
+/// #[macro_use]  extern crate dynparser;
+/// use dynparser::parse;
+///
+/// fn main() {
+///     let rules = rules!{
+///        "main"   =>  and!(dot!(), eof!())
+///     };
+///
+///     assert!(parse("a", &rules).is_ok())
+/// }
+/// ```
+#[macro_export]
+macro_rules! eof {
+    () => {{
+        $crate::parser::expression::Expression::Simple($crate::parser::atom::Atom::EOF)
+    }};
+}
+
 /// Generate a match expression with optional characters and a list
 /// of bounds
 ///
diff --git a/src/peg/gcode.rs b/src/peg/gcode.rs
index 38189ff..2eafb20 100644
--- a/src/peg/gcode.rs
+++ b/src/peg/gcode.rs
@@ -58,7 +58,15 @@ pub fn rust_from_rules(rules: &expression::SetOfRules) -> String {
 }
 
 fn rule2code(name: &str, expr: &Expression) -> String {
-    format!(r##"r#"{}"# => {}"##, name, expr2code(expr))
+    format!(r#""{}" => {}"#, replace_esc(name), expr2code(expr))
+}
+
+fn replace_esc(s: &str) -> String {
+    s.replace(r#"\"#, r#"\\"#)
+        .replace("\n", r#"\n"#)
+        .replace("\r", r#"\r"#)
+        .replace("\t", r#"\t"#)
+        .replace(r#"""#, r#"\""#)
 }
 
 fn expr2code(expr: &Expression) -> String {
@@ -68,7 +76,7 @@ fn expr2code(expr: &Expression) -> String {
         Expression::Or(mexpr) => format!("or!({})", mexpr2code(mexpr)),
         Expression::Not(e) => format!("not!({})", expr2code(e)),
         Expression::Repeat(rep) => repeat2code(rep),
-        Expression::RuleName(rname) => format!(r##"ref_rule!(r#"{}"#)"##, rname),
+        Expression::RuleName(rname) => format!(r#"ref_rule!("{}")"#, replace_esc(rname)),
     }
 }
 
@@ -83,17 +91,9 @@ fn mexpr2code(mexpr: &expression::MultiExpr) -> String {
 }
 
 fn atom2code(atom: &Atom) -> String {
-    let replace_esc = |s: String| {
-        s.replace(r#"\"#, r#"\\"#)
-            .replace("\n", r#"\n"#)
-            .replace("\r", r#"\r"#)
-            .replace("\t", r#"\t"#)
-            .replace(r#"""#, r#"\""#)
-    };
-
     match atom {
-        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s.to_string())),
-        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s.to_string())),
+        Atom::Literal(s) => format!(r#"lit!("{}")"#, replace_esc(s)),
+        Atom::Error(s) => format!(r#"error!("{}")"#, replace_esc(s)),
         Atom::Match(mrules) => match_rules2code(mrules),
         Atom::Dot => "dot!()".to_string(),
         Atom::EOF => "eof!()".to_string(),
@@ -103,17 +103,28 @@ fn atom2code(atom: &Atom) -> String {
 fn match_rules2code(mrules: &atom::MatchRules) -> String {
     fn bounds2code(acc: String, bounds: &[(char, char)]) -> String {
         match bounds.split_first() {
-            Some(((f, t), rest)) => {
-                format!(", from '{}', to '{}' {}", f, t, bounds2code(acc, rest))
-            }
+            Some(((f, t), rest)) => format!(
+                ", from '{}', to '{}' {}",
+                char_esc(*f),
+                char_esc(*t),
+                bounds2code(acc, rest)
+            ),
             None => acc,
         }
     }
+    fn char_esc(ch: char) -> String {
+        replace_esc(&ch.to_string()).replace("'", r#"\'"#)
+    }
 
-    format!(
-        r##"ematch!(chlist r#"{}"#  {})"##,
-        &mrules.0,
+    let bounds = if mrules.1.is_empty() {
+        ", from2 vec![]".to_string()
+    } else {
         bounds2code(String::new(), &mrules.1)
+    };
+    format!(
+        r#"ematch!(chlist "{}"  {})"#,
+        replace_esc(&mrules.0),
+        bounds
     )
 }
 
-- 
2.43.0

