From 2e821dbc300cca99ec01c3e65b850f178976269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 01/51] fix: report an unterminated string argument instead of
 panicking

---
 stuart-core/src/parse/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..3f23ee2 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,7 +46,7 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if arg.len() > 1 && arg.starts_with('"') && arg.ends_with('"') {
             // Parse a positional string argument.
 
             let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-- 
2.43.0


From d4dbf5a47e628fadf767402c56e47f0f0f419c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 02/51] fix: make ifle compare with less than or equal to

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..cd26369 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From f6bdc1c67e181177912dd67e21e22a093838b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 03/51] fix: skip nested blocks as a whole in untaken
 conditional branches

---
 stuart-core/src/functions/mod.rs               |  9 +++++++++
 stuart-core/src/functions/parsers/if.rs        | 14 ++++++++++++++
 stuart-core/src/functions/parsers/ifdefined.rs | 14 ++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index cd26369..e537063 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -175,6 +175,15 @@ macro_rules! quiet_assert {
     };
 }
 
+/// Returns true if the named function opens a block, which must be closed with `end`.
+#[inline]
+pub(crate) fn opens_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
+
 /// Returns true if the string is an identifier of a function.
 #[inline]
 pub fn is_ident(s: &str) -> bool {
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..52e00e9 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -64,6 +64,7 @@ macro_rules! if_parsers {
                         ));
 
                         let stack_height = scope.stack.len();
+                        let mut skipped_blocks: usize = 0;
                         scope.stack.push(frame);
 
                         while scope.stack.len() > stack_height {
@@ -74,6 +75,19 @@ macro_rules! if_parsers {
 
                             let function_name = token.as_function().map(|f| f.name().to_string());
 
+                            // Blocks within a branch which isn't taken are skipped as a whole.
+                            if !condition {
+                                match function_name.as_deref() {
+                                    Some(name) if $crate::functions::opens_block(name) => skipped_blocks += 1,
+                                    Some("end") if skipped_blocks > 0 => {
+                                        skipped_blocks -= 1;
+                                        continue;
+                                    }
+                                    Some("else") if skipped_blocks > 0 => continue,
+                                    _ => (),
+                                }
+                            }
+
                             if condition
                                 || ((function_name == Some("end".to_string())
                                     || function_name == Some("else".to_string()))
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..5941f19 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -49,6 +49,7 @@ impl Function for IfDefinedFunction {
         let frame = StackFrame::new(format!("ifdefined:{}", self.variable_name));
 
         let stack_height = scope.stack.len();
+        let mut skipped_blocks: usize = 0;
         scope.stack.push(frame);
 
         while scope.stack.len() > stack_height {
@@ -59,6 +60,19 @@ impl Function for IfDefinedFunction {
 
             let function_name = token.as_function().map(|f| f.name().to_string());
 
+            // Blocks within a branch which isn't taken are skipped as a whole.
+            if !defined {
+                match function_name.as_deref() {
+                    Some(name) if crate::functions::opens_block(name) => skipped_blocks += 1,
+                    Some("end") if skipped_blocks > 0 => {
+                        skipped_blocks -= 1;
+                        continue;
+                    }
+                    Some("else") if skipped_blocks > 0 => continue,
+                    _ => (),
+                }
+            }
+
             if defined
                 || ((function_name == Some("end".to_string())
                     || function_name == Some("else".to_string()))
-- 
2.43.0


From 7255afafac763c0c9fad9ca95c78f5cce13318b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 04/51] fix: skip the body of a for loop with nothing to
 iterate over

---
 stuart-core/src/functions/parsers/for.rs | 36 +++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..f81c452 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{opens_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -228,6 +228,12 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut variable_iter = variable_iter.peekable();
+
+        if variable_iter.peek().is_none() {
+            return self.skip_body(scope);
+        }
+
         for variable in variable_iter {
             scope.tokens.rewind_to(waypoint);
 
@@ -252,3 +258,31 @@ impl Function for ForFunction {
         Ok(())
     }
 }
+
+impl ForFunction {
+    /// Skips the body of the loop without executing it, up to and including its `end`.
+    fn skip_body(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
+        let self_token = scope.tokens.current().unwrap().clone();
+        let mut depth: usize = 0;
+
+        loop {
+            let token = scope
+                .tokens
+                .next()
+                .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+            match token.as_function() {
+                Some(f) if opens_block(f.name()) => depth += 1,
+                Some(f) if f.name() == "end" && depth > 0 => depth -= 1,
+                Some(f) if f.name() == "end" => {
+                    scope
+                        .stack
+                        .push(StackFrame::new(format!("for:{}", self.variable_name)));
+
+                    return token.process(scope);
+                }
+                _ => (),
+            }
+        }
+    }
+}
-- 
2.43.0


From 436382c1de4b82c910b74ef7f5ff86e1e5ba19a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 05/51] fix: don't append an ellipsis to excerpts of uncut
 non-ASCII text

---
 stuart-core/src/functions/parsers/excerpt.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..c0d77b7 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -61,7 +61,6 @@ impl Function for ExcerptFunction {
         let mut chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
-        let mut total_chars: usize = 0;
 
         while excerpt.len() < self.length {
             if let Some(ch) = chars.next() {
@@ -72,14 +71,12 @@ impl Function for ExcerptFunction {
                 } else if !tag {
                     excerpt.push(ch);
                 }
-
-                total_chars += 1;
             } else {
                 break;
             }
         }
 
-        if total_chars < string.len() {
+        if chars.next().is_some() {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From 700264a4445da7dc34d18b8027ee34743e7a5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 06/51] fix: compare numbers without truncating them to 32-bit
 integers

---
 stuart-core/src/functions/mod.rs        | 12 ++++++------
 stuart-core/src/functions/parsers/if.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index e537063..79857b4 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -89,8 +89,8 @@ enum Input {
     Variable(String),
     /// A string literal.
     String(String),
-    /// An integer literal.
-    Integer(i32),
+    /// A number.
+    Number(f64),
 }
 
 impl Input {
@@ -101,7 +101,7 @@ impl Input {
         match self {
             Input::Variable(name) => match scope.get_variable(name) {
                 Some(Value::String(s)) => Some(Input::String(s)),
-                Some(Value::Number(i)) => Some(Input::Integer(i as i32)),
+                Some(Value::Number(n)) => Some(Input::Number(n)),
                 _ => None,
             },
             x => Some(x.clone()),
@@ -114,7 +114,7 @@ impl PartialEq for Input {
         match (self, other) {
             (Self::Variable(l0), Self::Variable(r0)) => l0 == r0,
             (Self::String(l0), Self::String(r0)) => l0 == r0,
-            (Self::Integer(l0), Self::Integer(r0)) => l0 == r0,
+            (Self::Number(l0), Self::Number(r0)) => l0 == r0,
             _ => false,
         }
     }
@@ -125,7 +125,7 @@ impl PartialOrd for Input {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
             (Self::String(_), Self::String(_)) => None,
-            (Self::Integer(i), Self::Integer(j)) => i.partial_cmp(j),
+            (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
     }
@@ -136,7 +136,7 @@ impl ToString for Input {
         match self {
             Input::Variable(v) => v.clone(),
             Input::String(s) => s.clone(),
-            Input::Integer(i) => i.to_string(),
+            Input::Number(n) => n.to_string(),
         }
     }
 }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index 52e00e9..9ce56b2 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -23,14 +23,14 @@ macro_rules! if_parsers {
                         let input_2 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
                         let input_1 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
-- 
2.43.0


From fb9bd4d5eeebde4076811ab11333e28d144721c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:40 +0000
Subject: [PATCH 07/51] fix: don't panic when a markdown body iterates over
 unprocessed markdown

---
 stuart-core/src/parse/markdown.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..fe86d20 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -106,7 +106,10 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+        v["content"] = match &self.html {
+            Some(html) => Value::String(html.clone()),
+            None => Value::Null,
+        };
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From 0ce07a5c57295cbcb0c517b53b6a88d1af054f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 08/51] fix: account for frontmatter in the locations of
 markdown errors

---
 stuart-core/src/parse/markdown.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index fe86d20..5b0c5ea 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -89,7 +89,15 @@ pub fn parse_markdown(
         .collect::<Vec<_>>()
         .join("\n");
 
-    let markdown = parse_html(&raw_markdown, path, plugins)?;
+    // The frontmatter isn't passed to the parser, so locations must be adjusted to account for it.
+    let mut markdown = parse_html(&raw_markdown, path, plugins).map_err(|mut e| {
+        e.line += lines_to_skip as u32;
+        e
+    })?;
+
+    for token in &mut markdown {
+        token.line += lines_to_skip as u32;
+    }
 
     Ok(ParsedMarkdown {
         frontmatter,
-- 
2.43.0


From 0b67d397a6fd34b0bc94eb49e13ae3d2354921ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 09/51] fix: don't panic when displaying an error without a
 line number

---
 stuart/src/error.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..ef1a4fc 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -95,9 +95,11 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let line = read_to_string(&self.path)
-            .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+        let line = read_to_string(&self.path).ok().and_then(|s| {
+            s.lines()
+                .nth((self.line as usize).checked_sub(1)?)
+                .map(|s| s.to_string())
+        });
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From 92adab6d6c921dfaf7b8413c1f5c6b835de5679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 10/51] fix: don't panic when an environment variable isn't
 valid Unicode

---
 stuart-core/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..dc01613 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,10 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            // Variables which aren't valid Unicode can't be represented, so they aren't defined.
+            let mut env = std::env::vars_os()
+                .filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?)))
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From bd5643e10443abbca7136fd0c5be3c47624686d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 11/51] fix: don't let an inherited STUART_ENV shadow that of
 the build

---
 stuart-core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index dc01613..7d8bedb 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -139,6 +139,7 @@ impl Stuart {
             // Variables which aren't valid Unicode can't be represented, so they aren't defined.
             let mut env = std::env::vars_os()
                 .filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?)))
+                .filter(|(k, _)| k != "STUART_ENV")
                 .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
-- 
2.43.0


From e64d03a4517190b74833ed9362face256c8b3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 12/51] fix: accept the documented string form of the sortby
 argument

---
 stuart-core/src/functions/parsers/for.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index f81c452..ad7c4ef 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -96,10 +96,14 @@ impl FunctionParser for ForParser {
                     );
                 }
                 "sortby" => {
-                    quiet_assert!(arg.as_variable().is_some())?;
                     quiet_assert!(sort_variable.is_none())?;
 
-                    sort_variable = Some(arg.as_variable().unwrap().to_string());
+                    // The key can be given as `$variable.key` or, as documented, simply `"key"`.
+                    sort_variable = Some(match arg {
+                        RawArgument::Variable(key) => key.to_string(),
+                        RawArgument::String(key) => format!("{}.{}", variable_name, key),
+                        _ => return Err(ParseError::InvalidArgument),
+                    });
                 }
                 "order" => {
                     sort_order = match arg.as_string() {
-- 
2.43.0


From 7ee9bd0b37ed815c354a979f7ab62942291388a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 13/51] fix: report unclosed blocks in the root template

---
 stuart-core/src/process/mod.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..c65536a 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -135,8 +135,22 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let output = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .map(|frame| frame.output)
+            .ok_or_else(|| TracebackError {
+                path: root
+                    .first()
+                    .map_or_else(|| self.source().to_path_buf(), |t| t.path.clone()),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(output),
             new_name: None,
         })
     }
@@ -206,10 +220,24 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let output = scope
+            .stack
+            .pop()
+            .filter(|frame| frame.name == "base")
+            .map(|frame| frame.output)
+            .ok_or_else(|| TracebackError {
+                path: root
+                    .first()
+                    .map_or_else(|| self.source().to_path_buf(), |t| t.path.clone()),
+                line: 0,
+                column: 0,
+                kind: ProcessError::StackError,
+            })?;
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From c9f9e5331f6363f9fd0818cf1419d0be23e3ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 14/51] fix: save static files and pages which are named like
 templates or data files

---
 stuart-core/src/fs/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..7a05b6b 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -351,11 +351,14 @@ impl Node {
                 name,
                 contents,
                 parsed_contents,
+                source,
                 ..
             } => {
-                if name != "root.html"
-                    && name != "md.html"
-                    && (config.save_data_files || !name.ends_with(".json"))
+                // Templates are identified by their source, as pages such as `root.md` could have the same output name.
+                let is_template = source.ends_with("root.html") || source.ends_with("md.html");
+
+                if parsed_contents.is_ignored()
+                    || (!is_template && (config.save_data_files || !name.ends_with(".json")))
                 {
                     if config.strip_extensions
                         && name.ends_with(".html")
-- 
2.43.0


From da2e078148e6b6a800b53c210482960edef62273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 15/51] fix: implement the name of JavaScript functions

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From dfcdea8caa14271b929cf9b83146c931f313c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:53 +0000
Subject: [PATCH 16/51] fix: don't panic on undefined values within JavaScript
 objects and arrays

---
 stuart/src/plugins/js/json.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..c2ec7aa 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -76,7 +76,7 @@ pub fn js_to_json<'a>(
         for i in 0..length {
             let v8_value = v8_array.get_index(scope, i).unwrap();
             let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            array.push(value.unwrap_or(Value::Null));
         }
         return Some(Value::Array(array));
     }
@@ -94,7 +94,11 @@ pub fn js_to_json<'a>(
             let key = v8_key.to_rust_string_lossy(scope).to_string();
             let v8_value = v8_object.get(scope, v8_key).unwrap();
             let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+
+            // Properties which can't be represented in JSON are omitted, as in `JSON.stringify`.
+            if let Some(value) = value {
+                object.push((key, value));
+            }
         }
 
         return Some(Value::Object(object));
-- 
2.43.0


From 1888f569cb2764e1b7e213863e846f4e5d9585bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 17/51] fix: let JavaScript replace the value of a variable it
 has already set

---
 stuart/src/plugins/js/context.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index c1e77e6..cf6474f 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -65,11 +65,10 @@ pub fn set_variable<'s>(
         return;
     }
 
-    stuart_scope
-        .stack
-        .last_mut()
-        .unwrap()
-        .add_variable(key, json_value.unwrap());
+    let frame = stuart_scope.stack.last_mut().unwrap();
+
+    frame.variables.retain(|(name, _)| name != &key);
+    frame.add_variable(key, json_value.unwrap());
 }
 
 /// Gets a variable from the current Stuart scope.
-- 
2.43.0


From f0db36008733c69efc5a4e93d67fd9c3a50144bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 18/51] fix: find the library of a plugin whose Cargo project
 name is hyphenated

---
 stuart/src/plugins/source.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..7d24a1a 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -54,16 +54,19 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         });
     }
 
+    // Cargo replaces hyphens with underscores in the names of libraries.
+    let library_name = get_project_name(&manifest).unwrap().replace('-', "_");
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", library_name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", library_name));
 
     Ok(target_file)
 }
-- 
2.43.0


From 1dd8b29eac4522cbeab25d5be51da74427d550be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 19/51] fix: escape the name and author in the manifests of new
 sites

---
 stuart/src/new.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..7cffee9 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,13 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml_string(name)).into_bytes();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = toml_string(&format!("{} <{}>", name, email));
+        write!(&mut manifest, "\nauthor = {}", author).unwrap();
     }
 
     manifest.push(b'\n');
@@ -50,6 +51,11 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     Ok(())
 }
 
+/// Formats the string as a TOML string, escaping it as necessary.
+fn toml_string(string: &str) -> String {
+    toml::Value::String(string.to_string()).to_string()
+}
+
 /// Extracts the embedded directory to the filesystem.
 fn extract(root: &Path, dir: &Dir) -> Result<(), FsError> {
     for child in dir.entries() {
-- 
2.43.0


From 2cb88f01ed8383385cc63d9b44282f9bd609bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 20/51] fix: initialise the Git repository of a new site with
 an absolute path inside it

---
 stuart/src/new.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 7cffee9..e3f87c5 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -40,7 +40,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&PathBuf::from(".").join(&path).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From d3d936746fa7fa05e049bcde484336e8cf2d97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 21/51] fix: report conflicts between output paths instead of
 overwriting files

---
 stuart-core/src/fs/mod.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 7a05b6b..2799bff 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -374,10 +374,9 @@ impl Node {
                             Err(_) => return Err(Error::Fs(FsError::Write)),
                         };
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(&dir.join("index.html"), contents, source)?;
                     } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(&path.join(name), contents, source)?;
                     }
                 }
             }
@@ -426,6 +425,18 @@ impl Node {
     }
 }
 
+/// Writes the output of the given source file, ensuring that no other file has the same output path.
+fn write_new(path: &Path, contents: &[u8], source: &Path) -> Result<(), Error> {
+    if path.is_file() {
+        return Err(Error::Fs(FsError::Conflict(
+            path.to_path_buf(),
+            source.to_path_buf(),
+        )));
+    }
+
+    write(path, contents).map_err(|_| Error::Fs(FsError::Write))
+}
+
 impl Debug for Node {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From 1e6fd1dd990436e176a57421930d75db1e58ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 22/51] fix: don't rebuild when the build writes to a custom
 output directory or metadata.json

---
 stuart/src/serve/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..e02c303 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -19,7 +19,7 @@ use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -98,7 +98,11 @@ fn build_watcher(
         if let Ok(e) = rx.recv() {
             let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
 
-            if p.starts_with("dist") || p.starts_with("temp") {
+            // Ignore anything written by the build itself.
+            if path.join(p).starts_with(path.join(&ctx.output))
+                || p.starts_with("temp")
+                || p == Path::new("metadata.json")
+            {
                 continue;
             }
 
-- 
2.43.0


From f4caf4d3e7b94cee4c1dbef46a67b9f55bed8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 23/51] fix: pass the JSON key __proto__ to JavaScript as a
 property

---
 stuart/src/plugins/js/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index c2ec7aa..57c2710 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -28,7 +28,8 @@ pub fn json_to_js<'a>(
                 for (key, value) in object.into_iter() {
                     let v8_key = v8::String::new(scope, &key).unwrap().into();
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.set(scope, v8_key, v8_value);
+                    // Unlike `set`, this doesn't treat `__proto__` specially.
+                    v8_object.create_data_property(scope, v8_key, v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From 2ba44d887bbdedcef6357b09bc5139d983c79547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 24/51] fix: refuse JavaScript plugins whose functions can't be
 called instead of panicking

---
 stuart/src/plugins/js/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..324015a 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -131,6 +131,10 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                     .get(scope, key.into())
                     .ok_or_else(|| format!("invalid function at index {}", i))?;
 
+                if !function_fn.is_function() {
+                    return Err(format!("invalid function at index {}", i));
+                }
+
                 let key = v8::String::new(scope, &format!("_stuart_{}", function_name)).unwrap();
                 context.global(scope).set(scope, key.into(), function_fn);
 
-- 
2.43.0


From 0a2658821ee1b9fdab239c0d7acac1f9b4083a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 25/51] fix: only inject the reload script into HTML files

---
 stuart/src/serve/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index e02c303..7fc1fb7 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -174,7 +174,10 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
                     let mut buf = Vec::new();
 
                     if file.read_to_end(&mut buf).is_ok() {
-                        if let Some(index) = buf.windows(7).position(|w| w == b"</body>") {
+                        let is_html = path.extension().map_or(false, |e| e == "html" || e == "htm");
+                        let body_end = buf.windows(7).position(|w| w == b"</body>");
+
+                        if let Some(index) = body_end.filter(|_| is_html) {
                             let mut to_inject = Vec::with_capacity(JS.len() + 17);
                             to_inject.extend_from_slice(b"<script>");
                             to_inject.extend_from_slice(JS);
-- 
2.43.0


From af6eac7db44e5c588c924113f1b554a86ff5b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 26/51] fix: serve files whose names contain two dots or a
 colon in the development server

---
 stuart/src/serve/mod.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 7fc1fb7..ba398de 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -7,7 +7,8 @@ use crate::logger::LOGGER;
 use humphrey::http::headers::HeaderType;
 use humphrey::http::mime::MimeType;
 use humphrey::http::{Request, Response, StatusCode};
-use humphrey::route::{try_find_path, LocatedPath};
+use humphrey::percent::PercentDecode;
+use humphrey::route::LocatedPath;
 use humphrey::stream::Stream;
 use humphrey::App;
 
@@ -161,9 +162,7 @@ fn websocket_handler(request: Request, stream: Stream, state: Arc<State>) {
 ///
 /// Taken from Humphrey ([permalink](https://github.com/w-henderson/Humphrey/blob/8bf07aada8acb7e25991ac9e9f9462d9fb3086b0/humphrey/src/handlers.rs#L78)) and modified to correctly inject the WebSocket code.
 fn serve_dir(request: Request, state: Arc<State>) -> Response {
-    let uri_without_route = request.uri.strip_prefix('/').unwrap_or(&request.uri);
-
-    let located = try_find_path(&state.path, uri_without_route, &["index.html"]);
+    let located = find_path(&state.path, &request.uri);
 
     if let Some(located) = located {
         match located {
@@ -174,7 +173,9 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
                     let mut buf = Vec::new();
 
                     if file.read_to_end(&mut buf).is_ok() {
-                        let is_html = path.extension().map_or(false, |e| e == "html" || e == "htm");
+                        let is_html = path
+                            .extension()
+                            .map_or(false, |e| e == "html" || e == "htm");
                         let body_end = buf.windows(7).position(|w| w == b"</body>");
 
                         if let Some(index) = body_end.filter(|_| is_html) {
@@ -205,6 +206,35 @@ fn serve_dir(request: Request, state: Arc<State>) -> Response {
     }
 }
 
+/// Finds the file or directory of the output directory which the URI refers to.
+///
+/// Unlike Humphrey's `try_find_path`, this only refuses names which could leave the directory, and not all those containing `..` or `:`.
+fn find_path(directory: &str, uri: &str) -> Option<LocatedPath> {
+    let uri = String::from_utf8(uri.percent_decode()?).ok()?;
+    let uri = uri.trim_start_matches('/');
+
+    // Avoid path traversal exploits
+    if uri.split(['/', '\\']).any(|component| component == "..")
+        || (cfg!(windows) && uri.contains(':'))
+    {
+        return None;
+    }
+
+    let path = Path::new(directory).join(uri);
+
+    if uri.is_empty() || uri.ends_with('/') {
+        let index = path.join("index.html");
+
+        index.is_file().then(|| LocatedPath::File(index))
+    } else if path.is_file() {
+        Some(LocatedPath::File(path))
+    } else if path.is_dir() {
+        Some(LocatedPath::Directory)
+    } else {
+        None
+    }
+}
+
 /// Prints errors.
 #[allow(clippy::borrowed_box)]
 fn error_handler(e: &Box<dyn StuartError>) {
-- 
2.43.0


From 7506108c641ed204c24f245a0500da4d51fe1695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 27/51] fix: recognise the output directory of the development
 server when its path contains dots

---
 stuart/src/serve/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index ba398de..78a8c52 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -99,8 +99,11 @@ fn build_watcher(
         if let Ok(e) = rx.recv() {
             let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
 
+            let output = path.join(&ctx.output);
+            let output = output.canonicalize().unwrap_or(output);
+
             // Ignore anything written by the build itself.
-            if path.join(p).starts_with(path.join(&ctx.output))
+            if path.join(p).starts_with(output)
                 || p.starts_with("temp")
                 || p == Path::new("metadata.json")
             {
-- 
2.43.0


From e7c01c26c1105f043f8d3b8813d5b8a6dae8b64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:04 +0000
Subject: [PATCH 28/51] fix: rebuild when a content or static file named
 stuart.toml changes

---
 stuart/src/serve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 78a8c52..33690c2 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -112,7 +112,7 @@ fn build_watcher(
 
             println!();
 
-            if p.ends_with("stuart.toml") {
+            if p == Path::new("stuart.toml") {
                 log!(
                     "Detected",
                     "configuration change, please restart the server"
-- 
2.43.0


From 3a6615fc41449824f5bc9d9533925fcb30ed68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 29/51] fix: don't panic when the Cargo project of a plugin has
 no package

---
 stuart/src/plugins/source.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 7d24a1a..dde89a6 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -1,5 +1,6 @@
 //! Provides functionality for finding plugins from a source string.
 
+use crate::error::StuartError;
 use crate::scripts::ScriptError;
 
 use humphrey::Client;
@@ -33,7 +34,7 @@ pub fn find_cargo_project(root: impl AsRef<Path>, name: &str) -> Option<PathBuf>
 /// Attempts to build the Cargo project at the given path, returning the path to the compiled plugin.
 ///
 /// **Note:** this function may not work correctly in the case of workspace projects.
-pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptError> {
+pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn StuartError>> {
     let manifest = root.as_ref().join("Cargo.toml");
 
     let output = Command::new("cargo")
@@ -43,7 +44,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
     if !output.status.success() {
-        return Err(ScriptError::ScriptFailure {
+        return Err(Box::new(ScriptError::ScriptFailure {
             script: format!(
                 "cargo build --release --manifest-path {}",
                 manifest.display()
@@ -51,11 +52,13 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
             exit_code: output.status.code().unwrap_or(-1),
             stdout: String::from_utf8_lossy(&output.stdout).trim().to_string(),
             stderr: String::from_utf8_lossy(&output.stderr).trim().to_string(),
-        });
+        }));
     }
 
     // Cargo replaces hyphens with underscores in the names of libraries.
-    let library_name = get_project_name(&manifest).unwrap().replace('-', "_");
+    let library_name = get_project_name(&manifest)
+        .ok_or_else(|| format!("no package is defined in `{}`", manifest.display()))?
+        .replace('-', "_");
 
     #[cfg(target_os = "windows")]
     let target_file = root
-- 
2.43.0


From cbdd09445556ebe12898135bd49fc60ea8233c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 30/51] fix: clone the repository of a plugin again when its
 directory holds something else

---
 stuart/src/config/git.rs  | 12 ++++++++++++
 stuart/src/plugins/mod.rs |  8 ++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stuart/src/config/git.rs b/stuart/src/config/git.rs
index c653970..316c003 100644
--- a/stuart/src/config/git.rs
+++ b/stuart/src/config/git.rs
@@ -52,6 +52,18 @@ pub fn exists(url: &str) -> bool {
         .unwrap_or(false)
 }
 
+/// Checks whether the given directory is a clone of the repository at the given URL.
+pub fn is_clone_of(path: &str, url: &str) -> bool {
+    Command::new("git")
+        .arg(format!("--git-dir={}/.git", path))
+        .args(["config", "--local", "--get", "remote.origin.url"])
+        .output()
+        .map(|output| {
+            output.status.success() && String::from_utf8_lossy(&output.stdout).trim_end() == url
+        })
+        .unwrap_or(false)
+}
+
 /// Clones the repository at the given URL into the given directory.
 ///
 /// Returns `true` if the clone was successful, `false` otherwise.
diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..d8ddde9 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -14,7 +14,7 @@ use stuart_core::plugins::{Manager, Plugin};
 use libloading::Library;
 
 use std::collections::HashMap;
-use std::fs::create_dir_all;
+use std::fs::{create_dir_all, remove_dir_all};
 use std::path::Path;
 use std::time::Instant;
 
@@ -148,9 +148,13 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        if !repo_dir.exists() {
+        if !git::is_clone_of(&repo_dir_string, src) {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
+            if repo_dir.exists() {
+                remove_dir_all(&repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
+            }
+
             create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
 
             if !git::clone(src, &repo_dir_string) {
-- 
2.43.0


From 3f6ccef31a8e11aa2ede051d440367dbbebef43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 31/51] fix: report conflicts before the previous output is
 removed

---
 stuart-core/src/fs/mod.rs | 99 ++++++++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 28 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 2799bff..4bc0c47 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -14,12 +14,15 @@ pub use crate::parse::ParsedContents;
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
-use std::io::ErrorKind;
 use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 
+/// The paths to be saved, with the contents and source of each file and nothing for directories.
+type Entries<'a> = BTreeMap<PathBuf, Option<(&'a [u8], &'a Path)>>;
+
 /// Represents a node in the virtual filesystem tree.
 #[derive(Clone)]
 pub enum Node {
@@ -261,21 +264,32 @@ impl Node {
     pub fn save(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
 
-        if path.exists() && path.is_dir() {
-            remove_dir_all(&path).map_err(|_| Error::Fs(FsError::Write))?;
-        }
+        // Conflicts must be found before the previous output is removed.
+        let mut entries = BTreeMap::new();
 
         match self {
             Self::Directory { children, .. } => {
-                create_dir(&path).map_err(|_| Error::Fs(FsError::Write))?;
-
                 for child in children {
-                    child.save_recur(&path, config)?;
+                    child.save_recur(&path, config, &mut entries)?;
                 }
             }
             _ => panic!("`Node::save` should only be used on the root directory"),
         }
 
+        if path.exists() && path.is_dir() {
+            remove_dir_all(&path).map_err(|_| Error::Fs(FsError::Write))?;
+        }
+
+        create_dir(&path).map_err(|_| Error::Fs(FsError::Write))?;
+
+        // Entries are in order of their paths, so every directory comes before its contents.
+        for (path, file) in entries {
+            match file {
+                Some((contents, source)) => write_new(&path, contents, source)?,
+                None => create_dir(&path).map_err(|_| Error::Fs(FsError::Write))?,
+            }
+        }
+
         Ok(())
     }
 
@@ -328,23 +342,28 @@ impl Node {
         }
     }
 
-    /// Recursively saves this node and its descendants to the filesystem.
-    fn save_recur(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
+    /// Recursively finds the paths at which this node and its descendants are to be saved.
+    fn save_recur<'a>(
+        &'a self,
+        path: impl AsRef<Path>,
+        config: &Config,
+        entries: &mut Entries<'a>,
+    ) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
 
         match self {
-            Self::Directory { name, children, .. } => {
+            Self::Directory {
+                name,
+                children,
+                source,
+            } => {
                 let dir = path.join(name);
 
                 // It is possible that the directory already exists if strip extensions is enabled.
-                match create_dir(&dir) {
-                    Ok(_) => (),
-                    Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
-                    Err(_) => return Err(Error::Fs(FsError::Write)),
-                };
+                add_directory(entries, &dir, source)?;
 
                 for child in children {
-                    child.save_recur(&dir, config)?;
+                    child.save_recur(&dir, config, entries)?;
                 }
             }
             Self::File {
@@ -368,15 +387,10 @@ impl Node {
                         let directory_name = name.strip_suffix(".html").unwrap().to_string();
                         let dir = path.join(directory_name);
 
-                        match create_dir(&dir) {
-                            Ok(_) => (),
-                            Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
-                            Err(_) => return Err(Error::Fs(FsError::Write)),
-                        };
-
-                        write_new(&dir.join("index.html"), contents, source)?;
+                        add_directory(entries, &dir, source)?;
+                        add_file(entries, dir.join("index.html"), contents, source)?;
                     } else {
-                        write_new(&path.join(name), contents, source)?;
+                        add_file(entries, path.join(name), contents, source)?;
                     }
                 }
             }
@@ -425,13 +439,42 @@ impl Node {
     }
 }
 
+/// Adds a directory to the entries to be saved, if it isn't one of them already.
+fn add_directory(entries: &mut Entries, path: &Path, source: &Path) -> Result<(), Error> {
+    match entries.insert(path.to_path_buf(), None) {
+        None | Some(None) => Ok(()),
+        Some(Some(_)) => Err(conflict(path, source)),
+    }
+}
+
+/// Adds a file to the entries to be saved, ensuring that nothing else has the same output path.
+fn add_file<'a>(
+    entries: &mut Entries<'a>,
+    path: PathBuf,
+    contents: &'a [u8],
+    source: &'a Path,
+) -> Result<(), Error> {
+    if entries.contains_key(&path) {
+        return Err(conflict(&path, source));
+    }
+
+    entries.insert(path, Some((contents, source)));
+
+    Ok(())
+}
+
+/// Creates the error for a source file whose output path is already taken.
+fn conflict(path: &Path, source: &Path) -> Error {
+    Error::Fs(FsError::Conflict(
+        path.to_path_buf(),
+        source.to_path_buf(),
+    ))
+}
+
 /// Writes the output of the given source file, ensuring that no other file has the same output path.
 fn write_new(path: &Path, contents: &[u8], source: &Path) -> Result<(), Error> {
     if path.is_file() {
-        return Err(Error::Fs(FsError::Conflict(
-            path.to_path_buf(),
-            source.to_path_buf(),
-        )));
+        return Err(conflict(path, source));
     }
 
     write(path, contents).map_err(|_| Error::Fs(FsError::Write))
-- 
2.43.0


From c60c79e443ba0de38d8af133e2d1753ce3a388ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 32/51] fix: don't output the progress of benchmarks or blank
 lines with --quiet

---
 stuart/src/logger/mod.rs      |  5 +++++
 stuart/src/logger/progress.rs | 13 ++++++++++++-
 stuart/src/main.rs            |  4 +++-
 stuart/src/serve/mod.rs       |  4 +++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/stuart/src/logger/mod.rs b/stuart/src/logger/mod.rs
index 05073fc..9cdad94 100644
--- a/stuart/src/logger/mod.rs
+++ b/stuart/src/logger/mod.rs
@@ -51,6 +51,11 @@ impl Logger {
     pub fn has_logged(&self) -> bool {
         self.has_logged.load(Ordering::SeqCst)
     }
+
+    /// Returns `true` if only errors should be output.
+    pub fn is_quiet(&self) -> bool {
+        self.level == LogLevel::Quiet
+    }
 }
 
 /// Logs a message.
diff --git a/stuart/src/logger/progress.rs b/stuart/src/logger/progress.rs
index 1179c0d..94e4e86 100644
--- a/stuart/src/logger/progress.rs
+++ b/stuart/src/logger/progress.rs
@@ -1,5 +1,7 @@
 //! Provides the progress bar logging functionality.
 
+use super::{Logger, LOGGER};
+
 use std::io::Write;
 use termcolor::{BufferWriter, Color, ColorChoice, ColorSpec, WriteColor};
 
@@ -25,6 +27,10 @@ impl Progress {
 
     /// Prints the current state of the progress bar.
     pub fn print(&self) {
+        if is_quiet() {
+            return;
+        }
+
         let writer = BufferWriter::stderr(ColorChoice::Always);
         let mut buffer = writer.buffer();
 
@@ -64,10 +70,15 @@ impl Iterator for Progress {
         self.current += 1;
         self.print();
 
-        if self.current == self.total {
+        if self.current == self.total && !is_quiet() {
             println!();
         }
 
         Some(())
     }
 }
+
+/// Returns `true` if progress should not be output.
+fn is_quiet() -> bool {
+    LOGGER.get().map_or(false, Logger::is_quiet)
+}
diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..21483c9 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -182,7 +182,9 @@ fn bench(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
         progress.next();
     }
 
-    println!();
+    if !LOGGER.get().unwrap().is_quiet() {
+        println!();
+    }
 
     LOGGER.get().unwrap().enabled.store(true, Ordering::SeqCst);
 
diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 33690c2..7ccfee9 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -110,7 +110,9 @@ fn build_watcher(
                 continue;
             }
 
-            println!();
+            if !LOGGER.get().unwrap().is_quiet() {
+                println!();
+            }
 
             if p == Path::new("stuart.toml") {
                 log!(
-- 
2.43.0


From 867fdad29c1a182b6a458d47c4afbfe264fd48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 33/51] fix: report that the development server could not start

---
 stuart/src/serve/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 7ccfee9..b598f8b 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -79,8 +79,12 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
             .with_route("/*", serve_dir)
             .with_websocket_route("/__ws", websocket_handler);
 
-        app.run("127.0.0.1:6904")
-            .map_err(|_| Box::new("failed to start development server") as Box<dyn StuartError>)
+        if app.run("127.0.0.1:6904").is_err() {
+            let e: Box<dyn StuartError> = Box::new("failed to start development server");
+
+            error_handler(&e);
+            std::process::exit(1);
+        }
     });
 
     build_watcher(rx, streams, path, ctx);
-- 
2.43.0


From 6fd798df87a7926a7f8a6502236635d9630be388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 34/51] fix: don't crash when STUART.get or STUART.set is
 called through a reference to it

---
 stuart/src/plugins/js/context.rs | 37 +++++++++++++++++---------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index cf6474f..690777f 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -2,6 +2,15 @@
 
 use stuart_core::process::Scope;
 
+use std::cell::Cell;
+use std::ffi::c_void;
+use std::ptr::null_mut;
+
+thread_local! {
+    /// A pointer to the Stuart scope of the function which is being executed.
+    static CURRENT_SCOPE: Cell<*mut c_void> = Cell::new(null_mut());
+}
+
 /// Makes the Stuart scope accessible to `set_variable` and `get_variable` when they're called from JavaScript code.
 pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let stuart_context = v8::Object::new(scope);
@@ -9,7 +18,8 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let k_context = v8::String::new(scope, "STUART").unwrap();
     let k_set_variable = v8::String::new(scope, "set").unwrap();
     let k_get_variable = v8::String::new(scope, "get").unwrap();
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
+
+    CURRENT_SCOPE.with(|current| current.set(context as *mut _ as *mut c_void));
 
     let set_variable = v8::FunctionTemplate::new(scope, set_variable)
         .get_function(scope)
@@ -17,11 +27,9 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let get_variable = v8::FunctionTemplate::new(scope, get_variable)
         .get_function(scope)
         .unwrap();
-    let external = v8::External::new(scope, context as *mut _ as *mut std::ffi::c_void);
 
     stuart_context.set(scope, k_set_variable.into(), set_variable.into());
     stuart_context.set(scope, k_get_variable.into(), get_variable.into());
-    stuart_context.set(scope, k_external.into(), external.into());
 
     scope
         .get_current_context()
@@ -29,20 +37,15 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
         .set(scope, k_context.into(), stuart_context.into());
 }
 
-/// Gets the Stuart context from V8.
+/// Gets the current Stuart scope.
+///
+/// This doesn't rely on `this`, so it also works if the function was called through a reference to it.
 ///
 /// # Safety
-/// This function is only safe if `set_stuart_context` has previously been called with the same `scope`.
-unsafe fn get_stuart_context<'s>(
-    scope: &mut v8::HandleScope,
-    obj: v8::Local<'_, v8::Object>,
-) -> &'s mut Scope<'s> {
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
-
-    (v8::Local::<v8::External>::try_from(obj.get(scope, k_external.into()).unwrap())
-        .unwrap()
-        .value() as *mut Scope)
-        .as_mut()
+/// This function is only safe while the `context` last given to `set_stuart_context` is valid.
+unsafe fn get_stuart_context<'s>() -> &'s mut Scope<'s> {
+    CURRENT_SCOPE
+        .with(|current| (current.get() as *mut Scope).as_mut())
         .unwrap()
 }
 
@@ -52,7 +55,7 @@ pub fn set_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     _ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
+    let stuart_scope = unsafe { get_stuart_context() };
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = args.get(1);
     let json_value = super::json::js_to_json(value, scope);
@@ -77,7 +80,7 @@ pub fn get_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     mut ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
+    let stuart_scope = unsafe { get_stuart_context() };
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = stuart_scope.get_variable(&key);
     let v8_value = super::json::json_to_js(value, scope);
-- 
2.43.0


From a142028ab797ac08af02bbc619f924e7c84b28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 35/51] fix: directories called root.html or md.html no longer
 hide the templates of the directories above

---
 stuart-core/src/lib.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 7d8bedb..16c5fa0 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -258,19 +258,10 @@ impl<'a> Environment<'a> {
         let mut env = *self;
 
         for child in children {
-            match child.name() {
-                "root.html" => {
-                    env.root = match child.parsed_contents() {
-                        ParsedContents::Html(tokens) => Some(tokens),
-                        _ => None,
-                    }
-                }
-                "md.html" => {
-                    env.md = match child.parsed_contents() {
-                        ParsedContents::Html(tokens) => Some(tokens),
-                        _ => None,
-                    }
-                }
+            // Directories may have these names too, but aren't templates.
+            match (child.name(), child.parsed_contents()) {
+                ("root.html", ParsedContents::Html(tokens)) => env.root = Some(tokens),
+                ("md.html", ParsedContents::Html(tokens)) => env.md = Some(tokens),
                 _ => (),
             }
         }
-- 
2.43.0


From 0d644ad533dc82a7f73df4c9cd621e865fc19d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 36/51] fix: clone the repository of a plugin again when it
 can't be pulled

---
 stuart/src/plugins/mod.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index d8ddde9..8ca7427 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -148,7 +148,14 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        if !git::is_clone_of(&repo_dir_string, src) {
+        let is_clone = git::is_clone_of(&repo_dir_string, src);
+
+        if is_clone {
+            log!("Pulling", "plugin `{}` from `{}`", name, src);
+        }
+
+        // If its history has diverged or its files have changed, it can't be pulled but it can be cloned again.
+        if !is_clone || !git::pull(&repo_dir_string) {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
             if repo_dir.exists() {
@@ -163,15 +170,6 @@ fn load_from_source(
                     name
                 ))?;
             }
-        } else {
-            log!("Pulling", "plugin `{}` from `{}`", name, src);
-
-            if !git::pull(&repo_dir_string) {
-                Err(format!(
-                    "failed to pull Git repository for plugin `{}`",
-                    name
-                ))?;
-            }
         }
 
         let project = source::find_cargo_project(&repo_dir, name)
-- 
2.43.0


From c12b919e5758a12bb7ac7171a0e689ae7adca83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 37/51] fix: fail when a directory can't be listed instead of
 leaving out its entries

---
 stuart-core/src/fs/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 4bc0c47..b2c478a 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -175,9 +175,8 @@ impl Node {
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
         let children = content
-            .flatten()
-            .map(|path| {
-                let path = path.path();
+            .map(|entry| {
+                let path = entry.map_err(|_| Error::Fs(FsError::Read))?.path();
 
                 match metadata(&path).map(|m| m.file_type()) {
                     Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-- 
2.43.0


From 346c3e036d6cc68dfb7ebca3225eb23361c51dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:49 +0000
Subject: [PATCH 38/51] fix: fail when the scripts can't be listed instead of
 not running them

---
 stuart/src/build.rs   |  2 +-
 stuart/src/scripts.rs | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..79ba589 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -70,7 +70,7 @@ impl StuartContext {
 
         let config: Config = config.into();
 
-        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))
+        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))?
             .with_environment_variables(vec![
                 (
                     "STUART_MANIFEST_PATH".into(),
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..1e88a45 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -1,5 +1,7 @@
 //! Provides methods for locating and executing build scripts.
 
+use stuart_core::error::FsError;
+
 use std::fs::read_dir;
 use std::path::{Path, PathBuf};
 use std::process::Command;
@@ -52,11 +54,13 @@ pub enum ScriptError {
 
 impl Scripts {
     /// Loads scripts from the given directory.
-    pub fn from_directory(dir: impl AsRef<Path>) -> Self {
+    pub fn from_directory(dir: impl AsRef<Path>) -> Result<Self, FsError> {
         if let Ok(dir) = read_dir(dir.as_ref()) {
             let mut scripts = Self::default();
 
-            for entry in dir.flatten() {
+            for entry in dir {
+                let entry = entry.map_err(|_| FsError::Read)?;
+
                 if entry.path().is_file() {
                     if constants::PRE_BUILD_SCRIPT_NAMES
                         .contains(&entry.file_name().to_string_lossy().as_ref())
@@ -70,9 +74,11 @@ impl Scripts {
                 }
             }
 
-            scripts
+            Ok(scripts)
+        } else if dir.as_ref().is_dir() {
+            Err(FsError::Read)
         } else {
-            Self::default()
+            Ok(Self::default())
         }
     }
 
-- 
2.43.0


From 80f8f6544955f1945aa524afd3a02a03c4946ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 39/51] fix: don't reserve memory for the longest possible
 excerpt

---
 stuart-core/src/functions/parsers/excerpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index c0d77b7..8fe5d80 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -59,7 +59,7 @@ impl Function for ExcerptFunction {
         })?;
 
         let mut chars = string.chars();
-        let mut excerpt = String::with_capacity(self.length + 3);
+        let mut excerpt = String::new();
         let mut tag = false;
 
         while excerpt.len() < self.length {
-- 
2.43.0


From c5bad6e71d78e7579753069cefa9979d4c69e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 40/51] fix: don't take braces of an escape for the start of a
 tag

---
 stuart-core/src/parse/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/parser.rs b/stuart-core/src/parse/parser.rs
index bf76b0c..5ade3d9 100644
--- a/stuart-core/src/parse/parser.rs
+++ b/stuart-core/src/parse/parser.rs
@@ -85,18 +85,21 @@ impl<'a> Parser<'a> {
     /// The string is not included in the output.
     pub fn extract_until(&mut self, s: &str, allow_escape: bool) -> Option<String> {
         let mut result = String::with_capacity(128);
+        let mut escaped = 0;
         let old_chars = self.chars.clone();
 
         loop {
             if let Ok(c) = self.next() {
                 result.push(c);
 
-                if result.ends_with(s) {
+                // Characters of an escaped string can't be part of another one.
+                if result[escaped..].ends_with(s) {
                     if allow_escape
                         && result.len() > s.len()
                         && result.as_bytes()[result.len() - s.len() - 1] == b'\\'
                     {
                         result.remove(result.len() - s.len() - 1);
+                        escaped = result.len();
                         continue;
                     }
 
-- 
2.43.0


From 8d1e107b3051dd07eac964b9be8bbf988867c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 41/51] fix: don't end excerpts with an ellipsis when only tags
 are left out

---
 stuart-core/src/functions/parsers/excerpt.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 8fe5d80..6f71a50 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -76,7 +76,20 @@ impl Function for ExcerptFunction {
             }
         }
 
-        if chars.next().is_some() {
+        // Only text counts as left out, not tags.
+        let left_out = chars.any(|ch| {
+            if ch == '<' {
+                tag = true;
+                false
+            } else if ch == '>' {
+                tag = false;
+                false
+            } else {
+                !tag
+            }
+        });
+
+        if left_out {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From 03bde4139ed1f54975fb2c730ebb8fe41fa04d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 42/51] fix: compile Cargo plugins in their own target
 directory

---
 stuart/src/plugins/source.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index dde89a6..2b38efe 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -40,6 +40,8 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn St
     let output = Command::new("cargo")
         .args(["build", "--release", "--manifest-path"])
         .arg(&manifest)
+        .arg("--target-dir")
+        .arg(root.as_ref().join("target"))
         .output()
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
-- 
2.43.0


From f2080e27df8222f9c3548e61fba6a7c782c83218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 43/51] fix: load Cargo plugins whose library has a name of its
 own

---
 stuart/src/plugins/source.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 2b38efe..9d6aff0 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -58,7 +58,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn St
     }
 
     // Cargo replaces hyphens with underscores in the names of libraries.
-    let library_name = get_project_name(&manifest)
+    let library_name = get_library_name(&manifest)
         .ok_or_else(|| format!("no package is defined in `{}`", manifest.display()))?
         .replace('-', "_");
 
@@ -87,6 +87,18 @@ fn get_project_name(manifest: &Path) -> Option<String> {
         .map(|s| s.to_string())
 }
 
+/// Attempts to get the name of the library of the Cargo project defined by the given manifest.
+///
+/// It is the name of the project unless the library has a name of its own.
+fn get_library_name(manifest: &Path) -> Option<String> {
+    let name = get_project_name(manifest)?;
+    let toml: toml::Value = toml::from_str(&read_to_string(manifest).ok()?).ok()?;
+
+    let library_name = toml.get("lib").and_then(|lib| lib.get("name")?.as_str());
+
+    Some(library_name.map_or(name, |n| n.to_string()))
+}
+
 /// Attempt to download a plugin from the given URL.
 pub fn download_plugin(url: &str) -> Option<Vec<u8>> {
     let mut client = Client::new();
-- 
2.43.0


From 7784fcef9d7a9b955c4c6c4f19f1bb4bcb71b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 44/51] fix: go on when the development server loses track of
 changes

---
 stuart/src/serve/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index b598f8b..108f7de 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -16,7 +16,7 @@ use humphrey_ws::{Message, WebsocketStream};
 
 use clap::ArgMatches;
 
-use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
+use notify::{raw_watcher, RawEvent, RecommendedWatcher, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
@@ -87,7 +87,7 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
         }
     });
 
-    build_watcher(rx, streams, path, ctx);
+    build_watcher(rx, watcher, streams, path, ctx);
 
     Ok(())
 }
@@ -95,13 +95,19 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
 /// Watches for changes to the site, rebuilding and notifying subscribers when necessary.
 fn build_watcher(
     rx: Receiver<RawEvent>,
+    mut watcher: RecommendedWatcher,
     streams: Arc<Mutex<Vec<WebsocketStream>>>,
     path: PathBuf,
     mut ctx: StuartContext,
 ) {
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
+            // Changes which couldn't be kept track of have no path, and could be anywhere.
+            let changed = e.path.unwrap_or_else(|| {
+                watcher.watch(&path, RecursiveMode::Recursive).ok();
+                path.clone()
+            });
+            let p = changed.strip_prefix(&path).unwrap();
 
             let output = path.join(&ctx.output);
             let output = output.canonicalize().unwrap_or(output);
@@ -129,8 +135,7 @@ fn build_watcher(
             log!(
                 "Detected",
                 "change at {}, rebuilding",
-                e.path
-                    .unwrap()
+                changed
                     .to_string_lossy()
                     .trim_start_matches("\\\\?\\")
             );
-- 
2.43.0


From a99a2c80fd4c59e8f288c472c7dd22aa7ef3f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 45/51] fix: report a temporary directory which can't be
 removed

---
 stuart/src/build.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 79ba589..39fbe43 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -148,7 +148,11 @@ impl StuartContext {
             }
         }
 
-        remove_dir_all(self.project_dir.join("temp")).ok();
+        let temp_dir = self.project_dir.join("temp");
+
+        if temp_dir.exists() {
+            remove_dir_all(temp_dir).map_err(|_| "failed to remove temp directory")?;
+        }
 
         let save_start = Instant::now();
         self.stuart.save(self.project_dir.join(&self.output))?;
-- 
2.43.0


From 5e43f1b11c3e7f40f2c015f54fb9bde0bf14db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 46/51] fix: refuse output directories which overlap the
 project's inputs

---
 stuart/src/build.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 39fbe43..f095f65 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -7,7 +7,7 @@ use crate::{config, plugins};
 use stuart_core::{Config, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 /// Contains information about a successful build.
@@ -48,6 +48,13 @@ impl StuartContext {
             .and_then(|path| path.canonicalize().ok())
             .ok_or_else(|| "invalid manifest path".to_string())?;
 
+        if overlaps_inputs(path.parent().unwrap(), output) {
+            return Err(Box::new(format!(
+                "output directory `{}` overlaps the inputs of the project",
+                output
+            )));
+        }
+
         let manifest =
             read_to_string(&path).map_err(|e| format!("failed to read manifest:\n  {}", e))?;
 
@@ -194,3 +201,29 @@ impl StuartContext {
         })
     }
 }
+
+/// Returns `true` if the output directory, which is replaced by every build, contains the project or overlaps one of its input directories.
+fn overlaps_inputs(project_dir: &Path, output: &str) -> bool {
+    let output = project_dir.join(output);
+
+    // If the output directory doesn't exist yet, or is a link which is to be replaced, only its parent is resolved.
+    let resolved = if output.is_dir() && !output.is_symlink() {
+        output.canonicalize().ok()
+    } else {
+        output
+            .parent()
+            .and_then(|parent| parent.canonicalize().ok())
+            .zip(output.file_name())
+            .map(|(parent, name)| parent.join(name))
+    };
+
+    resolved.map_or(false, |output| {
+        project_dir.starts_with(&output)
+            || ["content", "static", "scripts", "temp"].iter().any(|dir| {
+                let dir = project_dir.join(dir);
+                let dir = dir.canonicalize().unwrap_or(dir);
+
+                dir.starts_with(&output) || output.starts_with(&dir)
+            })
+    })
+}
-- 
2.43.0


From 06218756c0ff11dee3cc6c381370bc5003fa64ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:18 +0000
Subject: [PATCH 47/51] fix: reject for loops with two orders

---
 stuart-core/src/functions/parsers/for.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index ad7c4ef..f91b13f 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -69,7 +69,7 @@ impl FunctionParser for ForParser {
         let mut skip = None;
         let mut limit = None;
         let mut sort_variable = None;
-        let mut sort_order = SortOrder::Asc;
+        let mut sort_order = None;
 
         for (name, arg) in &raw.named_args {
             match name.as_str() {
@@ -106,11 +106,13 @@ impl FunctionParser for ForParser {
                     });
                 }
                 "order" => {
-                    sort_order = match arg.as_string() {
+                    quiet_assert!(sort_order.is_none())?;
+
+                    sort_order = Some(match arg.as_string() {
                         Some("asc") => SortOrder::Asc,
                         Some("desc") => SortOrder::Desc,
                         _ => return Err(ParseError::InvalidArgument),
-                    };
+                    });
                 }
                 _ => return Err(ParseError::InvalidArgument),
             }
@@ -123,7 +125,7 @@ impl FunctionParser for ForParser {
             skip,
             limit,
             sort_variable,
-            sort_order,
+            sort_order: sort_order.unwrap_or(SortOrder::Asc),
         }))
     }
 }
-- 
2.43.0


From 0dc4eda99e5bd375dbb0b6cd28f51ba9d0143e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 48/51] fix: don't use the body of an error response as a
 plugin

---
 stuart/src/plugins/source.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 9d6aff0..3267d15 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -104,5 +104,8 @@ pub fn download_plugin(url: &str) -> Option<Vec<u8>> {
     let mut client = Client::new();
     let response = client.get(url).ok()?.with_redirects(true).send().ok()?;
 
-    Some(response.body)
+    // The body of an error response is not the plugin.
+    (200..300)
+        .contains(&u16::from(response.status_code))
+        .then_some(response.body)
 }
-- 
2.43.0


From 9dd8b8f1361fc2722a8316de1c4306ddd57930ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 49/51] fix: build changes made while the development server
 starts

---
 stuart/src/serve/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 108f7de..8c523db 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -60,6 +60,11 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
 
     log!("Started", "development server at http://localhost:6904\n");
 
+    // Changes made while the first build is running have to be built as well.
+    let (tx, rx) = channel();
+    let mut watcher = raw_watcher(tx).unwrap();
+    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
+
     if let Err(e) = ctx.build() {
         error_handler(&e);
     }
@@ -70,10 +75,6 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
         path: full_output_path,
     };
 
-    let (tx, rx) = channel();
-    let mut watcher = raw_watcher(tx).unwrap();
-    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
-
     spawn(move || {
         let app = App::new_with_config(8, state)
             .with_route("/*", serve_dir)
-- 
2.43.0


From 13f3de0c05b19b5d2e0544c1ceaa0c373fe4a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:28 +0000
Subject: [PATCH 50/51] fix: reject dates which are only a time, or lack a day
 or year

---
 .../src/functions/parsers/dateformat.rs       | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/stuart-core/src/functions/parsers/dateformat.rs b/stuart-core/src/functions/parsers/dateformat.rs
index 2e2c3d6..902b970 100644
--- a/stuart-core/src/functions/parsers/dateformat.rs
+++ b/stuart-core/src/functions/parsers/dateformat.rs
@@ -63,6 +63,10 @@ impl Function for DateFormatFunction {
             })
         })?;
 
+        if !names_a_date(string) {
+            return Err(self_token.traceback(ProcessError::InvalidDate));
+        }
+
         let date = std::panic::catch_unwind(|| {
             parse_with(string, &Utc, NaiveTime::from_hms_opt(0, 0, 0).unwrap())
                 .ok()
@@ -84,3 +88,25 @@ impl Function for DateFormatFunction {
         Err(self_token.traceback(ProcessError::FeatureNotEnabled("date".to_string())))
     }
 }
+
+/// Returns `false` for a time of day, a day without a year or a month without a day, which the date parser would complete with today's date.
+#[cfg(feature = "date")]
+fn names_a_date(string: &str) -> bool {
+    // If there is a time of day, only what comes before its hour can be a date.
+    let date = match string.split_once(':') {
+        Some((before, _)) => before.trim_end_matches(|c: char| c.is_ascii_digit()),
+        None => string,
+    };
+
+    let numbers: Vec<&str> = date
+        .split(|c: char| !c.is_ascii_digit())
+        .filter(|number| !number.is_empty())
+        .collect();
+
+    match numbers[..] {
+        [] => false,
+        [number] => number.len() > 2,
+        [_, _] => date.contains(char::is_alphabetic),
+        _ => true,
+    }
+}
-- 
2.43.0


From e674ed7fd86e9a2534dc7cc97d602f577476e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:18 +0000
Subject: [PATCH 51/51] fix: find Git repositories of plugins relative to the
 manifest

---
 stuart/src/plugins/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index 8ca7427..43c1c0b 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -126,6 +126,16 @@ fn load_from_source(
 ) -> Result<(), Box<dyn StuartError>> {
     let source = root.join(src);
 
+    // Like the other sources, a repository on this machine is relative to the manifest.
+    let repository = if source.is_dir() {
+        source
+            .to_string_lossy()
+            .trim_start_matches("\\\\?\\")
+            .to_string()
+    } else {
+        src.to_string()
+    };
+
     if source.exists() && source.is_file() {
         log!("Loading", "plugin `{}` from `{}`", name, src);
 
@@ -140,7 +150,7 @@ fn load_from_source(
         unsafe { manager.load_binary(path)? };
 
         Ok(())
-    } else if git::exists(src) {
+    } else if git::exists(&repository) {
         let repo_dir = root.join(format!("_build/plugins/{}", name));
         let repo_dir_string = repo_dir
             .to_string_lossy()
@@ -148,7 +158,7 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let is_clone = git::is_clone_of(&repo_dir_string, src);
+        let is_clone = git::is_clone_of(&repo_dir_string, &repository);
 
         if is_clone {
             log!("Pulling", "plugin `{}` from `{}`", name, src);
@@ -164,7 +174,7 @@ fn load_from_source(
 
             create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
 
-            if !git::clone(src, &repo_dir_string) {
+            if !git::clone(&repository, &repo_dir_string) {
                 Err(format!(
                     "failed to clone Git repository for plugin `{}`",
                     name
-- 
2.43.0

