From 1c5aba5aff4523653d559058187cf5610ff1e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 01/26] fix: keep the kind of a parenthesised or bracketed
 scope

---
 src/ast1/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..da6d2fd 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,11 +300,13 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
                     ChunkVariant::Scope(Scope::new_unchecked(
                         eval_scope!(content),
-                        ScopeVariant::Curly,
+                        *variant,
                     )),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
-- 
2.43.0


From 5dd872b997bdafc0c624d6dadfa4bb97c668c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 02/26] fix: keep brackets nested in a command argument

---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index da6d2fd..64b5a10 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -457,8 +457,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From b464db1d9e99980f0416f448c58ec81497e33636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 03/26] fix: an escaped bracket or space after a command is a
 command

---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 64b5a10..06ca2e4 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -414,10 +414,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From 92dbca7a3f8db1e608dc6faa63e1f5265e072c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 04/26] fix: a backslash in a comment does not escape what
 follows the comment

---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 06ca2e4..a1a9552 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -358,6 +358,7 @@ impl FromStr for Document {
                     comment = false;
                     line_no += 1
                 }
+                _ if comment => continue,
                 '%' if !escaped => {
                     comment = true;
                     continue;
@@ -366,7 +367,6 @@ impl FromStr for Document {
                     escaped = true;
                     continue;
                 }
-                _ if comment => continue,
                 _ => {}
             }
 
-- 
2.43.0


From 1cfa10025d78b4209a89c0ce9398f7b893fa22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 05/26] fix: the name of a command ends at punctuation and
 digits

---
 src/ast1/document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index a1a9552..be9d57a 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -253,6 +253,11 @@ impl Buffer {
     }
 }
 
+/// Whether a character continues the name of a command that began with a letter
+fn is_label(c: char) -> bool {
+    c.is_ascii_alphabetic() || matches!(c, '*' | '@')
+}
+
 impl FromStr for Document {
     type Err = crate::Error;
 
@@ -473,7 +478,7 @@ impl FromStr for Document {
                             crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),
                         ))
                     }
-                    c if *depth == 0 && !buffer.no_scope() => {
+                    c if *depth == 0 && (!buffer.no_scope() || !is_label(c)) => {
                         flush!();
                         buffer = Buffer::text();
                         buffer.push(c);
-- 
2.43.0


From 62172c06eb16ba5934f565460728331cf22c03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 06/26] fix: line of the whitespace after a command that ends
 the document

---
 src/ast1/document.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index be9d57a..691fa6a 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -499,6 +499,8 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no =
+                    line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From 41de2fd5cb4cc15b4c1e5c29f0aab2cd00485571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 07/26] fix: line of an escaped line break and of the
 whitespace before it

---
 src/ast1/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 691fa6a..10c0f93 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -358,6 +358,9 @@ impl FromStr for Document {
         }
 
         for c in s.chars() {
+            // line which the current character is in
+            let char_line_no = line_no;
+
             match c {
                 '\n' => {
                     comment = false;
@@ -379,6 +382,7 @@ impl FromStr for Document {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = char_line_no;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -433,13 +437,13 @@ impl FromStr for Document {
 
                             flush(
                                 &mut buffer,
-                                buffer_line_no
+                                char_line_no
                                     - trailing.chars().filter(|c| *c == '\n').count() as u32,
                                 &mut chunks,
                             )?;
                         }
 
-                        buffer_line_no = line_no;
+                        buffer_line_no = char_line_no;
 
                         buffer = Buffer::command();
                         buffer.push(c);
-- 
2.43.0


From 85dee80f74064dda6ba3bdeddc134707a93b7583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 08/26] fix: keep a backslash that ends the document

---
 src/ast1/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 10c0f93..e5c7e27 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -512,6 +512,13 @@ impl FromStr for Document {
             }
         }
 
+        // a backslash that ends the document is a command without a name
+        if escaped {
+            buffer_line_no = line_no;
+            buffer = Buffer::command();
+            flush!();
+        }
+
         Ok(Self(chunks))
     }
 }
-- 
2.43.0


From 8f72a55f36e54495e2ff2aa64b1348c50c4f32bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 09/26] fix: line of an error in a later line of a command

---
 src/ast1/document.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index e5c7e27..75ae9f1 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -285,12 +285,6 @@ impl FromStr for Document {
             buffer_line_no: u32,
             chunks: &mut Vec<Chunk>,
         ) -> Result<(), crate::Error> {
-            macro_rules! eval_scope {
-                ($i:ident) => {
-                    Document::from_str($i)?.chunks_owned()
-                };
-            }
-
             match buffer {
                 Buffer::Text { ref mut content } if !content.is_empty() => {
                     chunks.push(Chunk::new_unchecked(
@@ -310,7 +304,7 @@ impl FromStr for Document {
                 } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
                     ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
+                        Document::from_str(content)?.chunks_owned(),
                         *variant,
                     )),
                 )),
@@ -323,10 +317,24 @@ impl FromStr for Document {
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
 
+                    // lines between the command and the argument
+                    let mut offset = 0;
+
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        offset += preceding.chars().filter(|c| *c == '\n').count() as u32;
+
+                        let chunks = Document::from_str(content)
+                            .map_err(|mut e| {
+                                e.line += offset;
+                                e
+                            })?
+                            .chunks_owned();
+
+                        offset += content.chars().filter(|c| *c == '\n').count() as u32;
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(chunks, *variant),
                         ))
                     }
 
-- 
2.43.0


From 57fd2a8b5c4e18d88045bd2c97ce785d419e56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 10/26] fix: an environment is on the line of its begin

---
 src/ast2/chunk.rs    | 33 ++++++++++++---------------------
 src/ast2/document.rs | 17 +++++------------
 2 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..43b7194 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -2,7 +2,6 @@ use std::{fmt::Display, str::FromStr};
 
 use crate::{
     ast1,
-    ast2::Document,
     traits::{Lines, Validate},
     InternalError,
 };
@@ -38,27 +37,19 @@ impl ast1::IntoChunks for Chunk {
                 ChunkVariant::Environment(env) => {
                     let (label, args, content, prec_begin, prec_end) = env.decompose();
 
-                    fn lines(s: &str) -> usize {
-                        s.chars().filter(|c| c == &'\n').count()
+                    fn lines(s: &str) -> u32 {
+                        s.chars().filter(|c| c == &'\n').count() as u32
                     }
 
-                    let end_line_no = self.line_no
-                        + (lines(&prec_begin)
-                            + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
-                            + args
-                                .iter()
-                                .map(|(prec, arg)| {
-                                    lines(prec)
-                                        + lines(
-                                            &Document::new_unchecked(vec![Chunk::new_unchecked(
-                                                1,
-                                                ChunkVariant::Scope(arg.clone()),
-                                            )])
-                                            .to_string(),
-                                        )
-                                })
-                                .sum::<usize>()) as u32;
+                    let content_line_no = self.line_no
+                        + lines(&prec_begin)
+                        + lines(&label)
+                        + args
+                            .iter()
+                            .map(|(prec, arg)| lines(prec) + arg.lines() - 1)
+                            .sum::<u32>();
+                    let end_line_no = content_line_no
+                        + content.iter().map(|chunk| chunk.lines() - 1).sum::<u32>();
 
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
@@ -80,7 +71,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..c216f3d 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -201,6 +201,7 @@ impl TryFrom<crate::ast1::Document> for Document {
         let mut chunks = Vec::new();
 
         let mut buffer_stack = Vec::new();
+        let mut begin_line = 0;
         let mut buffer_start = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
@@ -284,16 +285,8 @@ impl TryFrom<crate::ast1::Document> for Document {
                             if buffer_stack.len() == 1 {
                                 // was empty
 
-                                fn lines(s: &str) -> usize {
-                                    s.chars().filter(|c| c == &'\n').count()
-                                }
-
-                                buffer_start = line_no
-                                    + c.arguments()
-                                        .iter()
-                                        .map(|(prec, arg)| lines(prec) + lines(&arg.to_string()))
-                                        .sum::<usize>()
-                                        as u32;
+                                begin_line = line_no;
+                                buffer_start = line_no + c.lines() - 1;
                                 prec_begin = prec.to_string();
 
                                 env_args = c.arguments_owned().into_iter().skip(1).collect();
@@ -336,7 +329,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    begin_line,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
@@ -361,7 +354,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         if let Some(label) = buffer_stack.first() {
             return Err(crate::Error::new(
-                buffer_start,
+                begin_line,
                 crate::ErrorType::UnclosedEnvironment(
                     ast1::Document::new_unchecked(label.clone()).to_string(),
                 ),
-- 
2.43.0


From d50edf4163d322b8de4b706bcd2a35801fd58d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 11/26] fix: line of an environment error in a scope or an
 argument

---
 src/ast2/command.rs  | 14 +++++++++++++-
 src/ast2/document.rs | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..19f53c4 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -84,8 +84,20 @@ impl TryFrom<crate::ast1::Command> for Command {
 
         let mut arguments = Vec::with_capacity(arguments_o.len());
 
+        // lines between the command and the argument
+        let mut offset = 0;
+
         for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
+            offset += prec.chars().filter(|c| *c == '\n').count() as u32;
+            let lines = scope.lines() - 1;
+
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+
+            offset += lines;
+            arguments.push((prec, scope))
         }
 
         Ok(Self { label, arguments })
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index c216f3d..b99391a 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -4,7 +4,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, ChunkVariant, Environment, IntoChunks};
+use super::{Chunk, ChunkVariant, Environment, IntoChunks, Scope};
 
 use std::{fmt::Display, mem, str::FromStr};
 
@@ -197,6 +197,10 @@ impl From<ast3::Document> for Document {
 impl TryFrom<crate::ast1::Document> for Document {
     type Error = crate::Error;
     fn try_from(value: crate::ast1::Document) -> Result<Self, Self::Error> {
+        fn newlines(s: &str) -> u32 {
+            s.chars().filter(|c| c == &'\n').count() as u32
+        }
+
         let originals = value.chunks_owned();
         let mut chunks = Vec::new();
 
@@ -227,7 +231,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -235,11 +239,11 @@ impl TryFrom<crate::ast1::Document> for Document {
             }
 
             macro_rules! map_env_e {
-                ($x:expr) => {
+                ($line:expr, $x:expr) => {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += $line - 1;
                             return Err(e);
                         }
                     }
@@ -258,7 +262,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -324,8 +328,21 @@ impl TryFrom<crate::ast1::Document> for Document {
 
                                 let mut args_new = Vec::with_capacity(arguments.len());
 
+                                // line which the current argument starts in
+                                let mut arg_line = buffer_start
+                                    - arguments
+                                        .iter()
+                                        .map(|(prec, arg)| newlines(prec) + arg.lines() - 1)
+                                        .sum::<u32>();
+
                                 for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
+                                    arg_line += newlines(&prec);
+                                    let lines = scope.lines() - 1;
+                                    args_new.push((
+                                        prec,
+                                        map_env_e!(arg_line, Scope::try_from(scope)),
+                                    ));
+                                    arg_line += lines;
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
@@ -334,9 +351,12 @@ impl TryFrom<crate::ast1::Document> for Document {
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
                                         args_new,
-                                        map_env_e!(Document::try_from(
-                                            ast1::Document::new_unchecked(mem::take(&mut buffer))
-                                        ))
+                                        map_env_e!(
+                                            buffer_start,
+                                            Document::try_from(ast1::Document::new_unchecked(
+                                                mem::take(&mut buffer)
+                                            ))
+                                        )
                                         .chunks_owned(),
                                         mem::take(&mut prec_begin),
                                         prec_end,
-- 
2.43.0


From 82c85301e3d054d8975cb504a2f96ae54652fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 12/26] fix: keep nested delimiters of bracketed maths

---
 src/ast3/mathsblock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..8159ce0 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,13 +109,21 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +161,21 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ))
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From 6ac4e20a5992f995c9d5178d79e50014f7bf1d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 13/26] fix: content and lines of maths blocks that hold more
 than one chunk

---
 src/ast3/mathsblock.rs | 86 +++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 8159ce0..bd73ade 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -62,6 +62,22 @@ impl Lines for MathsBlock {
 }
 
 impl MathsBlock {
+    /// Map the chunks between the delimiters of a block to its content,
+    /// where `line_no` is the line of the opening delimiter
+    fn content(
+        mut chunks: Vec<ast2::Chunk>,
+        line_no: u32,
+    ) -> Result<Vec<Chunk>, crate::Error> {
+        for chunk in chunks.iter_mut() {
+            *chunk.line_no_mut() -= line_no - 1;
+        }
+
+        Self::from_chunks(chunks).map_err(|mut e| {
+            e.line += line_no - 1;
+            e
+        })
+    }
+
     /// Maps a `Vec<ast2::Chunk>` to `Vec<Chunk>` with MathsBlocks
     pub fn from_chunks(chunks: Vec<ast2::Chunk>) -> Result<Vec<Chunk>, crate::Error> {
         #[derive(PartialEq)]
@@ -137,7 +153,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::content(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -153,7 +169,7 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::content(std::mem::take(&mut buffer), buffer_line)?,
                         )),
                     ))
                 }
@@ -209,10 +225,19 @@ impl MathsBlock {
                     macro_rules! push_str {
                         () => {
                             if !text_buffer.is_empty() {
-                                out.push(Chunk::new_unchecked(
-                                    text_buffer_line,
-                                    ChunkVariant::Text(std::mem::take(&mut text_buffer)),
-                                ))
+                                let text = std::mem::take(&mut text_buffer);
+
+                                if mode == MathsMode::None {
+                                    out.push(Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ChunkVariant::Text(text),
+                                    ))
+                                } else {
+                                    buffer.push(ast2::Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ast2::ChunkVariant::Text(text),
+                                    ))
+                                }
                             }
                         };
                     }
@@ -227,6 +252,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -238,31 +264,17 @@ impl MathsBlock {
                                     mode = MathsMode::DoubleClosing
                                 }
                                 MathsMode::DoubleClosing => {
+                                    push_str!();
                                     mode = MathsMode::None;
 
-                                    if !text_buffer.is_empty() {
-                                        buffer.push(ast2::Chunk::new_unchecked(
-                                            text_buffer_line,
-                                            ast2::ChunkVariant::Text(std::mem::take(
-                                                &mut text_buffer,
-                                            )),
-                                        ));
-                                    }
-
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::content(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
@@ -270,31 +282,17 @@ impl MathsBlock {
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars) => {
+                                    push_str!();
                                     mode = MathsMode::None;
 
-                                    if !text_buffer.is_empty() {
-                                        buffer.push(ast2::Chunk::new_unchecked(
-                                            text_buffer_line,
-                                            ast2::ChunkVariant::Text(std::mem::take(
-                                                &mut text_buffer,
-                                            )),
-                                        ));
-                                    }
-
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            Self::content(
+                                                std::mem::take(&mut buffer),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
-- 
2.43.0


From 5df74ba70857cecaaf63a7052fb2eec051be08bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 14/26] fix: keep a single dollar in outline maths

---
 src/ast3/mathsblock.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index bd73ade..48a1703 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -303,10 +303,20 @@ impl MathsBlock {
                                 | MathsMode::DoubleDollar(MathsVariant::Brackets) => {}
                             }
                         } else {
+                            if mode == MathsMode::DoubleClosing {
+                                text_buffer.push('$');
+                                mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                            }
+
                             text_buffer.push(c)
                         }
                     }
 
+                    if mode == MathsMode::DoubleClosing {
+                        text_buffer.push('$');
+                        mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                    }
+
                     push_str!()
                 }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
-- 
2.43.0


From ccfc2b09651065b93847101e5a130c5b43b96a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:37 +0000
Subject: [PATCH 15/26] fix: line of a maths error in a scope, an argument or
 an environment

---
 src/ast3/command.rs     | 14 +++++++++++++-
 src/ast3/document.rs    |  7 ++++++-
 src/ast3/environment.rs | 25 +++++++++++++++++++++++--
 src/ast3/mathsblock.rs  | 18 +++++++++++++++---
 4 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..1e2d9f4 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -69,8 +69,20 @@ impl TryFrom<ast2::Command> for Command {
 
         let mut args_new = Vec::with_capacity(args.len());
 
+        // lines between the beginning and the argument
+        let mut offset = 0;
+
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| *c == '\n').count() as u32;
+            let lines = scope.lines() - 1;
+
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+
+            offset += lines;
+            args_new.push((prec, scope));
         }
 
         Ok(Self::new_unchecked(label, args_new))
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..79f94ac 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -290,7 +290,12 @@ impl TryFrom<ast2::Document> for Document {
 
             match variant {
                 ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..5f78653 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -90,14 +90,35 @@ impl TryFrom<ast2::Environment> for Environment {
 
         let mut args_new = Vec::with_capacity(args.len());
 
+        // lines between the beginning and the argument
+        let mut offset = prec_begin
+            .chars()
+            .chain(label.chars())
+            .filter(|c| *c == '\n')
+            .count() as u32;
+
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| *c == '\n').count() as u32;
+            let lines = scope.lines() - 1;
+
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+
+            offset += lines;
+            args_new.push((prec, scope));
         }
 
+        let content = MathsBlock::from_chunks(content).map_err(|mut e| {
+            e.line += offset;
+            e
+        })?;
+
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(content),
             prec_begin,
             prec_end,
         ))
diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 48a1703..8d60f15 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -98,6 +98,18 @@ impl MathsBlock {
         for chunk in chunks {
             let (line_no, variant) = chunk.decompose();
 
+            macro_rules! map_e {
+                ($x:expr) => {
+                    match $x {
+                        Ok(k) => k,
+                        Err(mut e) => {
+                            e.line += line_no - 1;
+                            return Err(e);
+                        }
+                    }
+                };
+            }
+
             match variant {
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
@@ -196,19 +208,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(map_e!(s.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(map_e!(env.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(map_e!(cmd.try_into())),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
-- 
2.43.0


From 225d423f79b5d01a8b19bd08096f538553baf473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 16/26] fix: line of a paragraph break of more than two line
 breaks

---
 src/ast3/paragraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..a7c3684 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -33,7 +33,10 @@ impl Paragraph {
                             buffer.push(c);
                         }
                         '\n' => {
-                            buffer_line = line_no;
+                            if consec_newlines == 0 {
+                                buffer_line = line_no;
+                            }
+
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From 83046a548217a51515e94a2623f2060102fbff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 17/26] fix: print the whitespace of the document's end

---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 79f94ac..3bec301 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -484,7 +484,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 96ec780b6941ec90d4574e147a0895dcae04a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 18/26] fix: keep the first of two document environments

---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 3bec301..0525a8a 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -289,7 +289,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     let (_, args, content, begin, end) = Environment::try_from(env)
                         .map_err(|mut e| {
                             e.line += line_no - 1;
-- 
2.43.0


From 5ee43ceb66e4585d0448bfd774d818da24ba5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 19/26] fix: chunks after the document environment are numbered
 from its end

---
 src/ast3/document.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0525a8a..0a4a8e4 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -276,6 +276,7 @@ impl TryFrom<ast2::Document> for Document {
 
         let mut preamable = Vec::new();
         let mut trailing = Vec::new();
+        let mut trailing_line = 1;
 
         #[derive(PartialEq)]
         enum CursorState {
@@ -292,6 +293,7 @@ impl TryFrom<ast2::Document> for Document {
                 ast2::ChunkVariant::Environment(env)
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
+                    trailing_line = line_no + env.lines() - 1;
                     let (_, args, content, begin, end) = Environment::try_from(env)
                         .map_err(|mut e| {
                             e.line += line_no - 1;
@@ -433,12 +435,19 @@ impl TryFrom<ast2::Document> for Document {
                 _ if cursor == CursorState::Preamable => {
                     preamable.push(ast2::Chunk::new_unchecked(line_no, variant))
                 }
-                _ => trailing.push(ast2::Chunk::new_unchecked(line_no, variant)),
+                _ => trailing.push(ast2::Chunk::new_unchecked(
+                    line_no - (trailing_line - 1),
+                    variant,
+                )),
             }
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+        construct.trailing =
+            Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
+                e.line += trailing_line - 1;
+                e
+            })?);
 
         Ok(construct)
     }
-- 
2.43.0


From 8b85e1924142cb93b418998c0e60f2dad2f5f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 20/26] fix: first character and value of a document option

---
 src/ast3/document.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0a4a8e4..f7dfe68 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -352,6 +352,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec if c.is_whitespace() => buffer.push(c),
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
+                                                arg.push(c);
                                                 buffer.clear();
                                                 buffermode = BufferMode::Arg;
                                             }
@@ -405,11 +406,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
+                                                    if !val_started {
                                                         val_started = true;
                                                     }
 
-- 
2.43.0


From b27ab5e668cb26cd4d202231ef5796f7a3253764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 21/26] fix: a text without a document environment does not get
 one, and lines of stage 3 converted to stage 2

---
 src/ast2/document.rs | 18 ++++++----------
 src/ast3/document.rs | 51 ++++++++++++++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index b99391a..7930e02 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -139,6 +139,7 @@ impl Lines for Document {
 
 impl From<ast3::Document> for Document {
     fn from(value: ast3::Document) -> Self {
+        let has_body = value.has_body();
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
@@ -150,21 +151,16 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
+        if !has_body {
+            return out;
+        }
+
         let body_chunks = body
             .into_iter()
             .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
             .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
@@ -177,7 +173,7 @@ impl From<ast3::Document> for Document {
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         out.push_chunk_unchecked(body);
 
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index f7dfe68..057b008 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -28,6 +28,9 @@ pub struct Document {
     body_end_prec: String,
 
     trailing: Vec<Chunk>,
+
+    // parsed from a text without a document environment
+    no_body: bool,
 }
 
 impl Validate for Document {
@@ -113,9 +116,15 @@ impl Document {
             body_begin_prec,
             body_end_prec,
             trailing,
+            no_body: false,
         }
     }
 
+    /// Whether there is a document environment
+    pub(crate) fn has_body(&self) -> bool {
+        !self.no_body
+    }
+
     /// Returns the chunks representing the preamable
     pub fn chunks_preamable(&self) -> &Vec<Chunk> {
         &self.preamable
@@ -183,22 +192,28 @@ impl Document {
 
     /// Push a ChunkVarint to body
     pub fn push_body(&mut self, variant: ChunkVariant) -> Result<(), InternalError> {
-        Self::push_vec(&mut self.body, variant)
+        Self::push_vec(&mut self.body, variant)?;
+        self.no_body = false;
+        Ok(())
     }
 
     /// Push a ChunkVarint to body without checking
     pub fn push_body_unchecked(&mut self, variant: ChunkVariant) {
-        Self::push_vec_unchecked(&mut self.body, variant)
+        Self::push_vec_unchecked(&mut self.body, variant);
+        self.no_body = false;
     }
 
     /// Push a Chunk to body
     pub fn push_body_chunk(&mut self, chunk: Chunk) -> Result<(), InternalError> {
-        Self::push_chunk_vec(&mut self.body, chunk)
+        Self::push_chunk_vec(&mut self.body, chunk)?;
+        self.no_body = false;
+        Ok(())
     }
 
     /// Push a Chunk to body without checking
     pub fn push_body_chunk_unchecked(&mut self, chunk: Chunk) {
-        Self::push_chunk_vec_unchecked(&mut self.body, chunk)
+        Self::push_chunk_vec_unchecked(&mut self.body, chunk);
+        self.no_body = false;
     }
 
     /// Push a ChunkVariant to preamable
@@ -223,22 +238,28 @@ impl Document {
 
     /// Push a ChunkVarint to trailing
     pub fn push_trailing(&mut self, variant: ChunkVariant) -> Result<(), InternalError> {
-        Self::push_vec(&mut self.trailing, variant)
+        Self::push_vec(&mut self.trailing, variant)?;
+        self.no_body = false;
+        Ok(())
     }
 
     /// Push a ChunkVariant to trailing without checking
     pub fn push_trailing_unchecked(&mut self, variant: ChunkVariant) {
-        Self::push_vec_unchecked(&mut self.trailing, variant)
+        Self::push_vec_unchecked(&mut self.trailing, variant);
+        self.no_body = false;
     }
 
     /// Push a Chunk to trailing
     pub fn push_trailing_chunk(&mut self, chunk: Chunk) -> Result<(), InternalError> {
-        Self::push_chunk_vec(&mut self.trailing, chunk)
+        Self::push_chunk_vec(&mut self.trailing, chunk)?;
+        self.no_body = false;
+        Ok(())
     }
 
     /// Push a Chunk to trailing without checking
     pub fn push_trailing_chunk_unchecked(&mut self, chunk: Chunk) {
-        Self::push_chunk_vec_unchecked(&mut self.trailing, chunk)
+        Self::push_chunk_vec_unchecked(&mut self.trailing, chunk);
+        self.no_body = false;
     }
 
     /// Returns all fields of this struct
@@ -272,7 +293,10 @@ impl TryFrom<ast2::Document> for Document {
     type Error = crate::Error;
 
     fn try_from(value: ast2::Document) -> Result<Self, Self::Error> {
-        let mut construct = Self::default();
+        let mut construct = Self {
+            no_body: true,
+            ..Self::default()
+        };
 
         let mut preamable = Vec::new();
         let mut trailing = Vec::new();
@@ -300,6 +324,7 @@ impl TryFrom<ast2::Document> for Document {
                             e
                         })?
                         .decompose();
+                    construct.no_body = false;
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
@@ -464,6 +489,14 @@ impl FromStr for Document {
 
 impl Display for Document {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        if !self.has_body() {
+            for chunk in self.preamable.iter() {
+                chunk.fmt(f)?
+            }
+
+            return Ok(());
+        }
+
         f.write_str(
             self.preamable
                 .iter()
-- 
2.43.0


From 2ba2a5373d755e764a2f0976c8a8dd48df55d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 22/26] fix: merge consecutive text when stage 3 is converted
 to stage 2

---
 src/ast2/document.rs    | 22 ++++++++++++++--------
 src/ast2/environment.rs |  7 ++-----
 src/ast2/scope.rs       |  5 +----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 7930e02..1f5688f 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -90,6 +90,17 @@ impl Document {
 
         self.0.push(chunk)
     }
+
+    /// Join chunks into one `Vec`, merging consecutive Text
+    pub(crate) fn merge_chunks(chunks: impl IntoIterator<Item = Chunk>) -> Vec<Chunk> {
+        let mut out = Self::default();
+
+        for chunk in chunks {
+            out.push_chunk_unchecked(chunk)
+        }
+
+        out.chunks_owned()
+    }
 }
 
 impl FromStr for Document {
@@ -143,10 +154,8 @@ impl From<ast3::Document> for Document {
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
-        let preamable = preamable
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
+        let preamable =
+            Self::merge_chunks(preamable.into_iter().flat_map(ast3::Chunk::into_chunks));
         let prem_lines = preamable.iter().map(|chunk| chunk.lines() - 1).sum::<u32>();
 
         let mut out = Document::new_unchecked(preamable);
@@ -155,10 +164,7 @@ impl From<ast3::Document> for Document {
             return out;
         }
 
-        let body_chunks = body
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
+        let body_chunks = Self::merge_chunks(body.into_iter().flat_map(ast3::Chunk::into_chunks));
         let body = Chunk::new_unchecked(
             prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
diff --git a/src/ast2/environment.rs b/src/ast2/environment.rs
index 1dacd12..f5256ee 100644
--- a/src/ast2/environment.rs
+++ b/src/ast2/environment.rs
@@ -7,7 +7,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, IntoChunks as IntoChunks3, Scope};
+use super::{Chunk, Document, IntoChunks as IntoChunks3, Scope};
 
 /// An environment is a scope associated with a command and its arguments
 #[derive(Clone)]
@@ -167,10 +167,7 @@ impl From<ast3::Environment> for Environment {
                 .into_iter()
                 .map(|(s, chunk)| (s, chunk.into()))
                 .collect(),
-            content
-                .into_iter()
-                .flat_map(|chunk| chunk.into_chunks())
-                .collect(),
+            Document::merge_chunks(content.into_iter().flat_map(|chunk| chunk.into_chunks())),
             prec_begin,
             prec_end,
         )
diff --git a/src/ast2/scope.rs b/src/ast2/scope.rs
index 3b668c2..332f3d2 100644
--- a/src/ast2/scope.rs
+++ b/src/ast2/scope.rs
@@ -118,10 +118,7 @@ impl From<ast3::Scope> for Scope {
     fn from(value: ast3::Scope) -> Self {
         let (chunks, variant) = value.decompose();
         Scope::new_unchecked(
-            chunks
-                .into_iter()
-                .flat_map(ast3::Chunk::into_chunks)
-                .collect(),
+            Document::merge_chunks(chunks.into_iter().flat_map(ast3::Chunk::into_chunks)),
             variant.into(),
         )
     }
-- 
2.43.0


From 5dc68907da53090d71f00787ceadd3de100fc02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 23/26] fix: count the lines in the begin and end of the
 document

---
 src/ast3/document.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 057b008..b3e416e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -58,13 +58,24 @@ impl Validate for Document {
 
 impl Lines for Document {
     fn lines(&self) -> u32 {
-        self.preamable
+        let chunks = self
+            .preamable
             .iter()
             .chain(self.body.iter())
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
-            .sum::<u32>()
-            + 1
+            .sum::<u32>();
+        let body_args = self.body_args.iter().map(|(_, arg)| arg.lines() - 1).sum::<u32>();
+        let between = self
+            .body_args
+            .iter()
+            .map(|(prec, _)| prec)
+            .chain([&self.body_begin_prec, &self.body_end_prec])
+            .flat_map(|s| s.chars())
+            .filter(|c| *c == '\n')
+            .count() as u32;
+
+        chunks + body_args + between + 1
     }
 }
 
-- 
2.43.0


From 6449a032e798b3b7b5c3bb8600043fc5fc2c9678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 24/26] fix: validate the arguments of the document environment

---
 src/ast3/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index b3e416e..3160ebf 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -52,6 +52,10 @@ impl Validate for Document {
             }
         }
 
+        for (_, arg) in self.body_args.iter() {
+            arg.validate()?
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 44a2ad52df0b94e97c736298a4bbb8fe5b9b8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 25/26] fix: a dollar is not stage 3 text

---
 src/ast3/chunkvariant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/chunkvariant.rs b/src/ast3/chunkvariant.rs
index be1e2aa..5b6f649 100644
--- a/src/ast3/chunkvariant.rs
+++ b/src/ast3/chunkvariant.rs
@@ -32,7 +32,7 @@ impl Validate for ChunkVariant {
             Self::Text(s) => {
                 let mut consec = false;
                 for c in s.chars() {
-                    if matches!(c, '\\' | '%')
+                    if matches!(c, '\\' | '%' | '$')
                         || ast1::ScopeVariant::is_opening(c)
                         || ast1::ScopeVariant::is_closing(c)
                     {
-- 
2.43.0


From f5edfcbdfcc91792dc17f3dac7ceb7125315bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 26/26] fix: a checked push does not make a blank line in stage
 3 text

---
 src/ast3/document.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 3160ebf..092bbe2 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -169,6 +169,23 @@ impl Document {
         vec.push(chunk)
     }
 
+    /// Check that Text merged into a preceding Text does not make a blank line
+    fn validate_merge(vec: &[Chunk], variant: &ChunkVariant) -> Result<(), InternalError> {
+        let (Some(ChunkVariant::Text(last)), ChunkVariant::Text(s)) =
+            (vec.last().map(Chunk::variant), variant)
+        else {
+            return Ok(());
+        };
+
+        if last[last.trim_end().len()..].contains('\n')
+            && s[..s.len() - s.trim_start().len()].contains('\n')
+        {
+            return Err(InternalError::UnbrokenParagraph);
+        }
+
+        Ok(())
+    }
+
     /// Push a Chunk to a `Vec<Chunk>`
     fn push_chunk_vec(vec: &mut Vec<Chunk>, chunk: Chunk) -> Result<(), InternalError> {
         chunk.validate()?;
@@ -185,6 +202,7 @@ impl Document {
             });
         }
 
+        Self::validate_merge(vec, chunk.variant())?;
         Self::push_chunk_vec_unchecked(vec, chunk);
         Ok(())
     }
@@ -201,6 +219,7 @@ impl Document {
     /// Push a ChunkVariant to a `Vec<Chunk>`
     fn push_vec(vec: &mut Vec<Chunk>, variant: ChunkVariant) -> Result<(), InternalError> {
         variant.validate()?;
+        Self::validate_merge(vec, &variant)?;
         Self::push_vec_unchecked(vec, variant);
         Ok(())
     }
-- 
2.43.0

