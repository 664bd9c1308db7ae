From 98cf2224c024bd0edd6d20816c8f6200a1813dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 01/28] fix: keep the bracket kind of a round or square scope

---
 src/ast1/document.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 60f1691..754d39b 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -300,12 +300,11 @@ impl FromStr for Document {
                         crate::ErrorType::UnclosedScope(*variant),
                     ))
                 }
-                Buffer::Scope { content, .. } => chunks.push(Chunk::new_unchecked(
+                Buffer::Scope {
+                    content, variant, ..
+                } => chunks.push(Chunk::new_unchecked(
                     buffer_line_no,
-                    ChunkVariant::Scope(Scope::new_unchecked(
-                        eval_scope!(content),
-                        ScopeVariant::Curly,
-                    )),
+                    ChunkVariant::Scope(Scope::new_unchecked(eval_scope!(content), *variant)),
                 )),
                 Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                     return Err(crate::Error::new(
-- 
2.43.0


From f2578458f436c269d431fc6724edf67e5ecd4476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 02/28] fix: keep brackets nested in an argument of the same
 kind

---
 src/ast1/document.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 754d39b..aac08ee 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -454,8 +454,16 @@ impl FromStr for Document {
                         buffer_line_no =
                             line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                     }
-                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => *depth += 1,
-                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => *depth -= 1,
+                    c if *depth != 0 && scopes.last().unwrap().1.open() == c => {
+                        *depth += 1;
+                        buffer.push(c)
+                    }
+                    c if *depth != 0 && scopes.last().unwrap().1.close() == c => {
+                        *depth -= 1;
+                        if *depth != 0 {
+                            buffer.push(c)
+                        }
+                    }
                     c if *depth == 0 && ScopeVariant::is_closing(c) => {
                         return Err(crate::Error::new(
                             line_no,
-- 
2.43.0


From 0c80a3af03db97a064416c664d17ba7f6a4e9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 03/28] fix: an escaped bracket or space after a command is a
 command of its own

---
 src/ast1/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index aac08ee..a795caa 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -411,10 +411,10 @@ impl FromStr for Document {
                     trailing,
                     ..
                 } => match c {
-                    c if *depth == 0 && ScopeVariant::is_opening(c) => {
+                    c if *depth == 0 && !escaped && ScopeVariant::is_opening(c) => {
                         buffer.push_scope(ScopeVariant::from_opening(c))
                     }
-                    c if *depth == 0 && c.is_whitespace() => trailing.push(c),
+                    c if *depth == 0 && !escaped && c.is_whitespace() => trailing.push(c),
                     c if *depth == 0 && escaped => {
                         let trailing = trailing.clone();
                         flush!();
-- 
2.43.0


From 8b66c29527c4ae0d07ecb0d44457823513219f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 04/28] fix: a backslash in a comment escapes nothing

---
 src/ast1/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index a795caa..6e17dcc 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -355,6 +355,7 @@ impl FromStr for Document {
                     comment = false;
                     line_no += 1
                 }
+                _ if comment => continue,
                 '%' if !escaped => {
                     comment = true;
                     continue;
@@ -363,7 +364,6 @@ impl FromStr for Document {
                     escaped = true;
                     continue;
                 }
-                _ if comment => continue,
                 _ => {}
             }
 
-- 
2.43.0


From 822a910fe322e160c18302a41b74c829ca701a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 05/28] fix: an escaped newline is a command on the line it
 ends

---
 src/ast1/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 6e17dcc..3758fb3 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -367,10 +367,14 @@ impl FromStr for Document {
                 _ => {}
             }
 
+            // line of the current character, a newline still belongs to the line it ends
+            let char_line_no = if c == '\n' { line_no - 1 } else { line_no };
+
             match &mut buffer {
                 Buffer::Text { .. } => match c {
                     c if escaped => {
                         flush!();
+                        buffer_line_no = char_line_no;
                         buffer = Buffer::command();
                         buffer.push(c);
 
@@ -425,13 +429,13 @@ impl FromStr for Document {
 
                             flush(
                                 &mut buffer,
-                                buffer_line_no
+                                char_line_no
                                     - trailing.chars().filter(|c| *c == '\n').count() as u32,
                                 &mut chunks,
                             )?;
                         }
 
-                        buffer_line_no = line_no;
+                        buffer_line_no = char_line_no;
 
                         buffer = Buffer::command();
                         buffer.push(c);
-- 
2.43.0


From aa0c0533ac104ee26777b196d732fafbf2c6dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 06/28] fix: line number of whitespace between a command and
 the end of input

---
 src/ast1/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index 3758fb3..be7f18c 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -495,6 +495,7 @@ impl FromStr for Document {
                 flush!();
                 buffer = Buffer::text();
                 buffer.push_str(&trailing);
+                buffer_line_no = line_no - trailing.chars().filter(|c| *c == '\n').count() as u32;
                 flush!();
             }
             _ => {
-- 
2.43.0


From c6f277bf8f2a3688752c85f1f135429681179982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 07/28] fix: line of an error in a later argument of a command

---
 src/ast1/document.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index be7f18c..b79aa16 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -315,10 +315,22 @@ impl FromStr for Document {
                 Buffer::Command { label, scopes, .. } => {
                     let mut arguments = Vec::with_capacity(scopes.len());
 
+                    // lines between the start of the command and the current argument
+                    let mut offset = 0;
+
                     for (content, variant, preceding) in scopes.iter_mut() {
+                        offset += preceding.chars().filter(|c| *c == '\n').count() as u32;
+                        let chunks = Document::from_str(content)
+                            .map_err(|mut e| {
+                                e.line += offset;
+                                e
+                            })?
+                            .chunks_owned();
+                        offset += content.chars().filter(|c| *c == '\n').count() as u32;
+
                         arguments.push((
                             std::mem::take(preceding),
-                            Scope::new_unchecked(eval_scope!(content), *variant),
+                            Scope::new_unchecked(chunks, *variant),
                         ))
                     }
 
-- 
2.43.0


From 547e8997a1476ccfd1d2547fc81480061f4568c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 08/28] fix: keep a lone backslash at the end of the document

---
 src/ast1/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ast1/document.rs b/src/ast1/document.rs
index b79aa16..cca92d6 100644
--- a/src/ast1/document.rs
+++ b/src/ast1/document.rs
@@ -515,6 +515,12 @@ impl FromStr for Document {
             }
         }
 
+        // a backslash with nothing after it is a command without label
+        if escaped {
+            buffer = Buffer::command();
+            flush!();
+        }
+
         Ok(Self(chunks))
     }
 }
-- 
2.43.0


From 69403cfa6e994f3afecdf5d5db6dff97f7cd823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 09/28] fix: an environment is on the line of its begin
 command, also when that spans lines

---
 src/ast2/chunk.rs    | 7 ++++---
 src/ast2/document.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 050cd31..8f1081e 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -42,10 +42,9 @@ impl ast1::IntoChunks for Chunk {
                         s.chars().filter(|c| c == &'\n').count()
                     }
 
-                    let end_line_no = self.line_no
+                    let content_line_no = self.line_no
                         + (lines(&prec_begin)
                             + label.chars().filter(|c| c == &'\n').count()
-                            + lines(&Document::new_unchecked(content.clone()).to_string())
                             + args
                                 .iter()
                                 .map(|(prec, arg)| {
@@ -59,6 +58,8 @@ impl ast1::IntoChunks for Chunk {
                                         )
                                 })
                                 .sum::<usize>()) as u32;
+                    let end_line_no = content_line_no
+                        + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
 
                     let label = ast1::Scope::new_unchecked(
                         ast1::Document::from_str(&label).unwrap().chunks_owned(),
@@ -80,7 +81,7 @@ impl ast1::IntoChunks for Chunk {
                     )]
                     .into_iter()
                     .chain(content.into_iter().flat_map(|mut chunk| {
-                        chunk.line_no += self.line_no - 1;
+                        chunk.line_no += content_line_no - 1;
                         chunk.into_chunks()
                     }))
                     .chain(
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index d51c0e8..e5962ae 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -201,6 +201,9 @@ impl TryFrom<crate::ast1::Document> for Document {
         let mut chunks = Vec::new();
 
         let mut buffer_stack = Vec::new();
+        // line of the `\begin` of the current environment
+        let mut env_start = 0;
+        // line its content starts in
         let mut buffer_start = 0;
         let mut env_args = Vec::new();
         let mut buffer: Vec<ast1::Chunk> = Vec::new();
@@ -288,6 +291,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                     s.chars().filter(|c| c == &'\n').count()
                                 }
 
+                                env_start = line_no;
                                 buffer_start = line_no
                                     + c.arguments()
                                         .iter()
@@ -336,7 +340,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-                                    buffer_start,
+                                    env_start,
                                     ChunkVariant::Environment(Environment::new_unchecked(
                                         ast1::Document::new_unchecked(label.chunks_owned())
                                             .to_string(),
@@ -361,7 +365,7 @@ impl TryFrom<crate::ast1::Document> for Document {
 
         if let Some(label) = buffer_stack.first() {
             return Err(crate::Error::new(
-                buffer_start,
+                env_start,
                 crate::ErrorType::UnclosedEnvironment(
                     ast1::Document::new_unchecked(label.clone()).to_string(),
                 ),
-- 
2.43.0


From c155e5532e4533cf3b98c91eca576dcd8e81011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 10/28] fix: lines of stage 2 errors inside scopes, arguments
 and environments

---
 src/ast2/command.rs  | 13 ++++++++++++-
 src/ast2/document.rs | 24 +++++++++++++++++++-----
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/ast2/command.rs b/src/ast2/command.rs
index 21dfafe..65d48ce 100644
--- a/src/ast2/command.rs
+++ b/src/ast2/command.rs
@@ -84,8 +84,19 @@ impl TryFrom<crate::ast1::Command> for Command {
 
         let mut arguments = Vec::with_capacity(arguments_o.len());
 
+        // lines between the start of the command and the current argument
+        let mut offset = label.chars().filter(|c| c == &'\n').count() as u32;
+
         for (prec, scope) in arguments_o {
-            arguments.push((prec, scope.try_into()?))
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines() - 1;
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+            offset += scope_lines;
+
+            arguments.push((prec, scope))
         }
 
         Ok(Self { label, arguments })
diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index e5962ae..52ba688 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -4,7 +4,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, ChunkVariant, Environment, IntoChunks};
+use super::{Chunk, ChunkVariant, Environment, IntoChunks, Scope};
 
 use std::{fmt::Display, mem, str::FromStr};
 
@@ -229,7 +229,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += line_no;
+                            e.line += line_no - 1;
                             return Err(e);
                         }
                     }
@@ -241,7 +241,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                     match $x {
                         Ok(k) => k,
                         Err(mut e) => {
-                            e.line += buffer_start;
+                            e.line += buffer_start - 1;
                             return Err(e);
                         }
                     }
@@ -260,7 +260,7 @@ impl TryFrom<crate::ast1::Document> for Document {
                 ast1::ChunkVariant::Command(c) => {
                     if !matches!(c.label().as_str(), "begin" | "end") {
                         if buffer_stack.is_empty() {
-                            push_chunks!(ChunkVariant::Command(c.try_into()?));
+                            push_chunks!(ChunkVariant::Command(map_e!(c.try_into())));
                         } else {
                             push_buffer!(ast1::ChunkVariant::Command(c));
                         }
@@ -335,8 +335,22 @@ impl TryFrom<crate::ast1::Document> for Document {
 
                                 let mut args_new = Vec::with_capacity(arguments.len());
 
+                                // lines between the `\begin` and the current argument
+                                let mut offset =
+                                    prec_begin.chars().filter(|c| c == &'\n').count() as u32
+                                        + label.lines()
+                                        - 1;
+
                                 for (prec, scope) in arguments {
-                                    args_new.push((prec, scope.try_into()?))
+                                    offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+                                    let scope_lines = scope.lines() - 1;
+                                    let scope = Scope::try_from(scope).map_err(|mut e| {
+                                        e.line += env_start - 1 + offset;
+                                        e
+                                    })?;
+                                    offset += scope_lines;
+
+                                    args_new.push((prec, scope))
                                 }
 
                                 chunks.push(Chunk::new_unchecked(
-- 
2.43.0


From c6b1d48a57e965e8f56f786c5bbaad58027da4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 11/28] fix: text beside a command inside dollar maths belongs
 to the maths block

---
 src/ast3/mathsblock.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 9463944..fd5e19c 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -193,10 +193,19 @@ impl MathsBlock {
                     macro_rules! push_str {
                         () => {
                             if !text_buffer.is_empty() {
-                                out.push(Chunk::new_unchecked(
-                                    text_buffer_line,
-                                    ChunkVariant::Text(std::mem::take(&mut text_buffer)),
-                                ))
+                                let text = std::mem::take(&mut text_buffer);
+
+                                if mode == MathsMode::None {
+                                    out.push(Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ChunkVariant::Text(text),
+                                    ))
+                                } else {
+                                    buffer.push(ast2::Chunk::new_unchecked(
+                                        text_buffer_line,
+                                        ast2::ChunkVariant::Text(text),
+                                    ))
+                                }
                             }
                         };
                     }
@@ -211,6 +220,7 @@ impl MathsBlock {
                                 MathsMode::None => {
                                     push_str!();
                                     mode = MathsMode::SingleDollar(MathsVariant::Dollars);
+                                    buffer_line = cursor_line_no;
                                     text_buffer_line = cursor_line_no;
                                 }
                                 MathsMode::SingleDollar(MathsVariant::Dollars)
@@ -234,7 +244,7 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
@@ -242,8 +252,7 @@ impl MathsBlock {
                                                 std::mem::take(&mut buffer)
                                                     .into_iter()
                                                     .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
+                                                        *chunk.line_no_mut() -= buffer_line - 1;
                                                         chunk
                                                     })
                                                     .collect(),
@@ -266,7 +275,7 @@ impl MathsBlock {
                                     }
 
                                     out.push(Chunk::new_unchecked(
-                                        text_buffer_line,
+                                        buffer_line,
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
@@ -274,8 +283,7 @@ impl MathsBlock {
                                                 std::mem::take(&mut buffer)
                                                     .into_iter()
                                                     .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -=
-                                                            text_buffer_line - 1;
+                                                        *chunk.line_no_mut() -= buffer_line - 1;
                                                         chunk
                                                     })
                                                     .collect(),
-- 
2.43.0


From 7b5316f227ab4d060c58ea3a7a3281f5b6f1b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 12/28] fix: keep a single dollar inside double dollar maths

---
 src/ast3/mathsblock.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index fd5e19c..7998b9b 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -297,10 +297,21 @@ impl MathsBlock {
                                 | MathsMode::DoubleDollar(MathsVariant::Brackets) => {}
                             }
                         } else {
+                            if mode == MathsMode::DoubleClosing {
+                                // a single dollar does not close the block
+                                text_buffer.push('$');
+                                mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                            }
+
                             text_buffer.push(c)
                         }
                     }
 
+                    if mode == MathsMode::DoubleClosing {
+                        text_buffer.push('$');
+                        mode = MathsMode::DoubleDollar(MathsVariant::Dollars);
+                    }
+
                     push_str!()
                 }
                 _ => buffer.push(ast2::Chunk::new_unchecked(line_no, variant)),
-- 
2.43.0


From 3ee1e71547762dce71a709fcd5bd6a875d02ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 13/28] fix: keep bracket maths delimiters nested in a block of
 the same kind

---
 src/ast3/mathsblock.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 7998b9b..6c1c340 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -109,13 +109,21 @@ impl MathsBlock {
                     if cmd.label() == "("
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ));
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "["
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth += 1
+                    depth += 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ));
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == ")"
@@ -153,13 +161,21 @@ impl MathsBlock {
                     if cmd.label() == ")"
                         && mode == MathsMode::SingleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ));
                 }
                 ast2::ChunkVariant::Command(cmd)
                     if cmd.label() == "]"
                         && mode == MathsMode::DoubleDollar(MathsVariant::Brackets) =>
                 {
-                    depth -= 1
+                    depth -= 1;
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ));
                 }
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
-- 
2.43.0


From 6f5fbac3f3e42e7664ab8f0fc1051d4d22624a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 14/28] fix: lines in bracket maths are relative to the block
 as in dollar maths

---
 src/ast3/mathsblock.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 6c1c340..5855ace 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -137,7 +137,15 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_chunks(
+                                std::mem::take(&mut buffer)
+                                    .into_iter()
+                                    .map(|mut chunk| {
+                                        *chunk.line_no_mut() -= buffer_line - 1;
+                                        chunk
+                                    })
+                                    .collect(),
+                            )?,
                         )),
                     ))
                 }
@@ -153,7 +161,15 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(std::mem::take(&mut buffer))?,
+                            Self::from_chunks(
+                                std::mem::take(&mut buffer)
+                                    .into_iter()
+                                    .map(|mut chunk| {
+                                        *chunk.line_no_mut() -= buffer_line - 1;
+                                        chunk
+                                    })
+                                    .collect(),
+                            )?,
                         )),
                     ))
                 }
-- 
2.43.0


From 5418d7690d6a7ef84ced434601a2227433bdf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 15/28] fix: line of a paragraph break of more than two
 newlines

---
 src/ast3/paragraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast3/paragraph.rs b/src/ast3/paragraph.rs
index 588a649..a7c3684 100644
--- a/src/ast3/paragraph.rs
+++ b/src/ast3/paragraph.rs
@@ -33,7 +33,10 @@ impl Paragraph {
                             buffer.push(c);
                         }
                         '\n' => {
-                            buffer_line = line_no;
+                            if consec_newlines == 0 {
+                                buffer_line = line_no;
+                            }
+
                             consec_newlines += 1;
                             line_no += 1;
 
-- 
2.43.0


From 8c7be965c5b6519e6f35e97cad03579683cc3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 16/28] fix: render the spacing of the document's own end
 command

---
 src/ast3/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 1d2944a..0efd58e 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -479,7 +479,7 @@ impl Display for Document {
                         ChunkVariant::Command(Command::new_unchecked(
                             "end".to_string(),
                             vec![(
-                                self.body_begin_prec.clone(),
+                                self.body_end_prec.clone(),
                                 Scope::new_unchecked(
                                     vec![Chunk::new_unchecked(
                                         1,
-- 
2.43.0


From 2259c1df051c580670aec3a8acb829087505bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 17/28] fix: a second document environment does not replace the
 first

---
 src/ast3/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0efd58e..47bcaa6 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -289,7 +289,9 @@ impl TryFrom<ast2::Document> for Document {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
-                ast2::ChunkVariant::Environment(env) if env.label().as_str() == "document" => {
+                ast2::ChunkVariant::Environment(env)
+                    if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
+                {
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
-- 
2.43.0


From 152e7d13ea16e7848c3379406c4fd767e00dde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 18/28] fix: first character and value of a document class
 option

---
 src/ast3/document.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 47bcaa6..51ec8ac 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -346,6 +346,7 @@ impl TryFrom<ast2::Document> for Document {
                                             BufferMode::Prec => {
                                                 prec.push_str(&buffer);
                                                 buffer.clear();
+                                                arg.push(c);
                                                 buffermode = BufferMode::Arg;
                                             }
                                             BufferMode::Arg if !c.is_whitespace() => arg.push(c),
@@ -398,14 +399,11 @@ impl TryFrom<ast2::Document> for Document {
                                         {
                                             let mut val_started = false;
 
-                                            for c in k.chars() {
+                                            for c in v.chars() {
                                                 if c.is_whitespace() && !val_started {
                                                     equal_post.push(c)
                                                 } else {
-                                                    if val_started {
-                                                        val_started = true;
-                                                    }
-
+                                                    val_started = true;
                                                     val.push(c)
                                                 }
                                             }
-- 
2.43.0


From 82afae318f98504efe856111a08f5162ec76554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 19/28] fix: count the lines in the arguments and spacing of
 the document environment

---
 src/ast3/document.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 51ec8ac..7488b14 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -60,7 +60,16 @@ impl Lines for Document {
             .chain(self.body.iter())
             .chain(self.trailing.iter())
             .map(|chunk| chunk.lines() - 1)
+            .chain(self.body_args.iter().map(|(prec, arg)| {
+                prec.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1
+            }))
             .sum::<u32>()
+            + self
+                .body_begin_prec
+                .chars()
+                .chain(self.body_end_prec.chars())
+                .filter(|c| c == &'\n')
+                .count() as u32
             + 1
     }
 }
-- 
2.43.0


From ebff8493ab9fa0c181646682732a5660e7d01432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 20/28] fix: validate the arguments of the document environment

---
 src/ast3/document.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 7488b14..8b78cc1 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -32,7 +32,17 @@ pub struct Document {
 
 impl Validate for Document {
     fn validate(&self) -> Result<(), crate::InternalError> {
-        for section in [&self.preamable, &self.body, &self.trailing] {
+        let no_args = Vec::new();
+
+        for (args, section) in [
+            (&no_args, &self.preamable),
+            (&self.body_args, &self.body),
+            (&no_args, &self.trailing),
+        ] {
+            for (_, arg) in args.iter() {
+                arg.validate()?
+            }
+
             let mut expected_line = 1;
 
             for chunk in section.iter() {
-- 
2.43.0


From 0c8902115048e528253c452a01425e5d6f319ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 21/28] fix: lines after the document environment are relative
 to its end

---
 src/ast3/document.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 8b78cc1..0b7f7bc 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -304,6 +304,9 @@ impl TryFrom<ast2::Document> for Document {
 
         let mut cursor = CursorState::Preamable;
 
+        // lines before the line that the trailing chunks start in
+        let mut trailing_offset = 0;
+
         for chunk in value.chunks_owned() {
             let (line_no, variant) = chunk.decompose();
 
@@ -311,6 +314,7 @@ impl TryFrom<ast2::Document> for Document {
                 ast2::ChunkVariant::Environment(env)
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
+                    trailing_offset = line_no + env.lines() - 2;
                     let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
                     construct.body_args = args;
                     construct.body = content;
@@ -445,7 +449,10 @@ impl TryFrom<ast2::Document> for Document {
                 _ if cursor == CursorState::Preamable => {
                     preamable.push(ast2::Chunk::new_unchecked(line_no, variant))
                 }
-                _ => trailing.push(ast2::Chunk::new_unchecked(line_no, variant)),
+                _ => trailing.push(ast2::Chunk::new_unchecked(
+                    line_no - trailing_offset,
+                    variant,
+                )),
             }
         }
 
-- 
2.43.0


From d54f08d14d5e394be557f24a2fe3c3661800a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 22/28] fix: lines of stage 3 errors inside scopes, arguments,
 environments and maths

---
 src/ast3/command.rs     | 13 +++++-
 src/ast3/document.rs    | 13 +++++-
 src/ast3/environment.rs | 24 ++++++++++-
 src/ast3/mathsblock.rs  | 90 +++++++++++++++++++++++++----------------
 4 files changed, 100 insertions(+), 40 deletions(-)

diff --git a/src/ast3/command.rs b/src/ast3/command.rs
index 48ccd85..317b735 100644
--- a/src/ast3/command.rs
+++ b/src/ast3/command.rs
@@ -69,8 +69,19 @@ impl TryFrom<ast2::Command> for Command {
 
         let mut args_new = Vec::with_capacity(args.len());
 
+        // lines between the start of the command and the current argument
+        let mut offset = label.chars().filter(|c| c == &'\n').count() as u32;
+
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines() - 1;
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+            offset += scope_lines;
+
+            args_new.push((prec, scope));
         }
 
         Ok(Self::new_unchecked(label, args_new))
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 0b7f7bc..e1de765 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -315,7 +315,12 @@ impl TryFrom<ast2::Document> for Document {
                     if env.label().as_str() == "document" && cursor == CursorState::Preamable =>
                 {
                     trailing_offset = line_no + env.lines() - 2;
-                    let (_, args, content, begin, end) = Environment::try_from(env)?.decompose();
+                    let (_, args, content, begin, end) = Environment::try_from(env)
+                        .map_err(|mut e| {
+                            e.line += line_no - 1;
+                            e
+                        })?
+                        .decompose();
                     construct.body_args = args;
                     construct.body = content;
                     construct.body_begin_prec = begin;
@@ -457,7 +462,11 @@ impl TryFrom<ast2::Document> for Document {
         }
 
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
-        construct.trailing = Paragraph::from_chunks(MathsBlock::from_chunks(trailing)?);
+        construct.trailing =
+            Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
+                e.line += trailing_offset;
+                e
+            })?);
 
         Ok(construct)
     }
diff --git a/src/ast3/environment.rs b/src/ast3/environment.rs
index e382aad..8a0684c 100644
--- a/src/ast3/environment.rs
+++ b/src/ast3/environment.rs
@@ -90,14 +90,34 @@ impl TryFrom<ast2::Environment> for Environment {
 
         let mut args_new = Vec::with_capacity(args.len());
 
+        // lines between the start of the environment and the current argument or content
+        let mut offset = prec_begin
+            .chars()
+            .chain(label.chars())
+            .filter(|c| c == &'\n')
+            .count() as u32;
+
         for (prec, scope) in args {
-            args_new.push((prec, scope.try_into()?));
+            offset += prec.chars().filter(|c| c == &'\n').count() as u32;
+            let scope_lines = scope.lines() - 1;
+            let scope = Scope::try_from(scope).map_err(|mut e| {
+                e.line += offset;
+                e
+            })?;
+            offset += scope_lines;
+
+            args_new.push((prec, scope));
         }
 
+        let content = MathsBlock::from_chunks(content).map_err(|mut e| {
+            e.line += offset;
+            e
+        })?;
+
         Ok(Self::new_unchecked(
             label,
             args_new,
-            Paragraph::from_chunks(MathsBlock::from_chunks(content)?),
+            Paragraph::from_chunks(content),
             prec_begin,
             prec_end,
         ))
diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 5855ace..98d0272 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -72,6 +72,14 @@ impl MathsBlock {
             None,
         }
 
+        // map error lines within a chunk or block to lines of the caller
+        fn map_e<T>(result: Result<T, crate::Error>, line_no: u32) -> Result<T, crate::Error> {
+            result.map_err(|mut e| {
+                e.line += line_no - 1;
+                e
+            })
+        }
+
         let mut out = Vec::new();
         let mut mode = MathsMode::None;
         let mut depth: u32 = 0;
@@ -137,14 +145,17 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Inline,
-                            Self::from_chunks(
-                                std::mem::take(&mut buffer)
-                                    .into_iter()
-                                    .map(|mut chunk| {
-                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                        chunk
-                                    })
-                                    .collect(),
+                            map_e(
+                                Self::from_chunks(
+                                    std::mem::take(&mut buffer)
+                                        .into_iter()
+                                        .map(|mut chunk| {
+                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                            chunk
+                                        })
+                                        .collect(),
+                                ),
+                                buffer_line,
                             )?,
                         )),
                     ))
@@ -161,14 +172,17 @@ impl MathsBlock {
                         ChunkVariant::MathsBlock(Self::new_unchecked(
                             MathsVariant::Brackets,
                             MathsType::Outline,
-                            Self::from_chunks(
-                                std::mem::take(&mut buffer)
-                                    .into_iter()
-                                    .map(|mut chunk| {
-                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                        chunk
-                                    })
-                                    .collect(),
+                            map_e(
+                                Self::from_chunks(
+                                    std::mem::take(&mut buffer)
+                                        .into_iter()
+                                        .map(|mut chunk| {
+                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                            chunk
+                                        })
+                                        .collect(),
+                                ),
+                                buffer_line,
                             )?,
                         )),
                     ))
@@ -196,19 +210,19 @@ impl MathsBlock {
                 ast2::ChunkVariant::Scope(s) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Scope(s.try_into()?),
+                        ChunkVariant::Scope(map_e(s.try_into(), line_no)?),
                     ));
                 }
                 ast2::ChunkVariant::Environment(env) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Environment(env.try_into()?),
+                        ChunkVariant::Environment(map_e(env.try_into(), line_no)?),
                     ));
                 }
                 ast2::ChunkVariant::Command(cmd) if mode == MathsMode::None => {
                     out.push(Chunk::new_unchecked(
                         line_no,
-                        ChunkVariant::Command(cmd.try_into()?),
+                        ChunkVariant::Command(map_e(cmd.try_into(), line_no)?),
                     ));
                 }
                 ast2::ChunkVariant::Text(s)
@@ -280,14 +294,17 @@ impl MathsBlock {
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Outline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            map_e(
+                                                Self::from_chunks(
+                                                    std::mem::take(&mut buffer)
+                                                        .into_iter()
+                                                        .map(|mut chunk| {
+                                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                                            chunk
+                                                        })
+                                                        .collect(),
+                                                ),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
@@ -311,14 +328,17 @@ impl MathsBlock {
                                         ChunkVariant::MathsBlock(MathsBlock::new_unchecked(
                                             MathsVariant::Dollars,
                                             MathsType::Inline,
-                                            Self::from_chunks(
-                                                std::mem::take(&mut buffer)
-                                                    .into_iter()
-                                                    .map(|mut chunk| {
-                                                        *chunk.line_no_mut() -= buffer_line - 1;
-                                                        chunk
-                                                    })
-                                                    .collect(),
+                                            map_e(
+                                                Self::from_chunks(
+                                                    std::mem::take(&mut buffer)
+                                                        .into_iter()
+                                                        .map(|mut chunk| {
+                                                            *chunk.line_no_mut() -= buffer_line - 1;
+                                                            chunk
+                                                        })
+                                                        .collect(),
+                                                ),
+                                                buffer_line,
                                             )?,
                                         )),
                                     ));
-- 
2.43.0


From 4482dbd6f7cbcee15fd457c5e9f8e30367d81b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 23/28] fix: line numbers when a stage 3 document is lowered to
 stage 2

---
 src/ast2/document.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 52ba688..2629aaa 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -150,21 +150,12 @@ impl From<ast3::Document> for Document {
 
         let mut out = Document::new_unchecked(preamable);
 
-        let body_offset = body_args
-            .iter()
-            .map(|(s, arg)| s.chars().filter(|c| c == &'\n').count() as u32 + arg.lines() - 1)
-            .sum::<u32>()
-            + body_begin_prec.chars().filter(|c| c == &'\n').count() as u32;
         let body_chunks = body
             .into_iter()
             .flat_map(ast3::Chunk::into_chunks)
-            .map(|mut chunk| {
-                *chunk.line_no_mut() += body_offset;
-                chunk
-            })
             .collect::<Vec<_>>();
         let body = Chunk::new_unchecked(
-            prem_lines,
+            prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
                 "document".to_string(),
                 body_args
@@ -177,7 +168,7 @@ impl From<ast3::Document> for Document {
             )),
         );
 
-        let trailing_offset = body.lines() + prem_lines - 2;
+        let trailing_offset = body.lines() + prem_lines - 1;
 
         out.push_chunk_unchecked(body);
 
-- 
2.43.0


From 03a8710fce6fd569f72908deb1fae6f83e975ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 24/28] fix: lowering stage 3 merges the text around breaks and
 maths again

---
 src/ast2/document.rs    | 24 +++++++++++++-----------
 src/ast2/environment.rs |  7 ++-----
 src/ast2/scope.rs       |  5 +----
 3 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index 2629aaa..a828215 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -90,6 +90,13 @@ impl Document {
 
         self.0.push(chunk)
     }
+
+    /// Collect chunks, merging neighbouring text into one chunk
+    pub(super) fn merge_chunks(chunks: impl Iterator<Item = Chunk>) -> Vec<Chunk> {
+        let mut out = Self::default();
+        chunks.for_each(|chunk| out.push_chunk_unchecked(chunk));
+        out.chunks_owned()
+    }
 }
 
 impl FromStr for Document {
@@ -142,18 +149,13 @@ impl From<ast3::Document> for Document {
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
-        let preamable = preamable
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
-        let prem_lines = preamable.iter().map(|chunk| chunk.lines() - 1).sum::<u32>();
+        let mut out = Document::new_unchecked(Document::merge_chunks(
+            preamable.into_iter().flat_map(ast3::Chunk::into_chunks),
+        ));
+        let prem_lines = out.lines() - 1;
 
-        let mut out = Document::new_unchecked(preamable);
-
-        let body_chunks = body
-            .into_iter()
-            .flat_map(ast3::Chunk::into_chunks)
-            .collect::<Vec<_>>();
+        let body_chunks =
+            Document::merge_chunks(body.into_iter().flat_map(ast3::Chunk::into_chunks));
         let body = Chunk::new_unchecked(
             prem_lines + 1,
             ChunkVariant::Environment(Environment::new_unchecked(
diff --git a/src/ast2/environment.rs b/src/ast2/environment.rs
index 1dacd12..f5256ee 100644
--- a/src/ast2/environment.rs
+++ b/src/ast2/environment.rs
@@ -7,7 +7,7 @@ use crate::{
     InternalError,
 };
 
-use super::{Chunk, IntoChunks as IntoChunks3, Scope};
+use super::{Chunk, Document, IntoChunks as IntoChunks3, Scope};
 
 /// An environment is a scope associated with a command and its arguments
 #[derive(Clone)]
@@ -167,10 +167,7 @@ impl From<ast3::Environment> for Environment {
                 .into_iter()
                 .map(|(s, chunk)| (s, chunk.into()))
                 .collect(),
-            content
-                .into_iter()
-                .flat_map(|chunk| chunk.into_chunks())
-                .collect(),
+            Document::merge_chunks(content.into_iter().flat_map(|chunk| chunk.into_chunks())),
             prec_begin,
             prec_end,
         )
diff --git a/src/ast2/scope.rs b/src/ast2/scope.rs
index 3b668c2..332f3d2 100644
--- a/src/ast2/scope.rs
+++ b/src/ast2/scope.rs
@@ -118,10 +118,7 @@ impl From<ast3::Scope> for Scope {
     fn from(value: ast3::Scope) -> Self {
         let (chunks, variant) = value.decompose();
         Scope::new_unchecked(
-            chunks
-                .into_iter()
-                .flat_map(ast3::Chunk::into_chunks)
-                .collect(),
+            Document::merge_chunks(chunks.into_iter().flat_map(ast3::Chunk::into_chunks)),
             variant.into(),
         )
     }
-- 
2.43.0


From a5c78e6e6883a8f6ca2818fdbb8aa137e773f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 25/28] fix: do not add a document environment to a source
 without one

---
 src/ast2/document.rs |  5 +++++
 src/ast3/document.rs | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/ast2/document.rs b/src/ast2/document.rs
index a828215..d294732 100644
--- a/src/ast2/document.rs
+++ b/src/ast2/document.rs
@@ -146,6 +146,7 @@ impl Lines for Document {
 
 impl From<ast3::Document> for Document {
     fn from(value: ast3::Document) -> Self {
+        let has_body = value.has_body();
         let (_, _, preamable, body, body_args, body_begin_prec, body_end_prec, trailing) =
             value.decompose();
 
@@ -154,6 +155,10 @@ impl From<ast3::Document> for Document {
         ));
         let prem_lines = out.lines() - 1;
 
+        if !has_body {
+            return out;
+        }
+
         let body_chunks =
             Document::merge_chunks(body.into_iter().flat_map(ast3::Chunk::into_chunks));
         let body = Chunk::new_unchecked(
diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index e1de765..91daa4a 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -28,6 +28,9 @@ pub struct Document {
     body_end_prec: String,
 
     trailing: Vec<Chunk>,
+
+    // parsed from a source without document environment
+    bodyless: bool,
 }
 
 impl Validate for Document {
@@ -132,9 +135,18 @@ impl Document {
             body_begin_prec,
             body_end_prec,
             trailing,
+            bodyless: false,
         }
     }
 
+    /// Returns whether there is a document environment
+    ///
+    /// Only a document parsed from a source without one has none,
+    /// until a chunk is pushed to body or trailing
+    pub fn has_body(&self) -> bool {
+        !self.bodyless
+    }
+
     /// Returns the chunks representing the preamable
     pub fn chunks_preamable(&self) -> &Vec<Chunk> {
         &self.preamable
@@ -202,21 +214,27 @@ impl Document {
 
     /// Push a ChunkVarint to body
     pub fn push_body(&mut self, variant: ChunkVariant) -> Result<(), InternalError> {
-        Self::push_vec(&mut self.body, variant)
+        Self::push_vec(&mut self.body, variant)?;
+        self.bodyless = false;
+        Ok(())
     }
 
     /// Push a ChunkVarint to body without checking
     pub fn push_body_unchecked(&mut self, variant: ChunkVariant) {
+        self.bodyless = false;
         Self::push_vec_unchecked(&mut self.body, variant)
     }
 
     /// Push a Chunk to body
     pub fn push_body_chunk(&mut self, chunk: Chunk) -> Result<(), InternalError> {
-        Self::push_chunk_vec(&mut self.body, chunk)
+        Self::push_chunk_vec(&mut self.body, chunk)?;
+        self.bodyless = false;
+        Ok(())
     }
 
     /// Push a Chunk to body without checking
     pub fn push_body_chunk_unchecked(&mut self, chunk: Chunk) {
+        self.bodyless = false;
         Self::push_chunk_vec_unchecked(&mut self.body, chunk)
     }
 
@@ -242,21 +260,27 @@ impl Document {
 
     /// Push a ChunkVarint to trailing
     pub fn push_trailing(&mut self, variant: ChunkVariant) -> Result<(), InternalError> {
-        Self::push_vec(&mut self.trailing, variant)
+        Self::push_vec(&mut self.trailing, variant)?;
+        self.bodyless = false;
+        Ok(())
     }
 
     /// Push a ChunkVariant to trailing without checking
     pub fn push_trailing_unchecked(&mut self, variant: ChunkVariant) {
+        self.bodyless = false;
         Self::push_vec_unchecked(&mut self.trailing, variant)
     }
 
     /// Push a Chunk to trailing
     pub fn push_trailing_chunk(&mut self, chunk: Chunk) -> Result<(), InternalError> {
-        Self::push_chunk_vec(&mut self.trailing, chunk)
+        Self::push_chunk_vec(&mut self.trailing, chunk)?;
+        self.bodyless = false;
+        Ok(())
     }
 
     /// Push a Chunk to trailing without checking
     pub fn push_trailing_chunk_unchecked(&mut self, chunk: Chunk) {
+        self.bodyless = false;
         Self::push_chunk_vec_unchecked(&mut self.trailing, chunk)
     }
 
@@ -461,6 +485,7 @@ impl TryFrom<ast2::Document> for Document {
             }
         }
 
+        construct.bodyless = cursor == CursorState::Preamable;
         construct.preamable = Paragraph::from_chunks(MathsBlock::from_chunks(preamable)?);
         construct.trailing =
             Paragraph::from_chunks(MathsBlock::from_chunks(trailing).map_err(|mut e| {
@@ -482,6 +507,10 @@ impl FromStr for Document {
 
 impl Display for Document {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        if !self.has_body() {
+            return self.preamable.iter().try_for_each(|chunk| chunk.fmt(f));
+        }
+
         f.write_str(
             self.preamable
                 .iter()
-- 
2.43.0


From db4d9c2c3f847340b271c1098d12e0a53ea4fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 26/28] fix: refuse to push text that completes a paragraph
 break in the text before it

---
 src/ast3/document.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ast3/document.rs b/src/ast3/document.rs
index 91daa4a..a1fcecc 100644
--- a/src/ast3/document.rs
+++ b/src/ast3/document.rs
@@ -176,9 +176,24 @@ impl Document {
         vec.push(chunk)
     }
 
+    /// Validates a ChunkVariant, which may not complete a paragraph break in the text before it
+    fn validate_push(vec: &[Chunk], variant: &ChunkVariant) -> Result<(), InternalError> {
+        variant.validate()?;
+
+        match (vec.last().map(Chunk::variant), variant) {
+            (Some(ChunkVariant::Text(last_s)), ChunkVariant::Text(s))
+                if last_s[last_s.trim_end().len()..].contains('\n')
+                    && s[..s.len() - s.trim_start().len()].contains('\n') =>
+            {
+                Err(InternalError::UnbrokenParagraph)
+            }
+            _ => Ok(()),
+        }
+    }
+
     /// Push a Chunk to a `Vec<Chunk>`
     fn push_chunk_vec(vec: &mut Vec<Chunk>, chunk: Chunk) -> Result<(), InternalError> {
-        chunk.validate()?;
+        Self::validate_push(vec, chunk.variant())?;
 
         let expected_line = vec
             .last()
@@ -207,7 +222,7 @@ impl Document {
 
     /// Push a ChunkVariant to a `Vec<Chunk>`
     fn push_vec(vec: &mut Vec<Chunk>, variant: ChunkVariant) -> Result<(), InternalError> {
-        variant.validate()?;
+        Self::validate_push(vec, &variant)?;
         Self::push_vec_unchecked(vec, variant);
         Ok(())
     }
-- 
2.43.0


From ceead1fc5e46112aa0f5f1212bae8136c7e8fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:39 +0000
Subject: [PATCH 27/28] fix: lower an environment whose label is not the text
 of a document

Environments can be built with any label; one that does not parse panicked
and one that holds a comment lost it.
---
 src/ast2/chunk.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ast2/chunk.rs b/src/ast2/chunk.rs
index 8f1081e..a509aef 100644
--- a/src/ast2/chunk.rs
+++ b/src/ast2/chunk.rs
@@ -61,8 +61,17 @@ impl ast1::IntoChunks for Chunk {
                     let end_line_no = content_line_no
                         + lines(&Document::new_unchecked(content.clone()).to_string()) as u32;
 
+                    // a label that is not the text of a document is kept as it is
                     let label = ast1::Scope::new_unchecked(
-                        ast1::Document::from_str(&label).unwrap().chunks_owned(),
+                        match ast1::Document::from_str(&label) {
+                            Ok(document) if document.to_string() == label => {
+                                document.chunks_owned()
+                            }
+                            _ => vec![ast1::Chunk::new_unchecked(
+                                1,
+                                ast1::ChunkVariant::Text(label),
+                            )],
+                        },
                         ast1::ScopeVariant::Curly,
                     );
 
-- 
2.43.0


From c0869d9851f2118c185bfa107d15b00656848280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:39 +0000
Subject: [PATCH 28/28] fix: commands with arguments do not delimit maths

Documents built by hand can give \(, \[, \) and \] arguments, which were
lost when raised to stage 3.
---
 src/ast3/mathsblock.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ast3/mathsblock.rs b/src/ast3/mathsblock.rs
index 98d0272..9489482 100644
--- a/src/ast3/mathsblock.rs
+++ b/src/ast3/mathsblock.rs
@@ -91,6 +91,21 @@ impl MathsBlock {
             let (line_no, variant) = chunk.decompose();
 
             match variant {
+                // a command with arguments does not delimit maths
+                ast2::ChunkVariant::Command(cmd)
+                    if !cmd.arguments().is_empty() && mode == MathsMode::None =>
+                {
+                    out.push(Chunk::new_unchecked(
+                        line_no,
+                        ChunkVariant::Command(map_e(cmd.try_into(), line_no)?),
+                    ));
+                }
+                ast2::ChunkVariant::Command(cmd) if !cmd.arguments().is_empty() => {
+                    buffer.push(ast2::Chunk::new_unchecked(
+                        line_no,
+                        ast2::ChunkVariant::Command(cmd),
+                    ));
+                }
                 ast2::ChunkVariant::Command(cmd)
                     if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>
                 {
-- 
2.43.0

