From 5ddce90742d4d2224f5e5abab5deb865a58830ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 01/14] fix: reject an End that does not match the frame it
 closes

try_to_yamd documents UnbalancedOpStream for such streams but silently
dropped the frame and returned Ok.
---
 src/op/to_yamd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index 4cc0629..c591fa9 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -430,8 +430,8 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                             items.push(item);
                         }
                     }
-                    // coverage: defensive catchall for any (Node, Frame) mismatch; indicates a programmer or parser error
-                    _ => {}
+                    // any (Node, Frame) mismatch means the End does not match the frame it closes
+                    _ => return Err(UnbalancedOpStream),
                 }
             }
         }
-- 
2.43.0


From 9f2aad65f859cc122bdacae6db62ccad18623965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 02/14] fix: trim CRLF line breaks like LF ones

List items, callout paragraphs, code bodies and metadata kept the carriage
return of a CRLF line end because only the line feed was trimmed.
---
 src/op/to_yamd.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/op/to_yamd.rs b/src/op/to_yamd.rs
index c591fa9..c88195b 100644
--- a/src/op/to_yamd.rs
+++ b/src/op/to_yamd.rs
@@ -18,6 +18,9 @@ impl std::fmt::Display for UnbalancedOpStream {
 
 impl std::error::Error for UnbalancedOpStream {}
 
+/// Characters that make up a line break (`\n` or `\r\n`).
+const EOL_CHARS: [char; 2] = ['\r', '\n'];
+
 enum Frame {
     Yamd {
         metadata: Option<String>,
@@ -283,7 +286,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         }
                     }
                     (Node::Metadata, Frame::Metadata { text }) => {
-                        let metadata = text.trim_matches('\n').to_owned();
+                        let metadata = text.trim_matches(EOL_CHARS).to_owned();
                         if let Some(Frame::Yamd { metadata: m, .. }) = stack.last_mut() {
                             *m = Some(metadata);
                         }
@@ -376,7 +379,7 @@ pub fn try_to_yamd(ops: &[Op], source: &str) -> Result<Yamd, UnbalancedOpStream>
                         push_yamd_node(&mut stack, Images::new(images).into());
                     }
                     (Node::Code, Frame::Code { lang, code }) => {
-                        let code = code.trim_end_matches('\n').to_owned();
+                        let code = code.trim_end_matches(EOL_CHARS).to_owned();
                         push_yamd_node(&mut stack, Code::new(lang, code).into());
                     }
                     (Node::Modifier, Frame::Modifier { text }) => {
@@ -451,7 +454,7 @@ fn extract_heading_level(content: &Content, source: &str) -> u8 {
 
 fn trim_trailing_newline_from_text(body: &mut Vec<ParagraphNodes>) {
     if let Some(ParagraphNodes::Text(t)) = body.last_mut() {
-        let trimmed = t.trim_end_matches('\n');
+        let trimmed = t.trim_end_matches(EOL_CHARS);
         if trimmed.is_empty() {
             body.pop();
         } else {
-- 
2.43.0


From 664e1d366d3635ccb92b547c838f9af3486a2fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 03/14] fix: escape every blank line when printing inline text

Only pairs of LF were escaped, so runs of three or more and CRLF blank
lines printed as a terminator and did not survive parsing again.
---
 src/nodes/anchor.rs        |  6 ++++--
 src/nodes/bold.rs          |  4 +++-
 src/nodes/code_span.rs     |  4 +++-
 src/nodes/emphasis.rs      |  4 +++-
 src/nodes/heading.rs       |  4 +++-
 src/nodes/image.rs         |  6 ++++--
 src/nodes/italic.rs        |  4 +++-
 src/nodes/mod.rs           | 21 +++++++++++++++++++++
 src/nodes/paragraph.rs     |  1 +
 src/nodes/strikethrough.rs |  4 +++-
 10 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 57ef22e..0e9dc4e 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Anchor
 ///
 /// Anchor has two required parts.
@@ -57,12 +59,12 @@ impl Display for Anchor {
                 .replace("\\", "\\\\")
                 .replace("[", "\\[")
                 .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
+                .escape_blank_lines(),
             self.url
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+                .escape_blank_lines()
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index 297b665..f67b7cf 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 use super::{Italic, Strikethrough};
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -45,7 +47,7 @@ impl Display for BoldNodes {
                         .replace("*", "\\*")
                         .replace("_", "\\_")
                         .replace("~", "\\~")
-                        .replace("\n\n", "\\\n\n")
+                        .escape_blank_lines()
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index 7d142e9..d8c5338 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Code span
 ///
 /// Any characters except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by a
@@ -50,7 +52,7 @@ impl Display for CodeSpan {
             self.0
                 .replace("\\", "\\\\")
                 .replace("`", "\\`")
-                .replace("\n\n", "\\\n\n")
+                .escape_blank_lines()
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index 7d59484..fd19d51 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Emphasis
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -47,7 +49,7 @@ impl Display for Emphasis {
             self.0
                 .replace("\\", "\\\\")
                 .replace("*", "\\*")
-                .replace("\n\n", "\\\n\n")
+                .escape_blank_lines()
         )
     }
 }
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 25b6769..31eda92 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 use super::Anchor;
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -33,7 +35,7 @@ impl Display for HeadingNodes {
                     f,
                     "{}",
                     text.replace("\\", "\\\\")
-                        .replace("\n\n", "\\\n\n")
+                        .escape_blank_lines()
                         .replace("#", "\\#")
                 )
             }
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 6b24e32..3d9ea17 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Image
 ///
 /// Starts with [Bang](type@crate::lexer::TokenKind::Bang) of length 1, and has two required parts.
@@ -57,12 +59,12 @@ impl Display for Image {
             self.alt
                 .replace("\\", "\\\\")
                 .replace("]", "\\]")
-                .replace("\n\n", "\\\n\n"),
+                .escape_blank_lines(),
             self.src
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
-                .replace("\n\n", "\\\n\n")
+                .escape_blank_lines()
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index b13c9b4..6059223 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Italic
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -46,7 +48,7 @@ impl Display for Italic {
             self.0
                 .replace("\\", "\\\\")
                 .replace("_", "\\_")
-                .replace("\n\n", "\\\n\n")
+                .escape_blank_lines()
         )
     }
 }
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index fccf2a1..3d24a4d 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -66,3 +66,24 @@ pub use paragraph::{Paragraph, ParagraphNodes};
 pub use strikethrough::Strikethrough;
 pub use thematic_break::ThematicBreak;
 pub use yamd::{Yamd, YamdNodes};
+
+/// Escaping shared by the `Display` implementations of the nodes.
+pub(crate) trait Escape {
+    /// Escapes every `\n` another line break follows, so that no
+    /// [Terminator](crate::lexer::TokenKind::Terminator) is left.
+    fn escape_blank_lines(&self) -> String;
+}
+
+impl Escape for str {
+    fn escape_blank_lines(&self) -> String {
+        let mut res = String::with_capacity(self.len());
+        for (i, c) in self.char_indices() {
+            let rest = &self[i + c.len_utf8()..];
+            if c == '\n' && (rest.starts_with('\n') || rest.starts_with("\r\n")) {
+                res.push('\\');
+            }
+            res.push(c);
+        }
+        res
+    }
+}
diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index 292814f..f91a802 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -78,6 +78,7 @@ impl Display for ParagraphNodes {
                     .replace("[", "\\[")
                     .replace("{", "\\{")
                     .replace("\n\n", "\\\n\\\n")
+                    .replace("\n\r", "\n\\\r")
                     .replace("%}", "\\%}")
             ),
             ParagraphNodes::CodeSpan(c) => write!(f, "{}", c),
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index f8fefab..eeef51c 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Strikethrough
 ///
 /// Any token except [Terminator](type@crate::lexer::TokenKind::Terminator) surrounded by
@@ -47,7 +49,7 @@ impl Display for Strikethrough {
             self.0
                 .replace("\\", "\\\\")
                 .replace("~", "\\~")
-                .replace("\n\n", "\\\n\n")
+                .escape_blank_lines()
         )
     }
 }
-- 
2.43.0


From 1f91977b62900143e768357aedf7e8b05a94a63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 04/14] fix: escape collapsible closers in every inline text

Only plain text did it, so a closer at a line start inside italic, bold,
links, headings, images and the like ended an enclosing collapsible.
---
 src/nodes/anchor.rs        | 4 +++-
 src/nodes/bold.rs          | 1 +
 src/nodes/code_span.rs     | 1 +
 src/nodes/emphasis.rs      | 1 +
 src/nodes/heading.rs       | 1 +
 src/nodes/image.rs         | 4 +++-
 src/nodes/italic.rs        | 1 +
 src/nodes/strikethrough.rs | 1 +
 8 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nodes/anchor.rs b/src/nodes/anchor.rs
index 0e9dc4e..65a641d 100644
--- a/src/nodes/anchor.rs
+++ b/src/nodes/anchor.rs
@@ -59,12 +59,14 @@ impl Display for Anchor {
                 .replace("\\", "\\\\")
                 .replace("[", "\\[")
                 .replace("]", "\\]")
-                .escape_blank_lines(),
+                .escape_blank_lines()
+                .replace("%}", "\\%}"),
             self.url
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .escape_blank_lines()
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/bold.rs b/src/nodes/bold.rs
index f67b7cf..b0ed033 100644
--- a/src/nodes/bold.rs
+++ b/src/nodes/bold.rs
@@ -48,6 +48,7 @@ impl Display for BoldNodes {
                         .replace("_", "\\_")
                         .replace("~", "\\~")
                         .escape_blank_lines()
+                        .replace("%}", "\\%}")
                 )
             }
         }
diff --git a/src/nodes/code_span.rs b/src/nodes/code_span.rs
index d8c5338..6c8a0da 100644
--- a/src/nodes/code_span.rs
+++ b/src/nodes/code_span.rs
@@ -53,6 +53,7 @@ impl Display for CodeSpan {
                 .replace("\\", "\\\\")
                 .replace("`", "\\`")
                 .escape_blank_lines()
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/emphasis.rs b/src/nodes/emphasis.rs
index fd19d51..2687f34 100644
--- a/src/nodes/emphasis.rs
+++ b/src/nodes/emphasis.rs
@@ -50,6 +50,7 @@ impl Display for Emphasis {
                 .replace("\\", "\\\\")
                 .replace("*", "\\*")
                 .escape_blank_lines()
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index 31eda92..cb9c89c 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -36,6 +36,7 @@ impl Display for HeadingNodes {
                     "{}",
                     text.replace("\\", "\\\\")
                         .escape_blank_lines()
+                        .replace("%}", "\\%}")
                         .replace("#", "\\#")
                 )
             }
diff --git a/src/nodes/image.rs b/src/nodes/image.rs
index 3d9ea17..45b13a3 100644
--- a/src/nodes/image.rs
+++ b/src/nodes/image.rs
@@ -59,12 +59,14 @@ impl Display for Image {
             self.alt
                 .replace("\\", "\\\\")
                 .replace("]", "\\]")
-                .escape_blank_lines(),
+                .escape_blank_lines()
+                .replace("%}", "\\%}"),
             self.src
                 .replace("\\", "\\\\")
                 .replace("(", "\\(")
                 .replace(")", "\\)")
                 .escape_blank_lines()
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/italic.rs b/src/nodes/italic.rs
index 6059223..115763a 100644
--- a/src/nodes/italic.rs
+++ b/src/nodes/italic.rs
@@ -49,6 +49,7 @@ impl Display for Italic {
                 .replace("\\", "\\\\")
                 .replace("_", "\\_")
                 .escape_blank_lines()
+                .replace("%}", "\\%}")
         )
     }
 }
diff --git a/src/nodes/strikethrough.rs b/src/nodes/strikethrough.rs
index eeef51c..b62f478 100644
--- a/src/nodes/strikethrough.rs
+++ b/src/nodes/strikethrough.rs
@@ -50,6 +50,7 @@ impl Display for Strikethrough {
                 .replace("\\", "\\\\")
                 .replace("~", "\\~")
                 .escape_blank_lines()
+                .replace("%}", "\\%}")
         )
     }
 }
-- 
2.43.0


From 0b9790b1cce010c58831ab3a2f2940cf38d1aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 05/14] fix: an embed does not extend across a blank line

Its documentation excludes terminators from kind and arguments, but the
document loop parsed it without that stop condition. Blank lines in either
part are escaped when printed.
---
 src/nodes/embed.rs | 7 ++++++-
 src/op/document.rs | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nodes/embed.rs b/src/nodes/embed.rs
index 3a5e545..8ef3dd2 100644
--- a/src/nodes/embed.rs
+++ b/src/nodes/embed.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use crate::nodes::Escape;
+
 /// # Embed
 ///
 /// Starts with [LeftCurlyBrace](type@crate::lexer::TokenKind::LeftCurlyBrace) of length 2.
@@ -48,12 +50,15 @@ impl Display for Embed {
             self.kind
                 .replace("\\", "\\\\")
                 .replace("{", "\\{")
-                .replace("|", "\\|"),
+                .replace("|", "\\|")
+                .escape_blank_lines()
+                .replace("%}", "\\%}"),
             self.args
                 .replace("\\", "\\\\")
                 .replace("{", "\\{")
                 .replace("%", "\\%")
                 .replace("}", "\\}")
+                .escape_blank_lines()
         )
     }
 }
diff --git a/src/op/document.rs b/src/op/document.rs
index 20d172a..8d3ff14 100644
--- a/src/op/document.rs
+++ b/src/op/document.rs
@@ -58,7 +58,11 @@ pub fn document(p: &mut Parser) {
         if let Some(range) = p.eat(is_terminator) {
             let content = p.span(range);
             p.ops.push(Op::new_value(content));
-        } else if code(p) || collapsible(p) || embed(p) || highlight(p) {
+        } else if code(p)
+            || collapsible(p)
+            || p.with_eof(StopCondition::Terminator, embed)
+            || highlight(p)
+        {
         } else {
             p.with_eof(StopCondition::Terminator, |p| {
                 if !list(p, 0) && !images(p) && !thematic_break(p) && !heading(p) {
-- 
2.43.0


From ba34fd70021b7215ab595b97895c9f12f5f915bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 06/14] fix: keep plain brackets and leading spaces of headings
 plain when printing

Plain text such as [a](b) in a heading printed as a link, and a leading
space widened the space after the marks so that it was no heading at all.
---
 src/nodes/heading.rs |  8 +++++++-
 src/nodes/mod.rs     | 10 ++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/nodes/heading.rs b/src/nodes/heading.rs
index cb9c89c..12f2df5 100644
--- a/src/nodes/heading.rs
+++ b/src/nodes/heading.rs
@@ -38,6 +38,7 @@ impl Display for HeadingNodes {
                         .escape_blank_lines()
                         .replace("%}", "\\%}")
                         .replace("#", "\\#")
+                        .replace("[", "\\[")
                 )
             }
             HeadingNodes::Anchor(anchor) => write!(f, "{}", anchor),
@@ -85,7 +86,12 @@ impl Heading {
 impl Display for Heading {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body: String = self.body.iter().map(|n| n.to_string()).collect();
-        write!(f, "{} {}", "#".repeat(self.level as usize), body)
+        write!(
+            f,
+            "{} {}",
+            "#".repeat(self.level as usize),
+            body.escape_leading_space()
+        )
     }
 }
 
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 3d24a4d..0dd1ce9 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -72,6 +72,8 @@ pub(crate) trait Escape {
     /// Escapes every `\n` another line break follows, so that no
     /// [Terminator](crate::lexer::TokenKind::Terminator) is left.
     fn escape_blank_lines(&self) -> String;
+    /// Escapes a leading space, which would widen the space after an opening marker.
+    fn escape_leading_space(&self) -> String;
 }
 
 impl Escape for str {
@@ -86,4 +88,12 @@ impl Escape for str {
         }
         res
     }
+
+    fn escape_leading_space(&self) -> String {
+        if self.starts_with(' ') {
+            format!("\\{self}")
+        } else {
+            self.to_owned()
+        }
+    }
 }
-- 
2.43.0


From d471d239d7255802df1dd034c1913566be11c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 07/14] fix: escape every block marker a paragraph can start
 with

Text starting with two to six hash marks, an exclamation mark in front of a
link, or a line break right after an opening line printed as another block.
---
 src/nodes/paragraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/paragraph.rs b/src/nodes/paragraph.rs
index f91a802..9d5bbec 100644
--- a/src/nodes/paragraph.rs
+++ b/src/nodes/paragraph.rs
@@ -172,9 +172,12 @@ impl Display for Paragraph {
 pub(crate) fn escape_leading_block_marker(s: String) -> String {
     if s.starts_with("- ")
         || s.starts_with("+ ")
-        || s.starts_with("# ")
+        || s.trim_start_matches('#').starts_with(' ') && s.starts_with('#')
         || s.starts_with("!!")
+        || s.starts_with("![")
         || s.starts_with("---")
+        || s.starts_with('\n')
+        || s.starts_with("\r\n")
     {
         format!("\\{}", s)
     } else {
-- 
2.43.0


From b65a8fb9fd98fc4db6376feca1e70910b18c3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 08/14] fix: escape the trailing line break of a paragraph or
 heading when printing

---
 src/nodes/collapsible.rs |  7 +++++--
 src/nodes/mod.rs         | 13 +++++++++++++
 src/nodes/yamd.rs        |  9 ++++++---
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index e89a538..6793a98 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{YamdNodes, paragraph::escape_leading_block_marker};
+use super::{Escape, YamdNodes, paragraph::escape_leading_block_marker};
 
 /// # Collapsible
 ///
@@ -60,7 +60,10 @@ impl Display for Collapsible {
             self.body
                 .iter()
                 .map(|node| match node {
-                    YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+                    YamdNodes::Paragraph(p) => {
+                        escape_leading_block_marker(p.to_string()).escape_trailing_line_break()
+                    }
+                    YamdNodes::Heading(h) => h.to_string().escape_trailing_line_break(),
                     other => other.to_string(),
                 })
                 .collect::<Vec<_>>()
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 0dd1ce9..256869c 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -74,6 +74,8 @@ pub(crate) trait Escape {
     fn escape_blank_lines(&self) -> String;
     /// Escapes a leading space, which would widen the space after an opening marker.
     fn escape_leading_space(&self) -> String;
+    /// Escapes a trailing line break, which would merge with the ones printed after the node.
+    fn escape_trailing_line_break(&self) -> String;
 }
 
 impl Escape for str {
@@ -96,4 +98,15 @@ impl Escape for str {
             self.to_owned()
         }
     }
+
+    fn escape_trailing_line_break(&self) -> String {
+        let Some(rest) = self.strip_suffix(['\n', '\r']) else {
+            return self.to_owned();
+        };
+        let backslashes = rest.len() - rest.trim_end_matches('\\').len();
+        if backslashes % 2 == 1 {
+            return self.to_owned();
+        }
+        format!("{rest}\\{}", &self[rest.len()..])
+    }
 }
diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index cbebe51..f2d206d 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -4,8 +4,8 @@ use std::fmt::Display;
 use serde::{Deserialize, Serialize};
 
 use super::{
-    Code, Collapsible, Embed, Heading, Highlight, Image, Images, List, Paragraph, ThematicBreak,
-    paragraph::escape_leading_block_marker,
+    Code, Collapsible, Embed, Escape, Heading, Highlight, Image, Images, List, Paragraph,
+    ThematicBreak, paragraph::escape_leading_block_marker,
 };
 
 #[derive(Debug, PartialEq, Clone, Eq)]
@@ -269,7 +269,10 @@ impl Display for Yamd {
             .body
             .iter()
             .map(|node| match node {
-                YamdNodes::Paragraph(p) => escape_leading_block_marker(p.to_string()),
+                YamdNodes::Paragraph(p) => {
+                    escape_leading_block_marker(p.to_string()).escape_trailing_line_break()
+                }
+                YamdNodes::Heading(h) => h.to_string().escape_trailing_line_break(),
                 other => other.to_string(),
             })
             .collect::<Vec<_>>()
-- 
2.43.0


From da09216982dd5d53842119956f2fe30e3b331773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 09/14] fix: print callouts so that they read back as the same
 callout

---
 src/nodes/highlight.rs | 44 +++++++++++++++++++++++++++---------------
 src/nodes/mod.rs       | 13 +++++++++++++
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/nodes/highlight.rs b/src/nodes/highlight.rs
index 0204c2f..10eeae8 100644
--- a/src/nodes/highlight.rs
+++ b/src/nodes/highlight.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{Paragraph, paragraph::escape_leading_block_marker};
+use super::{Escape, Paragraph, paragraph::escape_leading_block_marker};
 
 /// # Highlight
 ///
@@ -70,6 +70,19 @@ impl Highlight {
             body,
         }
     }
+
+    fn escape_paragraph(&self, index: usize, paragraph: &Paragraph) -> String {
+        let paragraph = paragraph.to_string().replace("!!", "\\!!");
+        if paragraph.is_empty() {
+            // an escaped line break, which is not part of the parsed paragraph
+            return "\\\n".to_string();
+        }
+        if index == 0 && self.icon.is_none() && paragraph.starts_with("! ") {
+            // would read as an icon
+            return format!("\\{paragraph}");
+        }
+        escape_leading_block_marker(paragraph)
+    }
 }
 
 impl Display for Highlight {
@@ -77,21 +90,20 @@ impl Display for Highlight {
         let title = self
             .title
             .as_ref()
-            .map_or("".to_string(), |t| format!(" {}", t.replace("\\", "\\\\")));
-        let icon = self.icon.as_ref().map_or("".to_string(), |i| {
-            format!("! {}\n", i.replace("\\", "\\\\"))
-        });
-        write!(
-            f,
-            "!!{}\n{}{}\n!!",
-            title,
-            icon,
-            self.body
-                .iter()
-                .map(|p| escape_leading_block_marker(p.to_string().replace("!!", "\\!!")))
-                .collect::<Vec<_>>()
-                .join("\n\n")
-        )
+            .map_or("".to_string(), |t| format!(" {}", t.escape_line()));
+        let icon = self
+            .icon
+            .as_ref()
+            .map_or("".to_string(), |i| format!("! {}\n", i.escape_line()));
+        let body = self
+            .body
+            .iter()
+            .enumerate()
+            .map(|(index, paragraph)| self.escape_paragraph(index, paragraph))
+            .collect::<Vec<_>>()
+            .join("\n\n");
+        let sep = if self.body.is_empty() { "" } else { "\n" };
+        write!(f, "!!{title}\n{icon}{body}{sep}!!")
     }
 }
 
diff --git a/src/nodes/mod.rs b/src/nodes/mod.rs
index 256869c..0417084 100644
--- a/src/nodes/mod.rs
+++ b/src/nodes/mod.rs
@@ -76,6 +76,8 @@ pub(crate) trait Escape {
     fn escape_leading_space(&self) -> String;
     /// Escapes a trailing line break, which would merge with the ones printed after the node.
     fn escape_trailing_line_break(&self) -> String;
+    /// Escapes plain text that has to stay on the line of its opening marker.
+    fn escape_line(&self) -> String;
 }
 
 impl Escape for str {
@@ -109,4 +111,15 @@ impl Escape for str {
         }
         format!("{rest}\\{}", &self[rest.len()..])
     }
+
+    fn escape_line(&self) -> String {
+        let line = self
+            .replace("\\", "\\\\")
+            .replace("\n", "\\\n")
+            .escape_leading_space();
+        match line.strip_suffix('\r') {
+            Some(rest) => format!("{rest}\\\r"),
+            None => line,
+        }
+    }
 }
-- 
2.43.0


From fa22b67b3ce7b421f9d9333a8317b3b4eba7723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 10/14] fix: keep a printed collapsible title on its line

---
 src/nodes/collapsible.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/collapsible.rs b/src/nodes/collapsible.rs
index 6793a98..609ee4a 100644
--- a/src/nodes/collapsible.rs
+++ b/src/nodes/collapsible.rs
@@ -56,7 +56,7 @@ impl Display for Collapsible {
         write!(
             f,
             "{{% {}\n{}\n%}}",
-            self.title.replace("\\", "\\\\").replace("%}", "\\%}"),
+            self.title.escape_line().replace("%}", "\\%}"),
             self.body
                 .iter()
                 .map(|node| match node {
-- 
2.43.0


From 3bf898e3c00f5c09df20abb07f93c74a5a1c81b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 11/14] fix: escape every list item marker in the text of a
 list item

---
 src/nodes/list.rs      |  6 +-----
 src/nodes/list_item.rs | 27 +++++++++++++++++++++++----
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/nodes/list.rs b/src/nodes/list.rs
index 29b8e62..d4fcb91 100644
--- a/src/nodes/list.rs
+++ b/src/nodes/list.rs
@@ -152,10 +152,6 @@ impl List {
 
 impl Display for List {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        let (pat, rep) = match self.list_type {
-            ListTypes::Unordered => ("\n- ", "\n\\- "),
-            ListTypes::Ordered => ("\n+ ", "\n\\+ "),
-        };
         write!(
             f,
             "{}",
@@ -165,7 +161,7 @@ impl Display for List {
                     "{}{} {}",
                     " ".repeat(self.level),
                     self.list_type,
-                    list_item.to_string().replace(pat, rep)
+                    list_item
                 ))
                 .collect::<Vec<_>>()
                 .join("\n")
diff --git a/src/nodes/list_item.rs b/src/nodes/list_item.rs
index 38e4d30..6517384 100644
--- a/src/nodes/list_item.rs
+++ b/src/nodes/list_item.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
-use super::{List, ParagraphNodes};
+use super::{Escape, List, ParagraphNodes};
 
 /// # ListItem
 ///
@@ -23,9 +23,8 @@ use super::{List, ParagraphNodes};
 /// # Round-trip invariant
 ///
 /// The grammar requires exactly one space between the list marker and the item
-/// text, so a `ListItem` whose `text` begins with whitespace cannot be produced
-/// by parsing any source document. Constructing such a value is permitted, but
-/// serializing and re-parsing it will not yield an equal value.
+/// text, so whitespace the item `text` begins with is printed escaped, and so is
+/// anything in `text` that would read as the marker of another item.
 #[derive(Debug, PartialEq, Clone, Eq)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
 pub struct ListItem {
@@ -40,9 +39,29 @@ impl ListItem {
     }
 }
 
+/// Escapes list item markers at the start of a line, however deep they are indented.
+fn escape_item_markers(text: &str) -> String {
+    let mut res = String::with_capacity(text.len());
+    for (i, line) in text.split('\n').enumerate() {
+        if i == 0 {
+            res.push_str(line);
+            continue;
+        }
+        let marker = line.trim_start_matches(' ');
+        res.push('\n');
+        res.push_str(&line[..line.len() - marker.len()]);
+        if marker.starts_with("- ") || marker.starts_with("+ ") {
+            res.push('\\');
+        }
+        res.push_str(marker);
+    }
+    res
+}
+
 impl Display for ListItem {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let text: String = self.text.iter().map(|t| t.to_string()).collect();
+        let text = escape_item_markers(&text).escape_leading_space();
         match &self.nested_list {
             Some(nested) => write!(f, "{}\n{}", text, nested),
             None => write!(f, "{}", text),
-- 
2.43.0


From ce90cb5bd20fd3d1d53e70cb3fa559b4e794226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 12/14] fix: escape backslashes and fences when printing
 metadata

---
 src/nodes/yamd.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nodes/yamd.rs b/src/nodes/yamd.rs
index f2d206d..7dce73d 100644
--- a/src/nodes/yamd.rs
+++ b/src/nodes/yamd.rs
@@ -263,6 +263,20 @@ impl Yamd {
     }
 }
 
+/// Escapes backslashes and the lines of metadata that would close it.
+fn escape_fences(metadata: &str) -> String {
+    metadata
+        .replace("\\", "\\\\")
+        .split('\n')
+        .map(|line| {
+            let dashes = line.len() - line.trim_start_matches('-').len();
+            let escape = if dashes == 3 { "\\" } else { "" };
+            format!("{escape}{line}")
+        })
+        .collect::<Vec<_>>()
+        .join("\n")
+}
+
 impl Display for Yamd {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let body = self
@@ -279,6 +293,7 @@ impl Display for Yamd {
             .join("\n\n");
         match &self.metadata {
             Some(metadata) => {
+                let metadata = escape_fences(metadata);
                 let sep = if metadata.ends_with('\n') { "" } else { "\n" };
                 write!(f, "---\n{}{}---\n\n{}", metadata, sep, body)
             }
-- 
2.43.0


From 47b3d9e83739e0042fc22fdf808ee46419c03082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:09 +0000
Subject: [PATCH 13/14] fix: keep the first line of code and its language apart
 when printing

---
 src/nodes/code.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/nodes/code.rs b/src/nodes/code.rs
index 97bfa14..8fba3fc 100644
--- a/src/nodes/code.rs
+++ b/src/nodes/code.rs
@@ -3,6 +3,8 @@ use std::fmt::Display;
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use super::Escape;
+
 /// # Code
 ///
 /// Starts with [Backtick](type@crate::lexer::TokenKind::Backtick) of length 3.
@@ -48,15 +50,20 @@ impl Code {
 
 impl Display for Code {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "```{}\n{}\n```",
-            self.lang
-                .replace("\\", "\\\\")
-                .replace("`", "\\`")
-                .replace("\n", "\\\n"),
-            self.code.replace("\\", "\\\\").replace("```", "\\```")
-        )
+        let lang = self
+            .lang
+            .replace("\\", "\\\\")
+            .replace("`", "\\`")
+            .replace("\n", "\\\n")
+            .escape_trailing_line_break();
+        // a leading line break would merge with the one before it
+        let escape = if self.code.starts_with('\n') || self.code.starts_with("\r\n") {
+            "\\"
+        } else {
+            ""
+        };
+        let code = self.code.replace("\\", "\\\\").replace("```", "\\```");
+        write!(f, "```{lang}\n{escape}{code}\n```")
     }
 }
 
-- 
2.43.0


From 1a83e5ec75bb897d21a60c7111bc98e3d393dd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 14/14] fix: title of an empty collapsible inside another
 collapsible

The scan for the title stopped at the line break before `%}`, so an empty
collapsible nested in another one was not recognised and its closer closed
the outer one. A title ends at the end of its line whatever comes next.
---
 src/op/collapsible.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op/collapsible.rs b/src/op/collapsible.rs
index 310f83d..9db9460 100644
--- a/src/op/collapsible.rs
+++ b/src/op/collapsible.rs
@@ -35,7 +35,7 @@ pub fn collapsible(p: &mut Parser) -> bool {
     let start_content = p.span(start_range);
     p.ops.push(Op::new_start(Node::Collapsible, start_content));
 
-    modifier(p);
+    p.with_no_stops(modifier);
 
     if !p.at(|t: &Token| t.position.column == 0) {
         p.pos = start;
-- 
2.43.0

