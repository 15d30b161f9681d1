From 3480a0aee7ad9dc5fa2d6e9480c00f056ee9c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 001/156] fix: empty psv table no longer yields infinite rows

---
 parser/src/tasks/table/parse_psv_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..e745390 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     // check if we need to distrubute spilled cells from last row
     let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
     ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    if cells.len() == remaining_room && (!cells.is_empty() || num_effective_cells > 0) {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
-- 
2.43.0


From 134c7a6daafc127be66dd06d7f3dd97ebd995137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 002/156] fix: empty inline passthru (pass:[]) no longer panics

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index d1f3dac..7452d4f 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -66,7 +66,8 @@ impl<'arena> Parser<'arena> {
       line.discard(plus_count - 1);
     }
     let extend = if start_token.kind == Plus { plus_count as u32 } else { 1 };
-    loc.end = passlines.last_loc().unwrap().end + extend;
+    // NB: an empty passthru, e.g. `pass:[]`, has no tokens
+    loc.end = passlines.last_loc().unwrap_or(loc).end + extend;
     let restore_subs = self.ctx.subs;
     self.ctx.subs = subs;
     let nodes = self.parse_inlines(&mut passlines)?;
-- 
2.43.0


From 73aae0825c515d13dc2762839dd81cd078b71e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 003/156] fix: escaping backslashes ending a line no longer
 panic

---
 parser/src/tasks/parse_inlines/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..797f0b0 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -834,10 +834,11 @@ impl<'arena> Parser<'arena> {
                 while let Some(backslash) = line.consume_if(Backslash) {
                   acc.push_node(Discarded, backslash.loc);
                 }
-                if !subs.special_chars() || !line.current_token().is_some_and(|t| t.kind(Ampersand))
-                {
+                if (!subs.special_chars()
+                  || !line.current_token().is_some_and(|t| t.kind(Ampersand)))
                   // pushing the next token as text prevents recognizing the pattern
-                  let next_token = line.consume_current().unwrap();
+                  && let Some(next_token) = line.consume_current()
+                {
                   acc.push_text_token(&next_token);
                 }
               }
-- 
2.43.0


From f7a23604f3683c3a0b527a84ecae92c347d5d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 004/156] fix: bare uri scheme ending a line no longer panics

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 797f0b0..4e7b3a5 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -850,7 +850,7 @@ impl<'arena> Parser<'arena> {
             && self.ctx.inline_ctx != InlineCtx::LinkMacroAttrs =>
           {
             let mut loc = token.loc;
-            let line_end = line.last_loc().unwrap();
+            let line_end = line.last_loc().unwrap_or(loc);
             let target = line.consume_url(Some(&token), None, self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
-- 
2.43.0


From bfb63159208a623cf745f9514e11b259cd302e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 005/156] fix: unclosed delimited block ended by a dropped line
 no longer panics

---
 parser/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..11dc9ee 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -204,7 +204,11 @@ impl<'arena> Parser<'arena> {
 
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
-      additional_lines.push(self.read_line()?.unwrap());
+      // NB: reading can reach eof without a line, e.g. a trailing conditional directive
+      let Some(line) = self.read_line()? else {
+        break;
+      };
+      additional_lines.push(line);
     }
     lines.extend(additional_lines);
 
-- 
2.43.0


From 1f7b7c2b883ea0909592040d53da40cf7ab9db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 006/156] fix: bound heading levels to the levels asciidoc
 supports

---
 backend/src/html/backend.rs       |  2 +-
 parser/src/line.rs                | 14 ++++++++++++--
 parser/src/tasks/heading_level.rs | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..9f01103 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -509,7 +509,7 @@ pub trait HtmlBackend: HtmlBuf {
     let Some(sectnums) = self.doc_meta().get("sectnums") else {
       return false;
     };
-    if self.section_num_levels() < level as isize {
+    if !matches!(level, 1..=5) || self.section_num_levels() < level as isize {
       return false;
     }
     match sectnums {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..650026d 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1,6 +1,9 @@
 use crate::internal::*;
 use crate::variants::token::*;
 
+/// AsciiDoc headings have between 1 and 6 markers (levels 0-5)
+const MAX_HEADING_MARKERS: usize = 6;
+
 #[derive(Debug, Clone)]
 pub struct Line<'arena> {
   tokens: Deq<'arena, Token<'arena>>,
@@ -229,13 +232,20 @@ impl<'arena> Line<'arena> {
 
   pub fn unadjusted_heading_level(&self) -> Option<u8> {
     if self.starts_with_seq(&[Kind(EqualSigns), Kind(Whitespace)]) && self.num_tokens() > 2 {
-      Some((self.current_token().unwrap().lexeme.len() - 1) as u8)
+      let num_equals = self.current_token().unwrap().lexeme.len();
+      if num_equals > MAX_HEADING_MARKERS {
+        return None;
+      }
+      Some((num_equals - 1) as u8)
     } else if self.starts(Hash)
       && self.contains_seq(&[Kind(Hash), Kind(Whitespace)])
       && self.num_tokens() > 2
     {
       let num_hashes = self.tokens.iter().take_while(|t| t.kind == Hash).count();
-      if self.num_tokens() > num_hashes + 1 && self.nth_token(num_hashes).kind(Whitespace) {
+      if num_hashes <= MAX_HEADING_MARKERS
+        && self.num_tokens() > num_hashes + 1
+        && self.nth_token(num_hashes).kind(Whitespace)
+      {
         Some((num_hashes - 1) as u8)
       } else {
         None
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index 618257c..3793968 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -37,9 +37,9 @@ impl<'arena> Parser<'arena> {
     match value {
       AttrValue::String(s) => {
         if let Some(add) = s.strip_prefix('+') {
-          *leveloffset += add.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_add(add.parse::<i8>().unwrap_or(0));
         } else if let Some(sub) = s.strip_prefix('-') {
-          *leveloffset -= sub.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_sub(sub.parse::<i8>().unwrap_or(0));
         } else {
           *leveloffset = s.parse::<i8>().unwrap_or(*leveloffset);
         }
@@ -50,10 +50,19 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+/// the deepest heading level, authored as `======`
+const MAX_LEVEL: u8 = 5;
+
 const fn adjusted_leveloffset(leveloffset: i8, heading_level: u8) -> u8 {
   if leveloffset == 0 {
     return heading_level;
   }
-  let new_level = (heading_level as i8) + leveloffset;
-  if new_level < 0 { 0 } else { new_level as u8 }
+  let new_level = (heading_level as i16) + leveloffset as i16;
+  if new_level < 0 {
+    0
+  } else if new_level > MAX_LEVEL as i16 {
+    MAX_LEVEL
+  } else {
+    new_level as u8
+  }
 }
-- 
2.43.0


From 161598507e635d7df55edf577031b772ce42fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 007/156] fix: link macro attr list with nested brackets no
 longer panics

---
 parser/src/tasks/parse_attr_list.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..e383b71 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -113,7 +113,19 @@ impl<'arena> Parser<'arena> {
     let mut parse_as_attr_list = false;
     let mut in_nested_attr_list = false;
     let mut num_tokens = 0;
-    for token in line.iter().take(line.len() - 1) {
+    let mut last_close = None;
+    for token in line.iter() {
+      if token.kind(CloseBracket) && last_kind != Backslash {
+        last_close = Some(num_tokens);
+      }
+      last_kind = token.kind;
+      num_tokens += 1;
+    }
+    // the attr list can't extend past the last (unescaped) closing bracket
+    let last_close = last_close.unwrap_or(line.len() - 1);
+    last_kind = TokenKind::Eof;
+    num_tokens = 0;
+    for token in line.iter().take(last_close) {
       num_tokens += 1;
       match (last_kind, token.kind) {
         (Backslash, CloseBracket) if in_nested_attr_list => in_nested_attr_list = false,
-- 
2.43.0


From 4696c1f701ac564a876ff87aeea1433a94b708b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 008/156] fix: block metadata separated by empty lines
 accumulates

---
 parser/src/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 11dc9ee..4a748b9 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -305,14 +305,15 @@ impl<'arena> Parser<'arena> {
     &mut self,
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<ChunkMeta<'arena>> {
-    if let Some(meta) = self.peeked_meta.take() {
-      return Ok(meta);
-    }
-    assert!(!lines.is_empty());
-    let start_loc = lines.current_token().unwrap().loc;
-    let mut attrs = MultiAttrList::new_in(self.bump);
-    let mut title = None;
-    if !lines.current().unwrap().is_fully_unconsumed() {
+    let (mut attrs, mut title, start_loc) = match self.peeked_meta.take() {
+      // NB: block metadata can be separated (by empty lines) from more block metadata
+      Some(meta) => (meta.attrs, meta.dot_line_title, meta.start_loc),
+      None => {
+        let loc = lines.current_token().map_or_else(|| self.lexer.loc(), |t| t.loc);
+        (MultiAttrList::new_in(self.bump), None, loc)
+      }
+    };
+    if lines.is_empty() || !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
     loop {
-- 
2.43.0


From 5faef583428834a65cce709794d2f7cd016ee9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 009/156] fix: nested footnotes and footnotes in block titles
 keep their content

---
 backend-html5s/src/html5s.rs            | 11 +++++------
 backend/src/html/backend.rs             | 13 +++++++++++++
 dr-html-backend/src/asciidoctor_html.rs | 11 +++++------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..9a01bd4 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1099,10 +1099,9 @@ impl Backend for Html5s {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let html = mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&mem::replace(&mut self.html, html));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1423,17 +1422,17 @@ impl Backend for Html5s {
         r#"]</a>"#,
       ]);
     }
-    self.start_buffering();
+    self.start_footnote_buffering();
   }
 
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
+      self.take_footnote_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
+    let footnote = self.take_footnote_buffer();
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
     self.push([&nums, r##"" href="#_footnote_"##, &nums]);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 9f01103..b5368b8 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -24,6 +24,7 @@ pub struct BackendState {
   pub xref_depth: u8,
   #[allow(clippy::type_complexity)]
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
+  pub footnote_bufs: Vec<String>,
 }
 
 pub trait HtmlBackend: HtmlBuf {
@@ -435,6 +436,18 @@ pub trait HtmlBackend: HtmlBuf {
     }
   }
 
+  /// NB: footnotes can be nested, and can appear in buffered
+  /// content (like block titles), so they can't share the alt buffer
+  fn start_footnote_buffering(&mut self) {
+    let html = std::mem::take(self.htmlbuf());
+    self.state_mut().footnote_bufs.push(html);
+  }
+
+  fn take_footnote_buffer(&mut self) -> String {
+    let html = self.state_mut().footnote_bufs.pop().unwrap_or_default();
+    std::mem::replace(self.htmlbuf(), html)
+  }
+
   fn prev_footnote_ref_num(&self, id: Option<&SourceString>) -> Option<String> {
     self
       .state()
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..e52ef59 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1184,10 +1184,9 @@ impl Backend for AsciidoctorHtml {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let html = mem::take(&mut self.html);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        a_tag.push_str(&mem::replace(&mut self.html, html));
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1469,18 +1468,18 @@ impl Backend for AsciidoctorHtml {
         "</a>]</sup>",
       ]);
     }
-    self.start_buffering();
+    self.start_footnote_buffering();
   }
 
   #[instrument(skip_all)]
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
+      self.take_footnote_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
+    let footnote = self.take_footnote_buffer();
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-- 
2.43.0


From c6105ece7166852ef83db96a2daf3be55cf37fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 010/156] fix: appendix lettering past Z and numbering of
 subsections/following sections

---
 backend/src/html/backend.rs | 56 +++++++++++++++++--------------------
 backend/src/utils.rs        | 12 ++++++++
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index b5368b8..ae54c2f 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -14,9 +14,10 @@ use crate::{
 #[derive(Debug, Default)]
 pub struct BackendState {
   pub section_nums: [u16; 5],
+  pub section_num_before_appendix: u16,
   pub section_num_levels: isize,
   pub ephemeral: HashSet<EphemeralState>,
-  pub appendix_caption_num: u8,
+  pub appendix_caption_num: u16,
   pub book_part_num: usize,
   pub desc_list_depth: u8,
   pub interactive_list_stack: Vec<bool>,
@@ -168,11 +169,11 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().ephemeral
   }
 
-  fn appendix_caption_num(&self) -> u8 {
+  fn appendix_caption_num(&self) -> u16 {
     self.state().appendix_caption_num
   }
 
-  fn appendix_caption_num_mut(&mut self) -> &mut u8 {
+  fn appendix_caption_num_mut(&mut self) -> &mut u16 {
     &mut self.state_mut().appendix_caption_num
   }
 
@@ -467,8 +468,8 @@ pub trait HtmlBackend: HtmlBuf {
       self.push([&appendix_caption, " "]);
     }
 
-    let letter = (self.state().appendix_caption_num + b'A') as char;
-    self.push_ch(letter);
+    let num = self.state().appendix_caption_num;
+    self.push_str(&utils::alpha_numeral(num));
     self.state_mut().appendix_caption_num += 1;
 
     if self.doc_meta().is_false("appendix-caption") {
@@ -493,8 +494,7 @@ pub trait HtmlBackend: HtmlBuf {
     // for idx in 0..=level_idx {
     for (idx, sect_num) in sect_nums.iter().enumerate().take(level_idx + 1) {
       if appendix && idx == 0 {
-        // self.push_ch((b'A' + sect_nums[idx] as u8) as char);
-        self.push_ch((b'A' + *sect_num as u8) as char);
+        self.push_str(&utils::alpha_numeral(*sect_num));
       } else {
         // self.push_str(&sect_nums[idx].to_string());
         self.push_str(&sect_num.to_string());
@@ -672,6 +672,20 @@ pub trait HtmlBackend: HtmlBuf {
     self.push(["</h", &crate::num_str!(level + 1), ">"]);
   }
 
+  /// appendices are lettered, independently from the (numbered) sections around them
+  fn enter_appendix_state(&mut self) {
+    let state = self.state_mut();
+    state.section_num_before_appendix = state.section_nums[0];
+    state.section_nums = [state.appendix_caption_num, 0, 0, 0, 0];
+    state.ephemeral.insert(EphemeralState::InAppendix);
+  }
+
+  fn exit_appendix_state(&mut self) {
+    let state = self.state_mut();
+    state.section_nums = [state.section_num_before_appendix, 0, 0, 0, 0];
+    state.ephemeral.remove(&EphemeralState::InAppendix);
+  }
+
   fn enter_toc_node(&mut self, node: &TocNode) {
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
@@ -679,11 +693,7 @@ pub trait HtmlBackend: HtmlBuf {
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .insert(EphemeralState::InAppendix);
+      self.enter_appendix_state();
       self.push_appendix_caption();
     } else if node.level == 0 {
       self.push_part_prefix();
@@ -694,24 +704,14 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
-      self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .remove(&EphemeralState::InAppendix);
+      self.exit_appendix_state();
     }
     self.push_str("</li>");
   }
 
   fn enter_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
-      Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InAppendix);
-      }
+      Some(SpecialSection::Appendix) => self.enter_appendix_state(),
       Some(SpecialSection::Bibliography) => {
         self
           .state_mut()
@@ -724,13 +724,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
-      Some(SpecialSection::Appendix) => {
-        self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InAppendix);
-      }
+      Some(SpecialSection::Appendix) => self.exit_appendix_state(),
       Some(SpecialSection::Bibliography) => {
         self
           .state_mut()
diff --git a/backend/src/utils.rs b/backend/src/utils.rs
index 79a8f76..4763606 100644
--- a/backend/src/utils.rs
+++ b/backend/src/utils.rs
@@ -1,5 +1,17 @@
 use std::path::Path;
 
+/// zero-indexed alphabetic numeral: `A`, `B`, ... `Z`, `AA`, `AB`, ...
+pub fn alpha_numeral(num: u16) -> String {
+  let mut numeral = String::with_capacity(1);
+  let mut num = num as u32 + 1;
+  while num > 0 {
+    num -= 1;
+    numeral.insert(0, (b'A' + (num % 26) as u8) as char);
+    num /= 26;
+  }
+  numeral
+}
+
 pub mod xref {
   use ast::{DocumentMeta, ReadAttr, XrefKind};
   use core::file;
-- 
2.43.0


From d62658c0005edf5e6fa8e9c0f7d7a68c6d37ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 011/156] fix: stale title of blocks that don't render titles
 no longer leaks

---
 ast/src/block.rs                        | 15 +++++++++++++++
 backend-html5s/src/html5s.rs            |  2 +-
 dr-html-backend/src/asciidoctor_html.rs |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ast/src/block.rs b/ast/src/block.rs
index 042c07f..178f473 100644
--- a/ast/src/block.rs
+++ b/ast/src/block.rs
@@ -131,6 +131,21 @@ impl BlockContent<'_> {
 }
 
 impl BlockContext {
+  /// some blocks accept a block title, but don't render it
+  pub const fn renders_title(&self) -> bool {
+    !matches!(
+      self,
+      BlockContext::Comment
+        | BlockContext::DiscreteHeading
+        | BlockContext::DocumentAttributeDecl
+        | BlockContext::PageBreak
+        | BlockContext::Passthrough
+        | BlockContext::Section
+        | BlockContext::TableOfContents
+        | BlockContext::ThematicBreak
+    )
+  }
+
   pub const fn caption_attr_name(&self) -> Option<&'static str> {
     match self {
       BlockContext::Table => Some("table-caption"),
diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 9a01bd4..e3d67ca 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1454,7 +1454,7 @@ impl Backend for Html5s {
   }
 
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context != BlockContext::Passthrough {
+    if block.context.renders_title() {
       self.stop_buffering();
     } else {
       self.swap_discard_alt_buffer();
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index e52ef59..734e88e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -309,7 +309,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context != BlockContext::Passthrough {
+    if block.context.renders_title() {
       self.stop_buffering();
     } else {
       self.swap_discard_alt_buffer();
-- 
2.43.0


From 87e0603dff74f385e2061847ae025ecfcf36d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 012/156] fix: menu macro without items no longer panics, menu
 text is escaped

---
 backend-html5s/src/html5s.rs            | 11 +++++++----
 dr-html-backend/src/asciidoctor_html.rs | 12 ++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index e3d67ca..ab1f9c5 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1238,13 +1238,16 @@ impl Backend for Html5s {
   }
 
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
-    let mut items = items.iter();
+    let Some((menu, items)) = items.split_first() else {
+      return;
+    };
     self.push_str(r#"<kbd class="menuseq"><kbd class="menu"><samp>"#);
-    self.push_str(items.next().unwrap());
+    self.push_specialchar_escaped(menu);
     self.push_str("</samp></kbd>");
     for item in items {
-      self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class=""#);
-      self.push(["menu\"><samp>", item, "</samp></kbd>"]);
+      self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class="menu"><samp>"#);
+      self.push_specialchar_escaped(item);
+      self.push_str("</samp></kbd>");
     }
     self.push_str("</kbd>");
   }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 734e88e..a50d89e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1304,9 +1304,17 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
-    let mut items = items.iter();
+    let Some((menu, items)) = items.split_first() else {
+      return;
+    };
+    if items.is_empty() {
+      self.push_str(r#"<b class="menuref">"#);
+      self.push_specialchar_escaped(menu);
+      self.push_str("</b>");
+      return;
+    }
     self.push_str(r#"<span class="menuseq"><b class="menu">"#);
-    self.push_str(items.next().unwrap());
+    self.push_specialchar_escaped(menu);
     self.push_str("</b>");
 
     let last_idx = items.len() - 1;
-- 
2.43.0


From 82e956c162c544c49c3e70d06644aaa9ed47d02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 013/156] fix: inline macros with missing/superfluous targets
 are literal text

---
 parser/src/lexer/root_lexer.rs        |  5 +++++
 parser/src/tasks/parse_inlines/mod.rs | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..427c6b7 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -340,6 +340,11 @@ impl<'arena> RootLexer<'arena> {
       })
   }
 
+  pub fn is_plugin_macro(&self, lexeme: &str) -> bool {
+    let name = lexeme.strip_suffix(':').unwrap_or(lexeme);
+    self.plugin_macros.iter().any(|n| n.as_str() == name)
+  }
+
   pub fn register_plugin_macros(&mut self, names: &[impl AsRef<str>]) {
     let mut macros = BumpVec::with_capacity_in(names.len(), self.bump);
     for name in names {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 4e7b3a5..914d30c 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -144,7 +144,7 @@ impl<'arena> Parser<'arena> {
             line.discard(1);
             acc.push_node(Symbol(SymbolKind::DoubleLeftArrow), token.loc.incr_end());
           }
-          MacroName if subs.macros() && line.continues_inline_macro(&token) => {
+          MacroName if subs.macros() && self.continues_inline_macro(&token, &line) => {
             let mut macro_loc = token.loc;
             let line_end = line.last_loc().unwrap();
             acc.commit();
@@ -903,6 +903,20 @@ impl<'arena> Parser<'arena> {
     Ok(acc.trimmed_inlines())
   }
 
+  fn continues_inline_macro(&self, token: &Token<'arena>, line: &Line<'arena>) -> bool {
+    line.continues_inline_macro(token)
+      && match token.lexeme.as_str() {
+        // these have no target
+        "kbd:" | "btn:" => line.current_is(OpenBracket),
+        "menu:" | "icon:" | "image:" => !line.current_is(OpenBracket),
+        // valid inline passthrus are already processed
+        "pass:" => false,
+        // block-only macros
+        "toc:" | "audio:" | "video:" => self.lexer.is_plugin_macro(&token.lexeme),
+        _ => true,
+      }
+  }
+
   fn push_xref(&mut self, target: &SourceString<'arena>) {
     let mut ref_id = target.src.clone();
     let mut ref_loc = target.loc;
-- 
2.43.0


From 9cd750758e78d47ca203e21872b6cee4a36e5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 014/156] fix: double-bracket attr passthru without attr list
 no longer panics

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 914d30c..2d3b6cc 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -379,7 +379,7 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          AttrPassDbl => {
+          AttrPassDbl if line.contains(OpenBracket) => {
             let pass_subs = line.consume_to_string_until(OpenBracket, self.bump);
             line.discard_assert(OpenBracket);
             // inner footnote macro processing will take/remove this value
-- 
2.43.0


From e93b546ad7f986177dfb1b6c6266130072a1bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 015/156] fix: html5 callout list not following a listing stays
 well formed

---
 backend-html5s/src/html5s.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index ab1f9c5..7b838ec 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -515,7 +515,12 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // callout lists are rendered within the (listing) block they annotate
+    if self.html.ends_with("</div>") {
+      self.html.truncate(self.html.len() - 6);
+    } else {
+      self.push_str("<div>");
+    }
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
-- 
2.43.0


From 05dede5392ce690ecb219d3f0391f9cf2e8fe12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 016/156] fix: attr def/continuation at end of input, crlf
 continuation

---
 parser/src/tasks/parse_doc_attrs.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..80d2faa 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -7,8 +7,8 @@ impl<'arena> Parser<'arena> {
     let start_loc = token.loc.start;
     let depth = token.loc.include_depth;
 
-    // we need at least 4 bytes to have a valid attr def: `:a:\n`
-    if self.lexer.byte_at(start_loc + 3, depth).is_none() {
+    // we need at least 3 bytes to have a valid attr def: `:a:`
+    if self.lexer.byte_at(start_loc + 2, depth).is_none() {
       return Ok(());
     }
 
@@ -103,10 +103,10 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        if self.lexer.byte_at(pos + 1, depth) == Some(b'\r') {
-          pos += 2;
-        } else {
-          pos += 1;
+        match self.lexer.byte_at(pos, depth) {
+          Some(b'\r') => pos += 2,
+          Some(_) => pos += 1,
+          None => break,
         }
 
         let line_start = pos;
-- 
2.43.0


From 32cbb7edd763d6487b6e991dfc8a4568b806f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 017/156] fix: markdown fences, headings and blockquotes:
 incomplete forms no longer panic

---
 parser/src/tasks/parse_block.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..d497e8b 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -24,6 +24,8 @@ impl<'arena> Parser<'arena> {
 
     match self.section_start_level(&lines, &meta) {
       Some(0 | 1) if self.ctx.delimiter.is_some() => {}
+      // sections can't be nested in markdown blockquotes
+      Some(_) if self.ctx.in_markdown_blockquote => {}
       // skip doc title and top-level sections
       Some(0 | 1) => {
         self.restore_peeked(lines, meta);
@@ -199,7 +201,11 @@ impl<'arena> Parser<'arena> {
     let mut line = lines.consume_current().unwrap();
     let line_end_loc = line.last_loc().unwrap();
     let level = self.line_heading_level(&line).unwrap();
-    line.discard_assert(TokenKind::EqualSigns);
+    // NB: markdown-style headings have one token per hash
+    line.discard(1);
+    while line.current_is(TokenKind::Hash) {
+      line.discard(1);
+    }
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
@@ -270,7 +276,9 @@ impl<'arena> Parser<'arena> {
     let mut blocks = BumpVec::new_in(self.bump);
     for para in paras.into_iter() {
       self.restore_lines(para);
-      if let Some(block) = self.parse_block()? {
+      while self.peeked_lines.is_some()
+        && let Some(block) = self.parse_block()?
+      {
         loc.extend_end(&block.loc);
         blocks.push(block);
       }
@@ -303,6 +311,8 @@ impl<'arena> Parser<'arena> {
       while delim_line.current_is(Whitespace) {
         delim_line.discard(1);
       }
+    }
+    if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing {
       let lang =
         delim_line.consume_to_string_until_one_of(&[Kind(Comma), Kind(Whitespace)], self.bump);
       let mut attr_list = AttrList::new(lang.loc, self.bump);
-- 
2.43.0


From eb1588b167f487891521d75f4c54e79f4c2e47e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 018/156] fix: menu text escaped (dr-html)

---
 dr-html-backend/src/asciidoctor_html.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index a50d89e..156fd03 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1318,13 +1318,11 @@ impl Backend for AsciidoctorHtml {
     self.push_str("</b>");
 
     let last_idx = items.len() - 1;
-    for (idx, item) in items.enumerate() {
+    for (idx, item) in items.iter().enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
-      if idx == last_idx {
-        self.push(["menuitem\">", item, "</b>"]);
-      } else {
-        self.push(["submenu\">", item, "</b>"]);
-      }
+      self.push_str(iff!(idx == last_idx, "menuitem\">", "submenu\">"));
+      self.push_specialchar_escaped(item);
+      self.push_str("</b>");
     }
     self.push_str("</span>");
   }
-- 
2.43.0


From 744cc6d53736e50902efe868e59ee9ea5a23b898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 019/156] fix: callout list titles are rendered

---
 backend-html5s/src/html5s.rs            | 1 +
 dr-html-backend/src/asciidoctor_html.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 7b838ec..23cf1c3 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -521,6 +521,7 @@ impl Backend for Html5s {
     } else {
       self.push_str("<div>");
     }
+    self.render_buffered_block_title(block, true);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 156fd03..1769f9a 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -552,6 +552,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
+    self.render_buffered_block_title(block);
     self.push_str(if self.doc_meta.icon_mode() != IconMode::Text { "<table>" } else { "<ol>" });
   }
 
-- 
2.43.0


From e6324cb7e931127fd54173d785c3fd36fa0bae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 020/156] fix: unterminated pass macro spanning lines no longer
 panics

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 7452d4f..0c556b1 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -135,6 +135,9 @@ impl<'arena> Parser<'arena> {
         _ => return None,
       }
     }
+    if num_target_tokens == line.num_tokens() {
+      return None;
+    }
 
     let mut n = 1;
     let mut last = OpenBracket;
-- 
2.43.0


From 180a5966b01e8f2655610d08184f403d265f5d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 021/156] fix: visible index term with extra closing parens no
 longer panics

---
 parser/src/tasks/parse_inlines/index_term.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..f55f603 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -90,13 +90,13 @@ impl<'arena> Parser<'arena> {
     if end_len > 2 {
       let mut trailing_parens_loc = node_loc.clamp_end();
       trailing_parens_loc.end += (end_len - 2) as u32;
-      let trailing_parens = self.lexer.src_string_from_loc(trailing_parens_loc);
+      let trailing_parens = self.string(&")".repeat(end_len - 2));
       if let Some(InlineNode { content: Inline::Text(txt), loc }) = term.last_mut() {
-        txt.push_str(&trailing_parens.src);
+        txt.push_str(&trailing_parens);
         loc.extend(trailing_parens_loc);
       } else {
         term.push(InlineNode {
-          content: Inline::Text(trailing_parens.src),
+          content: Inline::Text(trailing_parens),
           loc: trailing_parens_loc,
         });
       }
-- 
2.43.0


From c68115c01985b130686d2eb82f0e994791925ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 022/156] fix: ifeval with a lone quote operand no longer
 panics

---
 parser/src/tasks/directives/ifeval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 9db9a7a..edc9259 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -58,8 +58,9 @@ impl<'arena> Parser<'arena> {
     } else if let Ok(float) = expr.parse::<f32>() {
       return Value::Float(float);
     }
-    if expr.starts_with('\'') && expr.ends_with('\'')
-      || expr.starts_with('"') && expr.ends_with('"')
+    if expr.len() > 1
+      && (expr.starts_with('\'') && expr.ends_with('\'')
+        || expr.starts_with('"') && expr.ends_with('"'))
     {
       Value::String(self.string(&expr[1..expr.len() - 1]))
     } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
-- 
2.43.0


From ef6b16ead43899e1cb0555f5c71ae3e11b2b1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 023/156] fix: absolute include targets from stdin/tmp sources
 no longer panic

---
 parser/src/tasks/directives/includes/target.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/parser/src/tasks/directives/includes/target.rs b/parser/src/tasks/directives/includes/target.rs
index 39c577d..4f6a257 100644
--- a/parser/src/tasks/directives/includes/target.rs
+++ b/parser/src/tasks/directives/includes/target.rs
@@ -21,18 +21,12 @@ pub fn prepare(
     let abspath = base_dir.join(target);
     return Ok(Target::FilePath(abspath.to_string()));
   }
+  if !target.is_relative() {
+    return Ok(target.into());
+  }
   match src_file {
-    Src::Path(src) => {
-      let abspath = if target.is_relative() {
-        let dir = Path::new(src.dirname());
-        dir.join(target)
-      } else {
-        target
-      };
-      Ok(abspath.into())
-    }
-    Src::Stdin { .. } => unimplemented!("include from stdin not implemented yet"),
-    Src::Tmp => unreachable!(),
+    Src::Path(src) => Ok(Path::new(src.dirname()).join(target).into()),
+    Src::Stdin { .. } | Src::Tmp => Err(Err::BaseDirRequired),
   }
 }
 
-- 
2.43.0


From 2d98606309cc276d4624c6e2011f8d82df4eda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 024/156] fix: anchors with brackets in reftext no longer panic

---
 parser/src/tasks/parse_attr_list.rs   | 45 +++++++++++----------------
 parser/src/tasks/parse_inlines/mod.rs |  4 ++-
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index e383b71..f658568 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -66,40 +66,33 @@ impl<'arena> Parser<'arena> {
     ) {
       return Ok(None);
     }
+    let close_idx = if is_entire_line {
+      line.num_tokens() - 2
+    } else if let Some(close_idx) = line.index_of_seq(&[Kind(CloseBracket); 2]) {
+      close_idx
+    } else {
+      return Ok(None);
+    };
     let start = current.loc.start - 2;
-    let id = line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
+    let mut reftext_line = Line::new(Deq::with_capacity(close_idx, self.bump));
+    for _ in 0..close_idx {
+      reftext_line.push(line.consume_current().unwrap());
+    }
+    let id = reftext_line
+      .consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
     assert!(!id.is_empty());
+    line.discard_assert(CloseBracket);
+    let last = line.discard_assert(CloseBracket);
     let mut anchor = AnchorSrc {
-      loc: SourceLocation::new(start, id.loc.end, id.loc.include_depth),
+      loc: SourceLocation::new(start, last.loc.end, id.loc.include_depth),
       reftext: None,
       id,
     };
-    if line.current_is(CloseBracket) {
-      line.discard(2);
-      anchor.loc.end += 2;
+    if !reftext_line.current_is(Comma) {
       return Ok(Some(anchor));
     }
-    line.discard_assert(Comma);
-    line.discard_leading_whitespace();
-    let reftext_line = if is_entire_line {
-      let mut reftext = Line::new(Deq::new(self.bump));
-      std::mem::swap(&mut reftext, line);
-      let last = reftext.pop().unwrap();
-      let penult = reftext.pop().unwrap();
-      anchor.loc.end = last.loc.end;
-      assert!(last.kind == CloseBracket && penult.kind == CloseBracket);
-      reftext
-    } else {
-      let mut reftext = Line::new(Deq::with_capacity(8, self.bump));
-      while !line.current_is(CloseBracket) {
-        reftext.push(line.consume_current().unwrap());
-      }
-      line.discard_assert(CloseBracket);
-      let last = line.consume_current().unwrap();
-      assert!(last.kind == CloseBracket);
-      anchor.loc.end = last.loc.end;
-      reftext
-    };
+    reftext_line.discard_assert(Comma);
+    reftext_line.discard_leading_whitespace();
     if !reftext_line.is_empty() {
       let reftext = self.parse_inlines(&mut reftext_line.into_lines())?;
       anchor.reftext = Some(reftext);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 2d3b6cc..22e41c2 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -565,7 +565,9 @@ impl<'arena> Parser<'arena> {
           OpenBracket
             if line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
-              && line.contains_seq(&[Kind(CloseBracket); 3]) =>
+              && line.index_of_seq(&[Kind(CloseBracket); 3]).is_some()
+              && line.index_of_seq(&[Kind(CloseBracket); 2])
+                == line.index_of_seq(&[Kind(CloseBracket); 3]) =>
           {
             let second_bracket = line.consume_current().unwrap();
             let third_bracket = line.consume_current().unwrap();
-- 
2.43.0


From 24f7e19a978ff154df08d41103d9854b37a61a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 025/156] fix: indexterm macros have no target

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 22e41c2..8b1f9ec 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -909,7 +909,7 @@ impl<'arena> Parser<'arena> {
     line.continues_inline_macro(token)
       && match token.lexeme.as_str() {
         // these have no target
-        "kbd:" | "btn:" => line.current_is(OpenBracket),
+        "kbd:" | "btn:" | "indexterm:" | "indexterm2:" => line.current_is(OpenBracket),
         "menu:" | "icon:" | "image:" => !line.current_is(OpenBracket),
         // valid inline passthrus are already processed
         "pass:" => false,
-- 
2.43.0


From 1dc802743e8e9e457a708000f8a9ae70213f8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 026/156] fix: substituted include link lines keep source
 depth, propagate errors, diagnostics past end of source don't panic

---
 parser/src/lexer/source_lexer.rs              |  9 +++++--
 .../directives/includes/process_includes.rs   | 24 ++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 1ebeed0..c2e42f4 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -221,7 +221,7 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn line_of(&self, location: u32) -> BumpString<'arena> {
-    let location = location - self.offset;
+    let location = self.clamp_location(location);
     let mut start = location;
     let mut end = location;
 
@@ -245,8 +245,13 @@ impl<'arena> SourceLexer<'arena> {
     BumpString::from_str_in(str.trim_ascii_end(), self.bump)
   }
 
+  // substituted lines/tokens can be longer than the source they replace
+  fn clamp_location(&self, location: u32) -> u32 {
+    location.saturating_sub(self.offset).min(self.src.len() as u32)
+  }
+
   pub fn line_number_with_offset(&self, location: u32) -> (u32, u32) {
-    let location = location - self.offset;
+    let location = self.clamp_location(location);
     let mut line_number = 1;
     let mut offset: u32 = 0;
     for idx in 0..location {
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..babf65d 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -26,7 +26,7 @@ impl<'arena> Parser<'arena> {
     if self.document.meta.safe_mode == SafeMode::Secure {
       // TODO: maybe warn?
       return Ok(DirectiveAction::SubstituteLine(
-        self.substitute_link_for_include(&directive),
+        self.substitute_link_for_include(&directive)?,
       ));
     }
 
@@ -39,7 +39,7 @@ impl<'arena> Parser<'arena> {
         &directive,
       )?;
       return Ok(DirectiveAction::SubstituteLine(
-        self.substitute_link_for_include(&directive),
+        self.substitute_link_for_include(&directive)?,
       ));
     }
 
@@ -70,7 +70,7 @@ impl<'arena> Parser<'arena> {
       Err(err) => {
         self.target_err(format!("Error preparing target: {err}"), &directive)?;
         return Ok(DirectiveAction::SubstituteLine(
-          self.substitute_link_for_include(&directive),
+          self.substitute_link_for_include(&directive)?,
         ));
       }
     };
@@ -84,7 +84,7 @@ impl<'arena> Parser<'arena> {
         {
           self.target_err(format!("Error resolving file contents: {msg}"), &directive)?;
           return Ok(DirectiveAction::SubstituteLine(
-            self.substitute_link_for_include(&directive),
+            self.substitute_link_for_include(&directive)?,
           ));
         }
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
@@ -168,12 +168,18 @@ impl<'arena> Parser<'arena> {
     }
   }
 
-  fn substitute_link_for_include(&mut self, directive: &IncludeDirective<'arena>) -> Line<'arena> {
+  fn substitute_link_for_include(
+    &mut self,
+    directive: &IncludeDirective<'arena>,
+  ) -> Result<Line<'arena>> {
     let mut link_src = directive.line_src.replace("include::", "link:");
     link_src.push('\n');
-    let offset = directive.first_token.loc.start + 4;
-    self.lexer.set_tmp_buf(&link_src, BufLoc::Offset(offset));
-    let mut line = self.read_line().unwrap().unwrap();
+    let mut loc = directive.first_token.loc;
+    loc.start += 4;
+    self.lexer.set_tmp_buf(&link_src, BufLoc::From(loc));
+    let Some(mut line) = self.read_line()? else {
+      return Ok(Line::empty(self.bump));
+    };
     let mut tokens = Line::empty(self.bump);
     let first_token = line.consume_current().unwrap();
     let first_loc = first_token.loc;
@@ -199,7 +205,7 @@ impl<'arena> Parser<'arena> {
         tokens.push(token);
       }
     }
-    tokens
+    Ok(tokens)
   }
 
   fn target_err(
-- 
2.43.0


From 3489650c9ecccccd0bca18e207ee4d1fd5ff86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 027/156] fix: delimited block closed directly after a
 conditional directive

---
 parser/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 4a748b9..004e8cd 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -208,7 +208,12 @@ impl<'arena> Parser<'arena> {
       let Some(line) = self.read_line()? else {
         break;
       };
+      // NB: might not have been found by `at_delimiter()`, e.g. following a directive
+      let is_delimiter = line.is_delimiter(delimiter);
       additional_lines.push(line);
+      if is_delimiter {
+        break;
+      }
     }
     lines.extend(additional_lines);
 
-- 
2.43.0


From 8d36f0fc72d7525af46eff69e6486ee71c704cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 028/156] fix: inline doctype propagates diagnostics instead of
 panicking

---
 parser/src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 004e8cd..ad5f8a9 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -272,8 +272,7 @@ impl<'arena> Parser<'arena> {
     // https://docs.asciidoctor.org/asciidoc/latest/document/doctype/#inline-doctype-rules
     if self.document.meta.get_doctype() == DocType::Inline {
       if self.peeked_lines.is_none() {
-        // tmp:
-        self.peeked_lines = self.read_lines().expect("tmp");
+        self.peeked_lines = self.read_lines()?;
       }
       self.lexer.truncate();
     }
-- 
2.43.0


From 4234ea445f32cc6f23276707a8f15c844380305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 029/156] fix: book doctype merges leading block content
 instead of panicking

---
 parser/src/tasks/parse_book.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 4950d05..90ccac1 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -65,7 +65,10 @@ impl<'arena> Parser<'arena> {
           sections: sectioned.sections,
         })))
       }
-      Some(DocContent::Blocks(_)) => unreachable!(),
+      Some(DocContent::Blocks(rest)) => {
+        blocks.extend(rest);
+        Ok(Some(DocContent::Blocks(blocks)))
+      }
       Some(DocContent::Parts(book)) => {
         if let Some(preamble) = book.preamble {
           blocks.extend(preamble);
-- 
2.43.0


From f70c7cf126afdea7553d6d2faa95a3258bdb8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 030/156] fix: conditionals: single-char attrs, one-line forms,
 nested ifeval, closing pops, attr defs in one-line ifdefs

---
 core/src/regx.rs                              |  4 +-
 parser/src/lexer/root_lexer.rs                | 21 ++++++++--
 parser/src/tasks/directives/ifdef.rs          | 40 ++++++++++++++-----
 .../directives/includes/process_includes.rs   |  2 +-
 parser/src/tasks/directives/mod.rs            |  1 +
 parser/src/tasks/parse_doc_attrs.rs           | 29 +++++++++-----
 6 files changed, 73 insertions(+), 24 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 551fdec..2bc4a5b 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -26,9 +26,9 @@ lazy_static! {
 // directives
 lazy_static! {
   pub static ref DIRECTIVE_INCLUDE: Regex =
-    Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+    Regex::new(r#"^include::([^\[]*[^\[\s])\[.*\]$"#).unwrap();
   pub static ref DIRECTIVE_IFDEF: Regex =
-    Regex::new(r#"^ifn?def::([^\[]+[^\[\s])\[(.*)\]$"#).unwrap();
+    Regex::new(r#"^ifn?def::([^\[]*[^\[\s])\[(.*)\]$"#).unwrap();
   pub static ref DIRECTIVE_ENDIF: Regex = Regex::new(r#"^endif::(\S*)\[\]$"#).unwrap();
 }
 
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 427c6b7..c7d3979 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -17,7 +17,8 @@ pub struct RootLexer<'arena> {
 #[derive(Debug)]
 pub enum BufLoc {
   Repeat(SourceLocation),
-  Offset(u32),
+  /// a (whole) line embedded in another, e.g. `ifdef::attr[line]`
+  Line(SourceLocation),
   From(SourceLocation),
 }
 
@@ -109,6 +110,21 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
   }
 
+  /// position in the containing source where the current embedded line ends
+  pub const fn embedded_line_end(&self) -> Option<u32> {
+    match &self.tmp_buf {
+      Some((_, BufLoc::Line(loc))) => Some(loc.end),
+      _ => None,
+    }
+  }
+
+  pub fn skip_embedded_line(&mut self) {
+    if let Some((tmp_lexer, BufLoc::Line(_))) = &mut self.tmp_buf {
+      // stop at the newline
+      tmp_lexer.pos = tmp_lexer.src.len() as u32 - 1;
+    }
+  }
+
   pub const fn tmp_buf_is_empty(&self) -> bool {
     self.tmp_buf.is_none()
   }
@@ -292,8 +308,7 @@ impl<'arena> RootLexer<'arena> {
     {
       match buf_loc {
         BufLoc::Repeat(loc) => token.loc = *loc,
-        BufLoc::Offset(offset) => token.loc = token.loc.offset(*offset),
-        BufLoc::From(src_loc) => {
+        BufLoc::From(src_loc) | BufLoc::Line(src_loc) => {
           token.loc = SourceLocation::new(
             src_loc.start + token.loc.start,
             src_loc.start + token.loc.end,
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bebc212..a7dfdfc 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -13,20 +13,26 @@ impl<'arena> Parser<'arena> {
 
     let attrs = captures.get(1).unwrap().as_str();
     let embedded_line = captures.get(2).unwrap();
-    self.ctx.ifdef_stack.push(self.string(attrs));
 
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
       (false, _) => Ok(DirectiveAction::ReadNextLine),
-      (true, "") => Ok(DirectiveAction::ReadNextLine),
+      (true, "") => {
+        self.ctx.ifdef_stack.push(self.string(attrs));
+        Ok(DirectiveAction::ReadNextLine)
+      }
       (true, embedded) => {
         let mut src = BumpString::with_capacity_in(embedded.len() + 1, self.bump);
         src.push_str(embedded);
         src.push('\n');
-        let offset = line.first_loc().unwrap().start + embedded_line.start() as u32;
-        self.lexer.set_tmp_buf(&src, BufLoc::Offset(offset));
-        let line = self.read_line()?.unwrap();
-        Ok(DirectiveAction::SubstituteLine(line))
+        let mut loc = line.first_loc().unwrap();
+        loc.end = loc.start + embedded_line.end() as u32;
+        loc.start += embedded_line.start() as u32;
+        self.lexer.set_tmp_buf(&src, BufLoc::Line(loc));
+        Ok(match self.read_line()? {
+          Some(line) => DirectiveAction::SubstituteLine(line),
+          None => DirectiveAction::ReadNextLine,
+        })
       }
     }
   }
@@ -76,10 +82,26 @@ impl<'arena> Parser<'arena> {
           }
         }
       } else if token.kind(TokenKind::Directive)
-        && (token.lexeme == "ifdef::" || token.lexeme == "ifndef::")
+        && matches!(token.lexeme.as_str(), "ifdef::" | "ifndef::" | "ifeval::")
       {
-        // TODO: we should probably check if the directive is valid
-        depth += 1;
+        let is_ifeval = token.lexeme == "ifeval::";
+        let mut line = Line::empty(self.bump);
+        line.push(token);
+        while !self.lexer.at_newline() && !self.lexer.is_eof() {
+          line.push(self.lexer.next_token());
+        }
+        let src = line.reassemble_src();
+        let opens = if is_ifeval {
+          regx::DIRECTIVE_IFEVAL.is_match(&src)
+        } else {
+          // NB: the single line form (`ifdef::attr[text]`) has no endif
+          regx::DIRECTIVE_IFDEF
+            .captures(&src)
+            .is_some_and(|captures| captures[2].is_empty())
+        };
+        if opens {
+          depth += 1;
+        }
       } else if self.lexer.is_eof() {
         // TODO: should probably not be a skippable/non-strict error
         self.err_line("This ifdef directive was never closed", start_line)?;
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index babf65d..5019e6f 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -279,7 +279,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
 }
 
 lazy_static! {
-  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]*[^\[\s])\[.*\]$"#).unwrap();
   // ascidoctor impl: /^(\\)?include::([^\s\[](?:[^\[]*[^\s\[])?)\[(.+)?\]$/
 }
 
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 06e1540..5f7e5eb 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -39,6 +39,7 @@ impl<'arena> Parser<'arena> {
       )?;
       return Ok(DirectiveAction::Passthrough);
     }
+    self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
   }
 }
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 80d2faa..049cfee 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -8,7 +8,7 @@ impl<'arena> Parser<'arena> {
     let depth = token.loc.include_depth;
 
     // we need at least 3 bytes to have a valid attr def: `:a:`
-    if self.lexer.byte_at(start_loc + 2, depth).is_none() {
+    if self.attr_def_byte_at(start_loc + 2, depth).is_none() {
       return Ok(());
     }
 
@@ -28,11 +28,11 @@ impl<'arena> Parser<'arena> {
     // test attr def start, and bail early
     let mut pos = start_loc + 1;
     let mut negated = Negation::None;
-    if self.lexer.byte_at(pos, depth) == Some(b'!') {
+    if self.attr_def_byte_at(pos, depth) == Some(b'!') {
       negated = Negation::Leading;
       pos += 1;
     };
-    let first_char = self.lexer.byte_at(pos, depth).unwrap();
+    let first_char = self.attr_def_byte_at(pos, depth).unwrap();
     if !first_char.is_ascii_alphanumeric() && first_char != b'_' {
       return Ok(());
     }
@@ -45,7 +45,7 @@ impl<'arena> Parser<'arena> {
     let mut has_lbrace = false;
     let mut def_start = u32::MAX;
     loop {
-      match (state, self.lexer.byte_at(pos, depth)) {
+      match (state, self.attr_def_byte_at(pos, depth)) {
         (State::InName, Some(b)) if is_attr_word_char(b) => {}
         (State::InName, Some(b'!')) => {
           negated = Negation::Trailing;
@@ -66,7 +66,7 @@ impl<'arena> Parser<'arena> {
         (State::TrailingBang, _) => {
           return Ok(());
         }
-        (State::AfterName, Some(b'\r')) if self.lexer.byte_at(pos + 1, depth) == Some(b'\n') => {
+        (State::AfterName, Some(b'\r')) if self.attr_def_byte_at(pos + 1, depth) == Some(b'\n') => {
           break;
         }
         (State::AfterName, Some(b'\n') | None) => break,
@@ -103,7 +103,7 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        match self.lexer.byte_at(pos, depth) {
+        match self.attr_def_byte_at(pos, depth) {
           Some(b'\r') => pos += 2,
           Some(_) => pos += 1,
           None => break,
@@ -111,8 +111,8 @@ impl<'arena> Parser<'arena> {
 
         let line_start = pos;
         loop {
-          match self.lexer.byte_at(pos, depth) {
-            Some(b'\r') if self.lexer.byte_at(pos + 1, depth) == Some(b'\n') => {
+          match self.attr_def_byte_at(pos, depth) {
+            Some(b'\r') if self.attr_def_byte_at(pos + 1, depth) == Some(b'\n') => {
               break;
             }
             Some(b'\n') | None => break,
@@ -196,11 +196,22 @@ impl<'arena> Parser<'arena> {
     token.kind = TokenKind::AttrDef;
     token.loc = attr_def_loc;
     token.lexeme = self.string(self.lexer.str_from_loc(attr_def_loc));
-    self.lexer.set_pos(pos);
+    if self.lexer.embedded_line_end().is_some() {
+      self.lexer.skip_embedded_line();
+    } else {
+      self.lexer.set_pos(pos);
+    }
 
     Ok(())
   }
 
+  fn attr_def_byte_at(&self, pos: u32, depth: u16) -> Option<u8> {
+    match self.lexer.embedded_line_end() {
+      Some(end) if pos >= end => None,
+      _ => self.lexer.byte_at(pos, depth),
+    }
+  }
+
   // we're selectively opting in to some high-value pass-macro wrapping
   // shenanigans, because they are documented and likely appear frequently
   // in real world use cases, but these are major implementation leaks and
-- 
2.43.0


From 438fdc22ba5c1abaf3ce31d5b3521415e4cff25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 031/156] fix: paragraphs without visible content no longer
 drop the rest of the document

---
 parser/src/tasks/parse_block.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d497e8b..1951dfc 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -444,13 +444,27 @@ impl<'arena> Parser<'arena> {
 
     // TODO: probably a better stack-like context API is possible here...
     let restore_subs = self.ctx.set_subs_for(context, &meta);
+    let start_loc = lines.first_loc();
+    let (num_lines, only_comments) = (lines.len(), lines.iter().all(Line::is_comment));
     let inlines = self.parse_inlines(&mut lines)?;
     self.ctx.subs = restore_subs;
 
-    // can be empty when parsing empty desc list principal
-    let Some(loc) = inlines.loc() else {
-      self.restore_lines(lines);
-      return Ok(None);
+    let loc = match (inlines.loc(), start_loc) {
+      (Some(loc), _) => loc,
+      // paragraphs can also lack visible content, e.g. `{empty}`, but that doesn't end the block(s)
+      (None, Some(loc)) if lines.len() < num_lines && !self.ctx.parsing_simple_desc_def() => {
+        self.restore_lines(lines);
+        if only_comments {
+          return self.parse_block();
+        }
+        let content = Content::Simple(inlines);
+        return Ok(Some(Block { meta, context, content, loc: loc.into() }));
+      }
+      // can be empty when parsing empty desc list principal
+      _ => {
+        self.restore_lines(lines);
+        return Ok(None);
+      }
     };
 
     self.restore_lines(lines);
-- 
2.43.0


From 30d65f4dabe82ef499ff8b626a1d0f2191e9d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 032/156] fix: text directly following the document header is
 no longer dropped

---
 parser/src/tasks/parse_doc_header.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..efbbc2b 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -19,6 +19,8 @@ impl<'arena> Parser<'arena> {
     self.skip_header_doc_attrs(&mut block, &mut header)?;
     self.parse_doc_title_author_revision(&mut block, &mut header)?;
     self.skip_header_doc_attrs(&mut block, &mut header)?;
+    // lines following the header, not separated by an empty line
+    self.restore_lines(block);
     self.finalize_doc_header(header);
     Ok(())
   }
-- 
2.43.0


From 2444251436edcb9e5f57e4ce52c3f1ed729d79e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 033/156] fix: attr entries with an include in the same chunk
 no longer corrupt the lexer position

---
 parser/src/parser.rs            | 12 +++++++++++-
 parser/src/tasks/parse_block.rs | 10 +++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ad5f8a9..9d52dfc 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -179,8 +179,9 @@ impl<'arena> Parser<'arena> {
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
       }
+      let ends_chunk = self.ends_chunk(&lines, &line);
       lines.push(line);
-      if self.lexer.at_newline() {
+      if ends_chunk || self.lexer.at_newline() {
         break;
       }
     }
@@ -191,6 +192,15 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  // attr defs (outside of paragraphs) take effect before lines that follow are read
+  fn ends_chunk(&self, lines: &Deq<'arena, Line<'arena>>, line: &Line<'arena>) -> bool {
+    !self.ctx.in_header
+      && line.is_attr_decl()
+      && lines
+        .iter()
+        .all(|l| l.is_comment() || l.is_block_attr_list() || l.is_block_anchor() || l.is_chunk_title())
+  }
+
   pub(crate) fn read_lines_until(
     &mut self,
     delimiter: Delimiter,
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 1951dfc..62bbebb 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -114,9 +114,17 @@ impl<'arena> Parser<'arena> {
           self.err_at(err, def.loc)?;
         }
         lines.consume_current(); // attr def
-        if !lines.is_empty() {
+        let src_idx = def.loc.include_depth;
+        if !lines.is_empty()
+          && self.lexer.source_idx() == src_idx
+          && lines
+            .iter()
+            .all(|l| l.first_loc().is_none_or(|loc| loc.include_depth == src_idx))
+        {
           // re-parse adjoining chunk, to resolve attr def
           self.lexer.set_pos(def.loc.end);
+        } else {
+          self.restore_lines(lines);
         }
         return Ok(Some(Block {
           meta,
-- 
2.43.0


From 059fddebf74c73104f63eeb707c65076a0335899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 034/156] fix: mailto:// is not a uri scheme

---
 parser/src/lexer/source_lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index c2e42f4..98d9ebb 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -660,7 +660,7 @@ impl<'arena> SourceLexer<'arena> {
 
   fn continues_uri_scheme(&self, lexeme: &[u8]) -> Option<u32> {
     match lexeme {
-      b"http" | b"https" | b"ftp" | b"mailto" | b"irc"
+      b"http" | b"https" | b"ftp" | b"irc"
         if self.peek_bytes::<3>() == Some(b"://") =>
       {
         Some(3)
-- 
2.43.0


From bed45ec937d5560dfb2b5a1c7f6e7ba4b9b8869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 035/156] fix: callout numbers >255, escaped index terms, empty
 passthru lines, dropped include lines no longer panic

---
 parser/src/tasks/directives/includes/process_includes.rs | 5 +++--
 parser/src/tasks/parse_block.rs                          | 2 ++
 parser/src/tasks/parse_inlines/index_term.rs             | 6 +++++-
 parser/src/tasks/parse_inlines/mod.rs                    | 5 ++++-
 parser/src/tasks/parse_list.rs                           | 2 +-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 5019e6f..2584a98 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -123,10 +123,11 @@ impl<'arena> Parser<'arena> {
         let mut msg = self.string("+++Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
-        let offset = directive.first_token.loc.start + msg.len() as u32;
+        let mut loc = directive.first_token.loc;
+        loc.start += msg.len() as u32;
         msg.push_str(directive.line_src.as_str());
         msg.push_str("+++\n");
-        self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
+        self.lexer.set_tmp_buf(&msg, BufLoc::From(loc));
         Ok(DirectiveAction::ReadNextLine)
       }
       Err(error) => {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 62bbebb..90ac6c2 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -17,6 +17,8 @@ impl<'arena> Parser<'arena> {
     }
 
     let meta = self.parse_chunk_meta(&mut lines)?;
+    // NB: lines dropped from includes can leave empty lines
+    lines.discard_leading_empty_lines();
     if lines.is_empty() {
       self.err_line_starting("Unattached block metadata", meta.start_loc)?;
       return self.parse_block();
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index f55f603..a90821c 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -179,7 +179,11 @@ impl<'arena> Parser<'arena> {
     parens.lexeme.pop();
     acc.push_node(Inline::Discarded, token.loc);
     acc.push_text_token(&single_paren);
-    let end_len = terminates(&line, lines).unwrap();
+    let Some(end_len) = terminates(&line, lines) else {
+      acc.push_text_token(&parens);
+      lines.restore_if_nonempty(line);
+      return Ok(());
+    };
     let (node, loc) = self.parse_index_term_shorthand(end_len, &parens, line, lines, acc)?;
     acc.push_node(node, loc);
     Ok(())
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 8b1f9ec..5b914ac 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -25,7 +25,10 @@ impl<'arena> Parser<'arena> {
       return Ok(inlines);
     }
 
-    let span_loc = lines.first_loc().unwrap().clamp_start();
+    let span_loc = lines
+      .first_loc()
+      .unwrap_or_else(|| self.lexer.loc())
+      .clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
     let mut acc = Accum::new(inlines, text);
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..656b417 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -98,7 +98,7 @@ impl<'arena> Parser<'arena> {
         )?;
       }
       type_meta = ListItemTypeMeta::Callout(callouts);
-      *autogen_conum = conum + 1;
+      *autogen_conum = conum.saturating_add(1);
     }
 
     let mut item_lines = Deq::with_capacity(1, self.bump);
-- 
2.43.0


From 17072555e692350305187329972c66ed5980a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 036/156] fix: self-referencing attribute values no longer
 recurse endlessly

---
 parser/src/tasks/attr_refs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index b73c234..92bd403 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -51,7 +51,11 @@ impl<'arena> Parser<'arena> {
         self.ctx.replacing_attr = false;
       }
     }
-    if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    if token.kind(TokenKind::AttrRef) && token.attr_replacement {
+      // references within replaced values were already resolved, or can't be
+      token.kind = TokenKind::Word;
+      line.push(token);
+    } else if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
-- 
2.43.0


From 590e903c6d60005509ea04ae08256db116117bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 037/156] fix: attr refs in attr values are case insensitive

---
 parser/src/tasks/parse_doc_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 049cfee..dd6369b 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -261,7 +261,7 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn replace_attr_vals<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
     regx::ATTR_VAL_REPLACE.replace_all(haystack, |caps: &regex::Captures| {
       if let Some(AttrValue::String(replace)) =
-        self.document.meta.get(caps.get(1).unwrap().as_str())
+        self.document.meta.get(&caps[1].to_lowercase())
       {
         replace
       } else {
-- 
2.43.0


From 1922f9cf1b62cce63c761e9184a2deb6643f4f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 038/156] fix: markdown part headings, dashes following include
 boundary, comment after metadata no longer panic

---
 parser/src/tasks/parse_block.rs                | 3 ---
 parser/src/tasks/parse_book_part.rs            | 3 +++
 parser/src/tasks/parse_inlines/inline_utils.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 90ac6c2..53fed11 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -9,9 +9,6 @@ impl<'arena> Parser<'arena> {
     };
 
     if let Some(comment_block) = self.parse_inline_comment_block(&mut lines) {
-      if let Some(meta) = self.peeked_meta.take() {
-        assert!(meta.is_empty());
-      }
       self.restore_lines(lines);
       return Ok(Some(comment_block));
     }
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..f8d1b7e 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -21,6 +21,9 @@ impl<'arena> Parser<'arena> {
     } = peeked;
     let mut heading_line = lines.consume_current().unwrap();
     let equals = heading_line.consume_current().unwrap();
+    while heading_line.current_is(TokenKind::Hash) {
+      heading_line.discard(1);
+    }
     heading_line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&heading_line, &meta.attrs);
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..e75479f 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -127,7 +127,7 @@ impl<'arena> Accum<'arena> {
         } else if self.inlines.last_is(&Inline::Newline) {
           self.inlines.pop();
           newline = AdjacentNewline::Leading;
-          loc.start -= 1;
+          loc.start = loc.start.saturating_sub(1);
         }
         self.push_node(
           Inline::SpacedDashes(token.len() as u8, newline),
-- 
2.43.0


From bc4e7984c1b010813cf6a583da3c4fc54b8dcfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 039/156] fix: markdown blockquote lines are not mixed with the
 following document lines

---
 parser/src/parser.rs            | 18 ++++++++++++++++++
 parser/src/tasks/parse_block.rs | 25 ++++++++++++-------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 9d52dfc..2de509d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -1,3 +1,4 @@
+use std::collections::VecDeque;
 use std::fmt::Debug;
 use std::{cell::RefCell, rc::Rc};
 
@@ -9,6 +10,8 @@ pub struct Parser<'arena> {
   pub(super) document: Document<'arena>,
   pub(super) peeked_lines: Option<ContiguousLines<'arena>>,
   pub(super) peeked_meta: Option<ChunkMeta<'arena>>,
+  /// pending lines of the current markdown blockquote
+  pub(super) markdown_blockquote_lines: VecDeque<ContiguousLines<'arena>>,
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
@@ -32,6 +35,7 @@ impl<'arena> Parser<'arena> {
       document: Document::new(lexer.bump),
       peeked_lines: None,
       peeked_meta: None,
+      markdown_blockquote_lines: VecDeque::new(),
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       strict: true,
@@ -158,6 +162,9 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
+    if self.ctx.in_markdown_blockquote {
+      return Ok(self.markdown_blockquote_lines.pop_front());
+    }
     self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
       return Ok(None);
@@ -213,6 +220,17 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut additional_lines = BumpVec::new_in(self.bump);
+    if self.ctx.in_markdown_blockquote {
+      while !lines.any(|l| l.is_delimiter(delimiter))
+        && let Some(mut more) = self.read_lines()?
+      {
+        lines.push(Line::empty(self.bump));
+        while let Some(line) = more.consume_current() {
+          lines.push(line);
+        }
+      }
+      return Ok(Some(lines));
+    }
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       // NB: reading can reach eof without a line, e.g. a trailing conditional directive
       let Some(line) = self.read_line()? else {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 53fed11..8abe3a5 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -1,3 +1,5 @@
+use std::collections::VecDeque;
+
 use crate::internal::*;
 use crate::variants::token::*;
 use ast::short::block::*;
@@ -256,7 +258,7 @@ impl<'arena> Parser<'arena> {
     meta: ChunkMeta<'arena>,
   ) -> Result<Option<Block<'arena>>> {
     let mut loc = MultiSourceLocation::from(lines.current_token().unwrap().loc);
-    let mut paras = BumpVec::new_in(self.bump);
+    let mut paras = VecDeque::new();
     let mut current = ContiguousLines::new(Deq::new(self.bump));
     while let Some(mut line) = lines.consume_current() {
       if line.starts(GreaterThan) {
@@ -267,7 +269,7 @@ impl<'arena> Parser<'arena> {
       }
       if line.is_empty() {
         if !current.is_empty() {
-          paras.push(current);
+          paras.push_back(current);
           current = ContiguousLines::new(Deq::new(self.bump));
         }
       } else {
@@ -275,22 +277,19 @@ impl<'arena> Parser<'arena> {
       }
     }
     if !current.is_empty() {
-      paras.push(current);
+      paras.push_back(current);
     }
 
-    self.ctx.in_markdown_blockquote = true;
     assert!(self.peeked_lines.is_none());
+    let outer_flag = std::mem::replace(&mut self.ctx.in_markdown_blockquote, true);
+    let outer_lines = std::mem::replace(&mut self.markdown_blockquote_lines, paras);
     let mut blocks = BumpVec::new_in(self.bump);
-    for para in paras.into_iter() {
-      self.restore_lines(para);
-      while self.peeked_lines.is_some()
-        && let Some(block) = self.parse_block()?
-      {
-        loc.extend_end(&block.loc);
-        blocks.push(block);
-      }
+    while let Some(block) = self.parse_block()? {
+      loc.extend_end(&block.loc);
+      blocks.push(block);
     }
-    self.ctx.in_markdown_blockquote = false;
+    self.ctx.in_markdown_blockquote = outer_flag;
+    self.markdown_blockquote_lines = outer_lines;
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
-- 
2.43.0


From 09a57b69bac9916ecd4a3610b0ae9ed8458e2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 040/156] fix: gaps in toc levels no longer panic

---
 parser/src/tasks/parse_section.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..719e828 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -206,8 +206,8 @@ impl<'arena> Parser<'arena> {
       depth = 1;
     }
 
-    while depth > last_level {
-      // we don't push out of sequence sections, shouldn't panic
+    // NB: out of sequence sections can leave gaps
+    while depth > last_level && !nodes.is_empty() {
       nodes = nodes.last_mut().unwrap().children.as_mut();
       depth -= 1;
     }
-- 
2.43.0


From 816aa10b59263fdec3bfd813ae134c766290b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 041/156] fix: empty options in formatted text attr list no
 longer panics

---
 parser/src/tasks/parse_attr_list.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index f658568..43dadc0 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -245,13 +245,11 @@ impl<'arena> Parser<'arena> {
         return Ok(());
       }
       AttrIr::Options(groups) | AttrIr::Roles(groups) if formatted_text => {
-        self.err_at(
-          ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(
-            groups.first().unwrap().first().unwrap().loc,
-            groups.last().unwrap().last().unwrap().loc,
-          ),
-        )?;
+        let mut locs = groups.iter().flat_map(|group| group.iter().map(|t| t.loc));
+        if let Some(first) = locs.next() {
+          let last = locs.last().unwrap_or(first);
+          self.err_at(ONLY_SHORTHAND_ERR, SourceLocation::spanning(first, last))?;
+        }
         return Ok(());
       }
       AttrIr::Named(name, tokens) if formatted_text => {
-- 
2.43.0


From 5e9e162de5e9cd448f2adf30c986240c419f81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 042/156] fix: concealed index term spanning lines

---
 parser/src/tasks/parse_inlines/index_term.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index a90821c..6f5cc43 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -201,7 +201,10 @@ impl<'arena> ContiguousLines<'arena> {
     let mut in_quotes = false;
     loop {
       let Some(current) = self.current_token() else {
-        break;
+        if self.consume_current().is_none() {
+          break;
+        }
+        continue;
       };
       if current.satisfies(stop) {
         break;
-- 
2.43.0


From 32442ecb9c52ff6d75637deb19a40f80ab6d4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 043/156] fix: quoted csv separator at start of a token

---
 parser/src/tasks/table/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index a1508d2..539a6c8 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -108,8 +108,8 @@ impl<'arena> TableTokens<'arena> {
     let token = self.current().unwrap();
     if token.lexeme.contains(sep) {
       let (before, _) = token.lexeme.split_once(sep).unwrap();
-      // NB: caller must check that lexeme doesn't START with sep
-      debug_assert!(!before.is_empty());
+      // NB: unless quoted, caller must check that lexeme doesn't START with sep
+      let before = if before.is_empty() { &token.lexeme[..sep.len_utf8()] } else { before };
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
       let before_len = before.len() as u32;
-- 
2.43.0


From 670750c8b0e7d9be55a17cb1c882e52d3bb1f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 044/156] fix: arithmetic overflow in diagnostics width and
 callout numbering

---
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 parser/src/diagnostic.rs                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 1769f9a..649881b 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -705,7 +705,7 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
-      self.autogen_conum = n + 1;
+      self.autogen_conum = n.saturating_add(1);
       if self.doc_meta.icon_mode() == IconMode::Font {
         self.push_callout_number_font(n);
       } else {
diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 12abce6..0a7f500 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -106,7 +106,7 @@ impl Parser<'_> {
       line: self.lexer.line_of(loc).to_string(),
       message: message.into(),
       underline_start: offset,
-      underline_width: loc.end - loc.start,
+      underline_width: loc.end.saturating_sub(loc.start),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
   }
-- 
2.43.0


From 4ac839d23ad5c3d085827dab3f41ad22fc86cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 045/156] fix: anchor following inline formatting is not taken
 for a block anchor

---
 parser/src/line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 650026d..9d11732 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -283,7 +283,8 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn is_block_anchor(&self) -> bool {
-    self.starts_with_seq(&[Kind(OpenBracket); 2])
+    self.is_fully_unconsumed()
+      && self.starts_with_seq(&[Kind(OpenBracket); 2])
       && self.num_tokens() > 4
       && !matches!(
         self.nth_token(2).unwrap().kind,
-- 
2.43.0


From 2f2e844e8dd5d339339507f6bffce18c5acd0f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 046/156] fix: malformed book without content no longer
 recurses endlessly

---
 parser/src/tasks/parse_book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 90ccac1..872fd1b 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -48,7 +48,7 @@ impl<'arena> Parser<'arena> {
     while let Some(block) = self.parse_block()? {
       blocks.push(block);
     }
-    if self.lexer.is_eof() {
+    if self.lexer.is_eof() || blocks.is_empty() {
       return Ok(Some(DocContent::Blocks(blocks)));
     }
 
-- 
2.43.0


From c0bbb4ced641069a6ce29f6cdc55e55cadf9e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 047/156] fix: titled paragraphs of inline documents no longer
 panic

---
 backend-html5s/src/html5s.rs            | 5 ++++-
 dr-html-backend/src/asciidoctor_html.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 23cf1c3..d8ebe76 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1463,7 +1463,10 @@ impl Backend for Html5s {
   }
 
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context.renders_title() {
+    // NB: paragraphs of an `inline` document are rendered bare, without their title
+    let bare_paragraph = block.context == BlockContext::Paragraph
+      && self.doc_meta.get_doctype() == DocType::Inline;
+    if block.context.renders_title() && !bare_paragraph {
       self.stop_buffering();
     } else {
       self.swap_discard_alt_buffer();
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 649881b..18a7ed3 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -309,7 +309,10 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context.renders_title() {
+    // NB: paragraphs of an `inline` document are rendered bare, without their title
+    let bare_paragraph = block.context == BlockContext::Paragraph
+      && self.doc_meta.get_doctype() == DocType::Inline;
+    if block.context.renders_title() && !bare_paragraph {
       self.stop_buffering();
     } else {
       self.swap_discard_alt_buffer();
-- 
2.43.0


From 99d1a852675d87895f4c26142bb6c7adb7022f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 048/156] fix: titled description list text keeps its title

---
 dr-html-backend/src/asciidoctor_html.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 18a7ed3..64521b5 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -676,8 +676,11 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_description_list_description_text(&mut self, _text: &Block, _item: &ListItem) {
-    self.state.ephemeral.insert(VisitingSimpleTermDescription);
+  fn enter_description_list_description_text(&mut self, text: &Block, _item: &ListItem) {
+    // NB: a titled description needs a block wrapper for its title
+    if !text.has_title() {
+      self.state.ephemeral.insert(VisitingSimpleTermDescription);
+    }
   }
 
   #[instrument(skip_all)]
-- 
2.43.0


From 3e0d2ee475796bbb787cc30b467d0670f2d8a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 049/156] fix: unused formatted text attrs and roles keep their
 text when from attribute or include

---
 parser/src/tasks/parse_attr_list.rs   |  3 +-
 parser/src/tasks/parse_inlines/mod.rs | 44 ++++++++++++++++-----------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 43dadc0..37dfb33 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -270,8 +270,7 @@ impl<'arena> Parser<'arena> {
         else {
           return Ok(()); // correct?
         };
-        let role = self.lexer.src_string_from_loc(loc);
-        attr_list.roles.push(role);
+        attr_list.roles.push(SourceString::new(src, loc));
         return Ok(());
       }
       AttrIr::Positional(mut tokens, with_shorthand) => {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 5b914ac..53462ee 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -32,7 +32,8 @@ impl<'arena> Parser<'arena> {
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
     let mut acc = Accum::new(inlines, text);
-    let mut inline_attrs: Option<AttrList> = None;
+    // attrs, and their source text, in case they turn out to not be attrs
+    let mut inline_attrs: Option<(AttrList, BumpString)> = None;
 
     while let Some(mut line) = lines.consume_current() {
       if self.should_stop_at(&line) {
@@ -85,7 +86,11 @@ impl<'arena> Parser<'arena> {
 
         match token.kind {
           OpenBracket if subs.inline_formatting() && line.continues_formatted_text_attr_list() => {
-            inline_attrs = Some(self.parse_formatted_text_attr_list(&mut line)?);
+            let before = line.reassemble_src();
+            let attrs = self.parse_formatted_text_attr_list(&mut line)?;
+            let mut raw = token.lexeme.clone();
+            raw.push_str(&before[..before.len() - line.reassemble_src().len()]);
+            inline_attrs = Some((attrs, raw));
           }
 
           OpenParens
@@ -523,7 +528,7 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.inline_ctx = InlineCtx::Single([Kind(Underscore)]);
             self.parse_node(
-              span(SpanKind::Italic, inline_attrs.take()),
+              span(SpanKind::Italic, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Underscore)], &token, &mut acc, line, lines),
             )?;
             break;
@@ -535,7 +540,7 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.inline_ctx = InlineCtx::Double([Kind(Underscore); 2]);
             self.parse_node(
-              span(SpanKind::Italic, inline_attrs.take()),
+              span(SpanKind::Italic, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Underscore); 2], &token, &mut acc, line, lines),
             )?;
             break;
@@ -547,7 +552,7 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.inline_ctx = InlineCtx::Single([Kind(Star)]);
             self.parse_node(
-              span(SpanKind::Bold, inline_attrs.take()),
+              span(SpanKind::Bold, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Star)], &token, &mut acc, line, lines),
             )?;
             break;
@@ -559,7 +564,7 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.inline_ctx = InlineCtx::Double([Kind(Star); 2]);
             self.parse_node(
-              span(SpanKind::Bold, inline_attrs.take()),
+              span(SpanKind::Bold, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Star); 2], &token, &mut acc, line, lines),
             )?;
             break;
@@ -615,7 +620,7 @@ impl<'arena> Parser<'arena> {
             self.ctx.subs.remove(Subs::InlineFormatting);
             self.ctx.subs.remove(Subs::AttrRefs);
             self.parse_node(
-              span(SpanKind::LitMono, inline_attrs.take()),
+              span(SpanKind::LitMono, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx(
                 [Len(1, Plus), Kind(Backtick)],
                 &token,
@@ -630,7 +635,7 @@ impl<'arena> Parser<'arena> {
 
           Caret if subs.inline_formatting() && line.no_whitespace_until(Caret) => {
             self.parse_node(
-              span(SpanKind::Superscript, inline_attrs.take()),
+              span(SpanKind::Superscript, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Caret)], &token, &mut acc, line, lines),
             )?;
             break;
@@ -642,7 +647,7 @@ impl<'arena> Parser<'arena> {
           {
             self.ctx.inline_ctx = InlineCtx::Single([Kind(Backtick)]);
             self.parse_node(
-              span(SpanKind::Mono, inline_attrs.take()),
+              span(SpanKind::Mono, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Backtick)], &token, &mut acc, line, lines),
             )?;
             break;
@@ -653,7 +658,7 @@ impl<'arena> Parser<'arena> {
               && self.starts_unconstrained(&[Kind(Backtick); 2], &token, &line, lines) =>
           {
             self.parse_node(
-              span(SpanKind::Mono, inline_attrs.take()),
+              span(SpanKind::Mono, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Backtick); 2], &token, &mut acc, line, lines),
             )?;
             break;
@@ -707,7 +712,7 @@ impl<'arena> Parser<'arena> {
 
           Tilde if subs.inline_formatting() && line.no_whitespace_until(Tilde) => {
             self.parse_node(
-              span(SpanKind::Subscript, inline_attrs.take()),
+              span(SpanKind::Subscript, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Tilde)], &token, &mut acc, line, lines),
             )?;
             break;
@@ -748,7 +753,7 @@ impl<'arena> Parser<'arena> {
             self.ctx.inline_ctx = InlineCtx::Double([Kind(Hash); 2]);
             let kind = if inline_attrs.is_some() { SpanKind::Text } else { SpanKind::Highlight };
             self.parse_node(
-              span(kind, inline_attrs.take()),
+              span(kind, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Hash); 2], &token, &mut acc, line, lines),
             )?;
             break;
@@ -761,7 +766,7 @@ impl<'arena> Parser<'arena> {
             let kind = if inline_attrs.is_some() { SpanKind::Text } else { SpanKind::Highlight };
             self.ctx.inline_ctx = InlineCtx::Single([Kind(Hash)]);
             self.parse_node(
-              span(kind, inline_attrs.take()),
+              span(kind, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Hash)], &token, &mut acc, line, lines),
             )?;
             break;
@@ -891,17 +896,20 @@ impl<'arena> Parser<'arena> {
     self.finish_inlines(acc, inline_attrs)
   }
 
-  fn push_unused_inline_attrs(&self, acc: &mut Accum<'arena>, inline_attrs: &mut Option<AttrList>) {
-    if let Some(unused_attrs) = inline_attrs.take() {
-      let text = self.lexer.str_from_loc(unused_attrs.loc);
-      acc.text.push_str(&self.replace_attr_vals(text));
+  fn push_unused_inline_attrs(
+    &self,
+    acc: &mut Accum<'arena>,
+    inline_attrs: &mut Option<(AttrList, BumpString)>,
+  ) {
+    if let Some((_, text)) = inline_attrs.take() {
+      acc.text.push_str(&text);
     }
   }
 
   fn finish_inlines(
     &self,
     mut acc: Accum<'arena>,
-    mut inline_attrs: Option<AttrList>,
+    mut inline_attrs: Option<(AttrList, BumpString)>,
   ) -> Result<InlineNodes<'arena>> {
     self.push_unused_inline_attrs(&mut acc, &mut inline_attrs);
     acc.commit();
-- 
2.43.0


From 9e16f21d4c66e66b8f41ba126717910b154d1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 050/156] fix: assorted panics in attr lists, passthroughs,
 list comments and footnote passes

---
 ast/src/source_location.rs                   |  7 ++++---
 parser/src/line.rs                           |  4 +++-
 parser/src/parser.rs                         |  6 +++++-
 parser/src/tasks/parse_attr_list.rs          | 11 +++++++----
 parser/src/tasks/parse_inlines/index_term.rs |  2 +-
 parser/src/tasks/parse_inlines/mod.rs        |  8 ++++----
 6 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index dfbc0b3..18640ec 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -14,9 +14,10 @@ impl SourceLocation {
   }
 
   pub fn spanning(start: Self, end: Self) -> Self {
-    debug_assert!(start.start <= end.start);
-    debug_assert!(start.end <= end.end);
-    debug_assert!(start.include_depth == end.include_depth);
+    // NB: a construct can start and end in different sources (e.g. includes within it)
+    if start.include_depth != end.include_depth || start.end > end.end {
+      return start;
+    }
     Self {
       start: start.start,
       end: end.end,
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 9d11732..1cabfac 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -50,7 +50,9 @@ impl<'arena> Line<'arena> {
     } else if self.pass_macro || self.pass_pluses > 1 {
       true
     } else {
-      let last = self.last().unwrap();
+      let Some(last) = self.last() else {
+        return false;
+      };
       if last.is_kind_len(Plus, 1) && self.len() > 1 {
         // NB: line ending ` +` is a hardbreak, cannot be pass
         !self.nth_token(self.len() - 2).is_whitespaceish()
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 2de509d..651d1b0 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -348,6 +348,7 @@ impl<'arena> Parser<'arena> {
     if lines.is_empty() || !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
+    let orig_num_lines = lines.len();
     loop {
       match lines.current() {
         Some(line) if line.is_chunk_title() => {
@@ -374,7 +375,10 @@ impl<'arena> Parser<'arena> {
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
-        Some(line) if line.is_comment() && (!attrs.is_empty() || title.is_some()) => {
+        Some(line)
+          if line.is_comment()
+            && (!attrs.is_empty() || title.is_some() || lines.len() < orig_num_lines) =>
+        {
           lines.consume_current();
         }
         _ => break,
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 37dfb33..5e8d6cc 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -238,10 +238,9 @@ impl<'arena> Parser<'arena> {
         return Ok(());
       }
       AttrIr::Id(inner) if formatted_text => {
-        self.err_at(
-          ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(inner.first().unwrap().loc, inner.last().unwrap().loc),
-        )?;
+        if let (Some(first), Some(last)) = (inner.first(), inner.last()) {
+          self.err_at(ONLY_SHORTHAND_ERR, SourceLocation::spanning(first.loc, last.loc))?;
+        }
         return Ok(());
       }
       AttrIr::Options(groups) | AttrIr::Roles(groups) if formatted_text => {
@@ -263,6 +262,10 @@ impl<'arena> Parser<'arena> {
         return Ok(());
       }
       AttrIr::Positional(tokens, _) if formatted_text => {
+        let mut src = BumpString::new_in(self.bump);
+        for token in tokens.iter().filter(|t| t.kind != TokenKind::AttrRef) {
+          src.push_str(&token.lexeme);
+        }
         let Some(loc) = self
           .parse_attr_nodes(tokens)?
           .and_then(|nodes| nodes.loc())
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 6f5cc43..2974bf9 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -132,7 +132,7 @@ impl<'arena> Parser<'arena> {
 
     let close_parens = lines.consume_current_token().unwrap();
     debug_assert!(close_parens.kind == CloseParens);
-    let loc = open_parens_token.loc.setting_end(close_parens.loc.end);
+    let loc = SourceLocation::spanning(open_parens_token.loc, close_parens.loc);
 
     if close_parens.len() > 3 {
       let mut put_back = close_parens.clone();
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 53462ee..af6d1b0 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -179,10 +179,10 @@ impl<'arena> Parser<'arena> {
                 let note = self.parse_inlines_until(lines, &[Kind(CloseBracket)])?;
                 if self.ctx.attr_pass_subs.take().is_some() {
                   self.ctx.subs = restore;
-                  let close_bracket = lines
-                    .consume_current_token()
-                    .expect("attr ref pass macro end");
-                  assert!(close_bracket.kind == CloseBracket);
+                  // closing bracket of the attr ref pass macro
+                  if lines.current_token().kind(CloseBracket) {
+                    _ = lines.consume_current_token();
+                  }
                 }
                 extend(&mut macro_loc, &note, 1);
                 let note = if note.is_empty() { None } else { Some(note) };
-- 
2.43.0


From 698cb59d300a9e0cb826af5a1be6f94c91648814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 051/156] fix: column widths summing to over 255

---
 ast/src/col_widths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..0974f6f 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.map_or(*n as u32, |sum| sum + *n as u32))
         }
         ColWidth::Auto => num_autowidth += 1,
       }
-- 
2.43.0


From 5a399ee978070b1092b860cd4e5732986422dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 052/156] fix: callouts and index terms mixed with attributes,
 includes, and large numbers

---
 parser/src/parse_context.rs                  |  6 +++---
 parser/src/tasks/parse_inlines/index_term.rs | 10 ++++++----
 parser/src/tasks/parse_inlines/mod.rs        |  2 +-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..0cc09d2 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -149,8 +149,8 @@ impl<'arena> ParseContext<'arena> {
       } else {
         callouts.push(Callout {
           list_idx: last.list_idx,
-          callout_idx: last.callout_idx + 1,
-          number: num.unwrap_or(last.number + 1),
+          callout_idx: last.callout_idx.saturating_add(1),
+          number: num.unwrap_or(last.number.saturating_add(1)),
           is_xml_wrapped,
         });
       }
@@ -162,7 +162,7 @@ impl<'arena> ParseContext<'arena> {
     let last = { self.callouts.borrow().last().copied() };
     if let Some(last) = last {
       self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)],
+        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)],
       ));
     }
   }
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 2974bf9..0dd005f 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -6,17 +6,19 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn parse_index_term_macro(
     &mut self,
     visible: bool,
-    token: &Token,
+    token: &Token<'arena>,
     line: &mut Line<'arena>,
   ) -> Result<(Inline<'arena>, SourceLocation)> {
     let mut loc = token.loc;
+    let before = line.reassemble_src();
     line.discard_assert(TokenKind::OpenBracket);
     let mut attr_list = self.parse_inline_macro_attr_list(line)?;
-    loc.end = attr_list.loc.end;
+    loc = SourceLocation::spanning(loc, attr_list.loc);
     let Some(term) = attr_list.positional.get_mut(0).and_then(Option::take) else {
       self.err_at("invalid index term macro", attr_list.loc)?;
-      let invalid_macro = self.lexer.str_from_loc(loc);
-      return Ok((Inline::Text(self.string(invalid_macro)), loc));
+      let mut invalid_macro = token.lexeme.clone();
+      invalid_macro.push_str(&before[..before.len() - line.reassemble_src().len()]);
+      return Ok((Inline::Text(invalid_macro), loc));
     };
 
     let term_type = if visible {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index af6d1b0..9399b8b 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -434,7 +434,7 @@ impl<'arena> Parser<'arena> {
           CalloutNumber if subs.callouts() && line.continues_valid_callout_nums() => {
             self.recover_custom_line_comment(&mut acc);
             acc.text.trim_end();
-            let loc = SourceLocation::new(acc.text.loc.end, token.loc.end, token.loc.include_depth);
+            let loc = SourceLocation::spanning(acc.text.loc.clamp_end(), token.loc);
             let number = token.parse_callout_num();
             let is_xml = token.lexeme.starts_with("<!--");
             acc.push_node(CalloutNum(self.ctx.push_callout(number, is_xml)), loc);
-- 
2.43.0


From 59722b9c38dfea31a17a1dc22c1e02c3e1ea0e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 053/156] fix: long multi-line passthroughs use bounded stack
 and memory

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 7 +++----
 parser/src/tasks/parse_inlines/inline_utils.rs   | 2 +-
 parser/src/tasks/parse_inlines/mod.rs            | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 0c556b1..9c065f7 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -96,7 +96,7 @@ impl<'arena> Parser<'arena> {
     source: &mut ContiguousLines<'arena>,
     mut passthru: ContiguousLines<'arena>,
   ) -> ContiguousLines<'arena> {
-    let mut passthru_line = Line::with_capacity(num_tokens, self.bump);
+    let mut passthru_line = Line::with_capacity(num_tokens.min(line.num_tokens()), self.bump);
     loop {
       if num_tokens == 0 {
         line.discard(1); // discard passthru end delimiter
@@ -111,9 +111,8 @@ impl<'arena> Parser<'arena> {
           passthru.push(passthru_line);
         }
         // NB: we know there is a next line because we found the end further on
-        let mut next_line = source.consume_current().unwrap();
-        std::mem::swap(line, &mut next_line);
-        return self.accum_passthru(num_tokens, line, source, passthru);
+        *line = source.consume_current().unwrap();
+        passthru_line = Line::with_capacity(num_tokens.min(line.num_tokens()), self.bump);
       }
     }
   }
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index e75479f..6745e23 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -11,7 +11,7 @@ impl<'arena> Parser<'arena> {
     if line.starts_with_seq(&[Kind(PreprocPassthru), Kind(OpenBracket)]) {
       let placeholder = line.consume_current().unwrap();
       line.discard(1); // open bracket
-      let index: usize = placeholder.lexeme[1..6].parse().unwrap();
+      let index: usize = placeholder.lexeme[1..].parse().unwrap();
       let src_len = placeholder.loc.size();
       let mut restored = BumpString::with_capacity_in(src_len as usize, self.bump);
       let content = self.ctx.passthrus[index].take().unwrap();
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 9399b8b..7c4f190 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -880,7 +880,7 @@ impl<'arena> Parser<'arena> {
           }
 
           PreprocPassthru => {
-            let index: usize = token.lexeme[1..6].parse().unwrap();
+            let index: usize = token.lexeme[1..].parse().unwrap();
             let content = self.ctx.passthrus[index].take().unwrap();
             acc.push_node(InlinePassthru(content), token.loc);
           }
-- 
2.43.0


From d7956de17beef4c60fdc926cb3a7349f736a7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 054/156] fix: mailto subject and body resolve attribute
 references, anchors spanning sources

---
 ast/src/source_location.rs            |  6 +++---
 parser/src/lexer/root_lexer.rs        |  4 ++++
 parser/src/lexer/source_lexer.rs      | 10 +++++++---
 parser/src/line.rs                    |  3 +--
 parser/src/tasks/parse_attr_list.rs   |  5 +++--
 parser/src/tasks/parse_inlines/mod.rs | 24 ++++++++++++++----------
 6 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index 18640ec..851cbc8 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -35,7 +35,7 @@ impl SourceLocation {
   }
 
   pub fn subtracting_from_start(&self, subtracting: u32) -> SourceLocation {
-    Self::new(self.start - subtracting, self.end, self.include_depth)
+    Self::new(self.start.saturating_sub(subtracting), self.end, self.include_depth)
   }
 
   pub fn setting_end(&self, end: u32) -> SourceLocation {
@@ -64,7 +64,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr_start(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end, self.include_depth)
+    Self::new(self.start.saturating_sub(1), self.end, self.include_depth)
   }
 
   #[must_use]
@@ -79,7 +79,7 @@ impl SourceLocation {
 
   #[must_use]
   pub fn decr(&self) -> SourceLocation {
-    Self::new(self.start - 1, self.end - 1, self.include_depth)
+    Self::new(self.start.saturating_sub(1), self.end.saturating_sub(1), self.include_depth)
   }
 
   #[must_use]
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index c7d3979..fd1f449 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -152,6 +152,10 @@ impl<'arena> RootLexer<'arena> {
     SourceString::new(src, loc)
   }
 
+  pub fn get_str_from_loc(&self, loc: SourceLocation) -> Option<&str> {
+    self.sources[loc.include_depth as usize].get_str_from_loc(loc)
+  }
+
   pub const fn source_is_primary(&self) -> bool {
     self.idx == 0
   }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 98d9ebb..652cf23 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -117,9 +117,13 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn str_from_loc(&self, loc: SourceLocation) -> &str {
-    let start = (loc.start - self.offset) as usize;
-    let end = (loc.end - self.offset) as usize;
-    std::str::from_utf8(&self.src[start..end]).unwrap()
+    self.get_str_from_loc(loc).unwrap_or_default()
+  }
+
+  pub fn get_str_from_loc(&self, loc: SourceLocation) -> Option<&str> {
+    let start = loc.start.checked_sub(self.offset)? as usize;
+    let end = loc.end.checked_sub(self.offset)? as usize;
+    std::str::from_utf8(self.src.get(start..end)?).ok()
   }
 
   pub fn codepoint(&mut self, n: u32, kind: TokenKind) -> Token<'arena> {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 1cabfac..2dac5d7 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -125,8 +125,7 @@ impl<'arena> Line<'arena> {
     ) {
       end_idx += 1;
     }
-    let start = self.tokens.get(end_idx).unwrap().loc.start;
-    let mut maybe_email = String::with_capacity((token.loc.end - start) as usize);
+    let mut maybe_email = String::with_capacity(32);
     for t in self.tokens.iter().skip(end_idx) {
       maybe_email.push_str(&t.lexeme);
     }
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 5e8d6cc..1d1146d 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -73,7 +73,8 @@ impl<'arena> Parser<'arena> {
     } else {
       return Ok(None);
     };
-    let start = current.loc.start - 2;
+    // NB: tokens from attr refs all have the location of the ref
+    let start = current.loc.clamp_start().subtracting_from_start(2);
     let mut reftext_line = Line::new(Deq::with_capacity(close_idx, self.bump));
     for _ in 0..close_idx {
       reftext_line.push(line.consume_current().unwrap());
@@ -84,7 +85,7 @@ impl<'arena> Parser<'arena> {
     line.discard_assert(CloseBracket);
     let last = line.discard_assert(CloseBracket);
     let mut anchor = AnchorSrc {
-      loc: SourceLocation::new(start, last.loc.end, id.loc.include_depth),
+      loc: SourceLocation::spanning(start, last.loc),
       reftext: None,
       id,
     };
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 7c4f190..38e6f22 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -221,20 +221,14 @@ impl<'arena> Parser<'arena> {
                 let mut attrs = self.parse_inline_macro_attr_list(&mut line)?;
                 macro_loc.end = attrs.loc.end;
                 let linktext = attrs.take_positional(0);
-                let subject_loc = attrs
-                  .take_positional(1)
-                  .and_then(|nodes| nodes.loc())
-                  .and_then(|ml| ml.coalesce());
-                let body_loc = attrs
-                  .take_positional(2)
-                  .and_then(|nodes| nodes.loc())
-                  .and_then(|ml| ml.coalesce());
+                let subject = attrs.take_positional(1).and_then(|nodes| self.source_text(&nodes));
+                let body = attrs.take_positional(2).and_then(|nodes| self.source_text(&nodes));
                 acc.push_node(
                   Macro(Mailto {
                     address: target,
                     linktext,
-                    subject: subject_loc.map(|loc| self.lexer.src_string_from_loc(loc)),
-                    body: body_loc.map(|loc| self.lexer.src_string_from_loc(loc)),
+                    subject,
+                    body,
                     attrs: if attrs.is_empty() { None } else { Some(Box::new(attrs)) },
                   }),
                   macro_loc,
@@ -896,6 +890,16 @@ impl<'arena> Parser<'arena> {
     self.finish_inlines(acc, inline_attrs)
   }
 
+  /// the raw source text of the nodes, with attribute references resolved
+  fn source_text(&self, nodes: &InlineNodes<'arena>) -> Option<SourceString<'arena>> {
+    let loc = nodes.loc().and_then(|loc| loc.coalesce())?;
+    let src = match self.lexer.get_str_from_loc(loc) {
+      Some(src) => self.string(&self.replace_attr_vals(src)),
+      None => self.string(&nodes.plain_text().concat()),
+    };
+    Some(SourceString::new(src, loc))
+  }
+
   fn push_unused_inline_attrs(
     &self,
     acc: &mut Accum<'arena>,
-- 
2.43.0


From 947b0af4a421ccf633131ba013ad0d88422a639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 055/156] fix: mailto subject and body are uri component
 encoded, quotes in image uris encoded

---
 backend/src/html/backend.rs             |  4 ++--
 backend/src/html/htmlbuf.rs             | 18 ++++++++++++++++++
 dr-html-backend/src/asciidoctor_html.rs |  2 +-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index ae54c2f..1c19d57 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -424,11 +424,11 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push([" href=\"mailto:", address]);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
-      a_tag.push_url_encoded(subject);
+      a_tag.push_uri_component(subject);
     }
     if let Some(body) = body {
       a_tag.push_str(iff!(subject.is_some(), "&amp;body=", "?body="));
-      a_tag.push_url_encoded(body);
+      a_tag.push_uri_component(body);
     }
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..29dafcc 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -1,3 +1,5 @@
+use std::fmt::Write;
+
 use lazy_static::lazy_static;
 use regex::Regex;
 
@@ -21,6 +23,10 @@ pub trait HtmlBuf {
     push_url_encoded(self.htmlbuf(), s);
   }
 
+  fn push_uri_component(&mut self, s: &str) {
+    push_uri_component(self.htmlbuf(), s);
+  }
+
   fn push_str(&mut self, s: &str) {
     self.htmlbuf().push_str(s);
   }
@@ -177,11 +183,23 @@ fn push_url_encoded(buf: &mut String, s: &str) {
     match c {
       ' ' => buf.push_str("%20"),
       ',' => buf.push_str("%2C"),
+      '"' => buf.push_str("%22"),
+      '<' => buf.push_str("%3C"),
+      '>' => buf.push_str("%3E"),
       _ => buf.push(c),
     }
   }
 }
 
+fn push_uri_component(buf: &mut String, s: &str) {
+  for byte in s.bytes() {
+    match byte {
+      b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_' | b'.' | b'~' => buf.push(byte as char),
+      _ => write!(buf, "%{byte:02X}").unwrap(),
+    }
+  }
+}
+
 lazy_static! {
   pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
 }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 64521b5..3ae8eb8 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -678,7 +678,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_description_list_description_text(&mut self, text: &Block, _item: &ListItem) {
     // NB: a titled description needs a block wrapper for its title
-    if !text.has_title() {
+    if text.context == BlockContext::Paragraph && !text.has_title() {
       self.state.ephemeral.insert(VisitingSimpleTermDescription);
     }
   }
-- 
2.43.0


From fdfa66f5437ba343c04373b9bf480d42868cd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 056/156] fix: delimited block as description list text renders
 its paragraphs normally

---
 backend-html5s/src/html5s.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index d8ebe76..2aad52a 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -595,7 +595,10 @@ impl Backend for Html5s {
     self.push_str("</dd>");
   }
 
-  fn enter_description_list_description_text(&mut self, _text: &Block, item: &ListItem) {
+  fn enter_description_list_description_text(&mut self, text: &Block, item: &ListItem) {
+    if text.context != BlockContext::Paragraph {
+      return;
+    }
     let first = item.blocks.first();
     if first.is_none() || !matches!(first.unwrap().content, BlockContent::Simple { .. }) {
       self.state.ephemeral.insert(VisitingSimpleTermDescription);
-- 
2.43.0


From 74e899677844fde4346ff16c4ed6f62027062085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 057/156] fix: source locations from different sources are not
 merged

---
 ast/src/source_location.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ast/src/source_location.rs b/ast/src/source_location.rs
index 851cbc8..bbe2e8a 100644
--- a/ast/src/source_location.rs
+++ b/ast/src/source_location.rs
@@ -26,6 +26,10 @@ impl SourceLocation {
   }
 
   pub fn extend(&mut self, other: SourceLocation) {
+    // NB: locations from different sources (e.g. includes) aren't comparable
+    if self.include_depth != other.include_depth {
+      return;
+    }
     self.start = self.start.min(other.start);
     self.end = self.end.max(other.end);
   }
-- 
2.43.0


From 495e1756946382743d5dc7686f07cadde43ad5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 058/156] fix: self-referencing xref text no longer recurses
 endlessly

---
 eval/src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..3493cfe 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -530,7 +530,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
+      let nested = ctx.resolving_xref.replace(true);
+      if nested {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
@@ -551,7 +552,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
+      ctx.resolving_xref.replace(nested);
       backend.exit_xref(target, linktext.is_some(), *kind);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
-- 
2.43.0


From 92ac979b25fb8bb85235fcdafc16cac8052923d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 059/156] fix: explicit xref text takes precedence over the
 reftext of the anchor

---
 eval/src/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 3493cfe..fa93fb0 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -535,10 +535,10 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
-          anchor
-            .reftext
+          linktext
             .as_ref()
-            .unwrap_or(linktext.as_ref().unwrap_or(&anchor.title))
+            .or(anchor.reftext.as_ref())
+            .unwrap_or(&anchor.title)
         })
         .filter(|text| !text.is_empty())
       {
-- 
2.43.0


From 43f4299a2db83fd42b180cf3cbbcd751d8f067a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 060/156] fix: blocks with an id are valid targets of cross
 references

---
 parser/src/parser.rs            |  5 ++++-
 parser/src/tasks/parse_block.rs | 31 +++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 651d1b0..42eaf89 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -371,7 +371,10 @@ impl<'arena> Parser<'arena> {
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
-          anchor_attrs.positional.push(anchor.reftext);
+          if let Some(reftext) = anchor.reftext {
+            let name = SourceString::new(self.string("reftext"), anchor.loc);
+            anchor_attrs.insert_named(name, reftext);
+          }
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 8abe3a5..1a2c4c4 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -6,6 +6,37 @@ use ast::short::block::*;
 
 impl<'arena> Parser<'arena> {
   pub(crate) fn parse_block(&mut self) -> Result<Option<Block<'arena>>> {
+    let block = self.parse_block_inner()?;
+    if let Some(block) = &block {
+      self.register_block_anchor(block);
+    }
+    Ok(block)
+  }
+
+  /// make blocks with an id valid targets of cross references
+  fn register_block_anchor(&mut self, block: &Block<'arena>) {
+    let Some(id) = block.meta.attrs.iter().find_map(|attrs| attrs.id.as_ref()) else {
+      return;
+    };
+    let reftext = block
+      .meta
+      .attrs
+      .iter()
+      .find_map(|attrs| attrs.named.get("reftext"))
+      .cloned();
+    let mut anchor = self.anchor_from(reftext, Some(id.loc), false);
+    if let Some(title) = &block.meta.dot_line_title {
+      anchor.title = title.clone();
+    }
+    self
+      .document
+      .anchors
+      .borrow_mut()
+      .entry(id.src.clone())
+      .or_insert(anchor);
+  }
+
+  fn parse_block_inner(&mut self) -> Result<Option<Block<'arena>>> {
     let Some(mut lines) = self.read_lines()? else {
       return Ok(None);
     };
-- 
2.43.0


From f85a74b8d8f1fc2b47757c71bb9f1985f31e6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 061/156] fix: bare urls include inner punctuation such as a
 query string

---
 parser/src/line.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 2dac5d7..5b98ec2 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -697,15 +697,19 @@ impl<'arena> Line<'arena> {
     } else {
       for token in self.iter() {
         match token.kind {
-          Whitespace | GreaterThan | OpenBracket | OpenParens | CloseParens | Bang | SemiColon
-          | Colon | Star | QuestionMark => break,
+          Whitespace | GreaterThan | OpenBracket | OpenParens | CloseParens | Star => break,
           _ => num_tokens += 1,
         }
       }
-    }
-
-    if stop.is_none() && num_tokens > 0 && self.tokens.get(num_tokens - 1).kind(Dots) {
-      num_tokens -= 1;
+      // punctuation is part of the url, unless it ends it, in which case it belongs to the prose
+      while num_tokens > 0
+        && matches!(
+          self.tokens.get(num_tokens - 1).map(|t| t.kind),
+          Some(Dots | Bang | SemiColon | Colon | QuestionMark | Comma)
+        )
+      {
+        num_tokens -= 1;
+      }
     }
 
     let mut s = BumpString::new_in(bump);
-- 
2.43.0


From 4213aa802eb9a2aa10698ab253e0d57d83a18100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 062/156] fix: a plus passthrough following another one is
 recognized

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 9c065f7..f169ff4 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -11,13 +11,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut replaced = Line::with_capacity(line.num_tokens(), self.bump);
     let mut prev_kind = None;
-    let mut skip_tokens = 0;
     while let Some(token) = line.consume_current() {
-      if skip_tokens > 0 {
-        replaced.push_nonpass(token);
-        skip_tokens -= 1;
-        continue;
-      }
       let kind = token.kind;
       match token.kind {
         MacroName if token.lexeme == "pass:" => {
@@ -33,8 +27,10 @@ impl<'arena> Parser<'arena> {
           if let Some(n) = self.terminates_plus(count, line, lines) {
             let subs = Substitutions::from_pass_plus_len(count);
             let placeholder = self.pass_placeholder(&token, count, line, lines, n, subs)?;
-            skip_tokens = count;
             replaced.push_nonpass(placeholder);
+            // NB: a single plus directly following a passthru doesn't open another
+            prev_kind = Some(PreprocPassthru);
+            continue;
           } else {
             replaced.push_nonpass(token);
           }
-- 
2.43.0


From 7a486ae33c57cfdb45ca38e001c1771adc90b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 063/156] fix: listing, literal and passthrough content is not
 scanned for xrefs, anchors, breaks, entities and escapes

---
 parser/src/tasks/parse_inlines/mod.rs | 30 +++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 38e6f22..4715b73 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -442,7 +442,7 @@ impl<'arena> Parser<'arena> {
             acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
           }
 
-          LessThan if line.continues_xref_shorthand() => {
+          LessThan if subs.macros() && line.continues_xref_shorthand() => {
             let mut loc = token.loc;
             line.discard_assert(LessThan);
             let mut inner = line.extract_line_before(&[Kind(GreaterThan), Kind(GreaterThan)]);
@@ -565,7 +565,8 @@ impl<'arena> Parser<'arena> {
           }
 
           OpenBracket
-            if line.starts_with_seq(&[Kind(OpenBracket); 2])
+            if subs.macros()
+              && line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
               && line.index_of_seq(&[Kind(CloseBracket); 3]).is_some()
               && line.index_of_seq(&[Kind(CloseBracket); 2])
@@ -591,7 +592,7 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          OpenBracket if line.continues_inline_anchor() => {
+          OpenBracket if subs.macros() && line.continues_inline_anchor() => {
             let second_bracket = line.consume_current().unwrap();
             if let Some(anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
@@ -771,6 +772,15 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
+          // entities are only preserved by the replacements sub
+          Entity if subs.special_chars() && !subs.char_replacement() => {
+            acc.push_node(
+              SpecialChar(SpecialCharKind::Ampersand),
+              token.loc.clamp_start().incr_end(),
+            );
+            acc.text.push_str(&token.lexeme[1..]);
+          }
+
           Ampersand | LessThan | GreaterThan if subs.special_chars() => {
             acc.push_node(
               SpecialChar(match token.kind {
@@ -800,7 +810,8 @@ impl<'arena> Parser<'arena> {
           }
 
           Whitespace
-            if line.current_is(Plus)
+            if subs.post_replacement()
+              && line.current_is(Plus)
               && line
                 .peek_token()
                 .is_none_or(|t| t.kind == TokenKind::Newline) =>
@@ -824,6 +835,17 @@ impl<'arena> Parser<'arena> {
 
           AttrRef => {}
 
+          // nothing to escape when no sub recognizes a pattern
+          Backslash
+            if !subs.inline_formatting()
+              && !subs.attr_refs()
+              && !subs.char_replacement()
+              && !subs.macros()
+              && !(subs.callouts() && line.current_is(CalloutNumber)) =>
+          {
+            acc.push_text_token(&token);
+          }
+
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
-- 
2.43.0


From 7bcaad060831a374864b428459d90237f2a61225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 064/156] fix: escaping backslashes not followed by a pattern
 are literal, escaped angle brackets stay escaped

---
 .../src/tasks/parse_inlines/inline_utils.rs   | 25 +++++++++++++
 parser/src/tasks/parse_inlines/mod.rs         | 37 +++++++++++++++----
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 6745e23..655ea97 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -141,6 +141,31 @@ impl<'arena> Accum<'arena> {
     }
   }
 
+  /// push the literal source of a token, without it's special meaning
+  pub fn push_escaped_token(&mut self, token: &Token<'arena>, subs: Substitutions) {
+    if !subs.special_chars() || !matches!(token.kind, LessThan | GreaterThan | CalloutNumber) {
+      self.push_text_token(token);
+      return;
+    }
+    let mut loc = token.loc.clamp_start();
+    for c in token.lexeme.chars() {
+      let start = loc.end;
+      loc.end += c.len_utf8() as u32;
+      let kind = match c {
+        '<' => SpecialCharKind::LessThan,
+        '>' => SpecialCharKind::GreaterThan,
+        _ => {
+          self.text.push_str(c.encode_utf8(&mut [0; 4]));
+          continue;
+        }
+      };
+      self.push_node(
+        Inline::SpecialChar(kind),
+        SourceLocation::new(start, loc.end, loc.include_depth),
+      );
+    }
+  }
+
   pub fn pop_node(&mut self) {
     self.inlines.pop();
   }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 4715b73..5db3c32 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -612,8 +612,11 @@ impl<'arena> Parser<'arena> {
               && !line.starts_with_seq(&[Kind(Plus), Kind(Backtick)])
               && contains_seq(&[Len(1, Plus), Kind(Backtick)], &line, lines) =>
           {
-            self.ctx.subs.remove(Subs::InlineFormatting);
-            self.ctx.subs.remove(Subs::AttrRefs);
+            self.ctx.subs = if subs.special_chars() {
+              Substitutions::only_special_chars()
+            } else {
+              Substitutions::none()
+            };
             self.parse_node(
               span(SpanKind::LitMono, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx(
@@ -768,7 +771,10 @@ impl<'arena> Parser<'arena> {
           }
 
           // already encoded entities, eg: &#8212;
-          Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
+          Ampersand
+            if subs.char_replacement()
+              && line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) =>
+          {
             acc.push_text_token(&token);
           }
 
@@ -847,10 +853,21 @@ impl<'arena> Parser<'arena> {
           }
 
           Backslash => {
-            match line.current_token().map(|t| (t.kind, t.len())) {
-              Some((Word, _)) | None => acc.push_text_token(&token),
+            let num_more = line.iter().take_while(|t| t.kind(Backslash)).count();
+            match line.nth_token(num_more).map(|t| (t.kind, t.len())) {
+              // nothing that could be escaped follows, so the backslashes are literal
+              None
+              | Some((Word | Whitespace | Digits | Comma | Percent | QuestionMark | Punctuation, _))
+              | Some((ForwardSlashes | TokenKind::Newline, _))
+              | Some((Dots, 1 | 2)) => {
+                acc.push_text_token(&token);
+                for _ in 0..num_more {
+                  let backslash = line.consume_current().unwrap();
+                  acc.push_text_token(&backslash);
+                }
+              }
               Some((OpenParens, len))
-                if len > 2 && index_term::terminates(&line, lines).is_some() =>
+                if num_more == 0 && len > 2 && index_term::terminates(&line, lines).is_some() =>
               {
                 self.parse_escaped_index_term_shorthand(&token, line, lines, &mut acc)?;
                 break;
@@ -865,7 +882,13 @@ impl<'arena> Parser<'arena> {
                   // pushing the next token as text prevents recognizing the pattern
                   && let Some(next_token) = line.consume_current()
                 {
-                  acc.push_text_token(&next_token);
+                  let arrow = next_token.kind(LessThan)
+                    && line.current_satisfies(Len(1, Dashes));
+                  if arrow {
+                    acc.push_text_token(&next_token);
+                  } else {
+                    acc.push_escaped_token(&next_token, subs);
+                  }
                 }
               }
             }
-- 
2.43.0


From 4a0b3856cb0861953dd014a15a9534c9a525be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 065/156] fix: markup directly preceding a bare email address
 isn't part of it

---
 parser/src/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 5b98ec2..93840ed 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -125,6 +125,10 @@ impl<'arena> Line<'arena> {
     ) {
       end_idx += 1;
     }
+    // markup directly preceding an email isn't part of it
+    while end_idx < init_idx && matches!(self.tokens.get(end_idx).unwrap().kind, Underscore | Plus) {
+      end_idx += 1;
+    }
     let mut maybe_email = String::with_capacity(32);
     for t in self.tokens.iter().skip(end_idx) {
       maybe_email.push_str(&t.lexeme);
-- 
2.43.0


From d069c9d57717b4616e6fda3ebb8b2955712fc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 066/156] fix: runs of whitespace are preserved in verses and
 verbatim blocks

---
 dr-html-backend/src/asciidoctor_html.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 3ae8eb8..c465efc 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1005,8 +1005,12 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn visit_multichar_whitespace(&mut self, _whitespace: &str) {
-    self.push_ch(' ');
+  fn visit_multichar_whitespace(&mut self, whitespace: &str) {
+    if self.newlines == Newlines::Preserve {
+      self.push_str(whitespace);
+    } else {
+      self.push_ch(' ');
+    }
   }
 
   #[instrument(skip_all)]
-- 
2.43.0


From 1bb2dcb7de2f89b4f9558542eefb3816ff421f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 067/156] fix: line break following a macro ending the line is
 not dropped

---
 parser/src/tasks/parse_inlines/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 5db3c32..229c880 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -192,6 +192,7 @@ impl<'arena> Parser<'arena> {
                   self.err_at("Empty footnote content", err_loc)?;
                 }
                 acc.push_node(Macro(Footnote { id, text: note }), macro_loc);
+                push_newline_if_needed(&mut acc, lines);
                 break;
               }
               "xref:" => {
@@ -214,6 +215,7 @@ impl<'arena> Parser<'arena> {
                   }),
                   macro_loc,
                 );
+                push_newline_if_needed(&mut acc, lines);
                 break;
               }
               "mailto:" => {
-- 
2.43.0


From 607c2bc2cd3aa1cba23b392dfa9fe705718eccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 068/156] fix: line break following an index term is not
 dropped

---
 parser/src/tasks/parse_inlines/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 229c880..604f823 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -119,6 +119,7 @@ impl<'arena> Parser<'arena> {
               let (node, loc) =
                 self.parse_index_term_shorthand(end_len, &token, line, lines, &mut acc)?;
               acc.push_node(node, loc);
+              push_newline_if_needed(&mut acc, lines);
               break;
             } else {
               self.push_unused_inline_attrs(&mut acc, &mut inline_attrs);
-- 
2.43.0


From 640fddeeb54bb5baedcd8d5f05b824e8e4a21561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:48 +0000
Subject: [PATCH 069/156] fix: text following an angle bracket is part of auto
 generated section ids

---
 parser/src/tasks/section_id.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ce523ed..5bd735b 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -61,7 +61,10 @@ impl<'arena> Parser<'arena> {
         '<' if chars.peek() == Some(&'<') => {
           chars.next();
         }
-        '<' => in_html_tag = true,
+        '<' => {
+          in_html_tag = chars.peek().is_some_and(|c| c.is_ascii_alphabetic() || *c == '/')
+            && chars.clone().any(|c| c == '>');
+        }
         '>' => in_html_tag = false,
         ' ' | '-' | '.' | ',' | '\t' => {
           if separator.map(|c| c != last_c).unwrap_or(false) {
-- 
2.43.0


From 9e8b7c5072ab7217a8808664b4f13113413031a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 070/156] fix: bare urls, mailto and footnote macros are not
 completed by brackets of a later macro

---
 parser/src/tasks/parse_inlines/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 604f823..37624c8 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -366,7 +366,11 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&next_token);
           }
 
-          UriScheme if subs.macros() && line.continues_inline_macro(&token) => {
+          UriScheme
+            if subs.macros()
+              && line.continues_inline_macro(&token)
+              && line.no_whitespace_until(OpenBracket) =>
+          {
             self.parse_uri_scheme_macro(&token, &mut line, &mut acc)?
           }
 
@@ -973,6 +977,7 @@ impl<'arena> Parser<'arena> {
       && match token.lexeme.as_str() {
         // these have no target
         "kbd:" | "btn:" | "indexterm:" | "indexterm2:" => line.current_is(OpenBracket),
+        "mailto:" | "footnote:" => line.no_whitespace_until(OpenBracket),
         "menu:" | "icon:" | "image:" => !line.current_is(OpenBracket),
         // valid inline passthrus are already processed
         "pass:" => false,
-- 
2.43.0


From 67d8aa514604fd80de19dc471c97406e1ec4faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 071/156] fix: plus of a hard line break doesn't open a
 passthrough

---
 parser/src/tasks/parse_inlines/inline_preproc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index f169ff4..e62b784 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -204,7 +204,8 @@ impl<'arena> Parser<'arena> {
   }
 
   fn terminates_constrained_plus(&self, line: &Line, lines: &ContiguousLines) -> Option<usize> {
-    if line.current_is(Newline) {
+    // NB: a plus ending the line is a hard break
+    if line.is_empty() || line.current_is(Newline) {
       return None;
     }
     let stop = &[TokenSpec::Len(1, Plus)];
-- 
2.43.0


From 0bace72bee1a529d574658a0ca300e156b036a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 072/156] fix: passthroughs are only recognized where macros
 are, not in listings

---
 .../directives/includes/process_includes.rs   | 33 +++++++++++++++----
 parser/src/tasks/parse_inlines/mod.rs         |  2 +-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 2584a98..43308e7 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -120,15 +120,13 @@ impl<'arena> Parser<'arena> {
       }
       Err(err @ ResolveError::NotFound | err @ ResolveError::Io(..)) => {
         self.target_err(format!("Include error: {err}"), &directive)?;
-        let mut msg = self.string("+++Unresolved directive in ");
+        let mut msg = self.string("Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
-        let mut loc = directive.first_token.loc;
-        loc.start += msg.len() as u32;
         msg.push_str(directive.line_src.as_str());
-        msg.push_str("+++\n");
-        self.lexer.set_tmp_buf(&msg, BufLoc::From(loc));
-        Ok(DirectiveAction::ReadNextLine)
+        Ok(DirectiveAction::SubstituteLine(
+          self.literal_line(&msg, directive.first_token.loc),
+        ))
       }
       Err(error) => {
         self.target_err(format!("Include error: {error}"), &directive)?;
@@ -137,6 +135,29 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// a line showing text as is, whichever substitutions apply to it
+  fn literal_line(&self, text: &str, loc: SourceLocation) -> Line<'arena> {
+    let mut line = Line::with_capacity(1, self.bump);
+    let is_special = |c: char| matches!(c, '&' | '<' | '>');
+    for part in text.split_inclusive(is_special) {
+      let (word, special) = match part.strip_suffix(is_special) {
+        Some(word) => (word, part.chars().last()),
+        None => (part, None),
+      };
+      if !word.is_empty() {
+        line.push_nonpass(Token::new(TokenKind::Word, loc, self.string(word)));
+      }
+      let kind = match special {
+        Some('&') => TokenKind::Ampersand,
+        Some('<') => TokenKind::LessThan,
+        Some(_) => TokenKind::GreaterThan,
+        None => continue,
+      };
+      line.push_nonpass(Token::new(kind, loc, self.string(&part[word.len()..])));
+    }
+    line
+  }
+
   fn valid_include_directive(
     &mut self,
     line: &mut Line<'arena>,
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 37624c8..d940fe1 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -69,7 +69,7 @@ impl<'arena> Parser<'arena> {
           return self.finish_inlines(acc, inline_attrs);
         }
 
-        if line.may_contain_inline_pass() {
+        if subs.macros() && line.may_contain_inline_pass() {
           self.replace_inline_pass(&mut line, lines)?;
           break;
         }
-- 
2.43.0


From 8b3477691d1f0e5d5c58b6baf4d72d750c4a82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:45 +0000
Subject: [PATCH 073/156] fix: verse with a source but no author closes its pre

---
 dr-html-backend/src/asciidoctor_html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index c465efc..dbc41e5 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -441,9 +441,11 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_quote_cite(&mut self, _block: &Block, has_attribution: bool) {
+  fn enter_quote_cite(&mut self, block: &Block, has_attribution: bool) {
     if has_attribution {
       self.push_str(r#"<br><cite>"#);
+    } else if block.context == BlockContext::Verse {
+      self.push_str(r#"</pre><div class="attribution">&#8212; "#);
     } else {
       self.push_str(r#"</blockquote><div class="attribution">&#8212; "#);
     }
-- 
2.43.0


From a7e4a320d71e8f848794c8fc44606607130239f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 074/156] fix: paragraph attached to a list item ends at the
 next item

---
 parser/src/contiguous_lines.rs  | 10 ++++++++++
 parser/src/list_context.rs      | 17 ++++++++++++++---
 parser/src/tasks/parse_block.rs | 27 ++++++++++++++++++++++++++-
 parser/src/tasks/parse_list.rs  |  7 +++++--
 4 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d32ea49..d19848f 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -109,6 +109,16 @@ impl<'arena> ContiguousLines<'arena> {
     }
   }
 
+  /// restore lines to the front of the lines they were taken from
+  pub fn restore_before(&mut self, mut source: ContiguousLines<'arena>) {
+    if !source.is_empty() {
+      while let Some(line) = self.lines.pop() {
+        source.lines.restore_front(line);
+      }
+      *self = source;
+    }
+  }
+
   pub fn any(&self, f: impl FnMut(&Line<'arena>) -> bool) -> bool {
     self.lines.iter().any(f)
   }
diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 95df2dd..8418a6f 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -6,6 +6,8 @@ use crate::internal::*;
 pub(crate) struct ListContext {
   pub(crate) stack: ListStack,
   pub(crate) parsing_continuations: bool,
+  /// delimited block containing the list whose continuations are being parsed
+  pub(crate) continuation_delimiter: Option<Delimiter>,
 }
 
 #[derive(Debug)]
@@ -28,11 +30,20 @@ impl ListStack {
   }
 
   pub fn continues_current_list(&self, next: ListMarker) -> bool {
-    self.last().is_some_and(|last| match (last, next) {
+    self.last().is_some_and(|last| Self::same_list(*last, next))
+  }
+
+  /// if an item with the marker belongs to any of the lists being parsed
+  pub fn contains_list_of(&self, next: ListMarker) -> bool {
+    self.iter().any(|marker| Self::same_list(*marker, next))
+  }
+
+  fn same_list(marker: ListMarker, next: ListMarker) -> bool {
+    match (marker, next) {
       (ListMarker::Digits(_), ListMarker::Digits(_)) => true,
       (ListMarker::Callout(_), ListMarker::Callout(_)) => true,
-      (last, next) => *last == next,
-    })
+      (marker, next) => marker == next,
+    }
   }
 
   pub fn depth(&self) -> u8 {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 1a2c4c4..135136b 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -482,14 +482,17 @@ impl<'arena> Parser<'arena> {
     // TODO: probably a better stack-like context API is possible here...
     let restore_subs = self.ctx.set_subs_for(context, &meta);
     let start_loc = lines.first_loc();
+    let next_items = self.split_off_list_items(&mut lines);
     let (num_lines, only_comments) = (lines.len(), lines.iter().all(Line::is_comment));
     let inlines = self.parse_inlines(&mut lines)?;
+    let consumed_lines = lines.len() < num_lines;
+    lines.restore_before(next_items);
     self.ctx.subs = restore_subs;
 
     let loc = match (inlines.loc(), start_loc) {
       (Some(loc), _) => loc,
       // paragraphs can also lack visible content, e.g. `{empty}`, but that doesn't end the block(s)
-      (None, Some(loc)) if lines.len() < num_lines && !self.ctx.parsing_simple_desc_def() => {
+      (None, Some(loc)) if consumed_lines && !self.ctx.parsing_simple_desc_def() => {
         self.restore_lines(lines);
         if only_comments {
           return self.parse_block();
@@ -516,6 +519,28 @@ impl<'arena> Parser<'arena> {
     Ok(Some(paragraph))
   }
 
+  /// a paragraph attached to a list item ends at the next item of an enclosing list
+  fn split_off_list_items(&self, lines: &mut ContiguousLines<'arena>) -> ContiguousLines<'arena> {
+    let mut items = ContiguousLines::empty(self.bump);
+    let list = &self.ctx.list;
+    if !list.parsing_continuations || list.continuation_delimiter != self.ctx.delimiter {
+      return items;
+    }
+    let Some(first_item) = (1..lines.len()).find(|n| {
+      lines
+        .nth(*n)
+        .and_then(Line::list_marker)
+        .is_some_and(|marker| list.stack.contains_list_of(marker))
+    }) else {
+      return items;
+    };
+    for _ in 0..first_item {
+      items.push(lines.consume_current().unwrap());
+    }
+    std::mem::swap(lines, &mut items);
+    items
+  }
+
   fn parse_quoted_paragraph(
     &mut self,
     mut lines: ContiguousLines<'arena>,
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 656b417..21acb07 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -194,11 +194,14 @@ impl<'arena> Parser<'arena> {
 
     lines.consume_current(); // the `+` line starting the continuation
     self.restore_lines(lines);
-    self.ctx.list.parsing_continuations = true;
+    let outer_continuations = std::mem::replace(&mut self.ctx.list.parsing_continuations, true);
+    let outer_delimiter =
+      std::mem::replace(&mut self.ctx.list.continuation_delimiter, self.ctx.delimiter);
     if let Some(block) = self.parse_block()? {
       accum.push(block);
     }
-    self.ctx.list.parsing_continuations = false;
+    self.ctx.list.parsing_continuations = outer_continuations;
+    self.ctx.list.continuation_delimiter = outer_delimiter;
     self.parse_list_continuation_blocks(accum)
   }
 
-- 
2.43.0


From a32f250957c7aa3d3d7d88381aec4e33388c8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 075/156] fix: paragraph with a verbatim style is not parsed as
 a list or block macro

---
 parser/src/tasks/parse_block.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 135136b..78751f4 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -86,6 +86,10 @@ impl<'arena> Parser<'arena> {
 
     let first_token = lines.current_token().unwrap();
 
+    if Self::starts_verbatim_paragraph(&lines, &meta) {
+      return self.parse_paragraph(lines, meta);
+    }
+
     if lines.is_block_macro() {
       return match first_token.lexeme.as_str() {
         "image:" => self.parse_image_block(lines, meta),
@@ -233,6 +237,16 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// paragraphs with a verbatim style are not examined for other blocks
+  fn starts_verbatim_paragraph(lines: &ContiguousLines<'arena>, meta: &ChunkMeta<'arena>) -> bool {
+    let is_verbatim = meta.attrs.has_str_positional("source")
+      || matches!(
+        meta.attrs.block_style(Context::Paragraph),
+        Some(Context::Listing | Context::Literal | Context::Verse)
+      );
+    is_verbatim && (lines.is_block_macro() || lines.starts_list())
+  }
+
   fn parse_discrete_heading(
     &mut self,
     mut lines: ContiguousLines<'arena>,
-- 
2.43.0


From 337220dfd33a890d4dd194158b8df59098550ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 076/156] fix: preamble without visible content is not rendered

---
 eval/src/eval.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index fa93fb0..d6fad5f 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -71,10 +71,14 @@ fn eval_doc_content(ctx: &Ctx, backend: &mut impl Backend) {
     }
     DocContent::Sections(content) => {
       if let Some(blocks) = &content.preamble {
-        backend.enter_preamble(ctx.doc.title().is_some(), blocks);
+        // comments and attribute definitions alone don't make a preamble
+        let wrap = ctx.doc.title().is_some() && blocks.iter().any(is_rendered);
+        backend.enter_preamble(wrap, blocks);
         blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-        eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
-        backend.exit_preamble(ctx.doc.title().is_some(), blocks);
+        if wrap {
+          eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
+        }
+        backend.exit_preamble(wrap, blocks);
       }
       content
         .sections
@@ -88,6 +92,11 @@ fn eval_doc_content(ctx: &Ctx, backend: &mut impl Backend) {
   backend.exit_content();
 }
 
+fn is_rendered(block: &Block) -> bool {
+  use BlockContext::*;
+  !matches!(block.context, Comment | DocumentAttributeDecl)
+}
+
 fn eval_book(book: &MultiPartBook, ctx: &Ctx, backend: &mut impl Backend) {
   if let Some(blocks) = &book.preamble {
     backend.enter_preamble(ctx.doc.title().is_some(), blocks);
-- 
2.43.0


From 19c89c0e79cd2e9998aef755431bd6611a3b73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 077/156] fix: literal paragraphs lose their common indentation

---
 parser/src/chunk.rs            |  1 +
 parser/src/contiguous_lines.rs | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/parser/src/chunk.rs b/parser/src/chunk.rs
index f451575..0d2c12e 100644
--- a/parser/src/chunk.rs
+++ b/parser/src/chunk.rs
@@ -36,6 +36,7 @@ impl<'arena> ChunkMetaExt<'arena> for ChunkMeta<'arena> {
 
     // https://docs.asciidoctor.org/asciidoc/latest/verbatim/listing-blocks/#indent-method
     if uniform_indented || lines.current_satisfies(Line::is_indented) {
+      lines.trim_common_leading_whitespace();
       BlockContext::Literal
     } else {
       BlockContext::Paragraph
diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d19848f..9fa0d8a 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -297,6 +297,20 @@ impl<'arena> ContiguousLines<'arena> {
     true
   }
 
+  /// trim the indentation shared by the lines of a literal paragraph
+  pub fn trim_common_leading_whitespace(&mut self) {
+    let num_lines = self
+      .iter()
+      .take_while(|l| !l.is_any_delimiter() && !l.is_list_continuation())
+      .count();
+    let common = self.iter().take(num_lines).map(Line::get_indentation).min();
+    if let Some(common) = common.filter(|n| *n > 0) {
+      for line in self.lines.iter_mut().take(num_lines) {
+        line.set_indentation(line.get_indentation() - common);
+      }
+    }
+  }
+
   pub fn get_indentation(&self) -> usize {
     let mut indent = usize::MAX;
     for line in self.iter() {
-- 
2.43.0


From fbc6c38550f101978e211c8e55c37ea94e7fdf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 078/156] fix: lists following the text of a description list
 item are nested in it

---
 parser/src/list_context.rs      |  4 ++--
 parser/src/tasks/parse_block.rs | 10 ++++++----
 parser/src/tasks/parse_list.rs  |  5 ++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 8418a6f..ee62f87 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -6,8 +6,8 @@ use crate::internal::*;
 pub(crate) struct ListContext {
   pub(crate) stack: ListStack,
   pub(crate) parsing_continuations: bool,
-  /// delimited block containing the list whose continuations are being parsed
-  pub(crate) continuation_delimiter: Option<Delimiter>,
+  /// delimited block containing the innermost list
+  pub(crate) delimiter: Option<Delimiter>,
 }
 
 #[derive(Debug)]
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 78751f4..10aaf0f 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -490,13 +490,13 @@ impl<'arena> Parser<'arena> {
       lines.current_mut().map(|l| l.discard_leading_whitespace());
     }
 
+    let next_items = self.split_off_list_items(&mut lines);
     let context = meta.block_paragraph_context(&mut lines);
     self.maybe_set_admonition_icon_uri(context, &meta)?;
 
     // TODO: probably a better stack-like context API is possible here...
     let restore_subs = self.ctx.set_subs_for(context, &meta);
     let start_loc = lines.first_loc();
-    let next_items = self.split_off_list_items(&mut lines);
     let (num_lines, only_comments) = (lines.len(), lines.iter().all(Line::is_comment));
     let inlines = self.parse_inlines(&mut lines)?;
     let consumed_lines = lines.len() < num_lines;
@@ -533,18 +533,20 @@ impl<'arena> Parser<'arena> {
     Ok(Some(paragraph))
   }
 
-  /// a paragraph attached to a list item ends at the next item of an enclosing list
+  /// a paragraph attached to a list item ends at the next item of an enclosing list,
+  /// the text of a description list item at any list item
   fn split_off_list_items(&self, lines: &mut ContiguousLines<'arena>) -> ContiguousLines<'arena> {
     let mut items = ContiguousLines::empty(self.bump);
     let list = &self.ctx.list;
-    if !list.parsing_continuations || list.continuation_delimiter != self.ctx.delimiter {
+    let is_desc_def = self.ctx.parsing_simple_desc_def();
+    if !(list.parsing_continuations || is_desc_def) || list.delimiter != self.ctx.delimiter {
       return items;
     }
     let Some(first_item) = (1..lines.len()).find(|n| {
       lines
         .nth(*n)
         .and_then(Line::list_marker)
-        .is_some_and(|marker| list.stack.contains_list_of(marker))
+        .is_some_and(|marker| is_desc_def || list.stack.contains_list_of(marker))
     }) else {
       return items;
     };
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 21acb07..b2737b1 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -16,6 +16,7 @@ impl<'arena> Parser<'arena> {
     self.restore_lines(lines);
 
     self.ctx.list.stack.push(marker);
+    let outer_delimiter = std::mem::replace(&mut self.ctx.list.delimiter, self.ctx.delimiter);
     let depth = self.ctx.list.stack.depth();
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
@@ -38,6 +39,7 @@ impl<'arena> Parser<'arena> {
       self.ctx.bibliography_ctx = BiblioContext::Section;
     }
     self.ctx.list.stack.pop();
+    self.ctx.list.delimiter = outer_delimiter;
     if variant == ListVariant::Callout {
       self.ctx.advance_callout_list(self.bump);
     }
@@ -195,13 +197,10 @@ impl<'arena> Parser<'arena> {
     lines.consume_current(); // the `+` line starting the continuation
     self.restore_lines(lines);
     let outer_continuations = std::mem::replace(&mut self.ctx.list.parsing_continuations, true);
-    let outer_delimiter =
-      std::mem::replace(&mut self.ctx.list.continuation_delimiter, self.ctx.delimiter);
     if let Some(block) = self.parse_block()? {
       accum.push(block);
     }
     self.ctx.list.parsing_continuations = outer_continuations;
-    self.ctx.list.continuation_delimiter = outer_delimiter;
     self.parse_list_continuation_blocks(accum)
   }
 
-- 
2.43.0


From c4fb905dc6bc53a0f0f645bb0828949e3418dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:13 +0000
Subject: [PATCH 079/156] fix: source style with roles, an id or options is not
 taken for a language

---
 ast/src/attr_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/attr_list.rs b/ast/src/attr_list.rs
index 5598230..ea417b2 100644
--- a/ast/src/attr_list.rs
+++ b/ast/src/attr_list.rs
@@ -85,7 +85,7 @@ impl AttrData for AttrList<'_> {
   fn source_language(&self) -> Option<&str> {
     match (self.str_positional_at(0), self.str_positional_at(1)) {
       (None | Some("source"), Some(lang)) => Some(lang),
-      (Some("listing") | None, _) => None,
+      (Some("source" | "listing") | None, _) => None,
       (Some(pos), _) => {
         // handle scenarios like `[#id%opt,ruby]`
         if self.id.is_none() && self.roles.is_empty() && self.options.is_empty() {
-- 
2.43.0


From b61522e5c874ebd1cd06a663d26ad387f1f56730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 080/156] fix: description lists in delimited blocks, items
 with only attached blocks

---
 parser/src/parse_context.rs    |  2 +-
 parser/src/tasks/parse_list.rs | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 0cc09d2..70affa7 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -213,7 +213,7 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn parsing_description_list(&self) -> bool {
-    self.delimiter.is_none()
+    self.delimiter == self.list.delimiter
       && self
         .list
         .stack
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index b2737b1..16bc32e 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -221,9 +221,14 @@ impl<'arena> Parser<'arena> {
       self.restore_lines(lines);
     }
 
-    let description = self
-      .parse_block()?
-      .filter(|block| block.context != BlockContext::Comment);
+    // NB: an item without text can still have attached blocks
+    let description = if self.at_list_continuation()? {
+      None
+    } else {
+      self
+        .parse_block()?
+        .filter(|block| block.context != BlockContext::Comment)
+    };
 
     Ok(Some(ListItem {
       blocks: self.parse_description_list_item_blocks()?,
@@ -234,6 +239,15 @@ impl<'arena> Parser<'arena> {
     }))
   }
 
+  fn at_list_continuation(&mut self) -> Result<bool> {
+    let Some(lines) = self.read_lines()? else {
+      return Ok(false);
+    };
+    let at_continuation = lines.starts_list_continuation();
+    self.restore_lines(lines);
+    Ok(at_continuation)
+  }
+
   fn parse_description_list_term(
     &mut self,
     line: &mut Line<'arena>,
-- 
2.43.0


From a618a4b818c57e449a504f3447c94bb6f6e538be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 081/156] fix: urls end with their line in table cells

---
 parser/src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 93840ed..56d03e3 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -701,7 +701,7 @@ impl<'arena> Line<'arena> {
     } else {
       for token in self.iter() {
         match token.kind {
-          Whitespace | GreaterThan | OpenBracket | OpenParens | CloseParens | Star => break,
+          Whitespace | Newline | GreaterThan | OpenBracket | OpenParens | CloseParens | Star => break,
           _ => num_tokens += 1,
         }
       }
-- 
2.43.0


From 82ead123de1ca39817eef4751f53b75c617db495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 082/156] fix: discrete headings can be cross referenced by
 their text

---
 parser/src/tasks/parse_block.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 10aaf0f..829e732 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -264,6 +264,12 @@ impl<'arena> Parser<'arena> {
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
     self.restore_lines(lines);
+    if let Some(id) = &id {
+      let reftext = meta.attrs.iter().find_map(|a| a.named.get("reftext")).cloned();
+      let mut anchor = self.anchor_from(reftext, None, false);
+      anchor.title = content.clone();
+      self.document.anchors.borrow_mut().insert(id.clone(), anchor);
+    }
     Ok(Block {
       context: Context::DiscreteHeading,
       content: Content::Empty(EmptyMetadata::DiscreteHeading { level, content, id }),
-- 
2.43.0


From 796ec8d80e658e7813e85fad20d16218f2d29dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 083/156] fix: footnotes of nested asciidoc table cells are not
 listed twice

---
 backend-html5s/src/html5s.rs            | 1 -
 dr-html-backend/src/asciidoctor_html.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 2aad52a..24a0ab3 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -719,7 +719,6 @@ impl Backend for Html5s {
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index dbc41e5..6d9383b 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -794,7 +794,6 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From 30d5d88fdd13300ff9c13eec3f6040273b48ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 084/156] fix: caption numbers continue in asciidoc table cells

---
 backend-html5s/src/html5s.rs            | 8 ++++++++
 dr-html-backend/src/asciidoctor_html.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 24a0ab3..35ea9b3 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -715,10 +715,18 @@ impl Backend for Html5s {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.fig_caption_num = self.fig_caption_num;
+    backend.table_caption_num = self.table_caption_num;
+    backend.example_caption_num = self.example_caption_num;
+    backend.listing_caption_num = self.listing_caption_num;
     backend
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
+    self.fig_caption_num = cell_backend.fig_caption_num;
+    self.table_caption_num = cell_backend.table_caption_num;
+    self.example_caption_num = cell_backend.example_caption_num;
+    self.listing_caption_num = cell_backend.listing_caption_num;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 6d9383b..81e426d 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -789,11 +789,19 @@ impl Backend for AsciidoctorHtml {
     let mut backend = Self::default();
     backend.state.footnotes = Rc::clone(&self.state.footnotes);
     backend.state.in_asciidoc_table_cell = true;
+    backend.fig_caption_num = self.fig_caption_num;
+    backend.table_caption_num = self.table_caption_num;
+    backend.example_caption_num = self.example_caption_num;
+    backend.listing_caption_num = self.listing_caption_num;
     backend
   }
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
+    self.fig_caption_num = cell_backend.fig_caption_num;
+    self.table_caption_num = cell_backend.table_caption_num;
+    self.example_caption_num = cell_backend.example_caption_num;
+    self.listing_caption_num = cell_backend.listing_caption_num;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From 24359f9a9d1bf723f82f2438e683d4fea5e6c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 085/156] fix: a bare url does not take its text from a later
 line

---
 parser/src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 56d03e3..44d36e0 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -521,7 +521,7 @@ impl<'arena> Line<'arena> {
       } else if token.kind(AttrRef) && token.lexeme == "{sp}" {
         skip_next = true;
         continue;
-      } else if token.kind(Whitespace) {
+      } else if token.kind(Whitespace) || token.kind(Newline) {
         return false;
       } else {
         continue;
-- 
2.43.0


From 3bbdb5430d16201a1cd6d1440b2855181fdeb8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:47 +0000
Subject: [PATCH 086/156] fix: ordered list numbering style follows the marker,
 not the enclosing lists

---
 backend-html5s/src/html5s.rs            |  2 --
 backend/src/html/backend.rs             | 15 +++++++++++----
 dr-html-backend/src/asciidoctor_html.rs |  2 --
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 35ea9b3..108eb95 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -530,7 +530,6 @@ impl Backend for Html5s {
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
-    self.state.desc_list_depth += 1;
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
     if depth == 1 {
@@ -574,7 +573,6 @@ impl Backend for Html5s {
     if depth == 1 {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
-    self.state.desc_list_depth -= 1;
   }
 
   fn enter_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 1c19d57..7b92c88 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -19,7 +19,6 @@ pub struct BackendState {
   pub ephemeral: HashSet<EphemeralState>,
   pub appendix_caption_num: u16,
   pub book_part_num: usize,
-  pub desc_list_depth: u8,
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
   pub xref_depth: u8,
@@ -579,13 +578,21 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
-    let non_dd_depth = depth - self.state().desc_list_depth;
+    // the marker decides the number style, whatever other lists or blocks enclose the list
+    let depth = match &block.content {
+      BlockContent::List { items, .. } => match items.first().map(|item| item.marker) {
+        Some(ListMarker::Dot(len)) => len,
+        Some(ListMarker::Digits(_)) => 1,
+        _ => depth,
+      },
+      _ => depth,
+    };
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
     let list_type = custom
       .and_then(super::list::type_from_class)
-      .unwrap_or_else(|| super::list::type_from_depth(non_dd_depth));
-    let class = custom.unwrap_or_else(|| super::list::class_from_depth(non_dd_depth));
+      .unwrap_or_else(|| super::list::type_from_depth(depth));
+    let class = custom.unwrap_or_else(|| super::list::class_from_depth(depth));
     (class, list_type)
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 81e426d..5d1ec12 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -572,7 +572,6 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.desc_list_depth += 1;
     if block.meta.attrs.has_str_positional("horizontal") {
       self.state.ephemeral.insert(InHorizontalDescList);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
@@ -627,7 +626,6 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("</dl></div>");
     }
-    self.state.desc_list_depth -= 1;
   }
 
   #[instrument(skip_all)]
-- 
2.43.0


From 8d76e2225d82e5a1dc3ee39f7e923d4184d790ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 087/156] fix: nested and multi-term horizontal and qanda
 lists, blocks of callout items with icons

---
 backend/src/html/backend.rs             |  2 -
 dr-html-backend/src/asciidoctor_html.rs | 93 ++++++++++++++-----------
 2 files changed, 52 insertions(+), 43 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 7b92c88..9b1e4f0 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -890,8 +890,6 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
 pub enum EphemeralState {
   VisitingSimpleTermDescription,
   InTableOfContents,
-  InHorizontalDescList,
-  InQandaDescList,
   InDescListDesc,
   IsSourceBlock,
   InBibliography,
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 5d1ec12..6728d5a 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -22,9 +22,19 @@ pub struct AsciidoctorHtml {
   table_caption_num: usize,
   example_caption_num: usize,
   listing_caption_num: usize,
+  desc_lists: Vec<DescListKind>,
   state: BackendState,
 }
 
+/// style of the description lists being rendered
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum DescListKind {
+  Plain,
+  Horizontal,
+  Qanda,
+  Glossary,
+}
+
 impl Backend for AsciidoctorHtml {
   type Output = String;
   type Error = Infallible;
@@ -573,7 +583,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     if block.meta.attrs.has_str_positional("horizontal") {
-      self.state.ephemeral.insert(InHorizontalDescList);
+      self.desc_lists.push(DescListKind::Horizontal);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<table>");
@@ -600,16 +610,17 @@ impl Backend for AsciidoctorHtml {
         self.push_str("</colgroup>");
       }
     } else if block.meta.attrs.has_str_positional("qanda") {
-      self.state.ephemeral.insert(InQandaDescList);
+      self.desc_lists.push(DescListKind::Qanda);
       self.open_element("div", &["qlist", "qanda"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<ol>");
     } else if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
-      self.state.ephemeral.insert(InGlossaryList);
+      self.desc_lists.push(DescListKind::Glossary);
       self.open_element("div", &["dlist", "glossary"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
     } else {
+      self.desc_lists.push(DescListKind::Plain);
       self.open_element("div", &["dlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
@@ -618,60 +629,62 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_description_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.ephemeral.remove(&InGlossaryList);
-    if self.state.ephemeral.remove(&InHorizontalDescList) {
-      self.push_str("</table></div>");
-    } else if self.state.ephemeral.remove(&InQandaDescList) {
-      self.push_str("</ol></div>");
-    } else {
-      self.push_str("</dl></div>");
+    match self.desc_lists.pop() {
+      Some(DescListKind::Horizontal) => self.push_str("</table></div>"),
+      Some(DescListKind::Qanda) => self.push_str("</ol></div>"),
+      _ => self.push_str("</dl></div>"),
     }
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_term(&mut self, _item: &ListItem, num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InGlossaryList) {
-      self.push_str(r#"<dt>"#);
-    } else if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<tr><td class="hdlist1">"#);
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      if num == 1 {
-        self.push_str(r#"<li>"#);
-      }
-      self.push_str(r#"<p><em>"#);
-    } else {
-      self.push_str(r#"<dt class="hdlist1">"#);
+    match self.desc_lists.last() {
+      Some(DescListKind::Glossary) => self.push_str("<dt>"),
+      Some(DescListKind::Horizontal) if num == 1 => self.push_str(r#"<tr><td class="hdlist1">"#),
+      Some(DescListKind::Horizontal) => self.push_str("<br>"),
+      Some(DescListKind::Qanda) if num == 1 => self.push_str("<li><p><em>"),
+      Some(DescListKind::Qanda) => self.push_str("<p><em>"),
+      _ => self.push_str(r#"<dt class="hdlist1">"#),
     }
   }
 
   #[instrument(skip_all)]
-  fn exit_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str(r#"</em></p>"#);
-    } else {
-      self.push_str("</dt>");
+  fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
+    let kind = self.desc_lists.last().copied();
+    match kind {
+      Some(DescListKind::Horizontal) if num < total => {}
+      Some(DescListKind::Horizontal) => self.push_str("</td>"),
+      Some(DescListKind::Qanda) => self.push_str("</em></p>"),
+      _ => self.push_str("</dt>"),
+    }
+    let has_description = match &item.type_meta {
+      ListItemTypeMeta::DescList { description, .. } => description.is_some(),
+      _ => false,
+    };
+    if num == total && !has_description && item.blocks.is_empty() {
+      match kind {
+        Some(DescListKind::Horizontal) => self.push_str(r#"<td class="hdlist2"></td></tr>"#),
+        Some(DescListKind::Qanda) => self.push_str("</li>"),
+        _ => {}
+      }
     }
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<td class="hdlist2">"#);
-    } else if !self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("<dd>");
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal) => self.push_str(r#"<td class="hdlist2">"#),
+      Some(DescListKind::Qanda) => {}
+      _ => self.push_str("<dd>"),
     }
   }
 
   #[instrument(skip_all)]
   fn exit_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td></tr>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("</li>");
-    } else {
-      self.push_str("</dd>");
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal) => self.push_str("</td></tr>"),
+      Some(DescListKind::Qanda) => self.push_str("</li>"),
+      _ => self.push_str("</dd>"),
     }
   }
 
@@ -725,8 +738,6 @@ impl Backend for AsciidoctorHtml {
   fn exit_list_item_principal(&mut self, _item: &ListItem, list_variant: ListVariant) {
     if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
       self.push_str("</p>");
-    } else {
-      self.push_str("</td>");
     }
   }
 
@@ -738,7 +749,7 @@ impl Backend for AsciidoctorHtml {
     if variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
       self.push_str("</li>");
     } else {
-      self.push_str("</tr>");
+      self.push_str("</td></tr>");
     }
   }
 
-- 
2.43.0


From 3d3ad4b1100de345ca03dfd3128073fef5820ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 088/156] fix: block attributes end a paragraph inside
 delimited blocks too

---
 parser/src/tasks/parse_inlines/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index d940fe1..01f2f43 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1086,7 +1086,8 @@ impl<'arena> Parser<'arena> {
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.delimiter.is_none())
+    || ((line.is_block_attr_list() || line.is_block_anchor())
+      && (self.ctx.delimiter.is_none() || self.ctx.can_nest_blocks))
 
     // description list
     || (
-- 
2.43.0


From 3e20385d170bdb94a953338ad7dcc622503d1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 089/156] fix: an explicit decimal list style does not take the
 type of its depth

---
 backend/src/html/backend.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 9b1e4f0..f4efb63 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -589,9 +589,11 @@ pub trait HtmlBackend: HtmlBuf {
     };
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
-    let list_type = custom
-      .and_then(super::list::type_from_class)
-      .unwrap_or_else(|| super::list::type_from_depth(depth));
+    let list_type = match custom {
+      // styles like `decimal` have no type, they are left to the stylesheet
+      Some(class) => super::list::type_from_class(class).unwrap_or("1"),
+      None => super::list::type_from_depth(depth),
+    };
     let class = custom.unwrap_or_else(|| super::list::class_from_depth(depth));
     (class, list_type)
   }
-- 
2.43.0


From 9472adeefb94f0ee742ec800ef3574f9555a6e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 090/156] fix: text included by line ranges or tags ends where
 the lines do, ids may be in any included file

---
 parser/src/lexer/root_lexer.rs                | 24 ++++++------
 parser/src/parser.rs                          | 38 +++++++++----------
 parser/src/tasks/anchors.rs                   |  2 +-
 parser/src/tasks/diagnose_document.rs         | 17 +++++----
 .../directives/includes/normalize_includes.rs |  3 +-
 .../directives/includes/process_includes.rs   | 15 +++++---
 parser/src/tasks/directives/includes/tags.rs  |  2 +-
 parser/src/tasks/parse_section.rs             |  2 +-
 8 files changed, 53 insertions(+), 50 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index fd1f449..a944f74 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -216,12 +216,13 @@ impl<'arena> RootLexer<'arena> {
     if let Some(c) = self.sources[self.idx as usize].peek() {
       return Some(c);
     }
-    // case: we're out of bytes, check if we're returning to a previous source
-    if let Some(next_idx) = self.source_stack.last() {
-      return self.sources[*next_idx as usize].peek();
-    }
-    // case: nothing left in any source, document EOF
-    None
+    // case: we're out of bytes, check if we're returning to a previous source,
+    // if none of them has any left either, document EOF
+    self
+      .source_stack
+      .iter()
+      .rev()
+      .find_map(|idx| self.sources[*idx as usize].peek())
   }
 
   pub fn skip_byte(&mut self) {
@@ -269,12 +270,11 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
-    let cur_source = &self.sources[self.idx as usize];
-    if cur_source.is_eof() && !self.source_stack.is_empty() {
-      self.sources[*self.source_stack.last().unwrap() as usize].at_delimiter_line()
-    } else {
-      cur_source.at_delimiter_line()
-    }
+    let sources = std::iter::once(&self.idx).chain(self.source_stack.iter().rev());
+    sources
+      .map(|idx| &self.sources[*idx as usize])
+      .find(|source| !source.is_eof())
+      .and_then(|source| source.at_delimiter_line())
   }
 
   pub fn is_eof(&self) -> bool {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 42eaf89..0238070 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -12,6 +12,8 @@ pub struct Parser<'arena> {
   pub(super) peeked_meta: Option<ChunkMeta<'arena>>,
   /// pending lines of the current markdown blockquote
   pub(super) markdown_blockquote_lines: VecDeque<ContiguousLines<'arena>>,
+  /// whether reading the last lines consumed the empty line that ended them
+  pub(super) consumed_empty_line: bool,
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
@@ -36,6 +38,7 @@ impl<'arena> Parser<'arena> {
       peeked_lines: None,
       peeked_meta: None,
       markdown_blockquote_lines: VecDeque::new(),
+      consumed_empty_line: false,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       strict: true,
@@ -106,10 +109,6 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false)?.map(|(line, _)| line))
-  }
-
-  fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
     assert!(self.peeked_lines.is_none());
     if self.lexer.is_eof() {
       return Ok(None);
@@ -138,22 +137,18 @@ impl<'arena> Parser<'arena> {
     }
     self.lexer.skip_newline();
     if drop_line {
-      return self._read_line(false);
+      return self.read_line();
     }
     if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
       match self.try_process_directive(&mut line)? {
-        DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
-        DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true),
-        DirectiveAction::ReadNextLine => self._read_line(false),
-        DirectiveAction::SkipLinesUntilEndIf => Ok(
-          self
-            .skip_lines_until_endif(&line)?
-            .map(|l| (l, ignored_last)),
-        ),
+        DirectiveAction::Passthrough => Ok(Some(line)),
+        DirectiveAction::SubstituteLine(line) => Ok(Some(line)),
+        DirectiveAction::IgnoreNotIncluded => self.read_line(),
+        DirectiveAction::ReadNextLine => self.read_line(),
+        DirectiveAction::SkipLinesUntilEndIf => self.skip_lines_until_endif(&line),
       }
     } else {
-      Ok(Some((line, ignored_last)))
+      Ok(Some(line))
     }
   }
 
@@ -162,6 +157,7 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
+    self.consumed_empty_line = false;
     if self.ctx.in_markdown_blockquote {
       return Ok(self.markdown_blockquote_lines.pop_front());
     }
@@ -170,18 +166,17 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
-    while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
+    while let Some(line) = self.read_line()? {
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line {
-          // this case can happen if our first non-empty line was an include directive
-          // this case happens only when we DROP a line
-          break;
         }
+        // an include or conditional directive led to an empty line
+        self.consumed_empty_line = true;
+        break;
       }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
@@ -231,6 +226,9 @@ impl<'arena> Parser<'arena> {
       }
       return Ok(Some(lines));
     }
+    if self.consumed_empty_line {
+      additional_lines.push(Line::empty(self.bump));
+    }
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       // NB: reading can reach eof without a line, e.g. a trailing conditional directive
       let Some(line) = self.read_line()? else {
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 8e7a1c3..9fb700a 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -37,7 +37,7 @@ impl<'arena> Parser<'arena> {
       reftext,
       title: InlineNodes::new(self.bump),
       source_loc,
-      source_idx: self.lexer.source_idx(),
+      source_idx: source_loc.map_or(self.lexer.source_idx(), |loc| loc.include_depth),
       is_biblio,
     }
   }
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..783af9a 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -25,7 +25,8 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if anchor.source_idx != idx {
+      // NB: an id alone can be anywhere in the document, no matter which file it's from
+      if idx.is_some_and(|idx| anchor.source_idx != idx) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
@@ -41,11 +42,11 @@ impl Parser<'_> {
     )
   }
 
-  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(u16, &'a str)> {
+  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
-      Some((loc_depth, "__self__"))
+      Some((Some(loc_depth), "__self__"))
     } else if target.starts_with('#') {
-      Some((loc_depth, target))
+      Some((None, target))
     } else if let Some(idx) = target.find('#') {
       let id = &target[idx + 1..];
       let prefix = &target[..idx];
@@ -53,16 +54,16 @@ impl Parser<'_> {
         self
           .lexer
           .source_idx_of_xref_target(prefix)
-          .map(|src_idx| (src_idx, id))
+          .map(|src_idx| (Some(src_idx), id))
       } else {
-        Some((loc_depth, id))
+        Some((None, id))
       }
     } else if file::has_adoc_ext(target)
       && self.lexer.source_file_at(0).file_name().ends_with(target)
     {
-      Some((0, "__self__"))
+      Some((Some(0), "__self__"))
     } else {
-      Some((loc_depth, target))
+      Some((None, target))
     }
   }
 
diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..6578175 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -57,7 +57,8 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut selected = BumpVec::with_capacity_in(bytes.len(), self.bump);
-    for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
+    let src = bytes.strip_suffix(b"\n").unwrap_or(bytes);
+    for (i, line) in src.split(|&b| b == b'\n').enumerate() {
       if ranges.iter().any(|range| range.contains(&(i + 1))) {
         selected.extend(line);
         selected.push(b'\n');
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 43308e7..1c9ee51 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -101,12 +101,15 @@ impl<'arena> Parser<'arena> {
           .attrs
           .named("depth")
           .and_then(|s| s.parse::<u16>().ok());
-        self.lexer.push_source(
-          SourceFile::Path(target_abspath),
-          leveloffset,
-          include_depth,
-          buffer,
-        );
+        // an empty include leaves nothing behind, not even an empty line
+        if !buffer.is_empty() {
+          self.lexer.push_source(
+            SourceFile::Path(target_abspath),
+            leveloffset,
+            include_depth,
+            buffer,
+          );
+        }
         self
           .document
           .meta
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 91f4ebe..d0ad883 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -192,7 +192,7 @@ impl<'arena> Parser<'arena> {
   ) -> Result<()> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
-    let lines = src.split(|&c| c == b'\n');
+    let lines = src.strip_suffix(b"\n").unwrap_or(src).split(|&c| c == b'\n');
     let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 719e828..ac4fda6 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -116,7 +116,7 @@ impl<'arena> Parser<'arena> {
           reftext,
           title: heading.clone(),
           source_loc: None,
-          source_idx: self.lexer.source_idx(),
+          source_idx: heading.loc().map_or(self.lexer.source_idx(), |loc| loc.start_depth),
           is_biblio: false,
         },
       );
-- 
2.43.0


From 4dbe5a5c04701533e9249c21e477dd51b6e85eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 091/156] fix: directives after a comment block, or after
 comment delimiters in verbatim blocks, are processed

---
 parser/src/delimiter.rs     |  7 +++++++
 parser/src/parse_context.rs | 15 +++++++--------
 parser/src/parser.rs        | 15 ++++++++++++---
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/parser/src/delimiter.rs b/parser/src/delimiter.rs
index 01f315d..c3ef4fe 100644
--- a/parser/src/delimiter.rs
+++ b/parser/src/delimiter.rs
@@ -18,6 +18,13 @@ pub struct Delimiter {
   pub len: u8,
 }
 
+impl Delimiter {
+  pub const fn is_verbatim(&self) -> bool {
+    use DelimiterKind::*;
+    matches!(self.kind, Literal | Listing | Passthrough | Comment)
+  }
+}
+
 impl From<DelimiterKind> for BlockContext {
   fn from(delimiter: DelimiterKind) -> Self {
     match delimiter {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 70affa7..cb25383 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -22,7 +22,8 @@ pub struct ParseContext<'arena> {
   pub passthrus: BumpVec<'arena, Option<InlineNodes<'arena>>>,
   pub max_include_depth: u16,
   pub ifdef_stack: BumpVec<'arena, BumpString<'arena>>,
-  pub comment_delim_in_lines: bool,
+  /// whether the line being read is in a block comment, if known better than from `delimiter`
+  pub lines_in_comment: Option<bool>,
   pub in_header: bool,
   pub in_markdown_blockquote: bool,
   pub attr_defs: BumpVec<'arena, AttrDef>,
@@ -92,7 +93,7 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
-      comment_delim_in_lines: false,
+      lines_in_comment: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
@@ -120,7 +121,7 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
-      comment_delim_in_lines: false,
+      lines_in_comment: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
       in_header: false,
@@ -222,11 +223,9 @@ impl<'arena> ParseContext<'arena> {
   }
 
   pub fn within_block_comment(&self) -> bool {
-    self.comment_delim_in_lines
-      || self
-        .delimiter
-        .as_ref()
-        .is_some_and(|d| d.kind == DelimiterKind::Comment)
+    self
+      .lines_in_comment
+      .unwrap_or_else(|| self.delimiter.is_some_and(|d| d.kind == DelimiterKind::Comment))
   }
 }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 0238070..7176dc9 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -153,7 +153,6 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_lines(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
-    self.ctx.comment_delim_in_lines = false;
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
@@ -166,6 +165,9 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
+    // delimiter of the innermost block which can't nest others, e.g. comment or listing
+    let mut verbatim_delimiter = self.ctx.delimiter.filter(|d| d.is_verbatim() || !self.ctx.can_nest_blocks);
+    self.ctx.lines_in_comment = None;
     while let Some(line) = self.read_line()? {
       if line.is_emptyish() {
         if lines.is_empty() {
@@ -178,8 +180,14 @@ impl<'arena> Parser<'arena> {
         self.consumed_empty_line = true;
         break;
       }
-      if line.is_delimiter_kind(DelimiterKind::Comment) {
-        self.ctx.comment_delim_in_lines = true;
+      if let Some(delimiter) = line.current_token().and_then(|t| t.to_delimiter()) {
+        match verbatim_delimiter {
+          Some(open) if open == delimiter => verbatim_delimiter = None,
+          None if delimiter.is_verbatim() => verbatim_delimiter = Some(delimiter),
+          _ => {}
+        }
+        self.ctx.lines_in_comment =
+          Some(verbatim_delimiter.is_some_and(|d| d.kind == DelimiterKind::Comment));
       }
       let ends_chunk = self.ends_chunk(&lines, &line);
       lines.push(line);
@@ -187,6 +195,7 @@ impl<'arena> Parser<'arena> {
         break;
       }
     }
+    self.ctx.lines_in_comment = None;
     if lines.is_empty() {
       Ok(None)
     } else {
-- 
2.43.0


From 9e8c7c59f5284326a90bff2b4bcc1dcbb6589407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 092/156] fix: only the includes a file is nested in count
 towards its include depth

---
 parser/src/lexer/root_lexer.rs                    | 15 ++++++++++++---
 .../tasks/directives/includes/process_includes.rs |  7 +++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index a944f74..d61bfde 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -349,13 +349,22 @@ impl<'arena> RootLexer<'arena> {
     self.idx
   }
 
+  /// number of includes the current source is nested in
+  pub fn include_nesting(&self) -> u16 {
+    self.source_stack.len() as u16
+  }
+
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
     self
-      .sources
+      .source_stack
       .iter()
+      .chain(std::iter::once(&self.idx))
       .enumerate()
-      .fold(None, |current, (i, src)| {
-        src.max_include_depth.map(|d| (d, i as u16)).or(current)
+      .fold(None, |current, (nesting, idx)| {
+        self.sources[*idx as usize]
+          .max_include_depth
+          .map(|d| (d, nesting as u16))
+          .or(current)
       })
   }
 
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 1c9ee51..d15e8e4 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -259,8 +259,11 @@ impl<'arena> Parser<'arena> {
       .lexer
       .max_include_depth()
       .unwrap_or((self.ctx.max_include_depth, 0));
-    let abs_depth = u16::min(rel_depth + stack_depth, self.ctx.max_include_depth);
-    if self.lexer.include_depth() + 1 > abs_depth {
+    let abs_depth = u16::min(
+      rel_depth.saturating_add(stack_depth),
+      self.ctx.max_include_depth,
+    );
+    if self.lexer.include_nesting() + 1 > abs_depth {
       Some(rel_depth)
     } else {
       None
-- 
2.43.0


From 4be79f2a913cc862e0e87f7c0d708eb4ae530aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 093/156] fix: an empty line from an included file follows a
 table's first row like any other

---
 parser/src/tasks/table/parse_table.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb044fe..c2cb57f 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -377,6 +377,10 @@ impl<'arena> Parser<'arena> {
         end += 1;
       }
     }
+    if self.consumed_empty_line && !tokens.is_empty() {
+      tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
+      end += 1;
+    }
     while let Some(next_line) = self.read_line()? {
       if next_line.is_comment() {
         continue;
-- 
2.43.0


From 3ec1bd9a0292107499e6aa22e541524f00261f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 094/156] fix: text directly following a comment block before
 the header is no longer dropped

---
 parser/src/tasks/parse_doc_header.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index efbbc2b..ee81c10 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -74,16 +74,21 @@ impl<'arena> Parser<'arena> {
       return Ok(end_delim.first_loc());
     }
 
-    loop {
+    self.ctx.delimiter = block_start.current_token().and_then(Token::to_delimiter);
+    let end = loop {
       let Some(mut next_lines) = self.read_lines()? else {
         self.err_line("Unclosed comment block, started here", &block_start)?;
-        return Ok(None);
+        break None;
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
         let end_delim = next_lines.consume_current().unwrap();
-        return Ok(end_delim.first_loc());
+        // NB: lines may directly follow the comment
+        *lines = next_lines;
+        break end_delim.first_loc();
       }
-    }
+    };
+    self.ctx.delimiter = None;
+    Ok(end)
   }
 
   pub(crate) fn prepare_toc(&mut self) {
-- 
2.43.0


From deaed0f840646b1b8c1cbe2f4a7bf45a7a42cf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 095/156] fix: attribute references in directives: skipped and
 verbatim lines, embedded lines, values of different types

---
 parser/src/lexer/root_lexer.rs                | 32 ++++-----
 parser/src/tasks/attr_refs.rs                 |  4 +-
 parser/src/tasks/directives/ifdef.rs          | 10 +--
 parser/src/tasks/directives/ifeval.rs         | 67 ++++++++-----------
 .../directives/includes/process_includes.rs   |  6 ++
 parser/src/tasks/directives/mod.rs            | 14 ++++
 6 files changed, 72 insertions(+), 61 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d61bfde..22c9759 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -11,7 +11,8 @@ pub struct RootLexer<'arena> {
   source_stack: Vec<u16>,
   sources: BumpVec<'arena, SourceLexer<'arena>>,
   plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
-  tmp_buf: Option<(SourceLexer<'arena>, BufLoc)>,
+  // innermost last, e.g. the value of an attribute referenced by an embedded line
+  tmp_bufs: Vec<(SourceLexer<'arena>, BufLoc)>,
 }
 
 #[derive(Debug)]
@@ -31,7 +32,7 @@ impl<'arena> RootLexer<'arena> {
       source_stack: Vec::new(),
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump)],
-      tmp_buf: None,
+      tmp_bufs: Vec::new(),
     }
   }
 
@@ -43,7 +44,7 @@ impl<'arena> RootLexer<'arena> {
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       source_stack: Vec::new(),
       sources: bvec![in bump; SourceLexer::from_str(src, file, bump)],
-      tmp_buf: None,
+      tmp_bufs: Vec::new(),
     }
   }
 
@@ -55,7 +56,7 @@ impl<'arena> RootLexer<'arena> {
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       source_stack: Vec::new(),
       sources: bvec![in bump; SourceLexer::from_byte_slice(bytes, file, bump)],
-      tmp_buf: None,
+      tmp_bufs: Vec::new(),
     }
   }
 
@@ -107,26 +108,27 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn set_tmp_buf(&mut self, buf: &str, loc: BufLoc) {
-    self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
+    let lexer = SourceLexer::from_str(buf, SourceFile::Tmp, self.bump);
+    self.tmp_bufs.push((lexer, loc));
   }
 
   /// position in the containing source where the current embedded line ends
-  pub const fn embedded_line_end(&self) -> Option<u32> {
-    match &self.tmp_buf {
+  pub fn embedded_line_end(&self) -> Option<u32> {
+    match self.tmp_bufs.last() {
       Some((_, BufLoc::Line(loc))) => Some(loc.end),
       _ => None,
     }
   }
 
   pub fn skip_embedded_line(&mut self) {
-    if let Some((tmp_lexer, BufLoc::Line(_))) = &mut self.tmp_buf {
+    if let Some((tmp_lexer, BufLoc::Line(_))) = self.tmp_bufs.last_mut() {
       // stop at the newline
       tmp_lexer.pos = tmp_lexer.src.len() as u32 - 1;
     }
   }
 
-  pub const fn tmp_buf_is_empty(&self) -> bool {
-    self.tmp_buf.is_none()
+  pub fn tmp_buf_is_empty(&self) -> bool {
+    matches!(self.tmp_bufs.last(), None | Some((_, BufLoc::Line(_))))
   }
 
   pub fn adjust_offset(&mut self, offset_adjustment: u32) {
@@ -205,7 +207,7 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn peek(&self) -> Option<u8> {
     // case: we're in the middle of a temporary buffer
-    if let Some((tmp_buf, _)) = &self.tmp_buf {
+    if let Some((tmp_buf, _)) = self.tmp_bufs.last() {
       return tmp_buf.peek();
     }
     // case: we're about to switch to a new source
@@ -226,10 +228,10 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn skip_byte(&mut self) {
-    if let Some((tmp_lexer, _)) = &mut self.tmp_buf {
+    if let Some((tmp_lexer, _)) = self.tmp_bufs.last_mut() {
       tmp_lexer.pos += 1;
       if tmp_lexer.is_eof() {
-        self.tmp_buf = None;
+        self.tmp_bufs.pop();
       }
       return;
     }
@@ -307,7 +309,7 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn next_token(&mut self) -> Token<'arena> {
-    if let Some((ref mut buf_lexer, ref buf_loc)) = self.tmp_buf
+    if let Some((buf_lexer, buf_loc)) = self.tmp_bufs.last_mut()
       && let Some(mut token) = buf_lexer.next_token()
     {
       match buf_loc {
@@ -321,7 +323,7 @@ impl<'arena> RootLexer<'arena> {
         }
       }
       if buf_lexer.is_eof() {
-        self.tmp_buf = None
+        self.tmp_bufs.pop();
       }
       return token;
     }
diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 92bd403..a26ba0c 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -55,7 +55,9 @@ impl<'arena> Parser<'arena> {
       // references within replaced values were already resolved, or can't be
       token.kind = TokenKind::Word;
       line.push(token);
-    } else if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    } else if token.kind(TokenKind::AttrRef)
+      && (self.ctx.subs.attr_refs() || self.reading_include_directive(line))
+    {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index a7dfdfc..fc47894 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -6,7 +6,7 @@ impl<'arena> Parser<'arena> {
     defined: bool,
     line: &mut Line<'arena>,
   ) -> Result<DirectiveAction<'arena>> {
-    let src = line.reassemble_src();
+    let src = self.directive_src(line);
     let Some(captures) = regx::DIRECTIVE_IFDEF.captures(&src) else {
       return Ok(DirectiveAction::Passthrough);
     };
@@ -85,12 +85,12 @@ impl<'arena> Parser<'arena> {
         && matches!(token.lexeme.as_str(), "ifdef::" | "ifndef::" | "ifeval::")
       {
         let is_ifeval = token.lexeme == "ifeval::";
-        let mut line = Line::empty(self.bump);
-        line.push(token);
+        // NB: attribute references in the line are neither resolved nor needed
+        let mut loc = token.loc;
         while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
+          loc.extend(self.lexer.next_token().loc);
         }
-        let src = line.reassemble_src();
+        let src = self.lexer.src_string_from_loc(loc).src;
         let opens = if is_ifeval {
           regx::DIRECTIVE_IFEVAL.is_match(&src)
         } else {
diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index edc9259..4e09267 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -5,7 +5,7 @@ impl<'arena> Parser<'arena> {
     &mut self,
     line: &mut Line<'arena>,
   ) -> Result<DirectiveAction<'arena>> {
-    let src = line.reassemble_src();
+    let src = self.directive_src(line);
     let Some(captures) = regx::DIRECTIVE_IFEVAL.captures(&src) else {
       if let Some(err_cap) = regx::DIRECTIVE_INVALID_IFEVAL.captures(&src) {
         let mut pattern = &err_cap[2];
@@ -46,6 +46,11 @@ impl<'arena> Parser<'arena> {
   }
 
   fn coerce_eval_expr(&self, expr: &str) -> Value<'arena> {
+    for quote in ['"', '\''] {
+      if let Some(quoted) = expr.strip_prefix(quote).and_then(|s| s.strip_suffix(quote)) {
+        return Value::String(self.string(&self.replace_attr_vals(quoted)));
+      }
+    }
     let expr = self.replace_attr_vals(expr);
     match &*expr {
       "true" => return Value::Boolean(true),
@@ -55,15 +60,10 @@ impl<'arena> Parser<'arena> {
     }
     if let Ok(int) = expr.parse::<isize>() {
       return Value::Int(int);
-    } else if let Ok(float) = expr.parse::<f32>() {
+    } else if let Ok(float) = expr.parse::<f64>() {
       return Value::Float(float);
     }
-    if expr.len() > 1
-      && (expr.starts_with('\'') && expr.ends_with('\'')
-        || expr.starts_with('"') && expr.ends_with('"'))
-    {
-      Value::String(self.string(&expr[1..expr.len() - 1]))
-    } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
+    if expr.chars().all(|c| c.is_ascii_whitespace()) {
       Value::String(self.string(" "))
     } else {
       Value::Int(0)
@@ -72,37 +72,24 @@ impl<'arena> Parser<'arena> {
 }
 
 fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
-  match (lhs, op, rhs) {
-    // string
-    (Value::String(lhs), Op::Eq, Value::String(rhs)) => lhs == rhs,
-    (Value::String(lhs), Op::NotEq, Value::String(rhs)) => lhs != rhs,
-    (Value::String(lhs), Op::Less, Value::String(rhs)) => lhs < rhs,
-    (Value::String(lhs), Op::LessEq, Value::String(rhs)) => lhs <= rhs,
-    (Value::String(lhs), Op::Greater, Value::String(rhs)) => lhs > rhs,
-    (Value::String(lhs), Op::GreaterEq, Value::String(rhs)) => lhs >= rhs,
-    // integer
-    (Value::Int(lhs), Op::Eq, Value::Int(rhs)) => lhs == rhs,
-    (Value::Int(lhs), Op::NotEq, Value::Int(rhs)) => lhs != rhs,
-    (Value::Int(lhs), Op::Less, Value::Int(rhs)) => lhs < rhs,
-    (Value::Int(lhs), Op::LessEq, Value::Int(rhs)) => lhs <= rhs,
-    (Value::Int(lhs), Op::Greater, Value::Int(rhs)) => lhs > rhs,
-    (Value::Int(lhs), Op::GreaterEq, Value::Int(rhs)) => lhs >= rhs,
-    // float
-    (Value::Float(lhs), Op::Eq, Value::Float(rhs)) => lhs == rhs,
-    (Value::Float(lhs), Op::NotEq, Value::Float(rhs)) => lhs != rhs,
-    (Value::Float(lhs), Op::Less, Value::Float(rhs)) => lhs < rhs,
-    (Value::Float(lhs), Op::LessEq, Value::Float(rhs)) => lhs <= rhs,
-    (Value::Float(lhs), Op::Greater, Value::Float(rhs)) => lhs > rhs,
-    (Value::Float(lhs), Op::GreaterEq, Value::Float(rhs)) => lhs >= rhs,
-    // boolean
-    (Value::Boolean(lhs), Op::Eq, Value::Boolean(rhs)) => lhs == rhs,
-    (Value::Boolean(lhs), Op::NotEq, Value::Boolean(rhs)) => lhs != rhs,
-    // nil
-    (Value::Nil, Op::Eq, Value::Nil) => true,
-    (Value::Nil, Op::NotEq, Value::Nil) => false,
-    (Value::Nil, Op::Eq, _) => false,
-    (Value::Nil, Op::NotEq, _) => true,
-    // mixed types and unsupported ops
+  let ordering = match (&lhs, &rhs) {
+    (Value::String(lhs), Value::String(rhs)) => lhs.partial_cmp(rhs),
+    (Value::Int(lhs), Value::Int(rhs)) => lhs.partial_cmp(rhs),
+    (Value::Float(lhs), Value::Float(rhs)) => lhs.partial_cmp(rhs),
+    (Value::Int(lhs), Value::Float(rhs)) => (*lhs as f64).partial_cmp(rhs),
+    (Value::Float(lhs), Value::Int(rhs)) => lhs.partial_cmp(&(*rhs as f64)),
+    _ => None,
+  };
+  match (op, ordering) {
+    (Op::Less, Some(ordering)) => ordering.is_lt(),
+    (Op::LessEq, Some(ordering)) => ordering.is_le(),
+    (Op::Greater, Some(ordering)) => ordering.is_gt(),
+    (Op::GreaterEq, Some(ordering)) => ordering.is_ge(),
+    (Op::Eq, Some(ordering)) => ordering.is_eq(),
+    (Op::NotEq, Some(ordering)) => ordering.is_ne(),
+    // values of different types are never equal, nor ordered
+    (Op::Eq, None) => lhs == rhs,
+    (Op::NotEq, None) => lhs != rhs,
     _ => false,
   }
 }
@@ -110,7 +97,7 @@ fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
 #[derive(Debug, PartialEq)]
 enum Value<'arena> {
   Int(isize),
-  Float(f32),
+  Float(f64),
   String(BumpString<'arena>),
   Boolean(bool),
   Nil,
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index d15e8e4..2baa093 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -138,6 +138,12 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  // the target and attributes can reference attributes even where the text can't
+  pub(crate) fn reading_include_directive(&self, line: &Line<'arena>) -> bool {
+    line.current_token().matches(TokenKind::Directive, "include::")
+      && !self.ctx.within_block_comment()
+  }
+
   /// a line showing text as is, whichever substitutions apply to it
   fn literal_line(&self, text: &str, loc: SourceLocation) -> Line<'arena> {
     let mut line = Line::with_capacity(1, self.bump);
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 5f7e5eb..6e728ef 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -20,6 +20,20 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// source of the line of a directive, attribute references unresolved
+  fn directive_src(&self, line: &Line<'arena>) -> BumpString<'arena> {
+    line
+      .first_loc()
+      .zip(line.last_loc())
+      .filter(|(first, last)| first.include_depth == last.include_depth)
+      .and_then(|(first, last)| {
+        self
+          .lexer
+          .get_str_from_loc(SourceLocation::spanning(first, last))
+      })
+      .map_or_else(|| line.reassemble_src(), |src| self.string(src))
+  }
+
   fn try_process_endif_directive(
     &mut self,
     line: &mut Line<'arena>,
-- 
2.43.0


From 22b4c1e7e8bd62e50e0635b73722afece248fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 096/156] fix: trailing blanks, byte order marks and missing
 final line ends of the main source do not change its meaning; text ends the
 header; cross reference diagnostics come in order

---
 parser/src/lexer/root_lexer.rs        | 22 +++++++++--
 parser/src/lexer/source_lexer.rs      | 57 +++++++++++++++++----------
 parser/src/parser.rs                  | 28 ++++++++++++-
 parser/src/tasks/diagnose_document.rs |  5 ++-
 parser/src/tasks/table/parse_table.rs |  3 ++
 5 files changed, 89 insertions(+), 26 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 22c9759..416beb0 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -95,14 +95,17 @@ impl<'arena> RootLexer<'arena> {
     if src_bytes.last() != Some(&b'\n') {
       src_bytes.push(b'\n');
     }
-    self.sources.push(SourceLexer::new(
+    let mut lexer = SourceLexer::new(
       src_bytes,
       src_file,
       leveloffset,
       max_include_depth,
       Rc::clone(&self.plugin_macros),
       self.bump,
-    ));
+    );
+    // NB: already removed from included asciidoc files
+    lexer.keep_trailing_blanks = true;
+    self.sources.push(lexer);
     let next_idx = self.sources.len() as u16 - 1;
     self.next_idx = Some(next_idx);
   }
@@ -193,10 +196,23 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_newline(&self) -> bool {
-    self.peek_is(b'\n') || self.peek_is(b'\r')
+    match (self.tmp_bufs.last(), self.next_idx) {
+      (Some((tmp_lexer, _)), _) => tmp_lexer.at_newline(),
+      (None, Some(next_idx)) => self.sources[next_idx as usize].at_newline(),
+      (None, None) => {
+        let sources = std::iter::once(&self.idx).chain(self.source_stack.iter().rev());
+        sources
+          .map(|idx| &self.sources[*idx as usize])
+          .find(|source| !source.is_eof())
+          .is_some_and(SourceLexer::at_newline)
+      }
+    }
   }
 
   pub fn skip_newline(&mut self) {
+    while self.at_newline() && matches!(self.peek(), Some(b' ' | b'\t')) {
+      self.skip_byte();
+    }
     if self.peek_is(b'\r') {
       self.skip_byte();
     }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 652cf23..fe297bf 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -11,6 +11,8 @@ pub struct SourceLexer<'arena> {
   pub offset: u32,
   pub file: SourceFile,
   pub leveloffset: i8,
+  /// blanks ending a line are part of it, e.g. included source code
+  pub keep_trailing_blanks: bool,
   pub plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
   pub max_include_depth: Option<u16>,
 }
@@ -30,6 +32,7 @@ impl<'arena> SourceLexer<'arena> {
       pos: 0,
       offset: 0,
       leveloffset,
+      keep_trailing_blanks: false,
       file,
       max_include_depth,
       plugin_macros,
@@ -47,6 +50,7 @@ impl<'arena> SourceLexer<'arena> {
       pos: 0,
       offset: 0,
       leveloffset: 0,
+      keep_trailing_blanks: false,
       file,
       max_include_depth: None,
       plugin_macros: Rc::new(bvec![in bump]),
@@ -145,6 +149,9 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn skip_newline(&mut self) {
+    while self.at_newline() && matches!(self.peek(), Some(b' ' | b'\t')) {
+      self.advance();
+    }
     if self.peek_is(b'\r') {
       self.advance();
     }
@@ -178,23 +185,20 @@ impl<'arena> SourceLexer<'arena> {
     ];
     match sequence {
       [Some(b'`'), Some(b'`'), Some(b'`'), b, _] if b != Some(b'`') => Some((3, b'`')),
-      [Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None, _, _] => Some((2, b'-')),
-      #[rustfmt::skip]
-        [Some(b'*'), Some(b'*'), Some(b'*'), Some(b'*'), Some(b'\n' | b'\r') | None]
-      | [Some(b'_'), Some(b'_'), Some(b'_'), Some(b'_'), Some(b'\n' | b'\r') | None]
-      | [Some(b'-'), Some(b'-'), Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None]
-      | [Some(b'+'), Some(b'+'), Some(b'+'), Some(b'+'), Some(b'\n' | b'\r') | None]
-      | [Some(b'.'), Some(b'.'), Some(b'.'), Some(b'.'), Some(b'\n' | b'\r') | None]
-      | [Some(b'/'), Some(b'/'), Some(b'/'), Some(b'/'), Some(b'\n' | b'\r') | None]
-      | [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'\n' | b'\r') | None] => {
-        Some((4, sequence[0].unwrap()))
-      },
+      [Some(b'-'), Some(b'-'), b, _, _] if b != Some(b'-') && self.line_ends_at(2) => {
+        Some((2, b'-'))
+      }
+      [Some(a), Some(b), Some(c), Some(d), e]
+        if a == b && b == c && c == d && e != Some(a) && a != b'`' && self.line_ends_at(4) =>
+      {
+        Some((4, a))
+      }
       [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'=')] => {
         let mut n = 5;
         while self.nth(n) == Some(b'=') {
           n += 1;
         }
-        if matches!(self.nth(n), Some(b'\n' | b'\r') | None) {
+        if self.line_ends_at(n) {
           Some((n, b'='))
         } else {
           None
@@ -282,8 +286,21 @@ impl<'arena> SourceLexer<'arena> {
     self.at_line_start() && self.at_newline()
   }
 
-  fn at_newline(&self) -> bool {
-    self.peek_is(b'\n') || self.peek_is(b'\r')
+  pub fn at_newline(&self) -> bool {
+    self.peek().is_some() && self.line_ends_at(0)
+  }
+
+  /// whether nothing follows the next `n` bytes (in the current line) -- other than
+  /// blanks, which are not part of it, unless they end the source
+  fn line_ends_at(&self, n: u32) -> bool {
+    let mut end = n;
+    while !self.keep_trailing_blanks && matches!(self.nth(end), Some(b' ' | b'\t')) {
+      end += 1;
+    }
+    match self.nth(end) {
+      Some(b) => b == b'\n' || b == b'\r',
+      None => end == n,
+    }
   }
 
   fn nth(&self, n: u32) -> Option<u8> {
@@ -342,13 +359,13 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && self.remaining_len() > 4 =>
+          && self.peek_n(2).is_some_and(|b| {
+            !b.is_ascii_whitespace() && (b != b'[' || matches!(lexeme, b"endif" | b"ifeval" | b"asciidorkinclude"))
+          }) =>
       {
-        if !self.peek_n(2).unwrap().is_ascii_whitespace() {
-          self.advance();
-          self.advance();
-          return self.token(Directive, start, end + 2);
-        }
+        self.advance();
+        self.advance();
+        return self.token(Directive, start, end + 2);
       }
 
       // macros
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 7176dc9..bca0c75 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -4,6 +4,8 @@ use std::{cell::RefCell, rc::Rc};
 
 use crate::internal::*;
 
+const BYTE_ORDER_MARK: &str = "\u{feff}";
+
 pub struct Parser<'arena> {
   pub(super) bump: &'arena Bump,
   pub(super) lexer: Lexer<'arena>,
@@ -23,11 +25,15 @@ pub struct Parser<'arena> {
 }
 
 impl<'arena> Parser<'arena> {
-  pub fn new(src: BumpVec<'arena, u8>, file: SourceFile, bump: &'arena Bump) -> Self {
+  pub fn new(mut src: BumpVec<'arena, u8>, file: SourceFile, bump: &'arena Bump) -> Self {
+    if src.starts_with(BYTE_ORDER_MARK.as_bytes()) {
+      src.drain(..BYTE_ORDER_MARK.len());
+    }
     Parser::from_lexer(Lexer::new(src, file, bump))
   }
 
   pub fn from_str(src: &str, file: SourceFile, bump: &'arena Bump) -> Self {
+    let src = src.strip_prefix(BYTE_ORDER_MARK).unwrap_or(src);
     Parser::from_lexer(Lexer::from_str(bump, file, src))
   }
 
@@ -125,7 +131,7 @@ impl<'arena> Parser<'arena> {
         if self.ctx.in_header
           && !matches!(
             token.kind,
-            Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+            Colon | EqualSigns | Hash | Word | ForwardSlashes | Directive | OpenBracket
           )
         {
           self.ctx.in_header = false;
@@ -189,6 +195,9 @@ impl<'arena> Parser<'arena> {
         self.ctx.lines_in_comment =
           Some(verbatim_delimiter.is_some_and(|d| d.kind == DelimiterKind::Comment));
       }
+      if self.ctx.in_header && self.ends_header(&lines, &line) {
+        self.ctx.in_header = false;
+      }
       let ends_chunk = self.ends_chunk(&lines, &line);
       lines.push(line);
       if ends_chunk || self.lexer.at_newline() {
@@ -203,6 +212,21 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  // text can only be part of the header (author, revision) following the doc title
+  fn ends_header(&self, lines: &Deq<'arena, Line<'arena>>, line: &Line<'arena>) -> bool {
+    let belongs_to_header = self.ctx.within_block_comment()
+      || line.is_comment()
+      || line.is_comment_block_delimiter()
+      || line.is_attr_decl()
+      || line.is_block_attr_list()
+      || line.is_block_anchor();
+    !belongs_to_header
+      && !lines
+        .iter()
+        .chain(std::iter::once(line))
+        .any(|l| self.line_heading_level(l) == Some(0))
+  }
+
   // attr defs (outside of paragraphs) take effect before lines that follow are read
   fn ends_chunk(&self, lines: &Deq<'arena, Line<'arena>>, line: &Line<'arena>) -> bool {
     !self.ctx.in_header
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 783af9a..3780e6c 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -11,7 +11,10 @@ impl Parser<'_> {
     if self.ctx.table_cell_ctx != TableCellContext::None {
       return Ok(());
     }
-    for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
+    let xrefs = self.ctx.xrefs.borrow();
+    let mut xrefs: Vec<_> = xrefs.iter().collect();
+    xrefs.sort_by_key(|(target, loc)| (loc.include_depth, loc.start, target.as_str()));
+    for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index c2cb57f..30fa043 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -398,6 +398,9 @@ impl<'arena> Parser<'arena> {
       }
       next_line.drain_into(&mut tokens);
     }
+    while tokens.last().kind(TokenKind::Newline) {
+      tokens.pop();
+    }
     self.err_line("Table never closed, started here", start_delim)?;
     Ok((TableTokens::new(tokens), self.lexer.loc()))
   }
-- 
2.43.0


From cb9cc2ba7a1fcbdfa2fc52f2a142e69a4914ab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 097/156] fix: a part at the end of a book or following
 chapters is no longer dropped, opening sections are not part of the preamble

---
 eval/src/eval.rs               | 13 ++++---------
 parser/src/tasks/parse_book.rs | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index d6fad5f..2616d07 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -101,18 +101,13 @@ fn eval_book(book: &MultiPartBook, ctx: &Ctx, backend: &mut impl Backend) {
   if let Some(blocks) = &book.preamble {
     backend.enter_preamble(ctx.doc.title().is_some(), blocks);
     blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-    book
-      .opening_special_sects
-      .iter()
-      .for_each(|sect| eval_section(sect, ctx, backend));
     eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
     backend.exit_preamble(ctx.doc.title().is_some(), blocks);
-  } else {
-    book
-      .opening_special_sects
-      .iter()
-      .for_each(|sect| eval_section(sect, ctx, backend));
   }
+  book
+    .opening_special_sects
+    .iter()
+    .for_each(|sect| eval_section(sect, ctx, backend));
   book
     .parts
     .iter()
diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 872fd1b..4ad5b7d 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -1,6 +1,10 @@
 use crate::internal::*;
 
 impl<'arena> Parser<'arena> {
+  fn at_end(&self) -> bool {
+    self.peeked_lines.is_none() && self.lexer.is_eof()
+  }
+
   pub(crate) fn parse_book(&mut self) -> Result<Option<DocContent<'arena>>> {
     if self.document.meta.get_doctype() != DocType::Book {
       return Ok(None);
@@ -10,7 +14,7 @@ impl<'arena> Parser<'arena> {
     while let Some(special) = self.parse_special_sect()? {
       opening_special_sects.push(special);
     }
-    if self.lexer.is_eof() && !opening_special_sects.is_empty() {
+    if self.at_end() && !opening_special_sects.is_empty() {
       return Ok(Some(DocContent::Sections(Sectioned {
         preamble: None,
         sections: opening_special_sects,
@@ -41,6 +45,15 @@ impl<'arena> Parser<'arena> {
         opening_special_sects.extend(sectioned.sections);
         sectioned.sections = opening_special_sects;
       }
+      // NB: malformed, chapters before the first part
+      if !self.at_end()
+        && let Some(DocContent::Parts(mut book)) = self.parse_book()?
+      {
+        sectioned.sections.extend(book.opening_special_sects);
+        book.opening_special_sects = sectioned.sections;
+        book.preamble = sectioned.preamble;
+        return Ok(Some(DocContent::Parts(book)));
+      }
       return Ok(Some(DocContent::Sections(sectioned)));
     }
 
@@ -48,7 +61,7 @@ impl<'arena> Parser<'arena> {
     while let Some(block) = self.parse_block()? {
       blocks.push(block);
     }
-    if self.lexer.is_eof() || blocks.is_empty() {
+    if self.at_end() || blocks.is_empty() {
       return Ok(Some(DocContent::Blocks(blocks)));
     }
 
-- 
2.43.0


From b8226ac2ab9a5a49d32e42cc34d69437f551483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 098/156] fix: comments inside the header, comment blocks
 before attribute entries, comment lines in list item text

---
 parser/src/parser.rs                 |  7 ++++++-
 parser/src/tasks/parse_doc_header.rs | 15 +++++++++++----
 parser/src/tasks/parse_list.rs       |  3 +++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index bca0c75..1ffaab9 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -129,13 +129,18 @@ impl<'arena> Parser<'arena> {
         // if we encounter a line like `|===` in the very first paragraph,
         // we know we're not in the header anymore, so any attrs refs can be set properly
         if self.ctx.in_header
+          && !self.ctx.within_block_comment()
+          && !token.to_delimiter().is_some_and(|d| d.kind == DelimiterKind::Comment)
           && !matches!(
             token.kind,
             Colon | EqualSigns | Hash | Word | ForwardSlashes | Directive | OpenBracket
           )
         {
           self.ctx.in_header = false;
-        } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+        } else if token.kind == Colon
+          && self.ctx.subs.attr_refs()
+          && !self.ctx.within_block_comment()
+        {
           self.try_parse_attr_def(&mut token)?;
         }
       }
diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index ee81c10..8f035f1 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -158,10 +158,12 @@ impl<'arena> Parser<'arena> {
       subtitle: None, // TODO: subtitle
     });
 
+    self.skip_header_doc_attrs(lines, header)?;
     if lines.starts(Word) {
       let author_line = lines.consume_current().unwrap();
       header.loc.extend(author_line.last_loc().unwrap());
       self.parse_author_line(author_line)?;
+      self.skip_header_doc_attrs(lines, header)?;
       // revision line can only follow an author line (and requires a doc header)
       if self.document.meta.is_set("author")
         && let Some(end) = self.parse_revision_line(lines)
@@ -198,11 +200,16 @@ impl<'arena> Parser<'arena> {
     lines: &mut ContiguousLines<'arena>,
     header: &mut DocHeader,
   ) -> Result<()> {
-    while lines.current_token().kind(AttrDef) {
-      let line = lines.consume_current().unwrap();
-      header.loc.end = line.first_loc().unwrap().end;
+    loop {
+      if lines.current_token().kind(AttrDef) {
+        let line = lines.consume_current().unwrap();
+        header.loc.end = line.first_loc().unwrap().end;
+      } else if lines.starts_with_comment_line() {
+        lines.consume_current();
+      } else if self.discard_comment_block(lines)?.is_none() {
+        return Ok(());
+      }
     }
-    Ok(())
   }
 }
 
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 16bc32e..bcc6ca8 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -107,6 +107,8 @@ impl<'arena> Parser<'arena> {
     if !line.is_empty() {
       item_lines.push(line);
     }
+    // NB: comment lines directly following the text neither end it nor the item
+    lines.discard_leading_comment_lines();
     while lines
       .current()
       .map(|line| line.continues_list_item_principle())
@@ -115,6 +117,7 @@ impl<'arena> Parser<'arena> {
       let mut line = lines.consume_current().unwrap();
       line.discard_leading_whitespace();
       item_lines.push(line);
+      lines.discard_leading_comment_lines();
     }
 
     let mut item_lines = ContiguousLines::new(item_lines);
-- 
2.43.0


From 7c3176b1aa0797dbd37d592df544aa4a7820df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 099/156] fix: comment lines in tables and between list items,
 psv as an explicit table format

---
 parser/src/contiguous_lines.rs        |  5 ++++-
 parser/src/tasks/parse_list.rs        | 32 ++++++++++++++++++++++++---
 parser/src/tasks/table/parse_table.rs | 18 +++++++--------
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 9fa0d8a..27472b7 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -230,7 +230,10 @@ impl<'arena> ContiguousLines<'arena> {
       return line.starts_nested_list(stack);
     }
     self
-      .nth(1)
+      .lines
+      .iter()
+      .skip(1)
+      .find(|line| !line.is_comment())
       .map(|line| line.starts_nested_list(stack))
       .unwrap_or(false)
   }
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index bcc6ca8..68e982f 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -57,7 +57,7 @@ impl<'arena> Parser<'arena> {
     list_variant: ListVariant,
     autogen_conum: &mut u8,
   ) -> Result<Option<ListItem<'arena>>> {
-    let Some(mut lines) = self.read_lines()? else {
+    let Some(mut lines) = self.read_lines_after_comments()? else {
       return Ok(None);
     };
 
@@ -133,6 +133,32 @@ impl<'arena> Parser<'arena> {
     }))
   }
 
+  // comment lines which directly follow (part of) a list item don't end it
+  fn read_lines_after_comments(&mut self) -> Result<Option<ContiguousLines<'arena>>> {
+    let Some(mut lines) = self.read_lines()? else {
+      return Ok(None);
+    };
+    if !lines.starts_with_comment_line() || self.follows_empty_line(&lines) {
+      return Ok(Some(lines));
+    }
+    lines.discard_leading_comment_lines();
+    if lines.is_empty() {
+      return self.read_lines();
+    }
+    Ok(Some(lines))
+  }
+
+  fn follows_empty_line(&self, lines: &ContiguousLines<'arena>) -> bool {
+    let Some(loc) = lines.first_loc() else {
+      return false;
+    };
+    let mut bytes = (0..loc.start)
+      .rev()
+      .map(|pos| self.lexer.byte_at(pos, loc.include_depth))
+      .filter(|byte| *byte != Some(b'\r'));
+    bytes.next().is_none() || bytes.next() == Some(Some(b'\n'))
+  }
+
   fn parse_list_item_blocks(
     &mut self,
     lines: ContiguousLines<'arena>,
@@ -174,7 +200,7 @@ impl<'arena> Parser<'arena> {
     &mut self,
     mut accum: BumpVec<'arena, Block<'arena>>,
   ) -> Result<BumpVec<'arena, Block<'arena>>> {
-    let Some(mut lines) = self.read_lines()? else {
+    let Some(mut lines) = self.read_lines_after_comments()? else {
       return Ok(accum);
     };
 
@@ -288,7 +314,7 @@ impl<'arena> Parser<'arena> {
 
   fn parse_description_list_item_blocks(&mut self) -> Result<BumpVec<'arena, Block<'arena>>> {
     let mut blocks = BumpVec::new_in(self.bump);
-    let Some(lines) = self.read_lines()? else {
+    let Some(lines) = self.read_lines_after_comments()? else {
       return Ok(blocks);
     };
     if lines.starts_list_continuation() {
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 30fa043..5a19933 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -26,7 +26,7 @@ impl<'arena> Parser<'arena> {
 
     let mut format = match (meta.attrs.named("format"), delim_ch) {
       (Some("psv"), b'!') if self.ctx.parsing_adoc_cell() => DataFormat::Prefix('!'),
-      (Some("psv"), _) => DataFormat::Csv('|'),
+      (Some("psv"), _) => DataFormat::Prefix('|'),
       (Some("csv"), _) => DataFormat::Csv(','),
       (Some("tsv"), _) => DataFormat::Csv('\t'),
       (Some("dsv"), _) => DataFormat::Delimited(':'),
@@ -84,7 +84,7 @@ impl<'arena> Parser<'arena> {
       ctx.header_row = HeaderRow::ExplicitlySet;
     } else if meta.attrs.has_option("noheader") {
       ctx.header_row = HeaderRow::ExplicitlyUnset;
-    } else if lines.len() != 1 {
+    } else if lines.iter().filter(|line| !line.is_comment()).count() != 1 {
       ctx.header_row = HeaderRow::FoundNone;
     }
 
@@ -360,22 +360,22 @@ impl<'arena> Parser<'arena> {
     let delim_loc = start_delim.last_loc().unwrap();
     let mut end = delim_loc.end + 1;
     while let Some(line) = lines.consume_current() {
+      if line.is_comment() {
+        continue;
+      }
+      if !tokens.is_empty() {
+        tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
+        end += 1;
+      }
       // TODO(perf): src_eq is O(n), see if we can refactor
       if line.src_eq(start_delim) {
         self.restore_lines(lines);
         return Ok((TableTokens::new(tokens), line.last_loc().unwrap()));
       }
-      if line.is_comment() {
-        continue;
-      }
       if let Some(loc) = line.last_loc() {
         end = loc.end;
       }
       line.drain_into(&mut tokens);
-      if !lines.is_empty() {
-        tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
-        end += 1;
-      }
     }
     if self.consumed_empty_line && !tokens.is_empty() {
       tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
-- 
2.43.0


From 6426695d20b690bb4960882f16cfc7cbb81f52d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 100/156] fix: attribute entries in paragraphs, tables and
 verbatim blocks are text

---
 parser/src/line.rs                    | 27 +++++++++++++
 parser/src/parser.rs                  | 42 ++++++++++++++++++--
 parser/src/tasks/parse_block.rs       | 56 +--------------------------
 parser/src/tasks/table/parse_table.rs |  3 ++
 4 files changed, 71 insertions(+), 57 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 44d36e0..fc568a9 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1030,6 +1030,33 @@ impl<'arena> Line<'arena> {
     }
   }
 
+  pub fn is_thematic_break(&self) -> bool {
+    let spaced = |spec: TokenSpec| {
+      let seq = [spec, Len(1, Whitespace), spec, Len(1, Whitespace), spec];
+      self.num_tokens_before_trailing_whitespace() == 5 && self.starts_with_seq(&seq)
+    };
+    let num_tokens = self.num_tokens_before_trailing_whitespace();
+    self.current_token().is_some_and(|token| match token.kind {
+      SingleQuote => num_tokens == 3 && self.starts_with_seq(&[Kind(SingleQuote); 3]),
+      Star => (num_tokens == 3 && self.starts_with_seq(&[Kind(Star); 3])) || spaced(Kind(Star)),
+      Dashes => (num_tokens == 1 && token.len() == 3) || spaced(Len(1, Dashes)),
+      _ => false,
+    })
+  }
+
+  pub fn is_page_break(&self) -> bool {
+    self.num_tokens_before_trailing_whitespace() == 3
+      && self.starts_with_seq(&[Kind(LessThan); 3])
+  }
+
+  pub fn table_delimiter(&self) -> Option<TokenKind> {
+    let token = self.current_token()?;
+    let is_delimiter = matches!(token.kind, Pipe | Colon | Bang | Comma)
+      && self.nth_token(1).is_some_and(|t| t.kind == EqualSigns && t.len() > 2)
+      && self.nth_token(2).is_none();
+    is_delimiter.then_some(token.kind)
+  }
+
   pub fn is_attr_decl(&self) -> bool {
     self.starts(TokenKind::AttrDef)
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 1ffaab9..5253d50 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -16,6 +16,8 @@ pub struct Parser<'arena> {
   pub(super) markdown_blockquote_lines: VecDeque<ContiguousLines<'arena>>,
   /// whether reading the last lines consumed the empty line that ended them
   pub(super) consumed_empty_line: bool,
+  /// lines being read continue a paragraph, or belong to a table or verbatim block
+  pub(super) in_text: bool,
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
@@ -45,6 +47,7 @@ impl<'arena> Parser<'arena> {
       peeked_meta: None,
       markdown_blockquote_lines: VecDeque::new(),
       consumed_empty_line: false,
+      in_text: false,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       strict: true,
@@ -140,6 +143,7 @@ impl<'arena> Parser<'arena> {
         } else if token.kind == Colon
           && self.ctx.subs.attr_refs()
           && !self.ctx.within_block_comment()
+          && !self.in_text
         {
           self.try_parse_attr_def(&mut token)?;
         }
@@ -178,7 +182,9 @@ impl<'arena> Parser<'arena> {
     let mut lines = Deq::new(self.bump);
     // delimiter of the innermost block which can't nest others, e.g. comment or listing
     let mut verbatim_delimiter = self.ctx.delimiter.filter(|d| d.is_verbatim() || !self.ctx.can_nest_blocks);
+    let mut open_table: Option<TokenKind> = None;
     self.ctx.lines_in_comment = None;
+    self.in_text = verbatim_delimiter.is_some();
     while let Some(line) = self.read_line()? {
       if line.is_emptyish() {
         if lines.is_empty() {
@@ -191,6 +197,9 @@ impl<'arena> Parser<'arena> {
         self.consumed_empty_line = true;
         break;
       }
+      if self.ctx.in_header && self.ends_header(&lines, &line) {
+        self.ctx.in_header = false;
+      }
       if let Some(delimiter) = line.current_token().and_then(|t| t.to_delimiter()) {
         match verbatim_delimiter {
           Some(open) if open == delimiter => verbatim_delimiter = None,
@@ -199,9 +208,14 @@ impl<'arena> Parser<'arena> {
         }
         self.ctx.lines_in_comment =
           Some(verbatim_delimiter.is_some_and(|d| d.kind == DelimiterKind::Comment));
-      }
-      if self.ctx.in_header && self.ends_header(&lines, &line) {
-        self.ctx.in_header = false;
+        self.in_text = verbatim_delimiter.is_some();
+      } else if verbatim_delimiter.is_none() {
+        match line.table_delimiter() {
+          delim @ Some(_) if delim == open_table => open_table = None,
+          delim @ Some(_) if open_table.is_none() => open_table = delim,
+          _ => {}
+        }
+        self.in_text = !self.ctx.in_header && (open_table.is_some() || self.continues_text(&line));
       }
       let ends_chunk = self.ends_chunk(&lines, &line);
       lines.push(line);
@@ -210,6 +224,7 @@ impl<'arena> Parser<'arena> {
       }
     }
     self.ctx.lines_in_comment = None;
+    self.in_text = false;
     if lines.is_empty() {
       Ok(None)
     } else {
@@ -217,6 +232,25 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  // an attr entry following the line would be part of the text
+  fn continues_text(&self, line: &Line<'arena>) -> bool {
+    if line.table_delimiter().is_some()
+      || line.is_block_attr_list()
+      || line.is_block_anchor()
+      || line.is_list_continuation()
+    {
+      return false;
+    }
+    self.in_text
+      || !(line.is_comment()
+        || line.is_chunk_title()
+        || line.is_attr_decl()
+        || line.is_block_macro()
+        || line.is_thematic_break()
+        || line.is_page_break()
+        || self.line_heading_level(line).is_some())
+  }
+
   // text can only be part of the header (author, revision) following the doc title
   fn ends_header(&self, lines: &Deq<'arena, Line<'arena>>, line: &Line<'arena>) -> bool {
     let belongs_to_header = self.ctx.within_block_comment()
@@ -264,6 +298,7 @@ impl<'arena> Parser<'arena> {
       }
       return Ok(Some(lines));
     }
+    self.in_text = true;
     if self.consumed_empty_line {
       additional_lines.push(Line::empty(self.bump));
     }
@@ -279,6 +314,7 @@ impl<'arena> Parser<'arena> {
         break;
       }
     }
+    self.in_text = false;
     lines.extend(additional_lines);
 
     while lines.last().map(|l| l.is_empty()) == Some(true) {
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 829e732..bd03aeb 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -169,62 +169,10 @@ impl<'arena> Parser<'arena> {
           content: Content::DocumentAttribute(String::from(def.name.as_str()), def.value),
         }));
       }
-      SingleQuote
-        if lines.current_satisfies(|line| {
-          line.num_tokens_before_trailing_whitespace() == 3
-            && line.starts_with_seq(&[Kind(SingleQuote); 3])
-        }) =>
-      {
-        return self.parse_break(Context::ThematicBreak, lines, meta);
-      }
-      Star
-        if lines.current_satisfies(|line| {
-          line.num_tokens_before_trailing_whitespace() == 3
-            && line.starts_with_seq(&[Kind(Star); 3])
-        }) =>
-      {
-        return self.parse_break(Context::ThematicBreak, lines, meta);
-      }
-      Dashes
-        if first_token.len() == 3
-          && lines.current_satisfies(|l| l.num_tokens_before_trailing_whitespace() == 1) =>
-      {
+      SingleQuote | Star | Dashes if lines.current_satisfies(|l| l.is_thematic_break()) => {
         return self.parse_break(Context::ThematicBreak, lines, meta);
       }
-      Dashes
-        if lines.current_satisfies(|line| {
-          line.num_tokens_before_trailing_whitespace() == 5
-            && line.starts_with_seq(&[
-              Len(1, Dashes),
-              Len(1, Whitespace),
-              Len(1, Dashes),
-              Len(1, Whitespace),
-              Len(1, Dashes),
-            ])
-        }) =>
-      {
-        return self.parse_break(Context::ThematicBreak, lines, meta);
-      }
-      Star
-        if lines.current_satisfies(|line| {
-          line.num_tokens_before_trailing_whitespace() == 5
-            && line.starts_with_seq(&[
-              Kind(Star),
-              Len(1, Whitespace),
-              Kind(Star),
-              Len(1, Whitespace),
-              Kind(Star),
-            ])
-        }) =>
-      {
-        return self.parse_break(Context::ThematicBreak, lines, meta);
-      }
-      LessThan
-        if lines.current_satisfies(|line| {
-          line.num_tokens_before_trailing_whitespace() == 3
-            && line.starts_with_seq(&[Kind(LessThan), Kind(LessThan), Kind(LessThan)])
-        }) =>
-      {
+      LessThan if lines.current_satisfies(|l| l.is_page_break()) => {
         return self.parse_break(Context::PageBreak, lines, meta);
       }
       _ => {}
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 5a19933..13ad692 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -381,6 +381,7 @@ impl<'arena> Parser<'arena> {
       tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
       end += 1;
     }
+    self.in_text = true;
     while let Some(next_line) = self.read_line()? {
       if next_line.is_comment() {
         continue;
@@ -391,6 +392,7 @@ impl<'arena> Parser<'arena> {
       }
       // TODO(perf): src_eq is O(n), see if we can refactor
       if next_line.src_eq(start_delim) {
+        self.in_text = false;
         return Ok((TableTokens::new(tokens), next_line.last_loc().unwrap()));
       }
       if let Some(loc) = next_line.last_loc() {
@@ -398,6 +400,7 @@ impl<'arena> Parser<'arena> {
       }
       next_line.drain_into(&mut tokens);
     }
+    self.in_text = false;
     while tokens.last().kind(TokenKind::Newline) {
       tokens.pop();
     }
-- 
2.43.0


From 0f7dfbaf6d69ca229fd5269b59da0492945eb19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 101/156] fix: text from attributes and invalid macros is
 escaped, well-formed markup of verses, lists and icons

---
 backend-html5s/src/html5s.rs                  | 115 +++++++++---------
 backend/src/html/backend.rs                   | 113 ++++++++---------
 backend/src/html/htmlbuf.rs                   |  74 +++++++----
 backend/src/html/mod.rs                       |   1 +
 backend/src/html/open_tag.rs                  |   4 +-
 backend/src/html/video.rs                     |  44 ++++---
 core/src/regx.rs                              |   7 ++
 dr-html-backend/src/asciidoctor_html.rs       |  85 ++++++-------
 parser/src/lexer/source_lexer.rs              |  52 ++++----
 parser/src/tasks/parse_attr_list.rs           |   4 +
 .../src/tasks/parse_inlines/inline_utils.rs   |  34 +++++-
 parser/src/tasks/parse_inlines/mod.rs         |  40 +++---
 12 files changed, 312 insertions(+), 261 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 108eb95..2839c49 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -59,7 +59,7 @@ impl Backend for Html5s {
       self.open_body(document);
       if let Some(max_width) = document.meta.string("max-width") {
         self.html.pop();
-        self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+        self.push_with_values([r#" style="max-width: "#, &max_width, r#";">"#]);
       }
     }
   }
@@ -112,7 +112,7 @@ impl Backend for Html5s {
     self.push_str("<footer><div id=\"footer-text\">");
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "");
-      self.push([&label, " ", &revnumber]);
+      self.push_with_values(["", &label, " ", &revnumber]);
     }
     // TODO: last-update-label
     self.push_str("</div>");
@@ -148,15 +148,15 @@ impl Backend for Html5s {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<nav id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push_with_values([r#"<nav id=""#, id, r#"" class=""#]);
+    self.push_attr_value(&self.doc_meta.string_or("toc-class", "toc"));
     self.push_str(r#"" role="doc-toc"#);
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
     let level = self.section_level_stack.last().copied().unwrap_or(0) + 2;
-    self.push([r#""><h"#, &num_str!(level), r#" id=""#, id, r#"-title">"#]);
-    self.push_str(&toc.title);
+    self.push_with_values([r#""><h"#, &num_str!(level), r#" id=""#, id, r#"-title">"#]);
+    self.push_specialchar_escaped(&toc.title);
     self.push([r#"</h"#, &num_str!(level), ">"]);
   }
 
@@ -199,7 +199,7 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push_with_values([r#" id=""#, id]);
     }
     self.push_str("\">");
     self.push_part_prefix();
@@ -327,15 +327,11 @@ impl Backend for Html5s {
       }
       if let Some(highlighter) = self.doc_meta.str("source-highlighter") {
         html.push(' ');
-        html.push_str(highlighter);
+        html.push_attr_value(highlighter);
       }
       html.push_str("\"><code");
       if let Some(lang) = block.meta.attrs.source_language().or(doc_lang) {
-        html.push_str(" class=\"language-");
-        html.push_str(lang);
-        html.push_str("\" data-lang=\"");
-        html.push_str(lang);
-        html.push('"');
+        html.push_with_values([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
       }
       self.state.ephemeral.insert(IsSourceBlock);
     }
@@ -392,9 +388,7 @@ impl Backend for Html5s {
   }
 
   fn enter_quote_attribution(&mut self, block: &Block, _has_cite: bool) {
-    if block.context == BlockContext::QuotedParagraph {
-      self.push_str("</p>");
-    }
+    self.end_quote(block);
     self.push_str(r#"<footer>&#8212; <cite>"#);
   }
 
@@ -404,10 +398,11 @@ impl Backend for Html5s {
     }
   }
 
-  fn enter_quote_cite(&mut self, _block: &Block, has_attribution: bool) {
+  fn enter_quote_cite(&mut self, block: &Block, has_attribution: bool) {
     if has_attribution {
       self.push_str(r#", "#);
     } else {
+      self.end_quote(block);
       self.push_str(r#"<footer>&#8212; <cite>"#);
     }
   }
@@ -417,8 +412,11 @@ impl Backend for Html5s {
   }
 
   fn enter_verse_block(&mut self, block: &Block, has_attribution: bool) {
-    self.open_element("div", &["verse-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
+    let el = if block.has_title() { "section" } else { "div" };
+    self.open_element(el, &["verse-block"], &block.meta.attrs);
+    if block.has_title() {
+      self.render_buffered_block_title(block, true);
+    }
     if has_attribution {
       self.push_str(r#"<blockquote class="verse">"#);
     }
@@ -555,16 +553,16 @@ impl Backend for Html5s {
       }
     }
     self.render_buffered_block_title(block, true);
-    self.push_str("<dl");
+    let mut list_tag = OpenTag::new("dl", &NoAttrs);
     if is_qanda {
-      self.push_str(r#" class="qanda""#);
+      list_tag.push_class("qanda");
     }
     if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
-      self.push_str(r#" class="glossary""#);
+      list_tag.push_class("glossary");
     } else if is_horizontal {
-      self.push_str(r#" class="horizontal""#);
+      list_tag.push_class("horizontal");
     }
-    self.push_ch('>');
+    self.push_open_tag(list_tag);
   }
 
   fn exit_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
@@ -1008,12 +1006,12 @@ impl Backend for Html5s {
 
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\" aria-hidden=\"true\"></a>"]);
+      self.push_with_values(["<a id=\"", id, "\" aria-hidden=\"true\"></a>"]);
     }
   }
 
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push([
+    self.push_with_values([
       "<a id=\"",
       id,
       "\" aria-hidden=\"true\"></a>[",
@@ -1040,7 +1038,7 @@ impl Backend for Html5s {
   }
 
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
+    self.push_with_values([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
   }
 
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
@@ -1057,45 +1055,41 @@ impl Backend for Html5s {
       IconMode::Text => {
         self.push_str(r#"<b class="icon"#);
         attrs.roles.iter().for_each(|role| {
-          self.push_str(" ");
-          self.push_str(role);
+          self.push_with_values([" ", role]);
         });
-        if let Some(title) = attrs.named("title") {
-          self.push([r#"" title=""#, title]);
-        }
-        self.push_str(r#"">["#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_ch('"');
+        self.push_named_attr("title", attrs);
+        self.push_str(">[");
+        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("]</b>");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str_attr_escaped(attrs.named("alt").unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
         self.push_str(r#" class="icon"#);
         attrs.roles.iter().for_each(|role| {
-          self.push_str(" ");
-          self.push_str(role);
+          self.push_with_values([" ", role]);
         });
         self.push_str(r#"">"#);
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_attr_value(target);
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push_with_values([r#" fa-"#, size]);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push_with_values([r#" fa-flip-"#, flip]);
         } else if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push_with_values([r#" fa-rotate-"#, rotate]);
         }
         attrs.roles.iter().for_each(|role| {
-          self.push_str(" ");
-          self.push_str(role);
+          self.push_with_values([" ", role]);
         });
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1117,7 +1111,7 @@ impl Backend for Html5s {
         self.push_img_path(target);
         a_tag.push_str(&mem::replace(&mut self.html, html));
       } else {
-        a_tag.push_str_attr_escaped(link_href);
+        a_tag.push_attr_value(link_href);
       }
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
@@ -1146,13 +1140,13 @@ impl Backend for Html5s {
     }
     if !style.is_empty() {
       self.html.pop();
-      self.push([" style=\"", &style, "\">"]);
+      self.push_with_values([" style=\"", &style, "\">"]);
     }
     if !attrs.roles.is_empty() {
       self.html.pop();
       self.push_str(" class=\"");
       for role in attrs.roles.iter() {
-        self.push_str(&role.src);
+        self.push_attr_value(&role.src);
         self.push_ch(' ');
       }
       self.html.pop();
@@ -1191,7 +1185,7 @@ impl Backend for Html5s {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd class=\"key\">", key, "</kbd>"]);
+      self.push_with_values(["<kbd class=\"key\">", key, "</kbd>"]);
     }
     if keys.len() > 1 {
       self.push_str("</kbd>");
@@ -1364,14 +1358,14 @@ impl Backend for Html5s {
         false
       };
       let href = if *href == "self" { &img_target.src } else { *href };
-      self.push([r#"" href=""#, href, r#"""#]);
+      self.push_with_values([r#"" href=""#, href, r#"""#]);
       self.append_link_constraint_attrs(img_attrs);
       if self_link {
         let label = self.doc_meta.string_or(
           "html5s-image-self-link-label",
           "Open the image in full size",
         );
-        self.push([r#" title=""#, &label, r#"" aria-label=""#, &label, r#"">"#]);
+        self.push_with_values([r#" title=""#, &label, r#"" aria-label=""#, &label, r#"">"#]);
       } else {
         self.push_ch('>');
       }
@@ -1395,7 +1389,7 @@ impl Backend for Html5s {
     block: &Block,
   ) {
     if let Some(title) = img_attrs.named("title") {
-      self.render_block_title(title, block, false);
+      self.render_block_title(&backend::html::escaped_attr_text(title), block, false);
       if block.has_title() {
         self.discard_alt_buffer();
       }
@@ -1495,6 +1489,12 @@ impl Html5s {
     Self::default()
   }
 
+  fn end_quote(&mut self, block: &Block) {
+    if block.context == BlockContext::QuotedParagraph {
+      self.push_str("</p>");
+    }
+  }
+
   fn render_buffered_block_title(&mut self, block: &Block, wrap_in_h6: bool) {
     if block.has_title() {
       let buf = self.take_buffer();
@@ -1516,13 +1516,14 @@ impl Html5s {
       _ => ("", ""),
     };
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push([open, custom_caption, title, close]);
+      self.push_with_values([open, custom_caption]);
+      self.push([title, close]);
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push([open, &caption, " "]);
+      self.push_with_values([open, &caption, " "]);
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
         BlockContext::Image => incr(&mut self.fig_caption_num),
@@ -1565,14 +1566,14 @@ impl Html5s {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str("\">");
-    self.push_str(&author.fullname());
+    self.push_specialchar_escaped(&author.fullname());
     self.push_str("</span><br>");
     if let Some(email) = &author.email {
       self.push_str(r#"<span class="email" id="email"#);
       if index > 0 {
         self.push_str(&(index + 1).to_string());
       }
-      self.push(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
+      self.push_with_values(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
       if index == 0 {
         self.push_str("<br>");
       }
@@ -1591,7 +1592,7 @@ impl Html5s {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push_with_values([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span> ");
       } else {
@@ -1599,7 +1600,7 @@ impl Html5s {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([
+      self.push_with_values([
         r#"<time id="revdate" datetime=""#,
         &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
         r#"">"#,
@@ -1608,7 +1609,7 @@ impl Html5s {
       ]);
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push_with_values([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
     }
     self.push_str("</div>");
   }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index f4efb63..3b124c4 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -42,37 +42,37 @@ pub trait HtmlBackend: HtmlBuf {
   fn open_doc_head(&mut self, meta: &DocumentMeta) {
     self.push_str(r#"<!DOCTYPE html><html"#);
     if !meta.is_true("nolang") {
-      self.push([r#" lang=""#, meta.str_or("lang", "en"), "\""]);
+      self.push_with_values([r#" lang=""#, meta.str_or("lang", "en"), "\""]);
     }
     self.push_str("><head>");
   }
 
   fn meta_tags(&mut self, meta: &DocumentMeta) {
     let encoding = meta.str_or("encoding", "UTF-8");
-    self.push([r#"<meta charset=""#, encoding, r#"">"#]);
+    self.push_with_values([r#"<meta charset=""#, encoding, r#"">"#]);
     self.push_str(r#"<meta http-equiv="X-UA-Compatible" content="IE=edge">"#);
     self.push_str(r#"<meta name="viewport" content="width=device-width, initial-scale=1.0">"#);
     if !meta.is_true("reproducible") {
       self.push_str(r#"<meta name="generator" content="Asciidork">"#);
     }
     if let Some(appname) = meta.str("app-name") {
-      self.push([r#"<meta name="application-name" content=""#, appname, "\">"]);
+      self.push_with_values([r#"<meta name="application-name" content=""#, appname, "\">"]);
     }
     if let Some(desc) = meta.str("description") {
-      self.push([r#"<meta name="description" content=""#, desc, "\">"]);
+      self.push_with_values([r#"<meta name="description" content=""#, desc, "\">"]);
     }
     if let Some(keywords) = meta.str("keywords") {
-      self.push([r#"<meta name="keywords" content=""#, keywords, "\">"]);
+      self.push_with_values([r#"<meta name="keywords" content=""#, keywords, "\">"]);
     }
     if let Some(copyright) = meta.str("copyright") {
-      self.push([r#"<meta name="copyright" content=""#, copyright, "\">"]);
+      self.push_with_values([r#"<meta name="copyright" content=""#, copyright, "\">"]);
     }
   }
 
   fn open_body(&mut self, document: &Document) {
     self.push_str("<body");
-    if let Some(custom_id) = document.meta.str("css-signature") {
-      self.push([r#" id=""#, custom_id, "\""]);
+    if let Some(custom_id) = document.meta.str("css-signature").filter(|id| !id.is_empty()) {
+      self.push_with_values([r#" id=""#, custom_id, "\""]);
     }
     self.push([r#" class=""#, document.meta.get_doctype().to_str()]);
     match document.toc.as_ref().map(|toc| &toc.position) {
@@ -121,7 +121,7 @@ pub trait HtmlBackend: HtmlBuf {
     let state = self.state_mut();
     state.xref_depth += 1;
     if state.xref_depth == 1 {
-      self.push([
+      self.push_with_values([
         "<a href=\"",
         &utils::xref::href(target, self.doc_meta(), kind, true),
         "\">",
@@ -200,15 +200,15 @@ pub trait HtmlBackend: HtmlBuf {
     if !regx::URI_SNIFF.is_match(target)
       && let Some(imagesdir) = self.doc_meta().string("imagesdir")
     {
-      self.push([&imagesdir, "/"]);
+      self.push_with_values(["", &imagesdir, "/"]);
     }
-    self.push_str(target);
+    self.push_attr_value(target);
     let start = attrs.named("start");
     let end = attrs.named("end");
     match (start, end) {
-      (None, Some(end)) => self.push(["#t=,", end, "\""]),
-      (Some(start), None) => self.push(["#t=", start, "\""]),
-      (Some(start), Some(end)) => self.push(["#t=", start, ",", end, "\""]),
+      (None, Some(end)) => self.push_with_values(["#t=,", end, "\""]),
+      (Some(start), None) => self.push_with_values(["#t=", start, "\""]),
+      (Some(start), Some(end)) => self.push_with_values(["#t=", start, ",", end, "\""]),
       (None, None) => self.push_ch('"'),
     }
     if attrs.has_option("autoplay") {
@@ -225,7 +225,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_icon_uri(&mut self, name: &str, prefix: Option<&str>) {
     self.push_icon_img_path();
-    self.push([prefix.unwrap_or(""), name]);
+    self.push_with_values([prefix.unwrap_or(""), name]);
     self.push_icon_inferred_img_ext();
   }
 
@@ -235,11 +235,11 @@ pub trait HtmlBackend: HtmlBuf {
     if let Some(iconsdir) = self.doc_meta().str("iconsdir")
       && !iconsdir.is_empty()
     {
-      s.push_str(iconsdir);
+      s.push_attr_value(iconsdir);
     } else if let Some(imagesdir) = self.doc_meta().str("imagesdir")
       && !imagesdir.is_empty()
     {
-      s.push_str(imagesdir);
+      s.push_attr_value(imagesdir);
     } else {
       s.push_str("./images/icons")
     }
@@ -254,13 +254,13 @@ pub trait HtmlBackend: HtmlBuf {
     if let Some(icontype) = self.doc_meta().str("icontype")
       && !icontype.is_empty()
     {
-      s.push_str(icontype);
+      s.push_attr_value(icontype);
     } else if let Some(icons) = self.doc_meta().str("icons")
       && icons != "font"
       && icons != "image"
       && !icons.is_empty()
     {
-      s.push_str(icons);
+      s.push_attr_value(icons);
     } else {
       s.push_str("png")
     }
@@ -287,10 +287,10 @@ pub trait HtmlBackend: HtmlBuf {
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
         if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-          self.push_str(alt);
+          self.push_specialchar_escaped(alt);
         } else {
           let stem = asciidork_core::file::stem(target);
-          self.push_str(&stem.replace(['_', '-'], " "));
+          self.push_specialchar_escaped(&stem.replace(['_', '-'], " "));
         }
         self.push_str(r#"</span>"#);
       }
@@ -311,7 +311,7 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_named_or_pos_attr("alt", 0, attrs);
       self.push_ch('>');
     } else if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-      self.push([r#"<span class="alt">"#, alt, "</span>"]);
+      self.push_with_values([r#"<span class="alt">"#, alt, "</span>"]);
     }
     self.push_str("</object>");
   }
@@ -337,12 +337,12 @@ pub trait HtmlBackend: HtmlBuf {
         .and_then(|t| t.attrs.named("reftext"))
         .unwrap_or_else(|| self.doc_meta().str("doctitle").unwrap_or("[^top]"))
         .to_string();
-      self.push_str(&doctitle);
+      self.push_specialchar_escaped(&doctitle);
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_str(utils::xref::remove_leading_hash(&href));
+      self.push_specialchar_escaped(utils::xref::remove_leading_hash(&href));
     } else {
-      self.push(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      self.push_with_values(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
     }
   }
 
@@ -372,7 +372,7 @@ pub trait HtmlBackend: HtmlBuf {
     if matches!(scheme, Some(UrlScheme::Mailto)) {
       tag.push_str("mailto:");
     }
-    tag.push_specialchar_escaped(target);
+    tag.push_attr_value(target);
     tag.push_ch('"');
 
     if let Some(attrs) = attrs {
@@ -420,7 +420,7 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       OpenTag::new("a", &NoAttrs)
     };
-    a_tag.push([" href=\"mailto:", address]);
+    a_tag.push_with_values([" href=\"mailto:", address]);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
       a_tag.push_uri_component(subject);
@@ -432,7 +432,7 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
     if !has_link_text {
-      self.push_str(address);
+      self.push_specialchar_escaped(address);
     }
   }
 
@@ -464,7 +464,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_appendix_caption(&mut self) {
     if let Some(appendix_caption) = self.doc_meta().string("appendix-caption") {
-      self.push([&appendix_caption, " "]);
+      self.push_with_values(["", &appendix_caption, " "]);
     }
 
     let num = self.state().appendix_caption_num;
@@ -511,7 +511,7 @@ pub trait HtmlBackend: HtmlBuf {
         && self.doc_meta().get_doctype() == DocType::Book
         && let Some(chapter_signifier) = self.doc_meta().string("chapter-signifier")
       {
-        self.push([&chapter_signifier, " "]);
+        self.push_with_values(["", &chapter_signifier, " "]);
       }
       self.push_section_number_prefix(level);
     }
@@ -548,7 +548,7 @@ pub trait HtmlBackend: HtmlBuf {
       let largest_representable_roman = 3999;
       if part_num <= largest_representable_roman {
         if let Some(part_signifier) = self.doc_meta().string("part-signifier") {
-          self.push([&part_signifier, " "]);
+          self.push_with_values(["", &part_signifier, " "]);
         }
         let roman = &to_roman_numeral(part_num as u16).unwrap();
         self.push_str(roman);
@@ -559,7 +559,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_admonition_block_textlabel(&mut self, kind: AdmonitionKind, block: &Block) {
     if let Some(caption) = block.meta.attrs.named("caption") {
-      self.push_str(caption);
+      self.push_attr_value(caption);
       return;
     }
 
@@ -567,14 +567,8 @@ pub trait HtmlBackend: HtmlBuf {
       return;
     }
 
-    let mut s = String::new();
-    self.swapbuf(&mut s);
-    if let Some(caption) = self.doc_meta().str(kind.caption_name()) {
-      s.push_str(caption);
-    } else {
-      s.push_str(kind.str());
-    }
-    self.swapbuf(&mut s);
+    let caption = self.doc_meta().string_or(kind.caption_name(), kind.str());
+    self.push_attr_value(&caption);
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
@@ -608,11 +602,11 @@ pub trait HtmlBackend: HtmlBuf {
     self.push([r#"<ol class=""#, class, "\""]);
 
     if list_type != "1" {
-      self.push([" type=\"", list_type, "\""]);
+      self.push_with_values([" type=\"", list_type, "\""]);
     }
 
     if let Some(attr_start) = block.meta.attrs.named("start") {
-      self.push([" start=\"", attr_start, "\""]);
+      self.push_with_values([" start=\"", attr_start, "\""]);
     } else {
       match items[0].marker {
         ListMarker::Digits(1) => {}
@@ -665,14 +659,14 @@ pub trait HtmlBackend: HtmlBuf {
   fn push_enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
     let level_str = crate::num_str!(level + 1);
     if let Some(id) = id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\""]);
+      self.push(["<h", &level_str]);
+      self.push_html_attr("id", id);
     } else {
       self.push(["<h", &level_str]);
     }
     self.push_str(r#" class="discrete"#);
     for role in block.meta.attrs.roles() {
-      self.push_ch(' ');
-      self.push_str(role);
+      self.push_with_values([" ", role]);
     }
     self.push_str("\">");
   }
@@ -698,7 +692,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_toc_node(&mut self, node: &TocNode) {
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
-      self.push_str(id);
+      self.push_attr_value(id);
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
@@ -747,16 +741,18 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_heading(&mut self, section: &Section, accessible: bool) {
     let level_str = crate::num_str!(section.level + 1);
     if let Some(id) = &section.id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\">"]);
+      self.push(["<h", &level_str]);
+      self.push_html_attr("id", id);
+      self.push_ch('>');
       if self.doc_meta().is_true("sectanchors") {
-        self.push([r##"<a class="anchor" href="#"##, id]);
+        self.push_with_values([r##"<a class="anchor" href="#"##, id]);
         if accessible {
           self.push_str(r#"" aria-hidden="true"#);
         }
         self.push_str("\"></a>");
       }
       if self.doc_meta().is_true("sectlinks") {
-        self.push([r##"<a class="link" href="#"##, id, "\">"]);
+        self.push_with_values([r##"<a class="link" href="#"##, id, "\">"]);
       }
     } else {
       self.push(["<h", &level_str, ">"]);
@@ -785,11 +781,10 @@ pub trait HtmlBackend: HtmlBuf {
   fn render_title(&mut self, document: &Document, attrs: &DocumentMeta) {
     self.push_str(r#"<title>"#);
     if let Some(title) = attrs.str("title") {
-      self.push_str(title);
+      self.push_specialchar_escaped(title);
     } else if let Some(title) = document.title() {
-      for s in title.main.plain_text() {
-        self.push_str(s);
-      }
+      let title = title.main.plain_text().join("");
+      self.push_specialchar_escaped(&title);
     } else {
       self.push_str("Untitled");
     }
@@ -813,8 +808,7 @@ pub trait HtmlBackend: HtmlBuf {
       if index > 0 {
         self.push_str(", ");
       }
-      // TODO: escape/sanitize, w/ tests, see asciidoctor
-      self.push_str(&author.fullname());
+      self.push_attr_value(&author.fullname());
     }
     self.push_str(r#"">"#);
   }
@@ -824,7 +818,7 @@ pub trait HtmlBackend: HtmlBuf {
       Some(AttrValue::String(path)) => {
         let ext = crate::utils::file_ext(path).unwrap_or("ico");
         self.push_str(r#"<link rel="icon" type="image/"#);
-        self.push([ext, r#"" href=""#, path, "\">"]);
+        self.push_with_values(["", ext, r#"" href=""#, path, "\">"]);
       }
       Some(AttrValue::Bool(true)) => {
         self.push_str(r#"<link rel="icon" type="image/x-icon" href="favicon.ico">"#);
@@ -862,7 +856,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
     None => {
       if target.starts_with("data:") {
-        backend.push_str(target);
+        backend.push_attr_value(target);
       } else {
         backend.push_img_path(target);
       }
@@ -872,9 +866,8 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
   if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
     backend.push_str_attr_escaped(alt);
   } else if let Some(Some(nodes)) = attrs.positional.first() {
-    for s in nodes.plain_text() {
-      backend.push_str_attr_escaped(s);
-    }
+    let alt = nodes.plain_text().join("");
+    backend.push_str_attr_escaped(&alt);
   } else {
     let alt = file::stem(target).replace(['-', '_'], " ");
     backend.push_str_attr_escaped(&alt);
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index 29dafcc..548e48e 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -1,9 +1,7 @@
 use std::fmt::Write;
 
-use lazy_static::lazy_static;
-use regex::Regex;
-
 use ast::prelude::*;
+use asciidork_core::regx;
 
 use crate::html::OpenTag;
 
@@ -12,11 +10,27 @@ pub trait HtmlBuf {
   fn swapbuf(&mut self, s: &mut String);
 
   fn push_str_attr_escaped(&mut self, s: &str) {
-    push_escaped(s, self.htmlbuf(), true);
+    push_escaped(s, self.htmlbuf(), "&quot;", "&#8217;");
   }
 
   fn push_specialchar_escaped(&mut self, s: &str) {
-    push_escaped(s, self.htmlbuf(), false);
+    push_escaped(s, self.htmlbuf(), "\"", "'");
+  }
+
+  /// part of an attribute value
+  fn push_attr_value(&mut self, s: &str) {
+    push_escaped(s, self.htmlbuf(), "&quot;", "'");
+  }
+
+  /// html alternating with values which must not be interpreted as html
+  fn push_with_values<const N: usize>(&mut self, strs: [&str; N]) {
+    for (i, s) in strs.into_iter().enumerate() {
+      if i % 2 == 0 {
+        self.push_str(s);
+      } else {
+        self.push_attr_value(s);
+      }
+    }
   }
 
   fn push_url_encoded(&mut self, s: &str) {
@@ -43,7 +57,11 @@ pub trait HtmlBuf {
 
   fn push_html_attr(&mut self, name: &str, value: &str) {
     self.push([" ", name, "=\""]);
-    self.push_str_attr_escaped(value);
+    if name == "title" {
+      self.push_str_attr_escaped(value);
+    } else {
+      self.push_attr_value(value);
+    }
     self.push_ch('"');
   }
 
@@ -93,7 +111,7 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, window]);
+      self.push_with_values([r#" target=""#, window]);
       if window == "_blank" || attrs.has_option("noopener") {
         self.push_str("\" rel=\"noopener");
       }
@@ -153,28 +171,34 @@ pub trait AltHtmlBuf: HtmlBuf {
   }
 }
 
-fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
-  let mut it = src.chars().peekable();
-  let mut pos = 0;
-  while let Some(c) = it.next() {
+impl HtmlBuf for String {
+  fn htmlbuf(&mut self) -> &mut String {
+    self
+  }
+
+  fn swapbuf(&mut self, s: &mut String) {
+    std::mem::swap(self, s);
+  }
+}
+
+/// the html of text taken verbatim from an attribute
+pub fn escaped_attr_text(text: &str) -> String {
+  let mut html = String::with_capacity(text.len());
+  push_escaped(text, &mut html, "&quot;", "'");
+  html
+}
+
+fn push_escaped(src: &str, dest: &mut String, double_quote: &str, single_quote: &str) {
+  for (pos, c) in src.char_indices() {
     match c {
-      '&' if it.peek() == Some(&'#') => {
-        if let Some(peek) = src.get(pos..src.len().min(pos + 6)) {
-          if NUMERIC_CHAR_REF.is_match(peek) {
-            dest.push(c);
-          } else {
-            dest.push_str("&amp;");
-          }
-        }
-      }
+      '&' if regx::CHAR_REF.is_match(&src[pos..]) => dest.push(c),
       '&' => dest.push_str("&amp;"),
       '<' => dest.push_str("&lt;"),
       '>' => dest.push_str("&gt;"),
-      '"' if escape_quotes => dest.push_str("&quot;"),
-      '\'' if escape_quotes => dest.push_str("&#8217;"),
+      '"' => dest.push_str(double_quote),
+      '\'' => dest.push_str(single_quote),
       _ => dest.push(c),
     }
-    pos += c.len_utf8();
   }
 }
 
@@ -199,7 +223,3 @@ fn push_uri_component(buf: &mut String, s: &str) {
     }
   }
 }
-
-lazy_static! {
-  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
-}
diff --git a/backend/src/html/mod.rs b/backend/src/html/mod.rs
index d02feaa..01530bd 100644
--- a/backend/src/html/mod.rs
+++ b/backend/src/html/mod.rs
@@ -8,4 +8,5 @@ pub mod video;
 
 pub use htmlbuf::AltHtmlBuf;
 pub use htmlbuf::HtmlBuf;
+pub use htmlbuf::escaped_attr_text;
 pub use open_tag::OpenTag;
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 954063d..30eb85d 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -97,7 +97,7 @@ impl OpenTag {
     if let Some(prefix) = prefix {
       self.buf.push_str(prefix);
     }
-    self.buf.push_str(class.as_ref());
+    self.push_attr_value(class.as_ref());
   }
 
   pub fn push_resolved_attr_class(
@@ -164,7 +164,7 @@ impl OpenTag {
       } else {
         self.buf.push(' ');
       }
-      self.buf.push_str(&append_classes);
+      self.push_attr_value(&append_classes);
     }
     if self.opened_classes {
       self.buf.push('"');
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 9af92b4..1523884 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -28,26 +28,26 @@ fn service<B: HtmlBackend + ?Sized>(
   if let Some(param) = provider.slash_param()
     && let Some((id, hash)) = target_parts
   {
-    backend.push([id, "?", param, "=", hash]);
+    backend.push_with_values(["", id, "?", param, "=", hash]);
     param_pushed = true;
   } else if provider == Provider::YouTube && target.contains(",") {
     for (index, id) in target.split(",").enumerate() {
       if index == 0 {
-        backend.push([id, "?playlist=", id]);
+        backend.push_with_values(["", id, "?playlist=", id]);
         param_pushed = true;
       } else {
-        backend.push([",", id]);
+        backend.push_with_values([",", id]);
       }
     }
   } else if provider == Provider::YouTube
     && let Some(playlist) = attrs.named("playlist")
   {
-    backend.push([target, "?playlist=", target, ",", playlist]);
+    backend.push_with_values(["", target, "?playlist=", target, ",", playlist]);
     param_pushed = true;
   } else {
-    backend.push_str(target);
+    backend.push_attr_value(target);
     if let Some(hash) = attrs.named("hash") {
-      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", hash]);
+      backend.push_with_values([iff!(param_pushed, "&amp;h=", "?h="), hash]);
       param_pushed = true;
     }
   }
@@ -66,9 +66,13 @@ fn service<B: HtmlBackend + ?Sized>(
   // start param (last because vimeo uses # frag not &)
   if let Some(start) = attrs.named("start") {
     match provider {
-      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", start]),
-      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", start]),
-      Provider::Vimeo => backend.push(["#at=", start]),
+      Provider::YouTube => {
+        backend.push_with_values([iff!(param_pushed, "&amp;start=", "?start="), start])
+      }
+      Provider::Wistia => {
+        backend.push_with_values([iff!(param_pushed, "&amp;time=", "?time="), start])
+      }
+      Provider::Vimeo => backend.push_with_values(["#at=", start]),
     }
   }
 
@@ -96,15 +100,15 @@ fn native_element<B: HtmlBackend + ?Sized>(
   if !regx::URI_SNIFF.is_match(target)
     && let Some(ref imagesdir) = imagesdir
   {
-    backend.push([imagesdir, "/"]);
+    backend.push_with_values(["", imagesdir, "/"]);
   }
-  backend.push_str(target);
+  backend.push_attr_value(target);
   let start = attrs.named("start");
   let end = attrs.named("end");
   match (start, end) {
-    (None, Some(end)) => backend.push(["#t=,", end, "\""]),
-    (Some(start), None) => backend.push(["#t=", start, "\""]),
-    (Some(start), Some(end)) => backend.push(["#t=", start, ",", end, "\""]),
+    (None, Some(end)) => backend.push_with_values(["#t=,", end, "\""]),
+    (Some(start), None) => backend.push_with_values(["#t=", start, "\""]),
+    (Some(start), Some(end)) => backend.push_with_values(["#t=", start, ",", end, "\""]),
     (None, None) => backend.push_ch('"'),
   }
   push_dims(backend, attrs);
@@ -112,7 +116,7 @@ fn native_element<B: HtmlBackend + ?Sized>(
     if !regx::URI_SNIFF.is_match(poster)
       && let Some(ref imagesdir) = imagesdir
     {
-      backend.push([" poster=\"", imagesdir, "/", poster, "\""]);
+      backend.push_with_values([" poster=\"", imagesdir, "/", poster, "\""]);
     } else {
       backend.push_html_attr("poster", poster);
     }
@@ -147,15 +151,15 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   ]);
   *param_pushed = true;
   if let Some(theme) = attrs.named("theme") {
-    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), theme]);
+    backend.push_with_values([iff!(*param_pushed, "&amp;theme=", "?theme="), theme]);
     *param_pushed = true;
   }
   if let Some(lang) = attrs.named("lang") {
-    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), lang]);
+    backend.push_with_values([iff!(*param_pushed, "&amp;hl=", "?hl="), lang]);
     *param_pushed = true;
   }
   if let Some(end) = attrs.named("end") {
-    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), end]);
+    backend.push_with_values([iff!(*param_pushed, "&amp;end=", "?end="), end]);
     *param_pushed = true;
   }
   if attrs.has_option("nofullscreen") {
@@ -167,10 +171,10 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     *param_pushed = true;
   }
   if let Some(list) = attrs.named("list") {
-    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), list]);
+    backend.push_with_values([iff!(*param_pushed, "&amp;list=", "?list="), list]);
     *param_pushed = true;
   } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
-    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", target]);
+    backend.push_with_values([iff!(*param_pushed, "&amp;playlist=", "?playlist="), target]);
     *param_pushed = true;
   }
 }
diff --git a/core/src/regx.rs b/core/src/regx.rs
index 2bc4a5b..719ed63 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -7,6 +7,13 @@ lazy_static! {
   pub static ref ATTR_VAL_REPLACE: Regex = Regex::new(r"\{([^\s}]+)\}").unwrap();
 }
 
+// char refs
+lazy_static! {
+  /// character reference, e.g. `&amp;`, `&#167;`, `&#xa7;`
+  pub static ref CHAR_REF: Regex =
+    Regex::new(r"^&(?:#[0-9]{2,6}|#x[0-9a-fA-F]{2,5}|[a-zA-Z][a-zA-Z]+[0-9]{0,2});").unwrap();
+}
+
 // email
 lazy_static! {
   pub static ref EMAIL_RE: Regex = Regex::new(
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 6728d5a..112a9a9 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -129,7 +129,7 @@ impl Backend for AsciidoctorHtml {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
-        self.push([r#"<div id="footer-text">"#, &label, " ", &rev, "<br></div>"]);
+        self.push_with_values([r#"<div id="footer-text">"#, &label, " ", &rev, "<br></div>"]);
       }
       // TODO: last-update-label
     }
@@ -169,17 +169,17 @@ impl Backend for AsciidoctorHtml {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<div id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push_with_values([r#"<div id=""#, id, r#"" class=""#]);
+    self.push_attr_value(&self.doc_meta.string_or("toc-class", "toc"));
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
-    self.push([r#""><div id=""#, id, r#"title""#]);
+    self.push_with_values([r#""><div id=""#, id, r#"title""#]);
     if macro_block.is_some() {
       self.push_str(r#" class="title""#);
     }
     self.push_ch('>');
-    self.push_str(&toc.title);
+    self.push_specialchar_escaped(&toc.title);
     self.push_str("</div>");
   }
 
@@ -227,11 +227,11 @@ impl Backend for AsciidoctorHtml {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id, "\""]);
+      self.push_html_attr("id", id);
     }
     self.push_str(r#" class="sect0"#);
     for role in title.meta.attrs.roles() {
-      self.push([" ", role]);
+      self.push_with_values([" ", role]);
     }
     self.push_str("\">");
     self.push_part_prefix();
@@ -369,9 +369,9 @@ impl Backend for AsciidoctorHtml {
     if block.meta.attrs.is_source() || doc_lang.is_some() {
       self.push_str(r#" class="highlight"><code"#);
       if let Some(lang) = block.meta.attrs.source_language() {
-        self.push([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
+        self.push_with_values([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
       } else if let Some(lang) = doc_lang {
-        self.push([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
+        self.push_with_values([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
       }
       self.push_ch('>');
       self.state.ephemeral.insert(IsSourceBlock);
@@ -592,18 +592,14 @@ impl Backend for AsciidoctorHtml {
       if labelwidth.is_some() || itemwidth.is_some() {
         self.push_str("<colgroup>");
         if let Some(labelwidth) = labelwidth {
-          self.push_str(&format!(
-            r#"<col style="width: {}%;">"#,
-            labelwidth.trim_end_matches('%')
-          ));
+          let width = labelwidth.trim_end_matches('%');
+          self.push_with_values([r#"<col style="width: "#, width, r#"%;">"#]);
         } else {
           self.push_str("<col>");
         }
         if let Some(itemwidth) = itemwidth {
-          self.push_str(&format!(
-            r#"<col style="width: {}%;">"#,
-            itemwidth.trim_end_matches('%')
-          ));
+          let width = itemwidth.trim_end_matches('%');
+          self.push_with_values([r#"<col style="width: "#, width, r#"%;">"#]);
         } else {
           self.push_str("<col>");
         }
@@ -1098,13 +1094,13 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\"></a>"]);
+      self.push_with_values(["<a id=\"", id, "\"></a>"]);
     }
   }
 
   #[instrument(skip_all)]
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
+    self.push_with_values(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
   }
 
   #[instrument(skip_all)]
@@ -1138,15 +1134,14 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<b class="button">"#, text, "</b>"])
+    self.push_with_values([r#"<b class="button">"#, text, "</b>"])
   }
 
   #[instrument(skip_all)]
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
     self.push_str(r#"<span class="icon"#);
     attrs.roles.iter().for_each(|role| {
-      self.push_str(" ");
-      self.push_str(role);
+      self.push_with_values([" ", role]);
     });
     self.push_str(r#"">"#);
     let has_link = if let Some(link) = attrs.named("link") {
@@ -1161,14 +1156,14 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
         self.push_str("&#93;");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str_attr_escaped(attrs.named("alt").unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
@@ -1176,15 +1171,15 @@ impl Backend for AsciidoctorHtml {
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_attr_value(target);
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push_with_values([r#" fa-"#, size]);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push_with_values([r#" fa-flip-"#, flip]);
         }
         if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push_with_values([r#" fa-rotate-"#, rotate]);
         }
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1217,7 +1212,7 @@ impl Backend for AsciidoctorHtml {
         self.push_img_path(target);
         a_tag.push_str(&mem::replace(&mut self.html, html));
       } else {
-        a_tag.push_str_attr_escaped(link_href);
+        a_tag.push_attr_value(link_href);
       }
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
@@ -1267,7 +1262,7 @@ impl Backend for AsciidoctorHtml {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd>", key, "</kbd>"]);
+      self.push_with_values(["<kbd>", key, "</kbd>"]);
     }
     if keys.len() > 1 {
       self.push_str("</span>");
@@ -1374,7 +1369,7 @@ impl Backend for AsciidoctorHtml {
     {
       self.push_str(r#"<img src=""#);
       self.push_icon_img_path();
-      self.push_str(custom_icon);
+      self.push_attr_value(custom_icon);
       if !file::has_ext(custom_icon) {
         self.push_icon_inferred_img_ext();
       }
@@ -1439,7 +1434,7 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_str(href);
+      a_tag.push_attr_value(href);
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
@@ -1462,7 +1457,7 @@ impl Backend for AsciidoctorHtml {
     block: &Block,
   ) {
     if let Some(title) = attrs.named("title") {
-      self.render_block_title(title, block);
+      self.render_block_title(&backend::html::escaped_attr_text(title), block);
       if block.has_title() {
         self.discard_alt_buffer();
       }
@@ -1518,7 +1513,7 @@ impl Backend for AsciidoctorHtml {
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-      self.push([r#" id="_footnote_"#, id, "\""]);
+      self.push_with_values([r#" id="_footnote_"#, id, "\""]);
     }
     self.push_str(r#">[<a id="_footnoteref_"#);
     self.push([&nums, r##"" class="footnote" href="#_footnotedef_"##, &nums]);
@@ -1603,13 +1598,13 @@ impl AsciidoctorHtml {
       self.push_str(r#"<div class="title">"#);
     }
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push_str(custom_caption);
+      self.push_attr_value(custom_caption);
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push_str(&caption);
+      self.push_attr_value(&caption);
       self.push_ch(' ');
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
@@ -1659,7 +1654,7 @@ impl AsciidoctorHtml {
         }
         Some(custom) => custom,
       };
-      self.push([
+      self.push_with_values([
         r#"<link rel="stylesheet" href="https://fonts.googleapis.com/css?family="#,
         family,
         "\" />",
@@ -1696,9 +1691,9 @@ impl AsciidoctorHtml {
   }
 
   fn render_division_start(&mut self, id: &str) {
-    self.push([r#"<div id=""#, id, "\""]);
+    self.push_with_values([r#"<div id=""#, id, "\""]);
     if let Some(max_width) = self.doc_meta.string("max-width") {
-      self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+      self.push_with_values([r#" style="max-width: "#, &max_width, r#";">"#]);
     } else {
       self.push_str(">");
     }
@@ -1722,7 +1717,7 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push_with_values([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
@@ -1730,10 +1725,10 @@ impl AsciidoctorHtml {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([r#"<span id="revdate">"#, &revdate, "</span>"]);
+      self.push_with_values([r#"<span id="revdate">"#, &revdate, "</span>"]);
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push_with_values([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
     }
     self.push_str("</div>");
   }
@@ -1744,7 +1739,7 @@ impl AsciidoctorHtml {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str(r#"" class="author">"#);
-    self.push_str(&author.fullname());
+    self.push_specialchar_escaped(&author.fullname());
     self.push_str("</span><br>");
 
     if let Some(email) = &author.email {
@@ -1753,9 +1748,9 @@ impl AsciidoctorHtml {
         self.push_str(&(index + 1).to_string());
       }
       self.push_str(r#"" class="email"><a href="mailto:"#);
-      self.push_str(email);
+      self.push_attr_value(email);
       self.push_str(r#"">"#);
-      self.push_str(email);
+      self.push_specialchar_escaped(email);
       self.push_str("</a></span><br>");
     }
   }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index fe297bf..b4fd581 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -639,36 +639,34 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   fn maybe_entity(&mut self) -> Token<'arena> {
-    match self.peek() {
-      Some(b'#') if self.peek_n(1).is_some_and(|b| b.is_ascii_digit()) => {
-        self.finish_entity(1, |byte| byte.is_ascii_digit())
-      }
-      Some(b'#') if self.peek_n(1) == Some(b'x') => {
-        self.finish_entity(2, |byte| byte.is_ascii_hexdigit())
-      }
-      Some(byte) if byte.is_ascii_alphabetic() => {
-        self.finish_entity(1, |byte| byte.is_ascii_alphanumeric())
-      }
-      _ => self.single(Ampersand),
-    }
-  }
-
-  fn finish_entity(&mut self, initial_pos: usize, f: impl Fn(u8) -> bool) -> Token<'arena> {
-    let start = self.pos - 1;
-    let mut pos = initial_pos;
-    loop {
-      if self.peek_n(pos).is_some_and(&f) {
-        pos += 1;
-      } else if initial_pos < pos && self.peek_n(pos) == Some(b';') {
-        if start >= 1 && self.src.get((start - 1) as usize).copied() == Some(b'\\') {
-          return self.single(Ampersand);
+    let run = |from: usize, f: fn(&u8) -> bool| {
+      let bytes = &self.src[self.pos as usize..];
+      bytes.iter().skip(from).take_while(|b| f(b)).count()
+    };
+    let len = match self.peek() {
+      Some(b'#') if self.peek_n(1) == Some(b'x') => match run(2, u8::is_ascii_hexdigit) {
+        digits @ 2..=5 => digits + 2,
+        _ => return self.single(Ampersand),
+      },
+      Some(b'#') => match run(1, u8::is_ascii_digit) {
+        digits @ 2..=6 => digits + 1,
+        _ => return self.single(Ampersand),
+      },
+      _ => {
+        let letters = run(0, u8::is_ascii_alphabetic);
+        match run(letters, u8::is_ascii_digit) {
+          digits @ 0..=2 if letters > 1 => letters + digits,
+          _ => return self.single(Ampersand),
         }
-        self.pos += pos as u32 + 1;
-        return self.token(Entity, start, self.pos);
-      } else {
-        return self.single(Ampersand);
       }
+    };
+    let start = self.pos - 1;
+    let escaped = start >= 1 && self.src.get((start - 1) as usize).copied() == Some(b'\\');
+    if escaped || self.peek_n(len) != Some(b';') {
+      return self.single(Ampersand);
     }
+    self.pos += len as u32 + 1;
+    self.token(Entity, start, self.pos)
   }
 
   fn remaining_len(&self) -> u32 {
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 1d1146d..7329d30 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -345,6 +345,10 @@ impl<'arena> Parser<'arena> {
                 return Ok(());
               } else {
                 let src = line.consume_to_string_until_one_of(stop, self.bump);
+                if src.is_empty() {
+                  self.err_token_start("Invalid id attribute", &token)?;
+                  return Ok(());
+                }
                 attr_list.id = Some(src);
               }
             }
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 655ea97..37b5058 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -143,17 +143,45 @@ impl<'arena> Accum<'arena> {
 
   /// push the literal source of a token, without it's special meaning
   pub fn push_escaped_token(&mut self, token: &Token<'arena>, subs: Substitutions) {
-    if !subs.special_chars() || !matches!(token.kind, LessThan | GreaterThan | CalloutNumber) {
+    if !subs.special_chars() || !matches!(token.kind, LessThan | GreaterThan | CalloutNumber | AttrDef) {
       self.push_text_token(token);
       return;
     }
-    let mut loc = token.loc.clamp_start();
-    for c in token.lexeme.chars() {
+    self.push_special_chars(&token.lexeme, token.loc.clamp_start());
+  }
+
+  /// push source which turned out to have no special meaning
+  pub fn push_source_text(&mut self, source: &str, subs: Substitutions) {
+    if subs.special_chars() {
+      self.push_special_chars(source, self.text.loc.clamp_end());
+    } else {
+      self.text.push_str(source);
+    }
+  }
+
+  pub fn push_index_term(
+    &mut self,
+    node: Inline<'arena>,
+    loc: SourceLocation,
+    subs: Substitutions,
+  ) {
+    match node {
+      Inline::Text(invalid_macro) => {
+        self.text.loc = loc.clamp_start();
+        self.push_source_text(&invalid_macro, subs);
+      }
+      node => self.push_node(node, loc),
+    }
+  }
+
+  fn push_special_chars(&mut self, source: &str, mut loc: SourceLocation) {
+    for (pos, c) in source.char_indices() {
       let start = loc.end;
       loc.end += c.len_utf8() as u32;
       let kind = match c {
         '<' => SpecialCharKind::LessThan,
         '>' => SpecialCharKind::GreaterThan,
+        '&' if !regx::CHAR_REF.is_match(&source[pos..]) => SpecialCharKind::Ampersand,
         _ => {
           self.text.push_str(c.encode_utf8(&mut [0; 4]));
           continue;
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 01f2f43..c19dd7d 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -39,7 +39,7 @@ impl<'arena> Parser<'arena> {
       if self.should_stop_at(&line) {
         acc.inlines.remove_trailing_newline();
         lines.restore_if_nonempty(line);
-        return self.finish_inlines(acc, inline_attrs);
+        return self.finish_inlines(acc, inline_attrs, subs);
       }
 
       if line.is_comment() && !subs.callouts() {
@@ -66,7 +66,7 @@ impl<'arena> Parser<'arena> {
           line.discard(stop_tokens.len());
           acc.commit();
           lines.restore_if_nonempty(line);
-          return self.finish_inlines(acc, inline_attrs);
+          return self.finish_inlines(acc, inline_attrs, subs);
         }
 
         if subs.macros() && line.may_contain_inline_pass() {
@@ -122,7 +122,7 @@ impl<'arena> Parser<'arena> {
               push_newline_if_needed(&mut acc, lines);
               break;
             } else {
-              self.push_unused_inline_attrs(&mut acc, &mut inline_attrs);
+              self.push_unused_inline_attrs(&mut acc, &mut inline_attrs, subs);
               acc.push_text_token(&token);
             }
           }
@@ -241,8 +241,10 @@ impl<'arena> Parser<'arena> {
                 if !line.no_whitespace_until(OpenBracket) {
                   // turns out we didn't have a valid uri target here
                   acc.push_text_token(&token);
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  if line.current_is(UriScheme) {
+                    let next_token = line.consume_current().unwrap();
+                    acc.push_text_token(&next_token);
+                  }
                 } else {
                   let target = self
                     .macro_target_from_passthru(&mut line)
@@ -322,11 +324,11 @@ impl<'arena> Parser<'arena> {
               }
               "indexterm:" => {
                 let (node, loc) = self.parse_index_term_macro(false, &token, &mut line)?;
-                acc.push_node(node, loc);
+                acc.push_index_term(node, loc, subs);
               }
               "indexterm2:" => {
                 let (node, loc) = self.parse_index_term_macro(true, &token, &mut line)?;
-                acc.push_node(node, loc);
+                acc.push_index_term(node, loc, subs);
               }
               _ => {
                 let mut name = token.lexeme;
@@ -777,15 +779,7 @@ impl<'arena> Parser<'arena> {
             break;
           }
 
-          // already encoded entities, eg: &#8212;
-          Ampersand
-            if subs.char_replacement()
-              && line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) =>
-          {
-            acc.push_text_token(&token);
-          }
-
-          // entities are only preserved by the replacements sub
+          // already encoded entities, eg: &#8212;, are only preserved by the replacements sub
           Entity if subs.special_chars() && !subs.char_replacement() => {
             acc.push_node(
               SpecialChar(SpecialCharKind::Ampersand),
@@ -842,6 +836,9 @@ impl<'arena> Parser<'arena> {
             }
           }
 
+          // attr entry which turned out to be in a paragraph
+          AttrDef => acc.push_escaped_token(&token, subs),
+
           TokenKind::Newline => acc.push_node(Inline::Newline, token.loc),
 
           Discard => acc.text.loc = token.loc.clamp_end(),
@@ -932,14 +929,14 @@ impl<'arena> Parser<'arena> {
           }
 
           _ => {
-            self.push_unused_inline_attrs(&mut acc, &mut inline_attrs);
+            self.push_unused_inline_attrs(&mut acc, &mut inline_attrs, subs);
             acc.push_text_token(&token);
           }
         }
       }
     }
 
-    self.finish_inlines(acc, inline_attrs)
+    self.finish_inlines(acc, inline_attrs, subs)
   }
 
   /// the raw source text of the nodes, with attribute references resolved
@@ -956,9 +953,10 @@ impl<'arena> Parser<'arena> {
     &self,
     acc: &mut Accum<'arena>,
     inline_attrs: &mut Option<(AttrList, BumpString)>,
+    subs: Substitutions,
   ) {
     if let Some((_, text)) = inline_attrs.take() {
-      acc.text.push_str(&text);
+      acc.push_source_text(&text, subs);
     }
   }
 
@@ -966,8 +964,9 @@ impl<'arena> Parser<'arena> {
     &self,
     mut acc: Accum<'arena>,
     mut inline_attrs: Option<(AttrList, BumpString)>,
+    subs: Substitutions,
   ) -> Result<InlineNodes<'arena>> {
-    self.push_unused_inline_attrs(&mut acc, &mut inline_attrs);
+    self.push_unused_inline_attrs(&mut acc, &mut inline_attrs, subs);
     acc.commit();
     Ok(acc.trimmed_inlines())
   }
@@ -978,6 +977,7 @@ impl<'arena> Parser<'arena> {
         // these have no target
         "kbd:" | "btn:" | "indexterm:" | "indexterm2:" => line.current_is(OpenBracket),
         "mailto:" | "footnote:" => line.no_whitespace_until(OpenBracket),
+        "anchor:" => !line.current_is(OpenBracket) && !line.current_is(Backslash),
         "menu:" | "icon:" | "image:" => !line.current_is(OpenBracket),
         // valid inline passthrus are already processed
         "pass:" => false,
-- 
2.43.0


From 5d71ae5b89a14fabe742a5b0d474fc4b5dfe66b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 102/156] fix: empty lines before comments between lists are
 recognized after directives and if blank

---
 parser/src/lexer/root_lexer.rs        |  8 +++++---
 parser/src/lexer/source_lexer.rs      |  5 ++++-
 parser/src/parser.rs                  | 16 ++++++++++++----
 parser/src/tasks/parse_list.rs        |  9 +--------
 parser/src/tasks/table/parse_table.rs |  2 +-
 5 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 416beb0..78caf84 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -267,15 +267,17 @@ impl<'arena> RootLexer<'arena> {
     }
   }
 
-  pub fn consume_empty_lines(&mut self) {
+  /// returns whether there were any
+  pub fn consume_empty_lines(&mut self) -> bool {
     self.maybe_advance_source();
-    self.sources[self.idx as usize].consume_empty_lines();
+    let mut consumed = self.sources[self.idx as usize].consume_empty_lines();
     if self.sources[self.idx as usize].is_eof()
       && let Some(prev_idx) = self.source_stack.pop()
     {
       self.idx = prev_idx;
-      self.consume_empty_lines();
+      consumed |= self.consume_empty_lines();
     }
+    consumed
   }
 
   pub fn raw_lines(&'arena self) -> impl Iterator<Item = &'arena str> {
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index b4fd581..6cc86f9 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -160,10 +160,13 @@ impl<'arena> SourceLexer<'arena> {
     }
   }
 
-  pub fn consume_empty_lines(&mut self) {
+  /// returns whether there were any
+  pub fn consume_empty_lines(&mut self) -> bool {
+    let start = self.pos;
     while self.at_newline() {
       self.skip_newline();
     }
+    self.pos > start
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 5253d50..d6376d5 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -16,6 +16,8 @@ pub struct Parser<'arena> {
   pub(super) markdown_blockquote_lines: VecDeque<ContiguousLines<'arena>>,
   /// whether reading the last lines consumed the empty line that ended them
   pub(super) consumed_empty_line: bool,
+  /// start of the last chunk of lines, if preceded by an empty line
+  pub(super) empty_line_before: Option<SourceLocation>,
   /// lines being read continue a paragraph, or belong to a table or verbatim block
   pub(super) in_text: bool,
   pub(super) ctx: ParseContext<'arena>,
@@ -47,6 +49,7 @@ impl<'arena> Parser<'arena> {
       peeked_meta: None,
       markdown_blockquote_lines: VecDeque::new(),
       consumed_empty_line: false,
+      empty_line_before: None,
       in_text: false,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
@@ -171,11 +174,13 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
-    self.consumed_empty_line = false;
+    let mut after_empty_line = std::mem::take(&mut self.consumed_empty_line);
     if self.ctx.in_markdown_blockquote {
-      return Ok(self.markdown_blockquote_lines.pop_front());
+      let lines = self.markdown_blockquote_lines.pop_front();
+      self.empty_line_before = lines.as_ref().and_then(|lines| lines.first_loc());
+      return Ok(lines);
     }
-    self.lexer.consume_empty_lines();
+    after_empty_line |= self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
       return Ok(None);
     }
@@ -191,6 +196,7 @@ impl<'arena> Parser<'arena> {
           // this case can happen if our first non-empty line was an include directive
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
+          after_empty_line = true;
           continue;
         }
         // an include or conditional directive led to an empty line
@@ -225,6 +231,8 @@ impl<'arena> Parser<'arena> {
     }
     self.ctx.lines_in_comment = None;
     self.in_text = false;
+    let first_loc = lines.iter().find_map(|line| line.first_loc());
+    self.empty_line_before = first_loc.filter(|_| after_empty_line);
     if lines.is_empty() {
       Ok(None)
     } else {
@@ -299,7 +307,7 @@ impl<'arena> Parser<'arena> {
       return Ok(Some(lines));
     }
     self.in_text = true;
-    if self.consumed_empty_line {
+    if std::mem::take(&mut self.consumed_empty_line) {
       additional_lines.push(Line::empty(self.bump));
     }
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 68e982f..f4bd450 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -149,14 +149,7 @@ impl<'arena> Parser<'arena> {
   }
 
   fn follows_empty_line(&self, lines: &ContiguousLines<'arena>) -> bool {
-    let Some(loc) = lines.first_loc() else {
-      return false;
-    };
-    let mut bytes = (0..loc.start)
-      .rev()
-      .map(|pos| self.lexer.byte_at(pos, loc.include_depth))
-      .filter(|byte| *byte != Some(b'\r'));
-    bytes.next().is_none() || bytes.next() == Some(Some(b'\n'))
+    lines.first_loc().is_some_and(|loc| self.empty_line_before == Some(loc))
   }
 
   fn parse_list_item_blocks(
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 13ad692..76b8eb2 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -377,7 +377,7 @@ impl<'arena> Parser<'arena> {
       }
       line.drain_into(&mut tokens);
     }
-    if self.consumed_empty_line && !tokens.is_empty() {
+    if std::mem::take(&mut self.consumed_empty_line) && !tokens.is_empty() {
       tokens.push(newline_token(end, delim_loc.include_depth, self.bump));
       end += 1;
     }
-- 
2.43.0


From 2f5774770ee3c3395b36199071373faa6bf41e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 103/156] fix: text right under a part title is kept, explicit
 section ids survive sectids off, auto ids keep underscores

---
 parser/src/diagnostic.rs            |  3 +--
 parser/src/tasks/parse_book_part.rs |  8 +++++++-
 parser/src/tasks/section_id.rs      | 19 ++++++++++++++++---
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 0a7f500..0b851d3 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -65,8 +65,7 @@ impl Parser<'_> {
       if def.in_header && def.name == *key { Some(def.loc) } else { None }
     });
     let Some(loc) = loc else {
-      debug_assert!(false, "doc attr not found");
-      return Ok(());
+      return Ok(()); // set by the caller, not in the document
     };
     self.err_line_of(message, loc)
   }
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index f8d1b7e..5d15f65 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -27,6 +27,7 @@ impl<'arena> Parser<'arena> {
     heading_line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&heading_line, &meta.attrs);
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
+    self.restore_lines(lines);
     self.push_toc_node(
       authored_level,
       semantic_level,
@@ -36,10 +37,15 @@ impl<'arena> Parser<'arena> {
     );
 
     if let Some(id) = &id {
+      let reftext = meta
+        .attrs
+        .iter()
+        .find_map(|a| a.named.get("reftext"))
+        .cloned();
       self.document.anchors.borrow_mut().insert(
         id.clone(),
         Anchor {
-          reftext: None,
+          reftext,
           title: heading.clone(),
           source_loc: None,
           source_idx: self.lexer.source_idx(),
diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index 5bd735b..f805571 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -9,14 +9,14 @@ impl<'arena> Parser<'arena> {
     line: &Line<'arena>,
     attrs: &MultiAttrList<'arena>,
   ) -> Option<BumpString<'arena>> {
-    if self.document.meta.is_false("sectids") {
-      return None;
-    }
     if let Some(id) = attrs.id() {
       let custom_id = self.string(&id.src);
       self.ctx.anchor_ids.borrow_mut().insert(custom_id.clone());
       return Some(custom_id);
     }
+    if self.document.meta.is_false("sectids") {
+      return None;
+    }
     let id_sep = match self.document.meta.get("idseparator") {
       Some(AttrValue::Bool(true)) => None,
       Some(AttrValue::String(s)) => s.chars().next(),
@@ -56,7 +56,9 @@ impl<'arena> Parser<'arena> {
     id.push_str(prefix);
 
     let mut chars = line.chars().peekable();
+    let mut prev = ' ';
     while let Some(c) = chars.next() {
+      let before = std::mem::replace(&mut prev, c);
       match c {
         '<' if chars.peek() == Some(&'<') => {
           chars.next();
@@ -66,6 +68,17 @@ impl<'arena> Parser<'arena> {
             && chars.clone().any(|c| c == '>');
         }
         '>' => in_html_tag = false,
+        '-' | '.' if separator.is_none() => {
+          last_c = c;
+          id.push(c);
+        }
+        // part of a word, unless it's a formatting mark
+        '_' if before.is_alphanumeric() && chars.peek().is_some_and(|c| c.is_alphanumeric()) => {
+          if separator != Some('_') || last_c != '_' {
+            last_c = c;
+            id.push(c);
+          }
+        }
         ' ' | '-' | '.' | ',' | '\t' => {
           if separator.map(|c| c != last_c).unwrap_or(false) {
             id.push(separator.unwrap());
-- 
2.43.0


From 3e303dce04f5d589ebb5eb67d42b63ad6fe77511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 104/156] fix: contents list and headings agree on numbers,
 special sections are not numbered

---
 backend-html5s/src/html5s.rs            |   2 +
 backend/src/html/backend.rs             | 159 ++++++++++++++++++++----
 dr-html-backend/src/asciidoctor_html.rs |   2 +
 eval/src/eval.rs                        |  28 +++--
 4 files changed, 158 insertions(+), 33 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 2839c49..73c5038 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -39,6 +39,7 @@ impl Backend for Html5s {
     self.doc_meta = document.meta.clone();
     utils::set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
+    self.collect_sectnums(document);
 
     if !self.standalone() {
       return;
@@ -144,6 +145,7 @@ impl Backend for Html5s {
     if toc.position == TocPosition::Preamble {
       self.start_buffering();
     }
+    self.on_toc_enter();
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 3b124c4..8580520 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::{cell::RefCell, rc::Rc};
 
 use roman_numerals_fn::to_roman_numeral;
@@ -16,6 +16,15 @@ pub struct BackendState {
   pub section_nums: [u16; 5],
   pub section_num_before_appendix: u16,
   pub section_num_levels: isize,
+  /// the value of `sectnums` where the section of an id was written
+  pub sectnums_of: HashMap<String, Option<AttrValue>>,
+  /// how many sections around the current one are special and not numbered
+  pub unnumbered_depth: u16,
+  pub unnumbered_depth_before_toc: u16,
+  pub section_nums_before_toc: ([u16; 5], u16),
+  pub appendix_num_before_toc: u16,
+  pub part_num_before_toc: usize,
+  pub in_appendix_before_toc: bool,
   pub ephemeral: HashSet<EphemeralState>,
   pub appendix_caption_num: u16,
   pub book_part_num: usize,
@@ -184,11 +193,85 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
+  /// the contents list counts from the start of the document, wherever it is placed
+  fn on_toc_enter(&mut self) {
+    let state = self.state_mut();
+    let before_appendix = std::mem::take(&mut state.section_num_before_appendix);
+    state.section_nums_before_toc = (std::mem::take(&mut state.section_nums), before_appendix);
+    state.appendix_num_before_toc = std::mem::take(&mut state.appendix_caption_num);
+    state.part_num_before_toc = std::mem::take(&mut state.book_part_num);
+    state.unnumbered_depth_before_toc = std::mem::take(&mut state.unnumbered_depth);
+    state.in_appendix_before_toc = state.ephemeral.remove(&EphemeralState::InAppendix);
+  }
+
   fn on_toc_exit(&mut self) {
     let state = self.state_mut();
-    state.section_nums = [0; 5];
-    state.appendix_caption_num = 0;
-    state.book_part_num = 0;
+    (
+      state.section_nums,
+      state.section_num_before_appendix,
+    ) = state.section_nums_before_toc;
+    state.appendix_caption_num = state.appendix_num_before_toc;
+    state.book_part_num = state.part_num_before_toc;
+    state.unnumbered_depth = state.unnumbered_depth_before_toc;
+    if state.in_appendix_before_toc {
+      state.ephemeral.insert(EphemeralState::InAppendix);
+    }
+  }
+
+  /// `sectnums` can be turned off and on again between sections, which the contents list
+  /// (rendered before them) must know as well
+  fn collect_sectnums(&mut self, document: &Document) {
+    type Found = HashMap<String, Option<AttrValue>>;
+    fn visit(blocks: &[Block], meta: &mut DocumentMeta, found: &mut Found) {
+      for block in blocks {
+        match &block.content {
+          BlockContent::DocumentAttribute(name, value) if name == "sectnums" => {
+            _ = meta.insert_doc_attr(name, value.clone());
+          }
+          BlockContent::Section(section) => visit_section(section, meta, found),
+          _ => {}
+        }
+      }
+    }
+    fn visit_section(section: &Section, meta: &mut DocumentMeta, found: &mut Found) {
+      if let Some(id) = &section.id {
+        found.insert(id.to_string(), meta.get("sectnums").cloned());
+      }
+      visit(&section.blocks, meta, found);
+    }
+    if document.toc.is_none() {
+      return;
+    }
+    let mut meta = document.meta.clone();
+    let mut found = Found::new();
+    match &document.content {
+      DocContent::Blocks(blocks) => visit(blocks, &mut meta, &mut found),
+      DocContent::Sections(content) => {
+        let preamble = content.preamble.as_deref().unwrap_or_default();
+        visit(preamble, &mut meta, &mut found);
+        for section in &content.sections {
+          visit_section(section, &mut meta, &mut found);
+        }
+      }
+      DocContent::Parts(book) => {
+        let preamble = book.preamble.as_deref().unwrap_or_default();
+        visit(preamble, &mut meta, &mut found);
+        for section in &book.opening_special_sects {
+          visit_section(section, &mut meta, &mut found);
+        }
+        for part in &book.parts {
+          let intro = part.intro.as_deref().unwrap_or_default();
+          visit(intro, &mut meta, &mut found);
+          for section in &part.sections {
+            visit_section(section, &mut meta, &mut found);
+          }
+        }
+        for section in &book.closing_special_sects {
+          visit_section(section, &mut meta, &mut found);
+        }
+      }
+    }
+    self.state_mut().sectnums_of = found;
   }
 
   fn video_element(&mut self, target: &str, attrs: &AttrList) {
@@ -505,8 +588,13 @@ pub trait HtmlBackend: HtmlBuf {
     self.state_mut().section_nums = sect_nums;
   }
 
-  fn push_section_heading_prefix(&mut self, level: u8, special_sect: Option<SpecialSection>) {
-    if self.should_number_section(level, special_sect) {
+  fn push_section_heading_prefix(
+    &mut self,
+    level: u8,
+    special_sect: Option<SpecialSection>,
+    sectnums: Option<&AttrValue>,
+  ) {
+    if self.should_number_section(level, special_sect, sectnums) {
       if level == 1
         && self.doc_meta().get_doctype() == DocType::Book
         && let Some(chapter_signifier) = self.doc_meta().string("chapter-signifier")
@@ -517,29 +605,34 @@ pub trait HtmlBackend: HtmlBuf {
     }
   }
 
-  fn should_number_section(&self, level: u8, special_sect: Option<SpecialSection>) -> bool {
-    let Some(sectnums) = self.doc_meta().get("sectnums") else {
-      return false;
-    };
+  fn should_number_section(
+    &self,
+    level: u8,
+    special_sect: Option<SpecialSection>,
+    sectnums: Option<&AttrValue>,
+  ) -> bool {
     if !matches!(level, 1..=5) || self.section_num_levels() < level as isize {
       return false;
     }
     match sectnums {
-      AttrValue::String(val) if val == "all" => true,
-      AttrValue::Bool(true) => {
-        if let Some(special_sect) = special_sect {
-          self
-            .doc_meta()
-            .get_doctype()
-            .supports_special_section(special_sect)
-        } else {
-          true
-        }
+      Some(AttrValue::String(val)) if val == "all" => true,
+      Some(AttrValue::Bool(true)) => {
+        self.state().unnumbered_depth == 0 && !self.is_unnumbered(special_sect)
       }
       _ => false,
     }
   }
 
+  /// special sections (and what they contain) are not numbered, but for the lettered appendices
+  fn is_unnumbered(&self, special_sect: Option<SpecialSection>) -> bool {
+    match special_sect {
+      None | Some(SpecialSection::Appendix) => false,
+      // an abstract is a chapter of a book
+      Some(SpecialSection::Abstract) => self.doc_meta().get_doctype() != DocType::Book,
+      Some(_) => true,
+    }
+  }
+
   fn push_part_prefix(&mut self) {
     if self.doc_meta().is_true("partnums") {
       let book_part_num = self.book_part_num_mut();
@@ -698,14 +791,26 @@ pub trait HtmlBackend: HtmlBuf {
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.enter_appendix_state();
       self.push_appendix_caption();
-    } else if node.level == 0 {
+    } else if node.level == 0 && node.special_sect.is_none() {
       self.push_part_prefix();
     } else {
-      self.push_section_heading_prefix(node.level, node.special_sect);
+      let written = node.id.as_ref().and_then(|id| self.state().sectnums_of.get(&**id));
+      let sectnums = match written {
+        Some(sectnums) => sectnums.clone(),
+        None => self.doc_meta().get("sectnums").cloned(),
+      };
+      let level = node.level.max(1); // a special section of a book can be written as level 0
+      self.push_section_heading_prefix(level, node.special_sect, sectnums.as_ref());
+    }
+    if self.is_unnumbered(node.special_sect) {
+      self.state_mut().unnumbered_depth += 1;
     }
   }
 
   fn exit_toc_node(&mut self, node: &TocNode) {
+    if self.is_unnumbered(node.special_sect) {
+      self.state_mut().unnumbered_depth -= 1;
+    }
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.exit_appendix_state();
     }
@@ -726,6 +831,9 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn exit_section_state(&mut self, section: &Section) {
+    if self.is_unnumbered(section.meta.attrs.special_sect()) {
+      self.state_mut().unnumbered_depth -= 1;
+    }
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => self.exit_appendix_state(),
       Some(SpecialSection::Bibliography) => {
@@ -760,7 +868,12 @@ pub trait HtmlBackend: HtmlBuf {
     if section.meta.attrs.special_sect() == Some(SpecialSection::Appendix) {
       self.push_appendix_caption();
     } else {
-      self.push_section_heading_prefix(section.level, section.meta.attrs.special_sect());
+      let sectnums = self.doc_meta().get("sectnums").cloned();
+      let special_sect = section.meta.attrs.special_sect();
+      self.push_section_heading_prefix(section.level, special_sect, sectnums.as_ref());
+    }
+    if self.is_unnumbered(section.meta.attrs.special_sect()) {
+      self.state_mut().unnumbered_depth += 1;
     }
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 112a9a9..ff0e3fd 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -52,6 +52,7 @@ impl Backend for AsciidoctorHtml {
     self.doc_meta = document.meta.clone();
     set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
+    self.collect_sectnums(document);
     if document.meta.is_true("hardbreaks-option") {
       self.default_newlines = Newlines::JoinWithBreak
     }
@@ -165,6 +166,7 @@ impl Backend for AsciidoctorHtml {
     if toc.position == TocPosition::Preamble {
       self.push_str("</div>"); // close preamble section body
     }
+    self.on_toc_enter();
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 2616d07..5dfe377 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -99,10 +99,13 @@ fn is_rendered(block: &Block) -> bool {
 
 fn eval_book(book: &MultiPartBook, ctx: &Ctx, backend: &mut impl Backend) {
   if let Some(blocks) = &book.preamble {
-    backend.enter_preamble(ctx.doc.title().is_some(), blocks);
+    let wrap = ctx.doc.title().is_some() && blocks.iter().any(is_rendered);
+    backend.enter_preamble(wrap, blocks);
     blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-    eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
-    backend.exit_preamble(ctx.doc.title().is_some(), blocks);
+    if wrap {
+      eval_toc_at(&[TocPosition::Preamble], None, ctx, backend);
+    }
+    backend.exit_preamble(wrap, blocks);
   }
   book
     .opening_special_sects
@@ -128,14 +131,19 @@ fn eval_book_part(part: &Part, ctx: &Ctx, backend: &mut impl Backend) {
     .for_each(|node| eval_inline(node, ctx, backend));
   backend.exit_book_part_title(&part.title);
   if let Some(blocks) = &part.intro {
-    backend.enter_book_part_intro(part);
-    if let Some(title) = &part.title.meta.title() {
-      title.iter().for_each(|n| eval_inline(n, ctx, backend));
+    // comments and attribute definitions alone don't make an intro
+    if blocks.iter().any(is_rendered) {
+      backend.enter_book_part_intro(part);
+      if let Some(title) = &part.title.meta.title() {
+        title.iter().for_each(|n| eval_inline(n, ctx, backend));
+      }
+      backend.enter_book_part_intro_content(part);
+      blocks.iter().for_each(|b| eval_block(b, ctx, backend));
+      backend.exit_book_part_intro_content(part);
+      backend.exit_book_part_intro(part);
+    } else {
+      blocks.iter().for_each(|b| eval_block(b, ctx, backend));
     }
-    backend.enter_book_part_intro_content(part);
-    blocks.iter().for_each(|b| eval_block(b, ctx, backend));
-    backend.exit_book_part_intro_content(part);
-    backend.exit_book_part_intro(part);
   }
   part
     .sections
-- 
2.43.0


From 4eef00d43ac1d783eb099e0bc215115367da216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 105/156] fix: attribute values with special characters (links,
 captions, titles of images) are kept

---
 backend-html5s/src/html5s.rs            |  9 +++++----
 backend/src/html/backend.rs             |  5 ++---
 backend/src/html/open_tag.rs            |  4 ++--
 dr-html-backend/src/asciidoctor_html.rs | 14 ++++++++++----
 parser/src/tasks/parse_attr_list.rs     | 15 ++++++++++++++-
 5 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 73c5038..2bb5dac 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1321,7 +1321,7 @@ impl Backend for Html5s {
     img_kind: &ImageKind,
     block: &Block,
   ) {
-    let el = if block.has_title() || img_attrs.named("title").is_some() {
+    let el = if block.has_title() || img_attrs.named_nodes("title").is_some() {
       "figure"
     } else {
       "div"
@@ -1390,8 +1390,9 @@ impl Backend for Html5s {
     _img_kind: &ImageKind,
     block: &Block,
   ) {
-    if let Some(title) = img_attrs.named("title") {
-      self.render_block_title(&backend::html::escaped_attr_text(title), block, false);
+    if let Some(title) = img_attrs.named_nodes("title") {
+      let title = title.plain_text().join("");
+      self.render_block_title(&backend::html::escaped_attr_text(&title), block, false);
       if block.has_title() {
         self.discard_alt_buffer();
       }
@@ -1399,7 +1400,7 @@ impl Backend for Html5s {
       let title = self.take_buffer();
       self.render_block_title(&title, block, false);
     }
-    if block.has_title() || img_attrs.named("title").is_some() {
+    if block.has_title() || img_attrs.named_nodes("title").is_some() {
       self.push_str("</figure>");
     } else {
       self.push_str("</div>");
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 8580520..7bdf595 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -976,9 +976,8 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
   }
   backend.push_str(r#"" alt=""#);
-  if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-    backend.push_str_attr_escaped(alt);
-  } else if let Some(Some(nodes)) = attrs.positional.first() {
+  let nodes = attrs.named_nodes("alt");
+  if let Some(nodes) = nodes.or_else(|| attrs.positional.first()?.as_ref()) {
     let alt = nodes.plain_text().join("");
     backend.push_str_attr_escaped(&alt);
   } else {
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 30eb85d..e906da2 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -146,8 +146,8 @@ impl OpenTag {
       self.push_class("bare");
     }
     self.finish_classes();
-    if let Some(title) = attrs.named("title") {
-      self.push_html_attr("title", title)
+    if let Some(title) = attrs.named_nodes("title") {
+      self.push_html_attr("title", &title.plain_text().join(""))
     }
     if blank_window_shorthand {
       self.push_str(" target=\"_blank\" rel=\"noopener\"");
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ff0e3fd..03ab158 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1458,14 +1458,16 @@ impl Backend for AsciidoctorHtml {
     _img_kind: &ImageKind,
     block: &Block,
   ) {
-    if let Some(title) = attrs.named("title") {
-      self.render_block_title(&backend::html::escaped_attr_text(title), block);
+    let caption = attrs.named("caption");
+    if let Some(title) = attrs.named_nodes("title") {
+      let title = title.plain_text().join("");
+      self.render_captioned_title(&backend::html::escaped_attr_text(&title), caption, block);
       if block.has_title() {
         self.discard_alt_buffer();
       }
     } else if block.has_title() {
       let title = self.take_buffer();
-      self.render_block_title(&title, block);
+      self.render_captioned_title(&title, caption, block);
     }
     self.push_str(r#"</div>"#);
   }
@@ -1594,12 +1596,16 @@ impl AsciidoctorHtml {
   }
 
   fn render_block_title(&mut self, title: &str, block: &Block) {
+    self.render_captioned_title(title, None, block);
+  }
+
+  fn render_captioned_title(&mut self, title: &str, caption: Option<&str>, block: &Block) {
     if block.context == BlockContext::Table {
       self.push_str(r#"<caption class="title">"#);
     } else {
       self.push_str(r#"<div class="title">"#);
     }
-    if let Some(custom_caption) = block.meta.attrs.named("caption") {
+    if let Some(custom_caption) = caption.or_else(|| block.meta.attrs.named("caption")) {
       self.push_attr_value(custom_caption);
     } else if let Some(caption) = block
       .context
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 7329d30..b2e9cb6 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -303,8 +303,21 @@ impl<'arena> Parser<'arena> {
         } else {
           Substitutions::attr_value()
         };
-        let nodes = self.parse_attr_nodes(tokens)?.unwrap();
+        let mut src = BumpString::new_in(self.bump);
+        for token in tokens.iter().filter(|t| t.kind != TokenKind::AttrRef) {
+          src.push_str(&token.lexeme);
+        }
+        let mut nodes = self.parse_attr_nodes(tokens)?.unwrap();
         self.ctx.subs = restore;
+        // all but these are used as plain strings (targets, captions, sizes, etc.)
+        if !matches!(name.src.as_str(), "title" | "reftext" | "alt")
+          && !nodes.is_empty()
+          && nodes.single_text().is_none()
+          && let Some(loc) = nodes.loc().and_then(|multi_loc| multi_loc.coalesce())
+        {
+          nodes = InlineNodes::new(self.bump);
+          nodes.push(InlineNode::new(Inline::Text(src), loc));
+        }
         attr_list.insert_named(name, nodes);
       }
       AttrIr::Options(groups) => self.push_attr_groups(groups, &mut attr_list.options),
-- 
2.43.0


From 9985fa9e51da450fa3d155a5ea8c64d6e20f7047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 106/156] fix: own captions show on the macro's image, not in
 titles of uncaptioned blocks

---
 backend-html5s/src/html5s.rs            | 28 +++++++++++++++++--------
 dr-html-backend/src/asciidoctor_html.rs | 11 +++++-----
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 2bb5dac..994130c 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1390,15 +1390,16 @@ impl Backend for Html5s {
     _img_kind: &ImageKind,
     block: &Block,
   ) {
+    let caption = img_attrs.named("caption");
     if let Some(title) = img_attrs.named_nodes("title") {
-      let title = title.plain_text().join("");
-      self.render_block_title(&backend::html::escaped_attr_text(&title), block, false);
+      let title = backend::html::escaped_attr_text(&title.plain_text().join(""));
+      self.render_captioned_title(&title, caption, block, false);
       if block.has_title() {
         self.discard_alt_buffer();
       }
     } else if block.has_title() {
       let title = self.take_buffer();
-      self.render_block_title(&title, block, false);
+      self.render_captioned_title(&title, caption, block, false);
     }
     if block.has_title() || img_attrs.named_nodes("title").is_some() {
       self.push_str("</figure>");
@@ -1506,6 +1507,16 @@ impl Html5s {
   }
 
   fn render_block_title(&mut self, title: &str, block: &Block, wrap_in_h6: bool) {
+    self.render_captioned_title(title, None, block, wrap_in_h6);
+  }
+
+  fn render_captioned_title(
+    &mut self,
+    title: &str,
+    caption: Option<&str>,
+    block: &Block,
+    wrap_in_h6: bool,
+  ) {
     if wrap_in_h6 {
       self.push_str(r#"<h6 class="block-title">"#);
     }
@@ -1518,14 +1529,13 @@ impl Html5s {
       BlockContext::Video => ("<figcaption>", "</figcaption>"),
       _ => ("", ""),
     };
-    if let Some(custom_caption) = block.meta.attrs.named("caption") {
+    let attr_name = block.context.caption_attr_name();
+    if attr_name.is_some()
+      && let Some(custom_caption) = caption.or_else(|| block.meta.attrs.named("caption"))
+    {
       self.push_with_values([open, custom_caption]);
       self.push([title, close]);
-    } else if let Some(caption) = block
-      .context
-      .caption_attr_name()
-      .and_then(|attr_name| self.doc_meta.string(attr_name))
-    {
+    } else if let Some(caption) = attr_name.and_then(|name| self.doc_meta.string(name)) {
       self.push_with_values([open, &caption, " "]);
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 03ab158..2a5b733 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1605,13 +1605,12 @@ impl AsciidoctorHtml {
     } else {
       self.push_str(r#"<div class="title">"#);
     }
-    if let Some(custom_caption) = caption.or_else(|| block.meta.attrs.named("caption")) {
-      self.push_attr_value(custom_caption);
-    } else if let Some(caption) = block
-      .context
-      .caption_attr_name()
-      .and_then(|attr_name| self.doc_meta.string(attr_name))
+    let attr_name = block.context.caption_attr_name();
+    if attr_name.is_some()
+      && let Some(custom_caption) = caption.or_else(|| block.meta.attrs.named("caption"))
     {
+      self.push_attr_value(custom_caption);
+    } else if let Some(caption) = attr_name.and_then(|name| self.doc_meta.string(name)) {
       self.push_attr_value(&caption);
       self.push_ch(' ');
       let num = match block.context {
-- 
2.43.0


From 9be35540ff1ea5c8cfc854b00a3af2f3d33e3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 107/156] fix: AsciiDoc table cells start from the attributes
 in effect, keep include depth limit and plugin macros

---
 core/src/attrs.rs              |  4 ++++
 core/src/document_meta.rs      |  2 ++
 parser/src/lexer/root_lexer.rs | 10 +++++++++-
 parser/src/parse_context.rs    |  2 +-
 parser/src/parser.rs           |  1 +
 5 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/attrs.rs b/core/src/attrs.rs
index 8368cb4..c486efc 100644
--- a/core/src/attrs.rs
+++ b/core/src/attrs.rs
@@ -132,6 +132,10 @@ impl Attrs {
     Self(HashMap::new())
   }
 
+  pub fn extend(&mut self, other: Self) {
+    self.0.extend(other.0);
+  }
+
   pub fn defaults() -> Self {
     Self(HashMap::from_iter(
       [
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..994abd4 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -74,6 +74,8 @@ impl DocumentMeta {
   pub fn clone_for_cell(&self) -> Self {
     let mut dm = self.clone();
     dm.set_doctype(DocType::Article);
+    // the cell starts from the attrs in effect here, but may change them, even in its own header
+    dm.header_attrs.extend(std::mem::take(&mut dm.doc_attrs));
     // toc in asciidoc cells are disconnected, see:
     // https://github.com/asciidoctor/asciidoctor/issues/4017
     dm.remove_attr("toc");
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 78caf84..887f657 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -398,7 +398,15 @@ impl<'arena> RootLexer<'arena> {
     for name in names {
       macros.push(BumpString::from_str_in(name.as_ref(), self.bump));
     }
-    self.plugin_macros = Rc::new(macros);
+    self.set_plugin_macros(Rc::new(macros));
+  }
+
+  pub fn share_plugin_macros(&mut self, other: &Self) {
+    self.set_plugin_macros(Rc::clone(&other.plugin_macros));
+  }
+
+  fn set_plugin_macros(&mut self, macros: Rc<BumpVec<'arena, BumpString<'arena>>>) {
+    self.plugin_macros = macros;
     for lexer in self.sources.iter_mut() {
       lexer.plugin_macros = Rc::clone(&self.plugin_macros);
     }
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index cb25383..70c4aa9 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -120,7 +120,7 @@ impl<'arena> ParseContext<'arena> {
       table_cell_ctx: TableCellContext::AsciiDocCell,
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
-      max_include_depth: 64,
+      max_include_depth: self.max_include_depth,
       lines_in_comment: None,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index d6376d5..d1a5998 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -100,6 +100,7 @@ impl<'arena> Parser<'arena> {
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(offset);
+    cell_parser.lexer.share_plugin_macros(&self.lexer);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
-- 
2.43.0


From f1ac85f51e6b9a85bf2ed90353b7e38cfeebb61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 108/156] fix: empty attributes, and missing references in
 values, cells and ifeval, follow attribute-missing

---
 parser/src/parser.rs                  |  9 ++++
 parser/src/tasks/attr_refs.rs         | 62 +++++++++++++++++++++++++--
 parser/src/tasks/parse_block.rs       |  6 +--
 parser/src/tasks/parse_doc_attrs.rs   | 45 ++++++++++++++++++-
 parser/src/tasks/table/parse_table.rs |  6 +++
 5 files changed, 118 insertions(+), 10 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index d1a5998..c86213c 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -20,6 +20,9 @@ pub struct Parser<'arena> {
   pub(super) empty_line_before: Option<SourceLocation>,
   /// lines being read continue a paragraph, or belong to a table or verbatim block
   pub(super) in_text: bool,
+  pub(super) in_table: bool,
+  /// the lines following an attr entry are read again once it is in effect
+  pub(super) after_attr_decl: bool,
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
@@ -51,6 +54,8 @@ impl<'arena> Parser<'arena> {
       consumed_empty_line: false,
       empty_line_before: None,
       in_text: false,
+      in_table: false,
+      after_attr_decl: false,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       strict: true,
@@ -222,9 +227,11 @@ impl<'arena> Parser<'arena> {
           delim @ Some(_) if open_table.is_none() => open_table = delim,
           _ => {}
         }
+        self.in_table = open_table.is_some();
         self.in_text = !self.ctx.in_header && (open_table.is_some() || self.continues_text(&line));
       }
       let ends_chunk = self.ends_chunk(&lines, &line);
+      self.after_attr_decl |= line.is_attr_decl() && !self.ctx.in_header;
       lines.push(line);
       if ends_chunk || self.lexer.at_newline() {
         break;
@@ -232,6 +239,8 @@ impl<'arena> Parser<'arena> {
     }
     self.ctx.lines_in_comment = None;
     self.in_text = false;
+    self.in_table = false;
+    self.after_attr_decl = false;
     let first_loc = lines.iter().find_map(|line| line.first_loc());
     self.empty_line_before = first_loc.filter(|_| after_empty_line);
     if lines.is_empty() {
diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index a26ba0c..09ef7dc 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -58,8 +58,13 @@ impl<'arena> Parser<'arena> {
     } else if token.kind(TokenKind::AttrRef)
       && (self.ctx.subs.attr_refs() || self.reading_include_directive(line))
     {
-      match self.document.meta.get(&token.lowercase_attr_name()) {
-        Some(AttrValue::String(attr_val)) => {
+      let attr_val = match self.document.meta.get(&token.lowercase_attr_name()) {
+        Some(AttrValue::String(val)) => Some(val.as_str()),
+        Some(AttrValue::Bool(true)) => Some(""),
+        _ => None,
+      };
+      match attr_val {
+        Some(attr_val) => {
           #[cfg(feature = "attr_ref_observation")]
           if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
             observer.attr_ref_replaced(token.attr_name(), token.loc);
@@ -78,9 +83,9 @@ impl<'arena> Parser<'arena> {
               buf_loc = BufLoc::From(def.val_loc);
             }
             self.lexer.set_tmp_buf(attr_val, buf_loc);
+            self.ctx.replacing_attr = true;
           }
           line.push(token);
-          self.ctx.replacing_attr = true;
         }
         _ => {
           #[cfg(feature = "attr_ref_observation")]
@@ -88,11 +93,18 @@ impl<'arena> Parser<'arena> {
             observer.attr_ref_missing(token.attr_name(), token.loc);
           }
           match self.document.meta.str("attribute-missing") {
+            // the directive itself resolves these
+            _ if line.current_token().matches(TokenKind::Directive, "ifeval::") => line.push(token),
+            // depends on the style of the cell, see `apply_attribute_missing()`
+            _ if self.in_table => {
+              token.kind = TokenKind::Word;
+              line.push(token);
+            }
             Some("drop") => {}
             Some("drop-line") => *drop_line = true,
             val => {
               token.kind = TokenKind::Word;
-              if val == Some("warn") {
+              if val == Some("warn") && !self.after_attr_decl {
                 self.err_token_full("Skipping reference to missing attribute", &token)?;
               }
               line.push(token);
@@ -106,6 +118,48 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  /// handles the missing references of a table cell's lines
+  pub(crate) fn apply_attribute_missing(&self, tokens: &mut Line<'arena>) -> Result<()> {
+    let is_missing = |t: &Token| {
+      t.kind(TokenKind::Word)
+        && !t.attr_replacement
+        && t.lexeme.starts_with('{')
+        && t.lexeme.ends_with('}')
+    };
+    let mode = match self.document.meta.str("attribute-missing") {
+      Some(mode @ ("drop" | "drop-line" | "warn")) if tokens.iter().any(is_missing) => mode,
+      _ => return Ok(()),
+    };
+    if mode == "warn" {
+      for token in tokens.iter().filter(|t| is_missing(t)) {
+        self.err_token_full("Skipping reference to missing attribute", token)?;
+      }
+      return Ok(());
+    }
+    let mut kept = Line::with_capacity(tokens.num_tokens(), self.bump);
+    let mut line_start = 0;
+    let mut dropping = false;
+    while let Some(token) = tokens.consume_current() {
+      if token.kind(TokenKind::Newline) {
+        if !std::mem::take(&mut dropping) {
+          kept.push(token);
+          line_start = kept.num_tokens();
+        }
+      } else if dropping || (is_missing(&token) && mode == "drop") {
+        continue;
+      } else if is_missing(&token) {
+        dropping = true;
+        while kept.num_tokens() > line_start {
+          kept.pop();
+        }
+      } else {
+        kept.push(token);
+      }
+    }
+    *tokens = kept;
+    Ok(())
+  }
+
   pub(crate) fn insert_job_attr(&mut self, key: &str, value: impl Into<AttrValue>) {
     self
       .document
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index bd03aeb..e90adc3 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -138,8 +138,7 @@ impl<'arena> Parser<'arena> {
         let mut def = self.ctx.attr_defs.remove(pos);
         if def.has_lbrace {
           let str_val = def.value.str().unwrap(); // only str type could have lbrace
-          let replaced = self.replace_attr_vals(str_val);
-          def.value = AttrValue::String(replaced.into_owned());
+          def.value = AttrValue::String(self.resolve_attr_def_val(str_val, first_token)?);
         }
         self.ctx.attr_defs.push(def.clone());
         if let Err(err) = self
@@ -151,8 +150,7 @@ impl<'arena> Parser<'arena> {
         }
         lines.consume_current(); // attr def
         let src_idx = def.loc.include_depth;
-        if !lines.is_empty()
-          && self.lexer.source_idx() == src_idx
+        if self.lexer.source_idx() == src_idx
           && lines
             .iter()
             .all(|l| l.first_loc().is_none_or(|loc| loc.include_depth == src_idx))
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index dd6369b..a71b7ea 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -96,6 +96,8 @@ impl<'arena> Parser<'arena> {
     loop {
       if attr_def_string.ends_with(" \\") {
         attr_def_string.pop();
+        let len = attr_def_string.trim_end_matches([' ', '\t']).len() + 1;
+        attr_def_string.truncate(len);
 
         // https://docs.asciidoctor.org/asciidoc/latest/attributes/wrap-values/#hard
         if attr_def_string.ends_with(" + ") {
@@ -124,7 +126,7 @@ impl<'arena> Parser<'arena> {
         let next_line = self
           .lexer
           .str_from_loc(SourceLocation::new(line_start, pos, depth));
-        attr_def_string.push_str(next_line);
+        attr_def_string.push_str(next_line.trim_start());
       } else {
         break;
       }
@@ -143,7 +145,7 @@ impl<'arena> Parser<'arena> {
         self.err_line_starting("Cannot unset attr with `!` AND provide value", token.loc)?;
       }
       let mut value_string = if has_lbrace && self.ctx.in_header {
-        self.replace_attr_vals(value_str).into_owned()
+        self.resolve_attr_def_val(value_str, token)?
       } else {
         value_str.to_string()
       };
@@ -258,6 +260,45 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// unlike directives and targets, values keep their missing references (see `attribute-missing`)
+  pub(crate) fn resolve_attr_def_val(&self, value: &str, def: &Token<'arena>) -> Result<String> {
+    let meta = &self.document.meta;
+    let mut resolved = String::with_capacity(value.len());
+    let mut pos = 0;
+    for caps in regx::ATTR_VAL_REPLACE.captures_iter(value) {
+      let (full, name) = (caps.get(0).unwrap(), caps[1].to_lowercase());
+      resolved.push_str(&value[pos..full.start()]);
+      pos = full.end();
+      if !name.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_')
+        || !name.bytes().all(is_attr_word_char)
+      {
+        resolved.push_str(full.as_str());
+        continue;
+      }
+      if resolved.ends_with('\\') {
+        resolved.pop();
+        resolved.push_str(full.as_str());
+        continue;
+      }
+      match meta.get(&name) {
+        Some(AttrValue::String(replace)) => resolved.push_str(replace),
+        Some(AttrValue::Bool(true)) => {}
+        _ => match meta.str("attribute-missing") {
+          Some("drop") => {}
+          Some("drop-line") => return Ok(String::new()),
+          mode => {
+            if mode == Some("warn") {
+              self.err_token_full("Skipping reference to missing attribute", def)?;
+            }
+            resolved.push_str(full.as_str());
+          }
+        },
+      }
+    }
+    resolved.push_str(&value[pos..]);
+    Ok(resolved)
+  }
+
   pub(crate) fn replace_attr_vals<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
     regx::ATTR_VAL_REPLACE.replace_all(haystack, |caps: &regex::Captures| {
       if let Some(AttrValue::String(replace)) =
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 76b8eb2..fccc20e 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -302,6 +302,9 @@ impl<'arena> Parser<'arena> {
     mut data: ParseCellData<'arena>,
     cell_style: CellContentStyle,
   ) -> Result<Cell<'arena>> {
+    if cell_style != CellContentStyle::Literal {
+      self.apply_attribute_missing(&mut data.cell_tokens)?;
+    }
     let nodes = if data.cell_tokens.is_empty() {
       InlineNodes::new(self.bump)
     } else {
@@ -382,6 +385,7 @@ impl<'arena> Parser<'arena> {
       end += 1;
     }
     self.in_text = true;
+    self.in_table = true;
     while let Some(next_line) = self.read_line()? {
       if next_line.is_comment() {
         continue;
@@ -393,6 +397,7 @@ impl<'arena> Parser<'arena> {
       // TODO(perf): src_eq is O(n), see if we can refactor
       if next_line.src_eq(start_delim) {
         self.in_text = false;
+        self.in_table = false;
         return Ok((TableTokens::new(tokens), next_line.last_loc().unwrap()));
       }
       if let Some(loc) = next_line.last_loc() {
@@ -401,6 +406,7 @@ impl<'arena> Parser<'arena> {
       next_line.drain_into(&mut tokens);
     }
     self.in_text = false;
+    self.in_table = false;
     while tokens.last().kind(TokenKind::Newline) {
       tokens.pop();
     }
-- 
2.43.0


From 0a37cc21cddb83342c6924f3e8321da0897850d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 109/156] fix: html5s keeps ids, roles and titles of nested
 lists and abstract paragraphs

---
 backend-html5s/src/html5s.rs | 47 +++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 994130c..c1e500d 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -499,7 +499,7 @@ impl Backend for Html5s {
     if items.iter().any(ListItem::is_checklist) {
       list.push_class("task-list");
     }
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_open_tag(wrap);
     }
     self.render_buffered_block_title(block, true);
@@ -509,7 +509,7 @@ impl Backend for Html5s {
   fn exit_unordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ul>");
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -532,7 +532,7 @@ impl Backend for Html5s {
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
-    if depth == 1 {
+    if wraps_list(block, depth) {
       tag.push_class("dlist");
     }
     let is_horizontal = block.meta.attrs.has_str_positional("horizontal");
@@ -547,7 +547,7 @@ impl Backend for Html5s {
       self.state.ephemeral.insert(InGlossaryList);
       tag.push_class("glossary");
     }
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_open_tag(tag);
       if is_qanda {
         self.html.pop();
@@ -570,7 +570,7 @@ impl Backend for Html5s {
   fn exit_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.ephemeral.remove(&InGlossaryList);
     self.push_str("</dl>");
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -609,7 +609,7 @@ impl Backend for Html5s {
 
   fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
     let (class, list_type) = self.start_enter_ordered_list(block, depth);
-    if depth == 1 {
+    if wraps_list(block, depth) {
       let classes = &["olist", class];
       let el = if block.has_title() { "section" } else { "div" };
       self.open_element(el, classes, &block.meta.attrs);
@@ -621,7 +621,7 @@ impl Backend for Html5s {
   fn exit_ordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ol>");
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -667,12 +667,12 @@ impl Backend for Html5s {
     if self.doc_meta.get_doctype() == DocType::Inline {
       return;
     }
+    if block.meta.attrs.special_sect() == Some(SpecialSection::Abstract) {
+      self.enter_open_block(block);
+      return;
+    }
     if block.has_title() {
-      if block.meta.attrs.special_sect() == Some(SpecialSection::Abstract) {
-        self.push_str(r#"<section class="quote-block abstract">"#);
-      } else {
-        self.push_str(r#"<section class="paragraph">"#);
-      }
+      self.push_str(r#"<section class="paragraph">"#);
       self.render_buffered_block_title(block, true);
     }
     if !self
@@ -680,11 +680,7 @@ impl Backend for Html5s {
       .ephemeral
       .contains(&VisitingSimpleTermDescription)
     {
-      if block.meta.attrs.special_sect() == Some(SpecialSection::Abstract) {
-        self.push_str("<blockquote>");
-      } else {
-        self.open_element("p", &[], &block.meta.attrs);
-      }
+      self.open_element("p", &[], &block.meta.attrs);
     }
   }
 
@@ -692,16 +688,17 @@ impl Backend for Html5s {
     if self.doc_meta.get_doctype() == DocType::Inline {
       return;
     }
+    if block.meta.attrs.special_sect() == Some(SpecialSection::Abstract) {
+      self.exit_open_block(block);
+      self.state.ephemeral.remove(&VisitingSimpleTermDescription);
+      return;
+    }
     if !self
       .state
       .ephemeral
       .contains(&VisitingSimpleTermDescription)
     {
-      if block.meta.attrs.special_sect() == Some(SpecialSection::Abstract) {
-        self.push_str("</blockquote>");
-      } else {
-        self.push_str("</p>");
-      }
+      self.push_str("</p>");
     }
     if block.has_title() {
       self.push_str(r#"</section>"#);
@@ -1677,6 +1674,12 @@ fn finish_open_table_tag(tag: &mut OpenTag, block: &Block, doc_meta: &DocumentMe
   }
 }
 
+// nested lists have no wrapper, unless their id, roles or title need one
+fn wraps_list(block: &Block, depth: u8) -> bool {
+  let attrs = &block.meta.attrs;
+  depth == 1 || block.has_title() || attrs.id().is_some() || attrs.roles().next().is_some()
+}
+
 fn quote_entities(lang: &str) -> [&'static str; 4] {
   match lang {
     "bs" | "fi" | "sv" => ["&#x2019;", "&#x2019;", "&#x201d;", "&#x201d;"],
-- 
2.43.0


From 64fbe69c93ca7e5f7f6ea6a73b03fb0ec4754083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 110/156] fix: diagnostics give the source line, and lines and
 files of table cells spanning includes; underlines stay in the line

---
 parser/src/diagnostic.rs              | 22 ++++++++++++++++++----
 parser/src/lexer/root_lexer.rs        | 23 +++++++++++++++++------
 parser/src/line.rs                    | 13 +++++++++++++
 parser/src/parser.rs                  |  9 +++++++--
 parser/src/tasks/table/parse_table.rs | 15 ++++++++++++---
 5 files changed, 67 insertions(+), 15 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 0b851d3..365337b 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -14,13 +14,12 @@ impl Parser<'_> {
   pub(crate) fn err_line(&self, message: impl Into<String>, line: &Line) -> Result<()> {
     let loc = line.first_loc().expect("non empty line for `err_line`");
     let (line_num, offset) = self.lexer.line_number_with_offset(loc);
-    let line = line.reassemble_src().to_string();
     self.handle_err(Diagnostic {
       line_num,
       message: message.into(),
       underline_start: offset,
-      underline_width: line.len() as u32,
-      line,
+      underline_width: line.reassemble_src().len() as u32,
+      line: self.lexer.line_of(loc).to_string(),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
   }
@@ -151,7 +150,8 @@ impl Parser<'_> {
     self.handle_err(diagnostic)
   }
 
-  fn handle_err(&self, err: Diagnostic) -> Result<()> {
+  fn handle_err(&self, mut err: Diagnostic) -> Result<()> {
+    err.clamp_underline();
     if self.strict {
       Err(err)
     } else {
@@ -177,6 +177,20 @@ pub trait DiagnosticColor {
 }
 
 impl Diagnostic {
+  /// underlines end with the line, and cover whole characters
+  fn clamp_underline(&mut self) {
+    let mut start = (self.underline_start as usize).min(self.line.len());
+    let mut end = (start + self.underline_width as usize).min(self.line.len());
+    while !self.line.is_char_boundary(start) {
+      start -= 1;
+    }
+    while !self.line.is_char_boundary(end) {
+      end += 1;
+    }
+    self.underline_start = start as u32;
+    self.underline_width = (end - start).max(1) as u32;
+  }
+
   pub fn plain_text(&self) -> String {
     struct NoColor;
     impl DiagnosticColor for NoColor {}
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 887f657..a337a84 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -318,12 +318,23 @@ impl<'arena> RootLexer<'arena> {
     self.sources[loc.include_depth as usize].line_number_with_offset(loc.start)
   }
 
-  pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
-    let before_offset = self.line_number(offset_loc) - 1;
-    diagnostics
-      .iter_mut()
-      .for_each(|diag| diag.line_num += before_offset);
+  /// diagnostics of (the text of) a table cell get the place its lines are from
+  pub fn reline_diagnostics(
+    &self,
+    line_locs: &[SourceLocation],
+    cell_file: &SourceFile,
+    diagnostics: &mut [Diagnostic],
+  ) {
+    for diag in diagnostics {
+      let Some(loc) = line_locs.get((diag.line_num as usize).saturating_sub(1)) else {
+        continue;
+      };
+      if diag.source_file != *cell_file {
+        continue; // file included in the cell
+      }
+      diag.line_num = self.line_number(*loc);
+      diag.source_file = self.source_file_at(loc.include_depth).clone();
+    }
   }
 
   pub fn next_token(&mut self) -> Token<'arena> {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index fc568a9..096cee3 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -180,6 +180,19 @@ impl<'arena> Line<'arena> {
     bytes
   }
 
+  /// where each of the lines starts
+  pub fn line_locs(&self) -> Vec<SourceLocation> {
+    let mut locs = Vec::new();
+    let mut at_start = true;
+    for token in self.tokens.iter() {
+      if at_start {
+        locs.push(token.loc);
+      }
+      at_start = token.kind(Newline);
+    }
+    locs
+  }
+
   pub const fn bump_arena(&self) -> &'arena Bump {
     self.tokens.bump
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index c86213c..202651d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -100,8 +100,13 @@ impl<'arena> Parser<'arena> {
     self.attr_ref_observer = Some(observer);
   }
 
-  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, offset: u32) -> Parser<'arena> {
-    let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
+  pub fn cell_parser(
+    &mut self,
+    src: BumpVec<'arena, u8>,
+    file: SourceFile,
+    offset: u32,
+  ) -> Parser<'arena> {
+    let mut cell_parser = Parser::new(src, file, self.bump);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(offset);
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index fccc20e..d5fa635 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -215,7 +215,12 @@ impl<'arena> Parser<'arena> {
       }
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), loc.start);
+      let line_locs = cell_tokens.line_locs();
+      let cell_file = match cell_tokens.first_loc() {
+        Some(loc) => self.lexer.source_file_at(loc.include_depth).clone(),
+        None => self.lexer.source_file().clone(),
+      };
+      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), cell_file.clone(), loc.start);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -227,7 +232,9 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(loc.start, &mut warnings);
+            self
+              .lexer
+              .reline_diagnostics(&line_locs, &cell_file, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -241,7 +248,9 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(loc.start, &mut diagnostics);
+          self
+            .lexer
+            .reline_diagnostics(&line_locs, &cell_file, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From 3b1e3e08a95b658689ba6f10ac3794f4306f2938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 111/156] fix: references in AsciiDoc cells, and lines selected
 by tags, are diagnosed at their place; no panic for those in files included
 by cells; indent= ignores blank lines

---
 parser/src/lexer/root_lexer.rs                | 46 +++++++--
 parser/src/lexer/source_lexer.rs              |  8 ++
 parser/src/parse_context.rs                   |  2 +-
 parser/src/parse_result.rs                    |  9 ++
 parser/src/parser.rs                          |  5 +
 parser/src/tasks/anchors.rs                   |  2 +-
 parser/src/tasks/diagnose_document.rs         | 94 +++++++++++++------
 .../directives/includes/process_includes.rs   | 11 ++-
 parser/src/tasks/directives/includes/tags.rs  |  5 +
 parser/src/tasks/parse_inlines/mod.rs         |  4 +-
 parser/src/tasks/table/parse_table.rs         | 12 ++-
 11 files changed, 158 insertions(+), 40 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index a337a84..46576ed 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -88,6 +88,7 @@ impl<'arena> RootLexer<'arena> {
     leveloffset: i8,
     max_include_depth: Option<u16>,
     mut src_bytes: BumpVec<'arena, u8>,
+    line_nums: Option<Vec<u32>>,
   ) {
     // match asciidoctor - its include processor returns an array of lines
     // so even if the source has no trailing newline, it's inserted as a full line
@@ -105,6 +106,7 @@ impl<'arena> RootLexer<'arena> {
     );
     // NB: already removed from included asciidoc files
     lexer.keep_trailing_blanks = true;
+    lexer.line_nums = line_nums;
     self.sources.push(lexer);
     let next_idx = self.sources.len() as u16 - 1;
     self.next_idx = Some(next_idx);
@@ -326,17 +328,34 @@ impl<'arena> RootLexer<'arena> {
     diagnostics: &mut [Diagnostic],
   ) {
     for diag in diagnostics {
-      let Some(loc) = line_locs.get((diag.line_num as usize).saturating_sub(1)) else {
-        continue;
-      };
-      if diag.source_file != *cell_file {
-        continue; // file included in the cell
+      if let Some(loc) = cell_diagnostic_loc(line_locs, cell_file, diag) {
+        diag.line_num = self.line_number(loc);
+        diag.source_file = self.source_file_at(loc.include_depth).clone();
       }
-      diag.line_num = self.line_number(*loc);
-      diag.source_file = self.source_file_at(loc.include_depth).clone();
     }
   }
 
+  /// same, showing the whole line instead of the cell's part of it
+  pub fn relocate_diagnostic(
+    &self,
+    line_locs: &[SourceLocation],
+    cell_file: &SourceFile,
+    diag: &mut Diagnostic,
+  ) {
+    let Some(loc) = cell_diagnostic_loc(line_locs, cell_file, diag) else {
+      return;
+    };
+    let (line_num, offset) = self.line_number_with_offset(loc);
+    let line = self.line_of(loc);
+    match line.get(offset as usize..).and_then(|l| l.find(&diag.line)) {
+      Some(idx) => diag.underline_start += offset + idx as u32,
+      None => (diag.underline_start, diag.underline_width) = (0, line.len() as u32),
+    }
+    diag.line_num = line_num;
+    diag.line = line.to_string();
+    diag.source_file = self.source_file_at(loc.include_depth).clone();
+  }
+
   pub fn next_token(&mut self) -> Token<'arena> {
     if let Some((buf_lexer, buf_loc)) = self.tmp_bufs.last_mut()
       && let Some(mut token) = buf_lexer.next_token()
@@ -430,6 +449,19 @@ impl<'arena> HasArena<'arena> for RootLexer<'arena> {
   }
 }
 
+fn cell_diagnostic_loc(
+  line_locs: &[SourceLocation],
+  cell_file: &SourceFile,
+  diag: &Diagnostic,
+) -> Option<SourceLocation> {
+  if diag.source_file != *cell_file {
+    return None; // from a file included in the cell
+  }
+  line_locs
+    .get((diag.line_num as usize).saturating_sub(1))
+    .copied()
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 6cc86f9..44c9f3e 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -13,6 +13,8 @@ pub struct SourceLexer<'arena> {
   pub leveloffset: i8,
   /// blanks ending a line are part of it, e.g. included source code
   pub keep_trailing_blanks: bool,
+  /// of the lines in their file, when not all of it is included
+  pub line_nums: Option<Vec<u32>>,
   pub plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
   pub max_include_depth: Option<u16>,
 }
@@ -33,6 +35,7 @@ impl<'arena> SourceLexer<'arena> {
       offset: 0,
       leveloffset,
       keep_trailing_blanks: false,
+      line_nums: None,
       file,
       max_include_depth,
       plugin_macros,
@@ -51,6 +54,7 @@ impl<'arena> SourceLexer<'arena> {
       offset: 0,
       leveloffset: 0,
       keep_trailing_blanks: false,
+      line_nums: None,
       file,
       max_include_depth: None,
       plugin_macros: Rc::new(bvec![in bump]),
@@ -273,6 +277,10 @@ impl<'arena> SourceLexer<'arena> {
         offset += 1;
       }
     }
+    if let Some(line_nums) = &self.line_nums {
+      let idx = line_number as usize - 1;
+      line_number = line_nums.get(idx).copied().unwrap_or(line_number);
+    }
     (line_number, offset)
   }
 
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 70c4aa9..a8304b4 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -114,7 +114,7 @@ impl<'arena> ParseContext<'arena> {
       callouts: Rc::clone(&self.callouts),
       custom_line_comment: None,
       anchor_ids: Rc::clone(&self.anchor_ids),
-      xrefs: Rc::clone(&self.xrefs),
+      xrefs: Rc::new(RefCell::new(HashMap::new())),
       saw_toc_macro: false,
       bibliography_ctx: BiblioContext::None,
       table_cell_ctx: TableCellContext::AsciiDocCell,
diff --git a/parser/src/parse_result.rs b/parser/src/parse_result.rs
index d102a88..42425eb 100644
--- a/parser/src/parse_result.rs
+++ b/parser/src/parse_result.rs
@@ -2,9 +2,17 @@ use std::fmt::{Debug, Formatter};
 
 use crate::internal::*;
 
+/// xref within an AsciiDoc table cell, diagnosed when the whole document is known
+pub struct CellXref {
+  pub(crate) target: String,
+  pub(crate) source_idx: u16,
+  pub(crate) invalid: Diagnostic,
+}
+
 pub struct ParseResult<'arena> {
   pub document: Document<'arena>,
   pub warnings: Vec<Diagnostic>,
+  pub(crate) cell_xrefs: Vec<CellXref>,
   pub(crate) attr_defs: BumpVec<'arena, AttrDef>,
   pub include_resolver: Option<Box<dyn IncludeResolver>>,
   #[cfg(feature = "attr_ref_observation")]
@@ -40,6 +48,7 @@ impl<'arena> From<Parser<'arena>> for ParseResult<'arena> {
     ParseResult {
       document: parser.document,
       warnings: parser.errors.into_inner(),
+      cell_xrefs: parser.cell_xrefs,
       attr_defs: parser.ctx.attr_defs,
       include_resolver: parser.include_resolver,
       #[cfg(feature = "attr_ref_observation")]
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 202651d..2800007 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -26,6 +26,9 @@ pub struct Parser<'arena> {
   pub(super) ctx: ParseContext<'arena>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
+  pub(super) cell_xrefs: Vec<CellXref>,
+  /// of the lines selected (by tags) from the file being included
+  pub(super) included_line_nums: Option<Vec<u32>>,
   pub(super) include_resolver: Option<Box<dyn IncludeResolver>>,
   #[cfg(feature = "attr_ref_observation")]
   pub(super) attr_ref_observer: Option<Box<dyn AttrRefObserver>>,
@@ -58,6 +61,8 @@ impl<'arena> Parser<'arena> {
       after_attr_decl: false,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
+      cell_xrefs: Vec::new(),
+      included_line_nums: None,
       strict: true,
       include_resolver: None,
       lexer,
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 9fb700a..af22b40 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -37,7 +37,7 @@ impl<'arena> Parser<'arena> {
       reftext,
       title: InlineNodes::new(self.bump),
       source_loc,
-      source_idx: source_loc.map_or(self.lexer.source_idx(), |loc| loc.include_depth),
+      source_idx: self.anchor_source_idx(source_loc),
       is_biblio,
     }
   }
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 3780e6c..bb39c21 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -1,48 +1,88 @@
 use crate::internal::*;
 
+/// sources of cells have indexes of their own
+const SOURCE_IDX_IN_CELL: u16 = u16::MAX;
+
 impl Parser<'_> {
-  pub(crate) fn diagnose_document(&self) -> Result<()> {
+  pub(crate) fn diagnose_document(&mut self) -> Result<()> {
+    if self.ctx.table_cell_ctx != TableCellContext::None {
+      self.collect_cell_xrefs();
+      return Ok(());
+    }
     self.diagnose_invalid_xrefs()?;
     self.diagnose_toc()?;
     Ok(())
   }
 
   fn diagnose_invalid_xrefs(&self) -> Result<()> {
-    if self.ctx.table_cell_ctx != TableCellContext::None {
-      return Ok(());
-    }
     let xrefs = self.ctx.xrefs.borrow();
     let mut xrefs: Vec<_> = xrefs.iter().collect();
     xrefs.sort_by_key(|(target, loc)| (loc.include_depth, loc.start, target.as_str()));
-    for (ref_target, ref_loc) in xrefs {
-      let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
-        // couldn't find source idx
-        self.invalid_xref(ref_target, *ref_loc)?;
-        continue;
-      };
-      if id == "__self__" {
-        continue;
+    for (ref_target, ref_loc) in &xrefs {
+      if !self.is_valid_xref(ref_target, ref_loc.include_depth) {
+        self.err(self.invalid_xref(ref_target, **ref_loc))?;
       }
-      let anchors = self.document.anchors.borrow();
-      let Some(anchor) = anchors.get(id) else {
-        self.invalid_xref(ref_target, *ref_loc)?;
-        continue;
-      };
-      // NB: an id alone can be anywhere in the document, no matter which file it's from
-      if idx.is_some_and(|idx| anchor.source_idx != idx) {
-        // NB: here we could give a more precise error saying that
-        // the anchor was found, but was in a different file
-        self.invalid_xref(ref_target, *ref_loc)?;
+    }
+    for (idx, xref) in self.cell_xrefs.iter().enumerate() {
+      let seen = xrefs.iter().any(|(target, _)| target.as_str() == xref.target)
+        || self.cell_xrefs[..idx].iter().any(|x| x.target == xref.target);
+      if !seen && !self.is_valid_xref(&xref.target, xref.source_idx) {
+        self.err(xref.invalid.clone())?;
       }
     }
     Ok(())
   }
 
-  fn invalid_xref(&self, target: &str, loc: SourceLocation) -> Result<()> {
-    self.err_at(
-      format!("Invalid cross reference, no anchor found for `{target}`"),
-      loc,
-    )
+  fn is_valid_xref(&self, ref_target: &str, source_idx: u16) -> bool {
+    let Some((idx, id)) = self.target_data(ref_target, source_idx) else {
+      return false; // couldn't find source idx
+    };
+    if id == "__self__" {
+      return true;
+    }
+    let anchors = self.document.anchors.borrow();
+    let Some(anchor) = anchors.get(id) else {
+      return false;
+    };
+    // NB: an id alone can be anywhere in the document, no matter which file it's from
+    // NB: here we could give a more precise error saying that
+    // the anchor was found, but was in a different file
+    idx.is_none_or(|idx| anchor.source_idx == idx || anchor.source_idx == SOURCE_IDX_IN_CELL)
+  }
+
+  fn invalid_xref(&self, target: &str, loc: SourceLocation) -> Diagnostic {
+    let (line_num, underline_start) = self.lexer.line_number_with_offset(loc);
+    Diagnostic {
+      line_num,
+      line: self.lexer.line_of(loc).to_string(),
+      message: format!("Invalid cross reference, no anchor found for `{target}`"),
+      underline_start,
+      underline_width: loc.end.saturating_sub(loc.start),
+      source_file: self.lexer.source_file_at(loc.include_depth).clone(),
+    }
+  }
+
+  /// the anchors of a cell's xrefs can be anywhere, but only the cell knows where these are
+  fn collect_cell_xrefs(&mut self) {
+    let mut xrefs: Vec<_> = self.ctx.xrefs.borrow_mut().drain().collect();
+    xrefs.sort_by_key(|(target, loc)| (loc.include_depth, loc.start, target.to_string()));
+    for (target, loc) in xrefs {
+      let invalid = self.invalid_xref(&target, loc);
+      self.cell_xrefs.push(CellXref {
+        target: target.to_string(),
+        source_idx: SOURCE_IDX_IN_CELL,
+        invalid,
+      });
+    }
+  }
+
+  /// where the anchor at the location is from, as far as known
+  pub(crate) fn anchor_source_idx(&self, loc: Option<SourceLocation>) -> u16 {
+    match (self.ctx.table_cell_ctx, loc) {
+      (TableCellContext::None, Some(loc)) => loc.include_depth,
+      (TableCellContext::None, None) => self.lexer.source_idx(),
+      _ => SOURCE_IDX_IN_CELL,
+    }
   }
 
   fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(Option<u16>, &'a str)> {
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 2baa093..74c43f0 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -87,6 +87,7 @@ impl<'arena> Parser<'arena> {
             self.substitute_link_for_include(&directive)?,
           ));
         }
+        self.included_line_nums = None;
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
         let mut leveloffset = 0;
@@ -108,6 +109,7 @@ impl<'arena> Parser<'arena> {
             leveloffset,
             include_depth,
             buffer,
+            self.included_line_nums.take(),
           );
         }
         self
@@ -277,6 +279,8 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+const NOT_INCLUDED: &[u8] = b"asciidorkinclude::[false]";
+
 fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump: &'arena Bump) {
   let mut trimmed = buf.as_slice();
   if trimmed.last() == Some(&b'\n') {
@@ -285,7 +289,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
   let Some(min_indent) = trimmed
     .split(|&c| c == b'\n')
     .fold(Option::<usize>::None, |acc, line| {
-      if line == b"asciidorkinclude::[false]" {
+      if line.is_empty() || line == NOT_INCLUDED {
         return acc;
       }
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
@@ -300,6 +304,11 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
   if indent != min_indent {
     let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
     buf.split(|&c| c == b'\n').for_each(|line| {
+      if line.is_empty() || line == NOT_INCLUDED {
+        dest.extend(line);
+        dest.push(b'\n');
+        return;
+      }
       let line_indent = line.iter().take_while(|&&c| c == b' ').count();
       if line_indent >= min_indent {
         dest.extend(std::iter::repeat_n(b' ', line_indent - min_indent + indent));
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index d0ad883..d91db7b 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -196,15 +196,18 @@ impl<'arena> Parser<'arena> {
     let strategy = selection.strategy();
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
+    let mut line_nums = Vec::new();
     for (idx, line) in lines.enumerate() {
       match tag_directive(line) {
         Some(TagDirective::Start(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
+          line_nums.push((idx as u32) + 1);
           expected_tags.remove(&tag);
           tag_stack.push(tag, idx);
         }
         Some(TagDirective::End(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
+          line_nums.push((idx as u32) + 1);
           if tag_stack.last_is(&tag) {
             tag_stack.pop();
           } else if selection.expected_tags().contains(&tag) {
@@ -236,6 +239,7 @@ impl<'arena> Parser<'arena> {
             }
             dest.extend(line);
             dest.push(b'\n');
+            line_nums.push((idx as u32) + 1);
           }
         }
       }
@@ -274,6 +278,7 @@ impl<'arena> Parser<'arena> {
     }
 
     std::mem::swap(src, &mut dest);
+    self.included_line_nums = Some(line_nums);
 
     Ok(())
   }
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c19dd7d..af0c67e 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -316,7 +316,7 @@ impl<'arena> Parser<'arena> {
                     reftext: attrs.take_positional(0),
                     title: InlineNodes::new(self.bump),
                     source_loc: Some(id.loc),
-                    source_idx: self.lexer.source_idx(),
+                    source_idx: self.anchor_source_idx(Some(id.loc)),
                     is_biblio: false,
                   },
                 )?;
@@ -1072,7 +1072,7 @@ impl<'arena> Parser<'arena> {
         Anchor {
           reftext: None,
           title: nodes.clone(),
-          source_idx: self.lexer.source_idx(),
+          source_idx: self.anchor_source_idx(Some(id.loc)),
           source_loc: Some(id.loc),
           is_biblio: false,
         },
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index d5fa635..48c63db 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -226,11 +226,21 @@ impl<'arena> Parser<'arena> {
           document,
           mut warnings,
           attr_defs,
+          mut cell_xrefs,
           #[cfg(feature = "attr_ref_observation")]
           attr_ref_observer,
           ..
         }) => {
-          self.ctx.attr_defs.extend(attr_defs);
+          self.ctx.attr_defs.extend(attr_defs.into_iter().map(|mut def| {
+            def.in_header = false;
+            def
+          }));
+          for xref in cell_xrefs.iter_mut() {
+            self
+              .lexer
+              .relocate_diagnostic(&line_locs, &cell_file, &mut xref.invalid);
+          }
+          self.cell_xrefs.extend(cell_xrefs);
           if !warnings.is_empty() {
             self
               .lexer
-- 
2.43.0


From f90c2621c234a0b6197c24ce882278d3fc6c62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 112/156] fix: duplicate anchors are found in AsciiDoc cells at
 coinciding offsets

---
 parser/src/tasks/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index af22b40..fcc3bae 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -10,7 +10,7 @@ impl<'arena> Parser<'arena> {
     if anchors
       .get(&id.src)
       // NB: reparsing implicit table cell causes false dupes
-      .filter(|a| a.source_loc != anchor.source_loc)
+      .filter(|a| (a.source_loc, a.source_idx) != (anchor.source_loc, anchor.source_idx))
       .is_some()
     {
       self.err_at(
-- 
2.43.0


From 57ab07b0437c21efe5046dc7c5cadde65ea75858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 113/156] fix: diagnostics after a wrapped attribute entry in a
 table cell name the right line

---
 parser/src/line.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 096cee3..82b3399 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -189,6 +189,13 @@ impl<'arena> Line<'arena> {
         locs.push(token.loc);
       }
       at_start = token.kind(Newline);
+      if !at_start {
+        // a wrapped attribute entry is a single token
+        for (idx, _) in token.lexeme.match_indices('\n') {
+          let start = token.loc.start + idx as u32 + 1;
+          locs.push(SourceLocation { start, ..token.loc });
+        }
+      }
     }
     locs
   }
-- 
2.43.0


From 7f6ff3461806aee9f49532011a7c9b58a01ad716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:12 +0000
Subject: [PATCH 114/156] fix: table rows account for row spans of any columns,
 copies of cells take their column's style; cell specs need a blank before
 them and work with any separator; no duplicate anchors for reparsed header
 cells

---
 parser/src/parser.rs                       |   2 +
 parser/src/tasks/anchors.rs                |   6 ++
 parser/src/tasks/diagnose_document.rs      |   2 +-
 parser/src/tasks/table/context.rs          |  23 ++++-
 parser/src/tasks/table/parse_psv_table.rs  | 106 ++++++++++++++-------
 parser/src/tasks/table/parse_table.rs      |   6 +-
 parser/src/tasks/table/parse_table_spec.rs |  61 ++++++------
 7 files changed, 141 insertions(+), 65 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 2800007..6b4c4e0 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -27,6 +27,7 @@ pub struct Parser<'arena> {
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
   pub(super) cell_xrefs: Vec<CellXref>,
+  pub(super) reparsing_cell: bool,
   /// of the lines selected (by tags) from the file being included
   pub(super) included_line_nums: Option<Vec<u32>>,
   pub(super) include_resolver: Option<Box<dyn IncludeResolver>>,
@@ -62,6 +63,7 @@ impl<'arena> Parser<'arena> {
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
       cell_xrefs: Vec::new(),
+      reparsing_cell: false,
       included_line_nums: None,
       strict: true,
       include_resolver: None,
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index fcc3bae..0376c92 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -1,3 +1,4 @@
+use super::diagnose_document::SOURCE_IDX_IN_CELL;
 use crate::internal::*;
 
 impl<'arena> Parser<'arena> {
@@ -11,6 +12,11 @@ impl<'arena> Parser<'arena> {
       .get(&id.src)
       // NB: reparsing implicit table cell causes false dupes
       .filter(|a| (a.source_loc, a.source_idx) != (anchor.source_loc, anchor.source_idx))
+      .filter(|a| {
+        !self.reparsing_cell
+          || a.source_idx != SOURCE_IDX_IN_CELL
+          || a.source_loc.map(|loc| loc.start) != anchor.source_loc.map(|loc| loc.start)
+      })
       .is_some()
     {
       self.err_at(
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index bb39c21..4b3e30a 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -1,7 +1,7 @@
 use crate::internal::*;
 
 /// sources of cells have indexes of their own
-const SOURCE_IDX_IN_CELL: u16 = u16::MAX;
+pub(super) const SOURCE_IDX_IN_CELL: u16 = u16::MAX;
 
 impl Parser<'_> {
   pub(crate) fn diagnose_document(&mut self) -> Result<()> {
diff --git a/parser/src/tasks/table/context.rs b/parser/src/tasks/table/context.rs
index a32afeb..8759ef3 100644
--- a/parser/src/tasks/table/context.rs
+++ b/parser/src/tasks/table/context.rs
@@ -1,4 +1,5 @@
 use std::collections::HashSet;
+use std::ops::Range;
 
 use super::DataFormat;
 use crate::internal::*;
@@ -20,7 +21,7 @@ pub struct TableContext<'arena> {
   pub effective_row_idx: usize,
   pub dsv_last_consumed: DsvLastConsumed,
   pub table: Table<'arena>,
-  pub spilled_cells: BumpVec<'arena, Cell<'arena>>,
+  pub spilled_cells: BumpVec<'arena, SpilledCell<'arena>>,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -49,6 +50,18 @@ pub struct ParseCellData<'arena> {
   pub col_spec: Option<ColSpec>,
 }
 
+/// copy of a duplicated cell not yet placed in its row
+#[derive(Debug, Clone)]
+pub struct SpilledCell<'arena> {
+  pub cell: Cell<'arena>,
+  /// column (and header state) the cell was parsed for
+  pub col_index: usize,
+  pub header_done: bool,
+  pub spec: CellSpec,
+  pub tokens: Line<'arena>,
+  pub loc: Range<u32>,
+}
+
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum DsvLastConsumed {
   Delimiter,
@@ -74,6 +87,14 @@ impl TableContext<'_> {
     }
   }
 
+  /// first column of the current row, from `col` on, not spanned by another cell
+  pub fn free_col(&self, mut col: usize) -> usize {
+    while self.phantom_cells.contains(&(self.effective_row_idx, col)) {
+      col += 1;
+    }
+    col
+  }
+
   pub fn row_phantom_cells(&self) -> usize {
     self
       .phantom_cells
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index e745390..a469ce6 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -1,3 +1,5 @@
+use std::ops::Range;
+
 use super::{TableTokens, context::*};
 use crate::internal::*;
 
@@ -8,16 +10,12 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<()> {
     let mut cells = bvec![in self.bump];
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, cells.len());
-          cells.push(cell.clone());
-        }
-      }
-      ctx.add_phantom_cells(&cell, cells.len());
+    let mut col = 0;
+    while let Some(cell) = self.next_psv_cell(tokens, ctx, cells.len())? {
+      ctx.add_phantom_cells(&cell, col);
+      col += cell.col_span as usize;
       cells.push(cell);
-      if !ctx.counting_cols {
+      if !ctx.counting_cols && ctx.spilled_cells.is_empty() {
         break;
       }
     }
@@ -35,30 +33,17 @@ impl<'arena> Parser<'arena> {
     ctx: &mut TableContext<'arena>,
   ) -> Result<Option<Row<'arena>>> {
     let mut cells = bvec![in self.bump];
-    std::mem::swap(&mut cells, &mut ctx.spilled_cells);
     let mut num_effective_cells = ctx.row_phantom_cells();
-
-    // check if we need to distrubute spilled cells from last row
-    let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
-    ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room && (!cells.is_empty() || num_effective_cells > 0) {
+    if num_effective_cells > 0 && num_effective_cells >= ctx.num_cols {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
 
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
-        for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, num_effective_cells);
-          num_effective_cells += cell.col_span as usize;
-          if num_effective_cells < ctx.num_cols {
-            cells.push(cell.clone());
-          } else {
-            ctx.spilled_cells.push(cell.clone());
-          }
-        }
-      }
-      ctx.add_phantom_cells(&cell, num_effective_cells);
+    let mut col = 0;
+    while let Some(cell) = self.next_psv_cell(tokens, ctx, cells.len())? {
+      col = ctx.free_col(col);
+      ctx.add_phantom_cells(&cell, col);
+      col += cell.col_span as usize;
       num_effective_cells += cell.col_span as usize;
       cells.push(cell);
       if num_effective_cells >= ctx.num_cols {
@@ -73,12 +58,61 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// the next copy of a duplicated cell, or else the next cell
+  fn next_psv_cell(
+    &mut self,
+    tokens: &mut TableTokens<'arena>,
+    ctx: &mut TableContext<'arena>,
+    col_index: usize,
+  ) -> Result<Option<Cell<'arena>>> {
+    let Some(copy) = ctx.spilled_cells.pop() else {
+      return self.parse_psv_table_cell(tokens, ctx, col_index);
+    };
+    if ctx.col_specs.get(col_index) == ctx.col_specs.get(copy.col_index)
+      && copy.header_done == ctx.table.header_row.is_some()
+    {
+      return Ok(Some(copy.cell));
+    }
+    let cell = self.finish_cell(copy.spec, copy.tokens, col_index, ctx, copy.loc)?;
+    Ok(cell.map(|(cell, _)| cell))
+  }
+
+  fn finish_psv_cell(
+    &mut self,
+    spec: CellSpec,
+    cell_tokens: Line<'arena>,
+    col_index: usize,
+    ctx: &mut TableContext<'arena>,
+    loc: Range<u32>,
+  ) -> Result<Option<Cell<'arena>>> {
+    if spec.duplication.is_none_or(|n| n < 2) {
+      let cell = self.finish_cell(spec, cell_tokens, col_index, ctx, loc)?;
+      return Ok(cell.map(|(cell, _)| cell));
+    }
+    let (tokens, range) = (cell_tokens.clone(), loc.clone());
+    let Some((cell, repeat)) = self.finish_cell(spec.clone(), cell_tokens, col_index, ctx, loc)?
+    else {
+      return Ok(None);
+    };
+    for _ in 1..repeat {
+      ctx.spilled_cells.push(SpilledCell {
+        cell: cell.clone(),
+        col_index,
+        header_done: ctx.table.header_row.is_some(),
+        spec: spec.clone(),
+        tokens: tokens.clone(),
+        loc: range.clone(),
+      });
+    }
+    Ok(Some(cell))
+  }
+
   fn parse_psv_table_cell(
     &mut self,
     tokens: &mut TableTokens<'arena>,
     ctx: &mut TableContext<'arena>,
     col_index: usize,
-  ) -> Result<Option<(Cell<'arena>, u8)>> {
+  ) -> Result<Option<Cell<'arena>>> {
     if tokens.is_empty() {
       return Ok(None);
     }
@@ -109,25 +143,29 @@ impl<'arena> Parser<'arena> {
     let mut end = start;
     let mut cell_tokens = Line::empty(self.bump);
 
+    // a cell spec stands at the start of a line or after a blank
+    let mut may_start_spec = false;
+
     // trim leading whitespace
     while tokens.current().kind(TokenKind::Whitespace) {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
+      may_start_spec = true;
     }
 
     loop {
-      if self.starts_psv_cell(tokens, ctx.cell_separator) {
+      if self.starts_psv_cell(tokens, ctx.cell_separator, may_start_spec) {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
+          return self.finish_psv_cell(spec, cell_tokens, col_index, ctx, start..end);
         }
       }
       let Some(token) = tokens.consume_splitting(ctx.embeddable_cell_separator) else {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
-          return self.finish_cell(spec, cell_tokens, col_index, ctx, start..end);
+          return self.finish_psv_cell(spec, cell_tokens, col_index, ctx, start..end);
         }
       };
 
@@ -139,8 +177,10 @@ impl<'arena> Parser<'arena> {
       }
 
       end = token.loc.end;
+      may_start_spec = token.is_whitespaceish();
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
-      if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
+      if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator, false)
+      {
         cell_tokens.push(token);
       } else if let Some(next) = tokens.consume_current() {
         end = next.loc.end;
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 48c63db..4b3f16c 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -303,8 +303,10 @@ impl<'arena> Parser<'arena> {
       row.cells[idx].content = match content {
         CellContent::AsciiDoc(_) | CellContent::Literal(_) => {
           let data = ctx.header_reparse_cells.remove(0);
-          let cell = self.parse_non_asciidoc_cell(data, CellContentStyle::Default)?;
-          cell.content
+          self.reparsing_cell = true;
+          let cell = self.parse_non_asciidoc_cell(data, CellContentStyle::Default);
+          self.reparsing_cell = false;
+          cell?.content
         }
         CellContent::Emphasis(paras) => CellContent::Default(paras),
         CellContent::Header(paras) => CellContent::Default(paras),
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 6a106b8..543bbb8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -88,8 +88,15 @@ impl<'arena> Parser<'arena> {
     specs
   }
 
-  pub(super) fn starts_psv_cell(&self, tokens: &mut TableTokens, sep: char) -> bool {
-    self.peek_cell_start(tokens, sep).is_some()
+  pub(super) fn starts_psv_cell(
+    &self,
+    tokens: &mut TableTokens,
+    sep: char,
+    may_start_spec: bool,
+  ) -> bool {
+    self
+      .peek_cell_start(tokens, sep, may_start_spec)
+      .is_some()
   }
 
   pub(super) fn consume_cell_start(
@@ -97,13 +104,18 @@ impl<'arena> Parser<'arena> {
     tokens: &mut TableTokens,
     sep: char,
   ) -> Option<(CellSpec, u32)> {
-    let data = self.peek_cell_start(tokens, sep)?;
+    let data = self.peek_cell_start(tokens, sep, true)?;
     tokens.discard(data.drop_tokens as usize);
     tokens.drop_leading_bytes(data.drop_bytes);
     Some((data.spec, data.resuming))
   }
 
-  fn peek_cell_start(&self, tokens: &mut TableTokens, sep: char) -> Option<CellStart> {
+  fn peek_cell_start(
+    &self,
+    tokens: &mut TableTokens,
+    sep: char,
+    may_start_spec: bool,
+  ) -> Option<CellStart> {
     let first_token = tokens.current_mut()?;
     if first_token.attr_replacement {
       return None;
@@ -120,6 +132,10 @@ impl<'arena> Parser<'arena> {
       });
     }
 
+    if !may_start_spec {
+      return None;
+    }
+
     // optimization: words are most common, so reject non-candidates
     if first_token.kind(Word) {
       let first_byte = first_token.lexeme.as_bytes().first()?;
@@ -147,7 +163,7 @@ impl<'arena> Parser<'arena> {
     // that wasn't its own token or a word boundary, e.g. `x` in `3*2.4+>.^sx`
     let style_within_word = parse_style(tokens, &mut spec, &mut cursor);
 
-    if cursor == 0 {
+    if cursor == 0 && !style_within_word {
       return None;
     }
     let cursor_token = tokens.nth(cursor as usize)?;
@@ -155,30 +171,19 @@ impl<'arena> Parser<'arena> {
     let mut buf = [0; 4];
     let sep_bytes = sep.encode_utf8(&mut buf).as_bytes();
 
-    match (style_within_word, cursor_token.lexeme.as_bytes()) {
-      (false, bytes) if bytes == sep_bytes => Some(CellStart {
-        spec,
-        drop_tokens: cursor + 1,
-        drop_bytes: 0,
-        resuming: cursor_token.loc.end,
-      }),
-      (true, bytes) if bytes.len() == 2 && bytes[1..].starts_with(sep_bytes) => Some(CellStart {
-        spec,
-        drop_tokens: cursor + 1,
-        drop_bytes: 0,
-        resuming: cursor_token.loc.end,
-      }),
-      (true, bytes) if bytes.len() > 2 && bytes[1..].starts_with(sep_bytes) => {
-        let joined = tokens.nth(cursor as usize).unwrap();
-        Some(CellStart {
-          spec,
-          drop_tokens: cursor,
-          drop_bytes: 1 + sep_bytes.len() as u32,
-          resuming: joined.loc.start + 1 + sep_bytes.len() as u32,
-        })
-      }
-      _ => None,
+    let style_len = style_within_word as usize;
+    let bytes = cursor_token.lexeme.as_bytes();
+    if !bytes.get(style_len..)?.starts_with(sep_bytes) {
+      return None;
     }
+    let len = style_len + sep_bytes.len();
+    let whole = bytes.len() == len;
+    Some(CellStart {
+      spec,
+      drop_tokens: if whole { cursor + 1 } else { cursor },
+      drop_bytes: if whole { 0 } else { len as u32 },
+      resuming: cursor_token.loc.start + len as u32,
+    })
   }
 }
 
-- 
2.43.0


From f497e61ada9a76b22884ef2aeb74092dd178189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 115/156] fix: html5s keeps id and role of titled description
 text

---
 backend-html5s/src/html5s.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index c1e500d..f920696 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -675,10 +675,11 @@ impl Backend for Html5s {
       self.push_str(r#"<section class="paragraph">"#);
       self.render_buffered_block_title(block, true);
     }
-    if !self
-      .state
-      .ephemeral
-      .contains(&VisitingSimpleTermDescription)
+    if block.has_title()
+      || !self
+        .state
+        .ephemeral
+        .contains(&VisitingSimpleTermDescription)
     {
       self.open_element("p", &[], &block.meta.attrs);
     }
@@ -693,10 +694,11 @@ impl Backend for Html5s {
       self.state.ephemeral.remove(&VisitingSimpleTermDescription);
       return;
     }
-    if !self
-      .state
-      .ephemeral
-      .contains(&VisitingSimpleTermDescription)
+    if block.has_title()
+      || !self
+        .state
+        .ephemeral
+        .contains(&VisitingSimpleTermDescription)
     {
       self.push_str("</p>");
     }
-- 
2.43.0


From c7242749eb10ef8fdcf83a1b62ff1470dd5e63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:15 +0000
Subject: [PATCH 116/156] fix: authors with only one name or initials, revision
 lines of one item; part titles without id in html5s

---
 backend-html5s/src/html5s.rs            |  4 ++--
 core/src/document_meta.rs               |  8 +++++--
 core/src/types.rs                       | 10 ++++----
 parser/src/tasks/parse_author_line.rs   | 32 +++++++++++++------------
 parser/src/tasks/parse_doc_attrs.rs     |  9 ++++---
 parser/src/tasks/parse_revision_line.rs | 19 ++++++++-------
 6 files changed, 46 insertions(+), 36 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index f920696..ead1677 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -201,9 +201,9 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push_with_values([r#" id=""#, id]);
+      self.push_with_values([r#" id=""#, id, "\""]);
     }
-    self.push_str("\">");
+    self.push_str(">");
     self.push_part_prefix();
   }
 
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 994abd4..d544032 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -101,7 +101,9 @@ impl DocumentMeta {
       if let Some(email) = author.email.as_ref() {
         self.insert_string_attr("email", email.clone());
       }
-      self.insert_string_attr("lastname", author.last_name.clone());
+      if !author.last_name.is_empty() {
+        self.insert_string_attr("lastname", author.last_name.clone());
+      }
       if let Some(middle_name) = author.middle_name.as_ref() {
         self.insert_string_attr("middlename", middle_name.clone());
       }
@@ -114,7 +116,9 @@ impl DocumentMeta {
     if let Some(email) = author.email.as_ref() {
       self.insert_string_attr(&format!("email_{n}"), email.clone());
     }
-    self.insert_string_attr(&format!("lastname_{n}"), author.last_name.clone());
+    if !author.last_name.is_empty() {
+      self.insert_string_attr(&format!("lastname_{n}"), author.last_name.clone());
+    }
     if let Some(middle_name) = author.middle_name.as_ref() {
       self.insert_string_attr(&format!("middlename_{n}"), middle_name.clone());
     }
diff --git a/core/src/types.rs b/core/src/types.rs
index 9df2ff0..fd4e8fa 100644
--- a/core/src/types.rs
+++ b/core/src/types.rs
@@ -46,18 +46,20 @@ impl Author {
       name.push(' ');
       name.push_str(middle_name);
     }
-    name.push(' ');
-    name.push_str(&self.last_name);
+    if !self.last_name.is_empty() {
+      name.push(' ');
+      name.push_str(&self.last_name);
+    }
     name
   }
 
   pub fn initials(&self) -> String {
     let mut initials = String::with_capacity(3);
-    initials.push(self.first_name.chars().next().unwrap());
+    initials.extend(self.first_name.chars().next());
     if let Some(middle_init) = &self.middle_name.as_ref().and_then(|m| m.chars().next()) {
       initials.push(*middle_init);
     }
-    initials.push(self.last_name.chars().next().unwrap());
+    initials.extend(self.last_name.chars().next());
     initials
   }
 }
diff --git a/parser/src/tasks/parse_author_line.rs b/parser/src/tasks/parse_author_line.rs
index 26247b7..b79f827 100644
--- a/parser/src/tasks/parse_author_line.rs
+++ b/parser/src/tasks/parse_author_line.rs
@@ -15,11 +15,15 @@ impl<'arena> Parser<'arena> {
     debug_assert!(line.starts(Word));
 
     let pattern = [
-      r"([^\s<.]+\.?)",                // first
-      r"(\s+([^<;]+\b))*",             // middles
-      r"(\s*([^\s<;]+))",              // last
-      r"(?:\s+<([^\s>@]+@[^\s>]+)>)?", // email
-      r"(\s*;\s*)?",                   // trailing ;
+      r"(?P<only>[^\s<;]+)",                         // just one name
+      r"(?:\s+<(?P<only_email>[^\s>@]+@[^\s>]+)>)?", // email
+      r"(?:\s*;\s*|$)",                             // trailing ; or end
+      r"|",
+      r"(?P<first>[^\s<;]+)",
+      r"(?:\s+(?P<middle>[^\s<;](?:[^<;]*[^\s<;])?))?",
+      r"\s+(?P<last>[^\s<;]+)",
+      r"(?:\s+<(?P<email>[^\s>@]+@[^\s>]+)>)?",
+      r"(?:\s*;\s*)?", // trailing ;
     ]
     .concat();
     let re = Regex::new(&pattern).unwrap();
@@ -56,17 +60,15 @@ impl<'arena> Parser<'arena> {
 }
 
 fn author_from(captures: regex::Captures) -> Author {
-  let first_name = de_underscore(captures.get(1).unwrap().as_str());
-  let middle_name = captures
-    .get(3)
-    .map(|m| m.as_str().trim_end())
-    .map(de_underscore);
-  let last_name = de_underscore(captures.get(5).unwrap().as_str());
-  let email = captures.get(6).map(|m| m.as_str().to_string());
+  let name = |group: &str| captures.name(group).map(|m| de_underscore(m.as_str()));
+  let email = captures
+    .name("email")
+    .or(captures.name("only_email"))
+    .map(|m| m.as_str().to_string());
   Author {
-    first_name,
-    middle_name,
-    last_name,
+    first_name: name("first").or(name("only")).unwrap_or_default(),
+    middle_name: name("middle"),
+    last_name: name("last").unwrap_or_default(),
     email,
   }
 }
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index a71b7ea..b555134 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -327,11 +327,10 @@ fn author_from_attr(attr: &AttrValue) -> Option<Author> {
     } else {
       None
     },
-    last_name: parts
-      .get(parts.len().saturating_sub(1))
-      .unwrap_or(&"")
-      .replace('_', " ")
-      .to_string(),
+    last_name: match parts.as_slice() {
+      [_, .., last] => last.replace('_', " "),
+      _ => String::new(),
+    },
     email: None,
   })
 }
diff --git a/parser/src/tasks/parse_revision_line.rs b/parser/src/tasks/parse_revision_line.rs
index 7cd0edf..c542e93 100644
--- a/parser/src/tasks/parse_revision_line.rs
+++ b/parser/src/tasks/parse_revision_line.rs
@@ -30,15 +30,18 @@ impl Parser<'_> {
       .as_str()
       .to_string();
 
-    // only revision, must start with `v` then digit
+    // only revision, must start with `v` then digit, otherwise it's only a date
     if captures.get(2).is_none() && captures.get(3).is_none() {
-      if Regex::new(r"^v(\d[^\s]+)$").unwrap().is_match(raw_version) {
-        self
-          .document
-          .meta
-          .insert_header_attr("revnumber", version)
-          .unwrap();
-      }
+      let (attr, value) = if Regex::new(r"^v\d\S*$").unwrap().is_match(raw_version) {
+        ("revnumber", version)
+      } else {
+        ("revdate", raw_version.to_string())
+      };
+      self
+        .document
+        .meta
+        .insert_header_attr(attr, value)
+        .unwrap();
       return Some(end);
     }
     self
-- 
2.43.0


From a08be246bda4f1aeb997eac5d051c7d0ab5ea453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 117/156] fix: attributes softly set by the caller override
 built-in values; docinfo replacements leave html comments and arrows alone;
 header attribute entries after a revision line starting with a digit

---
 core/src/document_meta.rs | 14 ++++++--------
 parser/src/docinfo.rs     | 22 +++++++++++-----------
 parser/src/parser.rs      |  2 +-
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index d544032..59ac719 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -215,14 +215,12 @@ impl DocumentMeta {
     }
   }
 
+  fn document_attr(&self, key: &str) -> Option<&AttrValue> {
+    self.doc_attrs.get(key).or_else(|| self.header_attrs.get(key))
+  }
+
   fn resolve_attr(&self, key: &str) -> Option<&AttrValue> {
-    match self.doc_attrs.get(key) {
-      Some(value) => Some(value),
-      None => match self.header_attrs.get(key) {
-        Some(value) => Some(value),
-        None => self.default_attrs.get(key),
-      },
-    }
+    self.document_attr(key).or_else(|| self.default_attrs.get(key))
   }
 
   pub const fn header_attrs(&self) -> &Attrs {
@@ -246,7 +244,7 @@ impl ReadAttr for DocumentMeta {
 
       key => match self.job_attrs.get(key) {
         Some(JobAttr { readonly: true, value }) => Some(value),
-        Some(JobAttr { readonly: false, value }) => self.resolve_attr(key).or(Some(value)),
+        Some(JobAttr { readonly: false, value }) => self.document_attr(key).or(Some(value)),
         _ if key == "doctitle" => self
           .resolve_attr("doctitle")
           .or_else(|| self.resolve_attr("_asciidork_derived_doctitle")),
diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 1e125bd..2b1c736 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -219,18 +219,8 @@ fn append_docinfo_symbols<'arena>(
       Some((SymbolKind::Registered, 3))
     } else if bytes[i..].starts_with(b"...") {
       Some((SymbolKind::Ellipsis, 3))
-    } else if bytes[i..].starts_with(b"---") {
-      Some((SymbolKind::TripleDash, 3))
-    } else if bytes[i..].starts_with(b"--") {
+    } else if bytes[i..].starts_with(b"--") && is_docinfo_dash(&text[..i], &text[i + 2..]) {
       Some((SymbolKind::EmDash, 2))
-    } else if bytes[i..].starts_with(b"->") {
-      Some((SymbolKind::SingleRightArrow, 2))
-    } else if bytes[i..].starts_with(b"=>") {
-      Some((SymbolKind::DoubleRightArrow, 2))
-    } else if bytes[i..].starts_with(b"<-") {
-      Some((SymbolKind::SingleLeftArrow, 2))
-    } else if bytes[i..].starts_with(b"<=") {
-      Some((SymbolKind::DoubleLeftArrow, 2))
     } else {
       None
     };
@@ -250,6 +240,16 @@ fn append_docinfo_symbols<'arena>(
   append_docinfo_text(bump, nodes, &text[start..]);
 }
 
+// only dashes between words, the dashes of html comments (and likewise arrows) are markup
+fn is_docinfo_dash(before: &str, after: &str) -> bool {
+  let is_word = |c: char| c.is_alphanumeric() || c == '_';
+  match (before.chars().next_back(), after.chars().next()) {
+    (Some(b), Some(a)) => is_word(b) && is_word(a) || b == ' ' && a == ' ',
+    (None, Some(' ')) | (Some(' '), None) => true,
+    _ => false,
+  }
+}
+
 impl Parser<'_> {
   fn resolve_docinfo_attr_refs<'s>(
     &self,
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 6b4c4e0..5df32d5 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -157,7 +157,7 @@ impl<'arena> Parser<'arena> {
           && !token.to_delimiter().is_some_and(|d| d.kind == DelimiterKind::Comment)
           && !matches!(
             token.kind,
-            Colon | EqualSigns | Hash | Word | ForwardSlashes | Directive | OpenBracket
+            Colon | EqualSigns | Hash | Word | Digits | ForwardSlashes | Directive | OpenBracket
           )
         {
           self.ctx.in_header = false;
-- 
2.43.0


From b2d95ab24cd94ea346b5d8db35a7d94ce50900d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:23 +0000
Subject: [PATCH 118/156] fix: lines of docinfo files stay lines

---
 eval/src/eval.rs      | 14 +++++++++++---
 parser/src/docinfo.rs | 10 ++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 5dfe377..cadad6e 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -58,9 +58,17 @@ fn eval_docinfo<B: Backend>(docinfo: Option<&DocInfoFragment>, ctx: &Ctx, backen
   let Some(nodes) = docinfo else {
     return;
   };
-  nodes
-    .iter()
-    .for_each(|node| eval_inline(node, ctx, backend));
+  for (index, node) in nodes.iter().enumerate() {
+    // adjacent text nodes are separate lines of the docinfo file
+    if index > 0 && is_text(&nodes[index - 1]) && is_text(node) {
+      backend.visit_inline_text("\n");
+    }
+    eval_inline(node, ctx, backend);
+  }
+}
+
+fn is_text(node: &InlineNode) -> bool {
+  matches!(node.content, Inline::Text(_))
 }
 
 fn eval_doc_content(ctx: &Ctx, backend: &mut impl Backend) {
diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 2b1c736..5da9955 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -97,6 +97,16 @@ impl<'arena> Parser<'arena> {
     for line in text.split_inclusive('\n') {
       let mut line_nodes = InlineNodes::new(self.bump);
       self.parse_docinfo_line(line, subs, &mut line_nodes);
+      // adjacent text nodes are known to be separate lines
+      match (nodes.last(), line_nodes.first_mut()) {
+        (Some(last), Some(InlineNode { content: Inline::Text(text), .. })) => {
+          if !matches!(last.content, Inline::Text(_)) {
+            text.insert(0, '\n');
+          }
+        }
+        (Some(_), Some(_)) => append_docinfo_text(self.bump, &mut nodes, "\n"),
+        _ => {}
+      }
       append_docinfo_fragment(&mut nodes, line_nodes);
     }
     nodes
-- 
2.43.0


From d5c65b2e2ed65d1666ceabef22d126155d857b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:13 +0000
Subject: [PATCH 119/156] fix: separators that can be part of words are tokens
 of their own when a table's cells are found (no change to the cell spec
 parser)

---
 parser/src/tasks/table/mod.rs              | 30 +++++++++++
 parser/src/tasks/table/parse_psv_table.rs  | 13 +++--
 parser/src/tasks/table/parse_table.rs      |  3 ++
 parser/src/tasks/table/parse_table_spec.rs | 61 ++++++++++------------
 4 files changed, 71 insertions(+), 36 deletions(-)

diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index 539a6c8..18d98e4 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -125,6 +125,36 @@ impl<'arena> TableTokens<'arena> {
     }
   }
 
+  /// make every separator found within a word a token of its own
+  pub fn isolate(mut self, sep: char) -> Self {
+    let bump = self.0.bump_arena();
+    let mut tokens = Deq::with_capacity(self.0.num_tokens(), bump);
+    while let Some(token) = self.consume_current() {
+      if !token.kind(TokenKind::Word) || token.attr_replacement || !token.lexeme.contains(sep) {
+        tokens.push(token);
+        continue;
+      }
+      let mut start = token.loc.start;
+      for part in token.lexeme.split_inclusive(sep) {
+        let text = part.strip_suffix(sep).unwrap_or(part);
+        for lexeme in [text, &part[text.len()..]] {
+          if lexeme.is_empty() {
+            continue;
+          }
+          let end = start + lexeme.len() as u32;
+          tokens.push(Token {
+            kind: TokenKind::Word,
+            lexeme: BumpString::from_str_in(lexeme, bump),
+            loc: SourceLocation::new(start, end, token.loc.include_depth),
+            attr_replacement: false,
+          });
+          start = end;
+        }
+      }
+    }
+    Self::new(tokens)
+  }
+
   pub fn is_empty(&self) -> bool {
     self.0.is_empty()
   }
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index a469ce6..8034242 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -154,7 +154,9 @@ impl<'arena> Parser<'arena> {
     }
 
     loop {
-      if self.starts_psv_cell(tokens, ctx.cell_separator, may_start_spec) {
+      if at_separator(tokens, ctx.cell_separator)
+        || (may_start_spec && self.starts_psv_cell(tokens, ctx.cell_separator))
+      {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
@@ -179,8 +181,7 @@ impl<'arena> Parser<'arena> {
       end = token.loc.end;
       may_start_spec = token.is_whitespaceish();
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
-      if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator, false)
-      {
+      if !token.kind(TokenKind::Backslash) || !at_separator(tokens, ctx.cell_separator) {
         cell_tokens.push(token);
       } else if let Some(next) = tokens.consume_current() {
         end = next.loc.end;
@@ -190,6 +191,12 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+fn at_separator(tokens: &TableTokens, sep: char) -> bool {
+  tokens
+    .current()
+    .is_some_and(|token| !token.attr_replacement && token.lexeme.starts_with(sep))
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 4b3f16c..a4bdaf8 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -89,6 +89,9 @@ impl<'arena> Parser<'arena> {
     }
 
     let (mut tokens, end_loc) = self.table_content(lines, &delim_line)?;
+    if let (DataFormat::Prefix(_), Some(sep)) = (&ctx.format, ctx.embeddable_cell_separator) {
+      tokens = tokens.isolate(sep);
+    }
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
diff --git a/parser/src/tasks/table/parse_table_spec.rs b/parser/src/tasks/table/parse_table_spec.rs
index 543bbb8..6a106b8 100644
--- a/parser/src/tasks/table/parse_table_spec.rs
+++ b/parser/src/tasks/table/parse_table_spec.rs
@@ -88,15 +88,8 @@ impl<'arena> Parser<'arena> {
     specs
   }
 
-  pub(super) fn starts_psv_cell(
-    &self,
-    tokens: &mut TableTokens,
-    sep: char,
-    may_start_spec: bool,
-  ) -> bool {
-    self
-      .peek_cell_start(tokens, sep, may_start_spec)
-      .is_some()
+  pub(super) fn starts_psv_cell(&self, tokens: &mut TableTokens, sep: char) -> bool {
+    self.peek_cell_start(tokens, sep).is_some()
   }
 
   pub(super) fn consume_cell_start(
@@ -104,18 +97,13 @@ impl<'arena> Parser<'arena> {
     tokens: &mut TableTokens,
     sep: char,
   ) -> Option<(CellSpec, u32)> {
-    let data = self.peek_cell_start(tokens, sep, true)?;
+    let data = self.peek_cell_start(tokens, sep)?;
     tokens.discard(data.drop_tokens as usize);
     tokens.drop_leading_bytes(data.drop_bytes);
     Some((data.spec, data.resuming))
   }
 
-  fn peek_cell_start(
-    &self,
-    tokens: &mut TableTokens,
-    sep: char,
-    may_start_spec: bool,
-  ) -> Option<CellStart> {
+  fn peek_cell_start(&self, tokens: &mut TableTokens, sep: char) -> Option<CellStart> {
     let first_token = tokens.current_mut()?;
     if first_token.attr_replacement {
       return None;
@@ -132,10 +120,6 @@ impl<'arena> Parser<'arena> {
       });
     }
 
-    if !may_start_spec {
-      return None;
-    }
-
     // optimization: words are most common, so reject non-candidates
     if first_token.kind(Word) {
       let first_byte = first_token.lexeme.as_bytes().first()?;
@@ -163,7 +147,7 @@ impl<'arena> Parser<'arena> {
     // that wasn't its own token or a word boundary, e.g. `x` in `3*2.4+>.^sx`
     let style_within_word = parse_style(tokens, &mut spec, &mut cursor);
 
-    if cursor == 0 && !style_within_word {
+    if cursor == 0 {
       return None;
     }
     let cursor_token = tokens.nth(cursor as usize)?;
@@ -171,19 +155,30 @@ impl<'arena> Parser<'arena> {
     let mut buf = [0; 4];
     let sep_bytes = sep.encode_utf8(&mut buf).as_bytes();
 
-    let style_len = style_within_word as usize;
-    let bytes = cursor_token.lexeme.as_bytes();
-    if !bytes.get(style_len..)?.starts_with(sep_bytes) {
-      return None;
+    match (style_within_word, cursor_token.lexeme.as_bytes()) {
+      (false, bytes) if bytes == sep_bytes => Some(CellStart {
+        spec,
+        drop_tokens: cursor + 1,
+        drop_bytes: 0,
+        resuming: cursor_token.loc.end,
+      }),
+      (true, bytes) if bytes.len() == 2 && bytes[1..].starts_with(sep_bytes) => Some(CellStart {
+        spec,
+        drop_tokens: cursor + 1,
+        drop_bytes: 0,
+        resuming: cursor_token.loc.end,
+      }),
+      (true, bytes) if bytes.len() > 2 && bytes[1..].starts_with(sep_bytes) => {
+        let joined = tokens.nth(cursor as usize).unwrap();
+        Some(CellStart {
+          spec,
+          drop_tokens: cursor,
+          drop_bytes: 1 + sep_bytes.len() as u32,
+          resuming: joined.loc.start + 1 + sep_bytes.len() as u32,
+        })
+      }
+      _ => None,
     }
-    let len = style_len + sep_bytes.len();
-    let whole = bytes.len() == len;
-    Some(CellStart {
-      spec,
-      drop_tokens: if whole { cursor + 1 } else { cursor },
-      drop_bytes: if whole { 0 } else { len as u32 },
-      resuming: cursor_token.loc.start + len as u32,
-    })
   }
 }
 
-- 
2.43.0


From 267ed28a8dd5dc63453efd6c72bb1cf63afb45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 120/156] fix: documents of table cells and inline documents
 have no header, content and footer divisions; base directory option with
 stdin

---
 backend-html5s/src/html5s.rs            | 12 ++++++------
 cli/src/main.rs                         |  3 ++-
 dr-html-backend/src/asciidoctor_html.rs | 12 ++++++------
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index ead1677..dfc0467 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -72,13 +72,13 @@ impl Backend for Html5s {
   }
 
   fn enter_header(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("noheader") {
+    if self.standalone() && !self.doc_meta.is_true("noheader") {
       self.push_str("<header>");
     }
   }
 
   fn exit_header(&mut self) {
-    if self.doc_meta.embedded || self.doc_meta.is_true("noheader") {
+    if !self.standalone() || self.doc_meta.is_true("noheader") {
       return;
     }
     if !self.doc_meta.authors().is_empty()
@@ -92,13 +92,13 @@ impl Backend for Html5s {
   }
 
   fn enter_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.standalone() {
       self.push_str(r#"<div id="content">"#)
     }
   }
 
   fn exit_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.standalone() {
       self.push_str("</div>")
     }
   }
@@ -107,7 +107,7 @@ impl Backend for Html5s {
     if !self.state.footnotes.borrow().is_empty() && !self.state.in_asciidoc_table_cell {
       self.render_footnotes();
     }
-    if self.doc_meta.embedded || self.doc_meta.is_true("nofooter") {
+    if !self.standalone() || self.doc_meta.is_true("nofooter") {
       return;
     }
     self.push_str("<footer><div id=\"footer-text\">");
@@ -120,7 +120,7 @@ impl Backend for Html5s {
   }
 
   fn exit_footer(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("nofooter") {
+    if self.standalone() && !self.doc_meta.is_true("nofooter") {
       self.push_str("</footer>");
     }
   }
diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5764cab..6102ed3 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -62,7 +62,8 @@ fn run(
       stdin.read_to_string(&mut src)?;
       let cwd_buf = env::current_dir()?;
       let cwd = Path::new(cwd_buf.to_str().unwrap_or(""));
-      (src, SourceFile::Stdin { cwd }, Some(cwd_buf), None)
+      let base_dir = args.base_dir.as_ref().cloned().unwrap_or(cwd_buf);
+      (src, SourceFile::Stdin { cwd }, Some(base_dir), None)
     }
   };
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 2a5b733..2ccb576 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -88,14 +88,14 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_header(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("noheader") {
+    if self.standalone() && !self.doc_meta.is_true("noheader") {
       self.render_division_start("header");
     }
   }
 
   #[instrument(skip_all)]
   fn exit_header(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("noheader") {
+    if self.standalone() && !self.doc_meta.is_true("noheader") {
       if !self.doc_meta.authors().is_empty()
         || self.doc_meta.get("revnumber").is_some()
         || self.doc_meta.get("revdate").is_some()
@@ -109,14 +109,14 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.standalone() {
       self.render_division_start("content");
     }
   }
 
   #[instrument(skip_all)]
   fn exit_content(&mut self) {
-    if !self.doc_meta.embedded {
+    if self.standalone() {
       self.push_str("</div>")
     }
   }
@@ -126,7 +126,7 @@ impl Backend for AsciidoctorHtml {
     if !self.state.footnotes.borrow().is_empty() && !self.state.in_asciidoc_table_cell {
       self.render_footnotes();
     }
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("nofooter") {
+    if self.standalone() && !self.doc_meta.is_true("nofooter") {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
@@ -138,7 +138,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_footer(&mut self) {
-    if !self.doc_meta.embedded && !self.doc_meta.is_true("nofooter") {
+    if self.standalone() && !self.doc_meta.is_true("nofooter") {
       self.push_str("</div>")
     }
   }
-- 
2.43.0


From 12cce843a3a0ad1af82e7910aa97a73f3e2640c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 121/156] fix: JSON of the wasm front end escapes every
 character that needs it; columns of text diagnostics are characters; strict
 includes only fail on paths differing in case; style sheets of caller
 attributes are embedded

---
 cli/src/css.rs           |  4 ++--
 cli/src/resolver.rs      | 17 ++++++++++++-----
 dr-html-wasm/src/lib.rs  | 29 ++++++++++++++++++++---------
 parser/src/diagnostic.rs | 19 ++++++++++++++++---
 4 files changed, 50 insertions(+), 19 deletions(-)

diff --git a/cli/src/css.rs b/cli/src/css.rs
index 9a00562..55192f2 100644
--- a/cli/src/css.rs
+++ b/cli/src/css.rs
@@ -2,7 +2,7 @@ use asciidork_ast::Document;
 use asciidork_core::{Path, ReadAttr, SafeMode};
 
 pub fn resolve(document: &mut Document) -> Result<(), String> {
-  let attrs = document.meta.header_attrs();
+  let attrs = &document.meta;
   let Some(custom_filename) = attrs.str("stylesheet") else {
     return Ok(());
   };
@@ -25,7 +25,7 @@ pub fn resolve(document: &mut Document) -> Result<(), String> {
     )
   })?;
 
-  if document.meta.safe_mode != SafeMode::Unsafe && !canonical_path.starts_with(cwd) {
+  if document.meta.safe_mode != SafeMode::Unsafe && !canonical_path.starts_with(dunce::canonicalize(cwd).unwrap_or_default()) {
     return Err(format!(
       "stylesheet path `{}{}{}` not permitted outside cwd except in unsafe mode",
       stylesdir,
diff --git a/cli/src/resolver.rs b/cli/src/resolver.rs
index fe517be..e703528 100644
--- a/cli/src/resolver.rs
+++ b/cli/src/resolver.rs
@@ -1,3 +1,4 @@
+use std::ffi::OsStr;
 use std::fs::File;
 use std::io::{BufReader, Read};
 use std::path::PathBuf;
@@ -73,17 +74,18 @@ impl CliResolver {
       }
     }
 
-    if self.strict && pathb != pathc {
+    if self.strict {
       match (pathb.file_name(), pathc.file_name()) {
         // only send back the filename so we don't accidentally expose
         // full system filepaths in error messages for security reasons
-        (Some(pfn), Some(cfn)) if pfn != cfn => {
+        (Some(pfn), Some(cfn)) if differ_in_case(pfn, cfn) => {
           return Err(CaseMismatch(Some(cfn.to_string_lossy().to_string())));
         }
-        _ => return Err(CaseMismatch(None)),
+        _ if differ_in_case(pathb.as_os_str(), pathc.as_os_str()) => {
+          return Err(CaseMismatch(None));
+        }
+        _ => {}
       }
-    } else if !pathb.exists() {
-      return Err(NotFound);
     }
 
     let file = File::open(pathb)?;
@@ -94,3 +96,8 @@ impl CliResolver {
     Ok(len)
   }
 }
+
+fn differ_in_case(path: &OsStr, actual: &OsStr) -> bool {
+  path != actual
+    && path.to_string_lossy().to_lowercase() == actual.to_string_lossy().to_lowercase()
+}
diff --git a/dr-html-wasm/src/lib.rs b/dr-html-wasm/src/lib.rs
index ca1bf5c..2bcef0e 100644
--- a/dr-html-wasm/src/lib.rs
+++ b/dr-html-wasm/src/lib.rs
@@ -21,20 +21,31 @@ pub fn convert(adoc: &str, timestamp: f64) -> String {
   match result {
     Ok(ParseResult { document, .. }) => {
       let html = backend::convert(document).unwrap();
-      format!(
-        r#"{{"success":true,"html":"{}"}}"#,
-        html.replace('"', "\\\"").replace('\n', "\\n")
-      )
+      format!(r#"{{"success":true,"html":{}}}"#, json_string(&html))
     }
     Err(diagnostics) => format!(
-      r#"{{"success":false,"errors":["{}"]}}"#,
+      r#"{{"success":false,"errors":[{}]}}"#,
       diagnostics
         .iter()
-        .map(Diagnostic::plain_text)
+        .map(|diagnostic| json_string(&diagnostic.plain_text()))
         .collect::<Vec<_>>()
-        .join(r#"",""#)
-        .replace('"', "\\\"")
-        .replace('\n', "\\n")
+        .join(",")
     ),
   }
 }
+
+fn json_string(s: &str) -> String {
+  let mut json = String::with_capacity(s.len() + s.len() / 8 + 2);
+  json.push('"');
+  for ch in s.chars() {
+    match ch {
+      '"' => json.push_str("\\\""),
+      '\\' => json.push_str("\\\\"),
+      '\n' => json.push_str("\\n"),
+      ch if ch < ' ' => json.push_str(&format!("\\u{:04x}", ch as u32)),
+      ch => json.push(ch),
+    }
+  }
+  json.push('"');
+  json
+}
diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 365337b..4c6504e 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -197,6 +197,17 @@ impl Diagnostic {
     self.plain_text_with(NoColor)
   }
 
+  fn underlined_chars(&self) -> (usize, usize) {
+    let chars_before = |pos: usize| {
+      let within = self.line.char_indices().take_while(|(i, _)| *i < pos);
+      within.count() + pos.saturating_sub(self.line.len())
+    };
+    let start = self.underline_start as usize;
+    let before = chars_before(start);
+    let through = chars_before(start + self.underline_width as usize);
+    (before, through - before)
+  }
+
   pub fn plain_text_with<C: DiagnosticColor>(&self, colorizer: C) -> String {
     let line_num_pad = match self.line_num {
       n if n < 10 => 4,
@@ -205,6 +216,8 @@ impl Diagnostic {
       n if n < 10000 => 7,
       _ => 8,
     };
+    // columns are counted in characters
+    let (indent, marked) = self.underlined_chars();
     format!(
       "{}{}{}{}{}{}{}\n{}{}\n{} {} {}\n{}{} {}{} {}\n",
       " ".repeat((line_num_pad - 3) as usize),
@@ -213,7 +226,7 @@ impl Diagnostic {
       colorizer.line_num(":"),
       colorizer.line_num(self.line_num.to_string()),
       colorizer.line_num(":"),
-      colorizer.line_num((self.underline_start + 1).to_string()),
+      colorizer.line_num((indent + 1).to_string()),
       " ".repeat((line_num_pad - 2) as usize),
       colorizer.line_num("|"),
       colorizer.line_num(self.line_num.to_string()),
@@ -221,8 +234,8 @@ impl Diagnostic {
       colorizer.line(&self.line),
       " ".repeat((line_num_pad - 2) as usize),
       colorizer.line_num("|"),
-      " ".repeat(self.underline_start as usize),
-      colorizer.location("^".repeat(self.underline_width as usize)),
+      " ".repeat(indent),
+      colorizer.location("^".repeat(marked)),
       colorizer.message(&self.message),
     )
   }
-- 
2.43.0


From 8495d89508abf31c05ef1ff2b3402134b54bef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 122/156] fix: the documents of table cells have no docinfo

---
 parser/src/docinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 5da9955..8a7744c 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -3,7 +3,7 @@ use std::borrow::Cow;
 
 impl<'arena> Parser<'arena> {
   pub(crate) fn resolve_docinfo(&mut self) {
-    if self.document.meta.safe_mode >= SafeMode::Secure {
+    if self.document.meta.safe_mode >= SafeMode::Secure || self.ctx.parsing_adoc_cell() {
       return;
     }
     let docinfo = docinfo_attributes(&self.document.meta);
-- 
2.43.0


From d3a9c1356ba274fc17864d062abdb17fc466e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 123/156] fix: the doctype set by the caller, also as an
 attribute, is not changed by the document

---
 core/src/document_meta.rs |  5 ++++-
 core/src/job_settings.rs  | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 59ac719..9dbb352 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -73,6 +73,7 @@ impl DocumentMeta {
 
   pub fn clone_for_cell(&self) -> Self {
     let mut dm = self.clone();
+    dm.remove_attr("doctype");
     dm.set_doctype(DocType::Article);
     // the cell starts from the attrs in effect here, but may change them, even in its own header
     dm.header_attrs.extend(std::mem::take(&mut dm.doc_attrs));
@@ -148,7 +149,9 @@ impl DocumentMeta {
     match key {
       "doctype" => {
         if let Some(doctype) = value.str().and_then(|s| s.parse::<DocType>().ok()) {
-          self.set_doctype(doctype);
+          if !self.job_attrs.get("doctype").is_some_and(|attr| attr.readonly) {
+            self.set_doctype(doctype);
+          }
         } else {
           return Err("Invalid doctype: expected `article`, `book`, `manpage`, or `inline`".into());
         }
diff --git a/core/src/job_settings.rs b/core/src/job_settings.rs
index b4c5ae5..38dc685 100644
--- a/core/src/job_settings.rs
+++ b/core/src/job_settings.rs
@@ -58,11 +58,19 @@ impl Default for JobSettings {
 impl From<JobSettings> for DocumentMeta {
   fn from(settings: JobSettings) -> Self {
     let JobSettings {
-      mut job_attrs, doctype, safe_mode, ..
+      mut job_attrs,
+      mut doctype,
+      safe_mode,
+      ..
     } = settings;
+    let attr_doctype = job_attrs
+      .get("doctype")
+      .and_then(|attr| attr.value.str()?.parse::<DocType>().ok());
     if let Some(doctype) = doctype {
       // if they set the doctype at the job level, it can't be changed
       job_attrs.insert_unchecked("doctype", JobAttr::readonly(doctype.to_str()));
+    } else if attr_doctype.is_some() {
+      doctype = attr_doctype;
     } else {
       job_attrs.insert_unchecked("doctype", JobAttr::modifiable("article"));
     }
-- 
2.43.0


From 9776413a2b5971ba20b059884b713a3faedcfe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:27 +0000
Subject: [PATCH 124/156] fix: tags select the lines of regions the way the
 innermost region says, wildcards included

---
 parser/src/tasks/directives/includes/tags.rs | 198 ++++++++++++-------
 1 file changed, 127 insertions(+), 71 deletions(-)

diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index d91db7b..9e5fbd6 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -19,55 +19,44 @@ pub enum Spec {
   AllUntaggedIncl(String),       // !*;foo
 }
 
-#[derive(Debug, PartialEq, Eq)]
-enum Strategy {
-  Any,
-  All,
-}
-
-impl Spec {
-  fn satisfied_by(&self, stack: &TagStack) -> bool {
-    match self {
-      Spec::AllNonTagDirectiveLines => true,
-      Spec::NoLines => false,
-      Spec::AllTaggedRegions => !stack.is_empty(),
-      Spec::AllUntaggedRegions => stack.is_empty(),
-      Spec::Tag(tag) => stack.contains(tag),
-      Spec::AllLinesExcl(tag) => !stack.contains(tag),
-      Spec::TagExclAllNested(tag) => stack.last_is(tag),
-      Spec::TagExclNested(incl, excl) => stack.contains(incl) && !stack.contains(excl),
-      Spec::AllTaggedExcl(tag) => !stack.is_empty() && !stack.contains(tag),
-      Spec::AllUntaggedIncl(tag) => stack.is_empty() || stack.last_is(tag),
-    }
-  }
-}
-
 #[derive(Debug, PartialEq, Eq)]
 pub struct TagSpecs(Vec<Spec>);
 
 impl TagSpecs {
-  fn strategy(&self) -> Strategy {
-    if self.0.first() == Some(&Spec::AllNonTagDirectiveLines) {
-      Strategy::All
-    } else if self.0.iter().all(|s| matches!(s, Spec::AllLinesExcl(_))) {
-      Strategy::All
-    } else {
-      Strategy::Any
+  /// the tags selected (or not) in order, incl. wildcards, the last selection of each
+  fn selections(&self) -> Vec<(&str, bool)> {
+    let mut selections: Vec<(&str, bool)> = Vec::with_capacity(self.0.len() + 1);
+    let mut select = |tag, selected| match selections.iter_mut().find(|(t, _)| *t == tag) {
+      Some(selection) => selection.1 = selected,
+      None => selections.push((tag, selected)),
+    };
+    for spec in &self.0 {
+      match spec {
+        Spec::AllNonTagDirectiveLines => select("**", true),
+        Spec::NoLines => select("**", false),
+        Spec::AllTaggedRegions => select("*", true),
+        Spec::AllUntaggedRegions => select("*", false),
+        Spec::Tag(tag) => select(tag, true),
+        Spec::AllLinesExcl(tag) => select(tag, false),
+        Spec::TagExclAllNested(tag) => {
+          select(tag, true);
+          select("*", false);
+        }
+        Spec::TagExclNested(incl, excl) => {
+          select(incl, true);
+          select(excl, false);
+        }
+        Spec::AllTaggedExcl(tag) => {
+          select("*", true);
+          select(tag, false);
+        }
+        Spec::AllUntaggedIncl(tag) => {
+          select("*", false);
+          select(tag, true);
+        }
+      }
     }
-  }
-
-  fn expected_tags(&self) -> HashSet<String> {
-    self
-      .0
-      .iter()
-      .filter_map(|spec| match spec {
-        Spec::Tag(tag) => Some(tag.clone()),
-        Spec::TagExclAllNested(tag) => Some(tag.clone()),
-        Spec::TagExclNested(tag, _) => Some(tag.clone()),
-        Spec::AllUntaggedIncl(tag) => Some(tag.clone()),
-        _ => None,
-      })
-      .collect()
+    selections
   }
 
   fn push(&mut self, spec: Spec) {
@@ -107,17 +96,84 @@ impl TagSpecs {
       (Some(Spec::AllUntaggedIncl(prev)), Spec::AllLinesExcl(tag)) if prev == tag => {
         self.0.push(Spec::AllUntaggedRegions);
       }
-      // this spec effectively nullifies all previous ones
-      (_, Spec::AllNonTagDirectiveLines) => self.0 = vec![Spec::AllNonTagDirectiveLines],
+      // this spec effectively nullifies all previous ones selecting lines
+      (Some(Spec::Tag(_)), Spec::AllNonTagDirectiveLines)
+        if self.0.iter().all(|spec| matches!(spec, Spec::Tag(_))) =>
+      {
+        self.0 = vec![Spec::AllNonTagDirectiveLines];
+      }
       (prev, spec) => {
         prev.map(|prev| self.0.push(prev));
         self.0.push(spec);
       }
     }
   }
+}
+
+/// what to do with the lines of tagged regions
+struct Selection {
+  tags: Vec<(String, bool)>,
+  /// for tags not named
+  wildcard: Option<bool>,
+  /// for lines outside of any tagged region
+  base: bool,
+}
+
+impl Selection {
+  // https://github.com/asciidoctor/asciidoctor/blob/v2.0.23/lib/asciidoctor/reader.rb#L1162
+  fn new(specs: &TagSpecs) -> Self {
+    let mut tags = specs.selections();
+    let wildcard_first = tags.first().is_some_and(|(tag, _)| *tag == "*");
+    let mut take = |name: &str| {
+      let idx = tags.iter().position(|(tag, _)| *tag == name)?;
+      Some(tags.remove(idx).1)
+    };
+    let (all_lines, mut wildcard) = (take("**"), take("*"));
+    let base = match (all_lines, wildcard) {
+      (Some(all_lines), None) => {
+        if !all_lines && tags.first().is_some_and(|(_, selected)| !selected) {
+          wildcard = Some(true);
+        }
+        all_lines
+      }
+      (Some(all_lines), Some(_)) => all_lines,
+      (None, Some(wildcard)) => wildcard_first && !wildcard,
+      (None, None) => !tags.iter().any(|(_, selected)| *selected),
+    };
+    Self {
+      tags: tags
+        .iter()
+        .map(|(tag, selected)| (tag.to_string(), *selected))
+        .collect(),
+      wildcard,
+      base,
+    }
+  }
+
+  fn get(&self, tag: &str) -> Option<bool> {
+    self
+      .tags
+      .iter()
+      .find(|(name, _)| name == tag)
+      .map(|(_, selected)| *selected)
+  }
+
+  fn expects(&self, tag: &str) -> bool {
+    self.get(tag) == Some(true)
+  }
 
-  fn specs(&self) -> impl Iterator<Item = &Spec> {
-    self.0.iter()
+  /// whether the lines of region starting are selected, `None` if the tag is of no interest
+  fn start(&self, tag: &str, stack: &TagStack) -> Option<bool> {
+    self.get(tag).or_else(|| {
+      self
+        .wildcard
+        .map(|selected| selected && stack.last().is_none_or(|outer| outer.selected))
+    })
+  }
+
+  fn expected_tags(&self) -> HashSet<String> {
+    let expected = self.tags.iter().filter(|(_, selected)| *selected);
+    expected.map(|(tag, _)| tag.clone()).collect()
   }
 }
 
@@ -193,7 +249,7 @@ impl<'arena> Parser<'arena> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
     let lines = src.strip_suffix(b"\n").unwrap_or(src).split(|&c| c == b'\n');
-    let strategy = selection.strategy();
+    let selection = Selection::new(&selection);
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
     let mut line_nums = Vec::new();
@@ -203,14 +259,16 @@ impl<'arena> Parser<'arena> {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           line_nums.push((idx as u32) + 1);
           expected_tags.remove(&tag);
-          tag_stack.push(tag, idx);
+          if let Some(selected) = selection.start(&tag, &tag_stack) {
+            tag_stack.push(tag, idx, selected);
+          }
         }
         Some(TagDirective::End(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           line_nums.push((idx as u32) + 1);
           if tag_stack.last_is(&tag) {
             tag_stack.pop();
-          } else if selection.expected_tags().contains(&tag) {
+          } else if selection.expects(&tag) {
             let line = nth_line(src, idx).unwrap().to_string();
             let underline_start = line.find(&tag).unwrap_or(0) as u32;
             self.err(Diagnostic {
@@ -218,7 +276,7 @@ impl<'arena> Parser<'arena> {
               line,
               message: tag_stack.last().map_or_else(
                 || format!("Unexpected end tag `{tag}`"),
-                |t| format!("Mismatched end tag, expected `{}` but found `{}`", t.0, tag),
+                |t| format!("Mismatched end tag, expected `{}` but found `{}`", t.tag, tag),
               ),
               underline_start,
               underline_width: tag.len() as u32,
@@ -227,10 +285,9 @@ impl<'arena> Parser<'arena> {
           }
         }
         None => {
-          if (strategy == Strategy::All
-            && selection.specs().all(|spec| spec.satisfied_by(&tag_stack)))
-            || (strategy == Strategy::Any
-              && selection.specs().any(|spec| spec.satisfied_by(&tag_stack)))
+          if tag_stack
+            .last()
+            .map_or(selection.base, |region| region.selected)
           {
             if !pushed_non_empty_line
               && (!line.is_empty() || line.iter().any(|&b| !b.is_ascii_whitespace()))
@@ -245,8 +302,8 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    if let Some((tag, line_idx)) = tag_stack.last()
-      && selection.expected_tags().contains(tag)
+    if let Some(TaggedRegion { tag, line_idx, .. }) = tag_stack.last()
+      && selection.expects(tag)
     {
       let line = nth_line(src, *line_idx).unwrap().to_string();
       let underline_start = line.find(tag).unwrap_or(0) as u32;
@@ -292,36 +349,35 @@ fn nth_line(src: &[u8], n: usize) -> Option<&str> {
 }
 
 #[derive(Debug)]
-struct TagStack(Vec<(String, usize)>);
+struct TaggedRegion {
+  tag: String,
+  line_idx: usize,
+  selected: bool,
+}
+
+#[derive(Debug)]
+struct TagStack(Vec<TaggedRegion>);
 
 impl TagStack {
   fn new() -> Self {
     TagStack(Vec::with_capacity(3))
   }
 
-  fn push(&mut self, tag: String, line_idx: usize) {
-    self.0.push((tag, line_idx));
+  fn push(&mut self, tag: String, line_idx: usize, selected: bool) {
+    self.0.push(TaggedRegion { tag, line_idx, selected });
   }
 
   fn pop(&mut self) {
     self.0.pop();
   }
 
-  const fn is_empty(&self) -> bool {
-    self.0.is_empty()
-  }
-
   fn last_is(&self, tag: &str) -> bool {
-    self.0.last().map(|(t, _)| t == tag).unwrap_or(false)
+    self.last().is_some_and(|region| region.tag == tag)
   }
 
-  fn last(&self) -> Option<&(String, usize)> {
+  fn last(&self) -> Option<&TaggedRegion> {
     self.0.last()
   }
-
-  fn contains(&self, tag: &str) -> bool {
-    self.0.iter().any(|(t, _)| t == tag)
-  }
 }
 
 #[derive(Debug, PartialEq, Eq)]
-- 
2.43.0


From dd6baac11d99236184202630e8435af0aefd1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 125/156] fix: subs steps apply as documented, however mixed;
 apostrophes are replacements; passthroughs in pass macros and monospace; URLs
 end before the closing mark; line breaks of verses

---
 dr-html-backend/src/asciidoctor_html.rs       |   5 +-
 parser/src/line.rs                            |  60 ++++++---
 parser/src/substitutions.rs                   |   2 +-
 parser/src/tasks/customize_subs.rs            | 127 +++++++-----------
 .../src/tasks/parse_inlines/inline_preproc.rs |  16 ++-
 parser/src/tasks/parse_inlines/mod.rs         |   6 +-
 6 files changed, 106 insertions(+), 110 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 2ccb576..453d45d 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1131,7 +1131,10 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_linebreak(&mut self) {
-    self.push_str("<br> ");
+    match self.newlines {
+      Newlines::Preserve => self.push_str("<br>\n"),
+      _ => self.push_str("<br> "),
+    }
   }
 
   #[instrument(skip_all)]
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 82b3399..ebb5cdf 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -713,28 +713,50 @@ impl<'arena> Line<'arena> {
     stop: Option<TokenKind>,
     bump: &'arena Bump,
   ) -> SourceString<'arena> {
-    let mut loc = start.map_or_else(|| self.first_loc().unwrap(), |t| t.loc);
-    let mut num_tokens = 0;
-
-    if let Some(stop) = stop {
-      num_tokens = self.index_of_kind(stop).unwrap_or(0);
-    } else {
-      for token in self.iter() {
-        match token.kind {
-          Whitespace | Newline | GreaterThan | OpenBracket | OpenParens | CloseParens | Star => break,
-          _ => num_tokens += 1,
-        }
+    match stop {
+      Some(stop) => {
+        let num_tokens = self.index_of_kind(stop).unwrap_or(0);
+        self.consume_url_tokens(start, num_tokens, bump)
       }
-      // punctuation is part of the url, unless it ends it, in which case it belongs to the prose
-      while num_tokens > 0
-        && matches!(
-          self.tokens.get(num_tokens - 1).map(|t| t.kind),
-          Some(Dots | Bang | SemiColon | Colon | QuestionMark | Comma)
-        )
-      {
-        num_tokens -= 1;
+      None => self.consume_url_until(start, &[], bump),
+    }
+  }
+
+  /// a url within text ending at `stop_tokens`, e.g. the mark closing formatted text
+  #[must_use]
+  pub fn consume_url_until(
+    &mut self,
+    start: Option<&Token>,
+    stop_tokens: &[TokenSpec],
+    bump: &'arena Bump,
+  ) -> SourceString<'arena> {
+    let mut num_tokens = 0;
+    for token in self.iter() {
+      match token.kind {
+        Whitespace | Newline | GreaterThan | OpenBracket | OpenParens | CloseParens | Star => break,
+        _ if self.has_seq_at(stop_tokens, num_tokens as u32) => break,
+        _ => num_tokens += 1,
       }
     }
+    // punctuation is part of the url, unless it ends it, in which case it belongs to the prose
+    while num_tokens > 0
+      && matches!(
+        self.tokens.get(num_tokens - 1).map(|t| t.kind),
+        Some(Dots | Bang | SemiColon | Colon | QuestionMark | Comma)
+      )
+    {
+      num_tokens -= 1;
+    }
+    self.consume_url_tokens(start, num_tokens, bump)
+  }
+
+  fn consume_url_tokens(
+    &mut self,
+    start: Option<&Token>,
+    num_tokens: usize,
+    bump: &'arena Bump,
+  ) -> SourceString<'arena> {
+    let mut loc = start.map_or_else(|| self.first_loc().unwrap(), |t| t.loc);
 
     let mut s = BumpString::new_in(bump);
     if let Some(start) = start {
diff --git a/parser/src/substitutions.rs b/parser/src/substitutions.rs
index b8d5732..59b6d47 100644
--- a/parser/src/substitutions.rs
+++ b/parser/src/substitutions.rs
@@ -133,7 +133,7 @@ impl Substitutions {
       return;
     }
     self.flags |= sub.bitflag_pos();
-    for i in 0..6 {
+    for i in 0..self.order.len() {
       if self.order[i].is_none() {
         self.order[i] = Some(sub);
         return;
diff --git a/parser/src/tasks/customize_subs.rs b/parser/src/tasks/customize_subs.rs
index c728198..cc67c87 100644
--- a/parser/src/tasks/customize_subs.rs
+++ b/parser/src/tasks/customize_subs.rs
@@ -6,97 +6,38 @@ pub fn from_meta(current: Substitutions, attrs: &MultiAttrList) -> Substitutions
     return current;
   };
 
-  let mut next = iff!(subs.contains(['-', '+']), current, Substitutions::none());
-  for part in subs.split(',') {
-    let len = part.len();
-    if len < 4 {
-      // TODO: error? warning?
-      continue;
-    }
-
+  // a first step without a modifier replaces the current ones, with one modifies them
+  let mut next: Option<Substitutions> = None;
+  for part in subs.split(',').map(str::trim) {
     let bytes = part.as_bytes();
-    let (strategy, name) = match (bytes[0], bytes[len - 1]) {
-      (b'+', _) => (Strategy::Append, &bytes[1..len]),
-      (_, b'+') => (Strategy::Prepend, &bytes[0..len - 1]),
-      (b'-', _) => (Strategy::Remove, &bytes[1..len]),
+    let (strategy, name) = match bytes {
+      [b'+', name @ ..] => (Strategy::Append, name),
+      [name @ .., b'+'] => (Strategy::Prepend, name),
+      [b'-', name @ ..] => (Strategy::Remove, name),
       _ => (Strategy::Replace, bytes),
     };
 
+    let modify = match strategy {
+      Strategy::Replace | Strategy::Append => Substitutions::insert,
+      Strategy::Prepend => Substitutions::prepend,
+      Strategy::Remove => Substitutions::remove,
+    };
+    let next = next.get_or_insert(match strategy {
+      Strategy::Replace => Substitutions::none(),
+      _ => current,
+    });
     let Some(step_or_group) = StepOrGroup::from(name) else {
       // TODO: error? warning?
       continue;
     };
-
-    match strategy {
-      Strategy::Replace => match step_or_group {
-        StepOrGroup::None => {}
-        StepOrGroup::Normal => {
-          next.insert(Subs::SpecialChars);
-          next.insert(Subs::InlineFormatting);
-          next.insert(Subs::AttrRefs);
-          next.insert(Subs::CharReplacement);
-          next.insert(Subs::Macros);
-          next.insert(Subs::PostReplacement);
-        }
-        StepOrGroup::Verbatim => {
-          next.insert(Subs::SpecialChars);
-          next.insert(Subs::CharReplacement);
-        }
-        StepOrGroup::SpecialChars => next.insert(Subs::SpecialChars),
-        StepOrGroup::Callouts => next.insert(Subs::Callouts),
-        StepOrGroup::Quotes => next.insert(Subs::InlineFormatting),
-        StepOrGroup::Attributes => next.insert(Subs::AttrRefs),
-        StepOrGroup::Replacements => next.insert(Subs::CharReplacement),
-        StepOrGroup::Macros => next.insert(Subs::Macros),
-        StepOrGroup::PostReplacements => next.insert(Subs::PostReplacement),
-      },
-      Strategy::Append | Strategy::Prepend | Strategy::Remove => {
-        let modify = match strategy {
-          Strategy::Append => Substitutions::insert,
-          Strategy::Prepend => Substitutions::prepend,
-          Strategy::Remove => Substitutions::remove,
-          _ => unreachable!(),
-        };
-        match step_or_group {
-          StepOrGroup::None => {}
-          StepOrGroup::Normal => {
-            modify(&mut next, Subs::SpecialChars);
-            modify(&mut next, Subs::InlineFormatting);
-            modify(&mut next, Subs::AttrRefs);
-            modify(&mut next, Subs::CharReplacement);
-            modify(&mut next, Subs::Macros);
-            modify(&mut next, Subs::PostReplacement);
-          }
-          StepOrGroup::Verbatim => {
-            modify(&mut next, Subs::SpecialChars);
-            modify(&mut next, Subs::CharReplacement);
-          }
-          StepOrGroup::SpecialChars => {
-            modify(&mut next, Subs::SpecialChars);
-          }
-          StepOrGroup::Callouts => {
-            modify(&mut next, Subs::Callouts);
-          }
-          StepOrGroup::Quotes => {
-            modify(&mut next, Subs::InlineFormatting);
-          }
-          StepOrGroup::Attributes => {
-            modify(&mut next, Subs::AttrRefs);
-          }
-          StepOrGroup::Replacements => {
-            modify(&mut next, Subs::CharReplacement);
-          }
-          StepOrGroup::Macros => {
-            modify(&mut next, Subs::Macros);
-          }
-          StepOrGroup::PostReplacements => {
-            modify(&mut next, Subs::PostReplacement);
-          }
-        }
-      }
+    let steps = step_or_group.steps();
+    if strategy == Strategy::Prepend {
+      steps.iter().rev().for_each(|step| modify(next, *step));
+    } else {
+      steps.iter().for_each(|step| modify(next, *step));
     }
   }
-  next
+  next.unwrap_or(Substitutions::none())
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -122,12 +63,34 @@ enum StepOrGroup {
 }
 
 impl StepOrGroup {
+  const fn steps(&self) -> &'static [Subs] {
+    match self {
+      Self::None => &[],
+      Self::Normal => &[
+        Subs::SpecialChars,
+        Subs::InlineFormatting,
+        Subs::AttrRefs,
+        Subs::CharReplacement,
+        Subs::Macros,
+        Subs::PostReplacement,
+      ],
+      Self::Verbatim => &[Subs::SpecialChars, Subs::Callouts],
+      Self::SpecialChars => &[Subs::SpecialChars],
+      Self::Callouts => &[Subs::Callouts],
+      Self::Quotes => &[Subs::InlineFormatting],
+      Self::Attributes => &[Subs::AttrRefs],
+      Self::Replacements => &[Subs::CharReplacement],
+      Self::Macros => &[Subs::Macros],
+      Self::PostReplacements => &[Subs::PostReplacement],
+    }
+  }
+
   const fn from(s: &[u8]) -> Option<Self> {
     match s {
       b"none" => Some(Self::None),
       b"normal" => Some(Self::Normal),
       b"verbatim" => Some(Self::Verbatim),
-      b"specialchars" => Some(Self::SpecialChars),
+      b"specialchars" | b"specialcharacters" => Some(Self::SpecialChars),
       b"callouts" => Some(Self::Callouts),
       b"quotes" => Some(Self::Quotes),
       b"attributes" => Some(Self::Attributes),
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index e62b784..78f7ea7 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -57,7 +57,7 @@ impl<'arena> Parser<'arena> {
       line.discard(plus_count - 1);
       num_passthru_tokens -= plus_count - 1;
     }
-    let mut passlines = self.passthru_parse_lines(num_passthru_tokens, line, lines);
+    let mut passlines = self.passthru_parse_lines(num_passthru_tokens, subs, line, lines);
     if plus_count > 1 {
       line.discard(plus_count - 1);
     }
@@ -78,16 +78,18 @@ impl<'arena> Parser<'arena> {
   fn passthru_parse_lines(
     &self,
     num_tokens: usize,
+    subs: Substitutions,
     line: &mut Line<'arena>,
     lines: &mut ContiguousLines<'arena>,
   ) -> ContiguousLines<'arena> {
     let passthru = ContiguousLines::with_capacity(1, self.bump);
-    self.accum_passthru(num_tokens, line, lines, passthru)
+    self.accum_passthru(num_tokens, subs, line, lines, passthru)
   }
 
   fn accum_passthru(
     &self,
     mut num_tokens: usize,
+    subs: Substitutions,
     line: &mut Line<'arena>,
     source: &mut ContiguousLines<'arena>,
     mut passthru: ContiguousLines<'arena>,
@@ -100,7 +102,12 @@ impl<'arena> Parser<'arena> {
         return passthru;
       }
       if let Some(token) = line.consume_current() {
-        passthru_line.push_nonpass(token);
+        // passthrus nested in the text are only passed through by the macros step
+        if subs.macros() {
+          passthru_line.push(token);
+        } else {
+          passthru_line.push_nonpass(token);
+        }
         num_tokens -= 1;
       } else {
         if !passthru_line.is_empty() {
@@ -242,7 +249,8 @@ fn pass_macro_subs<'arena>(
 
 #[inline(always)]
 fn could_be_plus_passthru(prev_kind: Option<TokenKind>, line: &Line) -> bool {
-  if prev_kind == Some(Backtick) || line.starts_with_seq(&[TokenSpec::Kind(Plus); 3]) {
+  let lit_mono = prev_kind == Some(Backtick) && !line.starts_with_seq(&[TokenSpec::Kind(Plus); 2]);
+  if lit_mono || line.starts_with_seq(&[TokenSpec::Kind(Plus); 3]) {
     false
   } else if !line.starts(Plus) {
     prev_kind.is_none() || matches!(prev_kind, Some(Whitespace | Plus))
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index af0c67e..2b78a4c 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -739,7 +739,7 @@ impl<'arena> Parser<'arena> {
             break;
           }
 
-          Backtick if subs.inline_formatting() && line.current_is(SingleQuote) => {
+          Backtick if subs.char_replacement() && line.current_is(SingleQuote) => {
             push_simple(CurlyQuote(RightSingle), &token, line, &mut acc, lines);
             break;
           }
@@ -800,7 +800,7 @@ impl<'arena> Parser<'arena> {
             );
           }
 
-          SingleQuote if line.current_is(Word) && subs.inline_formatting() => {
+          SingleQuote if line.current_is(Word) && subs.char_replacement() => {
             if acc.text.is_empty()
               || acc
                 .text
@@ -904,7 +904,7 @@ impl<'arena> Parser<'arena> {
           {
             let mut loc = token.loc;
             let line_end = line.last_loc().unwrap_or(loc);
-            let target = line.consume_url(Some(&token), None, self.bump);
+            let target = line.consume_url_until(Some(&token), stop_tokens, self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
             } else {
-- 
2.43.0


From 69c09391969522ea8e010b7b2d8d296b0fff638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 126/156] fix: lines of verbatim text are no comments whatever
 its subs, those of compound blocks don't apply within

---
 parser/src/parse_context.rs           |  2 --
 parser/src/parser.rs                  |  3 +++
 parser/src/tasks/parse_block.rs       | 20 ++++++++++++++------
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 parser/src/tasks/table/parse_table.rs |  2 ++
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index a8304b4..416ffd7 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -192,8 +192,6 @@ impl<'arena> ParseContext<'arena> {
       }
       _ => {}
     }
-    // TODO: btm of https://docs.asciidoctor.org/asciidoc/latest/subs/apply-subs-to-blocks
-    // says that subs element is only valid on leaf blocks
     self.subs = customize_subs::from_meta(self.subs, &meta.attrs);
     restore
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 5df32d5..371cb96 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -21,6 +21,8 @@ pub struct Parser<'arena> {
   /// lines being read continue a paragraph, or belong to a table or verbatim block
   pub(super) in_text: bool,
   pub(super) in_table: bool,
+  /// lines of the text being parsed which look like comments belong to it
+  pub(super) verbatim_text: bool,
   /// the lines following an attr entry are read again once it is in effect
   pub(super) after_attr_decl: bool,
   pub(super) ctx: ParseContext<'arena>,
@@ -59,6 +61,7 @@ impl<'arena> Parser<'arena> {
       empty_line_before: None,
       in_text: false,
       in_table: false,
+      verbatim_text: false,
       after_attr_decl: false,
       ctx: ParseContext::new(lexer.bump),
       errors: RefCell::new(Vec::new()),
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index e90adc3..72f4518 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -348,18 +348,21 @@ impl<'arena> Parser<'arena> {
     self.ctx.delimiter = Some(delimiter);
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
-    let restore_subs = self.ctx.set_subs_for(context, &meta);
-
-    // newlines have a different meaning in a these contexts, so we have to
-    // manually gather all (including empty) lines until the end delimiter
-    let content = if matches!(
+    let is_leaf = matches!(
       context,
       Context::Listing
         | Context::Literal
         | Context::Passthrough
         | Context::Comment
         | Context::Verse
-    ) {
+    );
+    // substitutions of compound blocks are those of the blocks within
+    let restore_subs =
+      iff!(is_leaf, self.ctx.set_subs_for(context, &meta), self.ctx.subs);
+
+    // newlines have a different meaning in a these contexts, so we have to
+    // manually gather all (including empty) lines until the end delimiter
+    let content = if is_leaf {
       let mut lines = self
         .read_lines_until(delimiter)?
         .unwrap_or_else(|| ContiguousLines::new(Deq::new(self.bump)));
@@ -395,7 +398,9 @@ impl<'arena> Parser<'arena> {
         }
       } else {
         self.ctx.can_nest_blocks = false;
+        self.verbatim_text = true;
         let simple = Content::Simple(self.parse_inlines(&mut lines)?);
+        self.verbatim_text = false;
         self.ctx.can_nest_blocks = true;
         self.ctx.custom_line_comment = None;
         self.restore_lines(lines);
@@ -450,7 +455,10 @@ impl<'arena> Parser<'arena> {
     let restore_subs = self.ctx.set_subs_for(context, &meta);
     let start_loc = lines.first_loc();
     let (num_lines, only_comments) = (lines.len(), lines.iter().all(Line::is_comment));
+    self.verbatim_text = matches!(context, Context::Listing | Context::Literal | Context::Verse);
+    let only_comments = only_comments && !self.verbatim_text;
     let inlines = self.parse_inlines(&mut lines)?;
+    self.verbatim_text = false;
     let consumed_lines = lines.len() < num_lines;
     lines.restore_before(next_items);
     self.ctx.subs = restore_subs;
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 2b78a4c..68beb08 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -42,7 +42,7 @@ impl<'arena> Parser<'arena> {
         return self.finish_inlines(acc, inline_attrs, subs);
       }
 
-      if line.is_comment() && !subs.callouts() {
+      if line.is_comment() && !self.verbatim_text {
         if lines.is_empty() {
           acc.inlines.discard_trailing_newline();
         }
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index a4bdaf8..5d52f76 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -337,7 +337,9 @@ impl<'arena> Parser<'arena> {
       self.ctx.table_cell_ctx = TableCellContext::Cell;
       let prev_subs = self.ctx.subs;
       self.ctx.subs = cell_style.into();
+      self.verbatim_text = cell_style == CellContentStyle::Literal;
       let inlines = self.parse_inlines(&mut data.cell_tokens.into_lines())?;
+      self.verbatim_text = false;
       self.ctx.subs = prev_subs;
       self.ctx.table_cell_ctx = prev_tbl_ctx;
       inlines
-- 
2.43.0


From 438ae8416b600bcc45347e6cbb1ca9d74470e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 127/156] fix: hard breaks apply from the start, in both
 backends, and not in verbatim text

---
 backend-html5s/src/html5s.rs            | 13 ++++++++++++-
 dr-html-backend/src/asciidoctor_html.rs |  8 ++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index dfc0467..dd3d729 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -40,6 +40,10 @@ impl Backend for Html5s {
     utils::set_backend_attrs::<Self>(&mut self.doc_meta);
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
     self.collect_sectnums(document);
+    if document.meta.is_true("hardbreaks-option") {
+      self.default_newlines = Newlines::JoinWithBreak;
+      self.newlines = Newlines::JoinWithBreak;
+    }
 
     if !self.standalone() {
       return;
@@ -285,7 +289,12 @@ impl Backend for Html5s {
     if block.context == BlockContext::BlockQuote {
       self.push_str("<p>");
     }
-    if block.meta.attrs.has_option("hardbreaks") {
+    if matches!(
+      block.context,
+      BlockContext::Verse | BlockContext::Listing | BlockContext::Literal
+    ) {
+      self.newlines = Newlines::Preserve;
+    } else if block.meta.attrs.has_option("hardbreaks") {
       self.newlines = Newlines::JoinWithBreak;
     }
   }
@@ -339,9 +348,11 @@ impl Backend for Html5s {
     }
     html.push('>');
     self.swapbuf(&mut html);
+    self.newlines = Newlines::Preserve;
   }
 
   fn exit_listing_block(&mut self, block: &Block) {
+    self.newlines = self.default_newlines;
     if self.state.ephemeral.remove(&IsSourceBlock) {
       self.push_str("</code>");
     }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 453d45d..a804b58 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -54,7 +54,8 @@ impl Backend for AsciidoctorHtml {
     self.state.section_num_levels = document.meta.isize("sectnumlevels").unwrap_or(3);
     self.collect_sectnums(document);
     if document.meta.is_true("hardbreaks-option") {
-      self.default_newlines = Newlines::JoinWithBreak
+      self.default_newlines = Newlines::JoinWithBreak;
+      self.newlines = Newlines::JoinWithBreak;
     }
 
     if !self.standalone() {
@@ -338,7 +339,10 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_simple_block_content(&mut self, block: &Block) {
-    if block.context == BlockContext::Verse {
+    if matches!(
+      block.context,
+      BlockContext::Verse | BlockContext::Listing | BlockContext::Literal
+    ) {
       self.newlines = Newlines::Preserve;
     } else if block.meta.attrs.has_option("hardbreaks") {
       self.newlines = Newlines::JoinWithBreak;
-- 
2.43.0


From 00b011671d6ab11b8330208677a5156c78f8ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:51 +0000
Subject: [PATCH 128/156] fix: an included file with a byte order mark is still
 checked to be valid, and loses the mark whatever its encoding is declared to
 be

---
 .../tasks/directives/includes/normalize_includes.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 6578175..3f9abec 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -74,14 +74,13 @@ impl<'arena> Parser<'arena> {
     encoding: Option<&str>,
     bytes: &mut BumpVec<u8>,
   ) -> std::result::Result<(), &'static str> {
-    if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding {
-      return self.convert_utf16_le(bytes);
-    }
-
     // UTF-8 BOM
     if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
       bytes.drain(0..3);
-      return Ok(());
+      return match std::str::from_utf8(bytes) {
+        Ok(_) => Ok(()),
+        Err(_) => Err("Invalid UTF-8"),
+      };
     }
 
     // UTF-16 BOM, little endian
@@ -109,6 +108,10 @@ impl<'arena> Parser<'arena> {
       }
     }
 
+    if let Some("utf-16" | "utf16" | "UTF-16" | "UTF16") = encoding {
+      return self.convert_utf16_le(bytes);
+    }
+
     // TODO: doctor supports iso-8859-1, + all encodings ruby supports
     // we could use encoding_rs for this, but might not be any demand
     if std::str::from_utf8(bytes).is_err() {
-- 
2.43.0


From 97d40809c8b14e77c2ad2add508eacb62738e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 129/156] fix: relative level offsets of nested includes add up

---
 parser/src/tasks/directives/includes/process_includes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 74c43f0..c192adc 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -90,7 +90,8 @@ impl<'arena> Parser<'arena> {
         self.included_line_nums = None;
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
-        let mut leveloffset = 0;
+        // NB: relative offsets add to the one of the including file
+        let mut leveloffset = self.lexer.leveloffset(self.lexer.source_idx());
         if let Some(offset_attr) = directive
           .attrs
           .named("leveloffset")
-- 
2.43.0


From 2e4bd7fc7176c43c5644eebab464a1f3fd47ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:10 +0000
Subject: [PATCH 130/156] fix: outfilesuffix is known while parsing and a
 document may set it

---
 backend/src/html/backend.rs |  3 +++
 backend/src/utils.rs        | 10 ++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 7bdf595..4044301 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -46,6 +46,9 @@ pub trait HtmlBackend: HtmlBuf {
     attrs.insert_unchecked("backend-html5", JobAttr::readonly(true));
     attrs.insert_unchecked("basebackend", JobAttr::readonly("html"));
     attrs.insert_unchecked("basebackend-html", JobAttr::readonly(true));
+    if attrs.get("outfilesuffix").is_none() {
+      attrs.insert_unchecked("outfilesuffix", JobAttr::modifiable(".html"));
+    }
   }
 
   fn open_doc_head(&mut self, meta: &DocumentMeta) {
diff --git a/backend/src/utils.rs b/backend/src/utils.rs
index 4763606..09410f0 100644
--- a/backend/src/utils.rs
+++ b/backend/src/utils.rs
@@ -122,10 +122,12 @@ pub fn file_ext(path: &str) -> Option<&str> {
 }
 
 pub fn set_backend_attrs<B: crate::Backend>(doc_meta: &mut ast::DocumentMeta) {
-  // maybe only if not set?
-  doc_meta
-    .insert_doc_attr("outfilesuffix", B::OUTFILESUFFIX.to_string())
-    .unwrap();
+  use ast::ReadAttr;
+  if doc_meta.str("outfilesuffix").is_none() {
+    doc_meta
+      .insert_doc_attr("outfilesuffix", B::OUTFILESUFFIX.to_string())
+      .unwrap();
+  }
 }
 
 #[macro_export]
-- 
2.43.0


From 4367bea2c7a2c1fae7114df604a45fa8b2f282d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:45 +0000
Subject: [PATCH 131/156] fix: plus signs from an attribute's value neither
 open nor close a passthrough

---
 parser/src/line.rs                             |  8 +++++++-
 .../src/tasks/parse_inlines/inline_preproc.rs  | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index ebb5cdf..59d7090 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -466,7 +466,7 @@ impl<'arena> Line<'arena> {
     self.index_of_seq_from(specs, 0)
   }
 
-  fn index_of_seq_from(&self, specs: &[TokenSpec], from: usize) -> Option<usize> {
+  pub fn index_of_seq_from(&self, specs: &[TokenSpec], from: usize) -> Option<usize> {
     assert!(!specs.is_empty());
     let len = self.len();
     if len < specs.len() {
@@ -568,6 +568,12 @@ impl<'arena> Line<'arena> {
       let next = self.nth_token(n + 1);
       let prev = self.nth_token(n - 1); // safe: n > 0
 
+      // a plus from an attribute's value does not end a passthrough
+      if stop_tokens == [Len(1, Plus)] && self.nth_token(n).is_attr_replacement() {
+        search_from = n + 1;
+        continue;
+      }
+
       // e.g: `#`+CB###2+`#` - skip past n if it's inside a run of same-kind tokens
       if stop_tokens.len() == 1
         && prev.is_some_and(|t| stop_tokens[0] == Kind(t.kind) && !t.is_attr_replacement())
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index 78f7ea7..f2df5b7 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -22,7 +22,7 @@ impl<'arena> Parser<'arena> {
             replaced.push_nonpass(token);
           };
         }
-        Plus if could_be_plus_passthru(prev_kind, line) => {
+        Plus if !token.attr_replacement && could_be_plus_passthru(prev_kind, line) => {
           let count = line.iter().take_while(|t| t.kind(Plus)).count() + 1;
           if let Some(n) = self.terminates_plus(count, line, lines) {
             let subs = Substitutions::from_pass_plus_len(count);
@@ -186,7 +186,7 @@ impl<'arena> Parser<'arena> {
 
     let spec = &[TokenSpec::Kind(Plus); 3][..plus_count];
 
-    if let Some(n) = line.index_of_seq(spec) {
+    if let Some(n) = index_of_written(spec, line) {
       return Some(n);
     }
 
@@ -197,7 +197,7 @@ impl<'arena> Parser<'arena> {
       if self.ctx.delimiter.is_some_and(|d| line.is_delimiter(d)) {
         return None; // can't span over pending delimiter
       }
-      if let Some(m) = line.index_of_seq(spec) {
+      if let Some(m) = index_of_written(spec, line) {
         if m == 0 && n == orig_n {
           return None; // empty multiline, e.g. "++\n++"
         } else {
@@ -234,6 +234,18 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+/// as written in the document, not in the value of an attribute
+fn index_of_written(spec: &[TokenSpec], line: &Line) -> Option<usize> {
+  let mut from = 0;
+  while let Some(n) = line.index_of_seq_from(spec, from) {
+    if !line.nth_token(n).is_attr_replacement() {
+      return Some(n);
+    }
+    from = n + 1;
+  }
+  None
+}
+
 fn pass_macro_subs<'arena>(
   line: &mut Line<'arena>,
   n_target_tokens: usize,
-- 
2.43.0


From af88ebf6cfac1bf64d43eb351d4d05a5882b0869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 132/156] fix: formatting marks from an attribute's value do
 not end formatted text, and carets and tildes do not start it

---
 parser/src/contiguous_lines.rs                |  9 ++-
 parser/src/line.rs                            | 58 +++++++++++++++----
 .../src/tasks/parse_inlines/inline_preproc.rs | 16 +----
 .../src/tasks/parse_inlines/inline_utils.rs   | 40 +++++++++++--
 parser/src/tasks/parse_inlines/mod.rs         | 16 +++--
 parser/src/token.rs                           | 10 ++++
 6 files changed, 113 insertions(+), 36 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 27472b7..b21e3f4 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -131,11 +131,16 @@ impl<'arena> ContiguousLines<'arena> {
     self.lines.iter().any(|line| line.contains_len(kind, len))
   }
 
-  pub fn terminates_constrained(&self, stop_tokens: &[TokenSpec], ctx: &InlineCtx) -> bool {
+  pub fn terminates_constrained(
+    &self,
+    stop_tokens: &[TokenSpec],
+    ctx: &InlineCtx,
+    written_only: bool,
+  ) -> bool {
     self
       .lines
       .iter()
-      .any(|line| line.terminates_constrained(stop_tokens, ctx))
+      .any(|line| line.terminates_constrained(stop_tokens, ctx, written_only))
   }
 
   pub fn terminates_index_term(&self) -> Option<usize> {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index 59d7090..93dc2b4 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -466,7 +466,27 @@ impl<'arena> Line<'arena> {
     self.index_of_seq_from(specs, 0)
   }
 
-  pub fn index_of_seq_from(&self, specs: &[TokenSpec], from: usize) -> Option<usize> {
+  fn is_written(&self, from: usize, len: usize) -> bool {
+    (from..from + len).all(|n| !self.nth_token(n).is_attr_replacement())
+  }
+
+  /// as written in the document, not (partly) in the value of an attribute
+  pub fn index_of_written_seq(&self, specs: &[TokenSpec]) -> Option<usize> {
+    let mut from = 0;
+    while let Some(n) = self.index_of_seq_from(specs, from) {
+      if self.is_written(n, specs.len()) {
+        return Some(n);
+      }
+      from = n + 1;
+    }
+    None
+  }
+
+  pub fn starts_with_written_seq(&self, specs: &[TokenSpec]) -> bool {
+    self.starts_with_seq(specs) && self.is_written(0, specs.len())
+  }
+
+  fn index_of_seq_from(&self, specs: &[TokenSpec], from: usize) -> Option<usize> {
     assert!(!specs.is_empty());
     let len = self.len();
     if len < specs.len() {
@@ -530,12 +550,16 @@ impl<'arena> Line<'arena> {
 
   /// `true` if no whitespace until token type *and* token type is found
   pub fn no_whitespace_until(&self, kind: TokenKind) -> bool {
+    self.no_whitespace_until_mark(kind, false)
+  }
+
+  pub fn no_whitespace_until_mark(&self, kind: TokenKind, written_only: bool) -> bool {
     let mut skip_next = false;
     for token in self.iter() {
       if skip_next {
         skip_next = false;
         continue;
-      } else if token.kind(kind) {
+      } else if token.kind(kind) && !(written_only && token.attr_replacement) {
         return true;
         // {sp} is the documented way to add spaces when space not allowed
       } else if token.kind(AttrRef) && token.lexeme == "{sp}" {
@@ -550,30 +574,44 @@ impl<'arena> Line<'arena> {
     false
   }
 
-  pub fn terminates_constrained(&self, stop_tokens: &[TokenSpec], ctx: &InlineCtx) -> bool {
-    self.terminates_constrained_in(stop_tokens, ctx).is_some()
+  pub fn terminates_constrained(
+    &self,
+    stop_tokens: &[TokenSpec],
+    ctx: &InlineCtx,
+    written_only: bool,
+  ) -> bool {
+    self
+      .find_constrained_end(stop_tokens, ctx, written_only)
+      .is_some()
   }
 
   pub fn terminates_constrained_in(
     &self,
     stop_tokens: &[TokenSpec],
     ctx: &InlineCtx,
+  ) -> Option<usize> {
+    self.find_constrained_end(stop_tokens, ctx, true)
+  }
+
+  fn find_constrained_end(
+    &self,
+    stop_tokens: &[TokenSpec],
+    ctx: &InlineCtx,
+    written_only: bool,
   ) -> Option<usize> {
     let mut search_from = 0;
     loop {
       let n = match self.index_of_seq_from(stop_tokens, search_from) {
+        Some(n) if written_only && !self.is_written(n, stop_tokens.len()) => {
+          search_from = n + 1;
+          continue;
+        }
         Some(0) | None => return None,
         Some(n) => n,
       };
       let next = self.nth_token(n + 1);
       let prev = self.nth_token(n - 1); // safe: n > 0
 
-      // a plus from an attribute's value does not end a passthrough
-      if stop_tokens == [Len(1, Plus)] && self.nth_token(n).is_attr_replacement() {
-        search_from = n + 1;
-        continue;
-      }
-
       // e.g: `#`+CB###2+`#` - skip past n if it's inside a run of same-kind tokens
       if stop_tokens.len() == 1
         && prev.is_some_and(|t| stop_tokens[0] == Kind(t.kind) && !t.is_attr_replacement())
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index f2df5b7..59d5c96 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -186,7 +186,7 @@ impl<'arena> Parser<'arena> {
 
     let spec = &[TokenSpec::Kind(Plus); 3][..plus_count];
 
-    if let Some(n) = index_of_written(spec, line) {
+    if let Some(n) = line.index_of_written_seq(spec) {
       return Some(n);
     }
 
@@ -197,7 +197,7 @@ impl<'arena> Parser<'arena> {
       if self.ctx.delimiter.is_some_and(|d| line.is_delimiter(d)) {
         return None; // can't span over pending delimiter
       }
-      if let Some(m) = index_of_written(spec, line) {
+      if let Some(m) = line.index_of_written_seq(spec) {
         if m == 0 && n == orig_n {
           return None; // empty multiline, e.g. "++\n++"
         } else {
@@ -234,18 +234,6 @@ impl<'arena> Parser<'arena> {
   }
 }
 
-/// as written in the document, not in the value of an attribute
-fn index_of_written(spec: &[TokenSpec], line: &Line) -> Option<usize> {
-  let mut from = 0;
-  while let Some(n) = line.index_of_seq_from(spec, from) {
-    if !line.nth_token(n).is_attr_replacement() {
-      return Some(n);
-    }
-    from = n + 1;
-  }
-  None
-}
-
 fn pass_macro_subs<'arena>(
   line: &mut Line<'arena>,
   n_target_tokens: usize,
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 37b5058..d854af9 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -60,8 +60,12 @@ impl<'arena> Parser<'arena> {
         )
     }) && !line.starts(Whitespace)
       && token.kind(stop_tokens.last().unwrap().token_kind().unwrap())
-      && (line.terminates_constrained(stop_tokens, &self.ctx.inline_ctx)
-        || lines.terminates_constrained(stop_tokens, &self.ctx.inline_ctx))
+      && (line.terminates_constrained(stop_tokens, &self.ctx.inline_ctx, self.marks_are_written())
+        || lines.terminates_constrained(
+          stop_tokens,
+          &self.ctx.inline_ctx,
+          self.marks_are_written(),
+        ))
   }
 
   pub(crate) fn starts_unconstrained(
@@ -78,8 +82,29 @@ impl<'arena> Parser<'arena> {
     );
     !token.attr_replacement
       && token.kind(stop_tokens[0].token_kind().unwrap())
-      && (stop_tokens.len() < 2 || line.current_is(stop_tokens[1].token_kind().unwrap()))
-      && contains_seq(stop_tokens, line, lines)
+      && (stop_tokens.len() < 2
+        || (line.current_is(stop_tokens[1].token_kind().unwrap())
+          && !line.current_token().is_attr_replacement()))
+      && contains_written_seq(stop_tokens, line, lines)
+  }
+
+  /// formatting marks within attribute values only have a meaning
+  /// if the value asks for substitutions of its own
+  pub(crate) const fn marks_are_written(&self) -> bool {
+    self.ctx.attr_pass_subs.is_none()
+  }
+
+  pub(crate) fn at_stop(&self, stop_tokens: &[TokenSpec], line: &Line) -> bool {
+    let is_mark = self.marks_are_written()
+      && stop_tokens
+        .first()
+        .and_then(|spec| spec.token_kind())
+        .is_some_and(|kind| kind.is_formatting_mark());
+    if is_mark {
+      line.starts_with_written_seq(stop_tokens)
+    } else {
+      line.starts_with_seq(stop_tokens)
+    }
   }
 }
 
@@ -275,8 +300,11 @@ pub fn extend(loc: &mut SourceLocation, nodes: &[InlineNode<'_>], adding: usize)
   loc.end = nodes.last().map(|node| node.loc.end).unwrap_or(loc.end) + adding as u32;
 }
 
-pub fn contains_seq(seq: &[TokenSpec], line: &Line, lines: &ContiguousLines) -> bool {
-  line.contains_seq(seq) || lines.contains_seq(seq)
+pub fn contains_written_seq(seq: &[TokenSpec], line: &Line, lines: &ContiguousLines) -> bool {
+  line.index_of_written_seq(seq).is_some()
+    || lines
+      .iter()
+      .any(|line| line.index_of_written_seq(seq).is_some())
 }
 
 pub fn contains_len(kind: TokenKind, len: usize, line: &Line, lines: &ContiguousLines) -> bool {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 68beb08..c26bf8b 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -62,7 +62,7 @@ impl<'arena> Parser<'arena> {
       }
 
       loop {
-        if line.starts_with_seq(stop_tokens) {
+        if self.at_stop(stop_tokens, &line) {
           line.discard(stop_tokens.len());
           acc.commit();
           lines.restore_if_nonempty(line);
@@ -619,7 +619,7 @@ impl<'arena> Parser<'arena> {
             if subs.inline_formatting()
               && line.starts_with_seq(&[Kind(Plus), Not(Plus)])
               && !line.starts_with_seq(&[Kind(Plus), Kind(Backtick)])
-              && contains_seq(&[Len(1, Plus), Kind(Backtick)], &line, lines) =>
+              && contains_written_seq(&[Len(1, Plus), Kind(Backtick)], &line, lines) =>
           {
             self.ctx.subs = if subs.special_chars() {
               Substitutions::only_special_chars()
@@ -640,7 +640,11 @@ impl<'arena> Parser<'arena> {
             break;
           }
 
-          Caret if subs.inline_formatting() && line.no_whitespace_until(Caret) => {
+          Caret
+            if subs.inline_formatting()
+              && !(token.attr_replacement && self.marks_are_written())
+              && line.no_whitespace_until_mark(Caret, self.marks_are_written()) =>
+          {
             self.parse_node(
               span(SpanKind::Superscript, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Caret)], &token, &mut acc, line, lines),
@@ -717,7 +721,11 @@ impl<'arena> Parser<'arena> {
             break;
           }
 
-          Tilde if subs.inline_formatting() && line.no_whitespace_until(Tilde) => {
+          Tilde
+            if subs.inline_formatting()
+              && !(token.attr_replacement && self.marks_are_written())
+              && line.no_whitespace_until_mark(Tilde, self.marks_are_written()) =>
+          {
             self.parse_node(
               span(SpanKind::Subscript, inline_attrs.take().map(|(attrs, _)| attrs)),
               ctx([Kind(Tilde)], &token, &mut acc, line, lines),
diff --git a/parser/src/token.rs b/parser/src/token.rs
index b6139e0..505519d 100644
--- a/parser/src/token.rs
+++ b/parser/src/token.rs
@@ -76,6 +76,16 @@ pub enum TokenSpec {
   NotOneOf(&'static [TokenKind]),
 }
 
+impl TokenKind {
+  pub const fn is_formatting_mark(&self) -> bool {
+    use TokenKind::*;
+    matches!(
+      self,
+      Star | Underscore | Backtick | Hash | Plus | Caret | Tilde
+    )
+  }
+}
+
 impl TokenSpec {
   pub const fn token_kind(&self) -> Option<TokenKind> {
     match self {
-- 
2.43.0


From b470206bb261531c6f97fa6e42430458323721a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:42 +0000
Subject: [PATCH 133/156] fix: a first row whose last cell goes on after a
 blank line is not a header row

---
 parser/src/tasks/table/parse_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 5d52f76..c262ded 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -195,11 +195,12 @@ impl<'arena> Parser<'arena> {
         loc.end = token.loc.start;
         ws.push(token.kind);
       }
-      if ws.len() > 1 && ws[ws.len() - 2..] == [Newline, Newline] {
+      // a cell going on after a blank line is not in a header row
+      if cell_tokens.contains_seq(&[TokenSpec::Kind(Newline); 2]) {
+        ctx.header_row = HeaderRow::FoundNone
+      } else if ws.len() > 1 && ws[ws.len() - 2..] == [Newline, Newline] {
         trimmed_implicit_header = true;
         ctx.header_row = HeaderRow::FoundImplicit;
-      } else if cell_tokens.contains_seq(&[TokenSpec::Kind(Newline); 2]) {
-        ctx.header_row = HeaderRow::FoundNone
       }
     } else {
       while cell_tokens.last().is_whitespaceish() {
-- 
2.43.0


From fee2390eff69f3bd92d1a4dff1aebc84e49060b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:28 +0000
Subject: [PATCH 134/156] fix: a link with a window keeps nofollow out of its
 target

---
 backend/src/html/htmlbuf.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index 548e48e..ceb845c 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -111,14 +111,13 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push_with_values([r#" target=""#, window]);
-      if window == "_blank" || attrs.has_option("noopener") {
-        self.push_str("\" rel=\"noopener");
-      }
-      if attrs.has_option("nofollow") {
-        self.push_str(" nofollow\"");
-      } else {
-        self.push_ch('"');
+      self.push_html_attr("target", window);
+      let noopener = window == "_blank" || attrs.has_option("noopener");
+      match (noopener, attrs.has_option("nofollow")) {
+        (true, true) => self.push_str(" rel=\"noopener nofollow\""),
+        (true, false) => self.push_str(" rel=\"noopener\""),
+        (false, true) => self.push_str(" rel=\"nofollow\""),
+        (false, false) => {}
       }
     } else if attrs.has_option("nofollow") {
       self.push_str(" rel=\"nofollow\"");
-- 
2.43.0


From 8c023809011de59d6ca2e24d4edec201fd40c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:38 +0000
Subject: [PATCH 135/156] fix: audio, video and poster paths are built like
 those of images

---
 backend/src/html/backend.rs | 15 +++++++++------
 backend/src/html/video.rs   | 20 +++++---------------
 2 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 4044301..0069a5c 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -283,12 +283,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn audio_element(&mut self, target: &str, attrs: &AttrList) {
     self.push_str(r#"<audio src=""#);
-    if !regx::URI_SNIFF.is_match(target)
-      && let Some(imagesdir) = self.doc_meta().string("imagesdir")
-    {
-      self.push_with_values(["", &imagesdir, "/"]);
-    }
-    self.push_attr_value(target);
+    self.push_media_path(target);
     let start = attrs.named("start");
     let end = attrs.named("end");
     match (start, end) {
@@ -402,6 +397,14 @@ pub trait HtmlBackend: HtmlBuf {
     self.push_str("</object>");
   }
 
+  fn push_media_path(&mut self, target: &str) {
+    if regx::URI_SNIFF.is_match(target) {
+      self.push_url_encoded(target);
+    } else {
+      self.push_img_path(target);
+    }
+  }
+
   fn push_img_path(&mut self, target: &str) {
     if let Some(imagesdir) = self.doc_meta().str("imagesdir") {
       let mut path = Path::new_specifying_separator(imagesdir, '/');
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 1523884..f44573a 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -1,4 +1,4 @@
-use asciidork_core::{iff, regx};
+use asciidork_core::iff;
 use ast::{AttrData, AttrList, ReadAttr};
 
 use crate::html::backend::HtmlBackend;
@@ -95,14 +95,8 @@ fn native_element<B: HtmlBackend + ?Sized>(
   attrs: &AttrList,
   poster: Option<&str>,
 ) {
-  let imagesdir = backend.doc_meta().string("imagesdir");
   backend.push_str(r#"<video src=""#);
-  if !regx::URI_SNIFF.is_match(target)
-    && let Some(ref imagesdir) = imagesdir
-  {
-    backend.push_with_values(["", imagesdir, "/"]);
-  }
-  backend.push_attr_value(target);
+  backend.push_media_path(target);
   let start = attrs.named("start");
   let end = attrs.named("end");
   match (start, end) {
@@ -113,13 +107,9 @@ fn native_element<B: HtmlBackend + ?Sized>(
   }
   push_dims(backend, attrs);
   if let Some(poster) = poster {
-    if !regx::URI_SNIFF.is_match(poster)
-      && let Some(ref imagesdir) = imagesdir
-    {
-      backend.push_with_values([" poster=\"", imagesdir, "/", poster, "\""]);
-    } else {
-      backend.push_html_attr("poster", poster);
-    }
+    backend.push_str(" poster=\"");
+    backend.push_media_path(poster);
+    backend.push_ch('"');
   }
   if attrs.has_option("autoplay") {
     backend.push_str(" autoplay");
-- 
2.43.0


From a1a420c804926ea34926ab9a0f5df153da58afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 136/156] fix: a block image linked to itself has its path in
 the link

---
 backend-html5s/src/html5s.rs            | 9 +++++++--
 dr-html-backend/src/asciidoctor_html.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index dd3d729..58aab6b 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1369,8 +1369,13 @@ impl Backend for Html5s {
       } else {
         false
       };
-      let href = if *href == "self" { &img_target.src } else { *href };
-      self.push_with_values([r#"" href=""#, href, r#"""#]);
+      self.push_str(r#"" href=""#);
+      if *href == "self" {
+        self.push_img_path(img_target);
+      } else {
+        self.push_attr_value(href);
+      }
+      self.push_ch('"');
       self.append_link_constraint_attrs(img_attrs);
       if self_link {
         let label = self.doc_meta.string_or(
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index a804b58..ca25928 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1443,7 +1443,13 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_attr_value(href);
+      if *href == "self" {
+        let html = mem::take(&mut self.html);
+        self.push_img_path(img_target);
+        a_tag.push_str(&mem::replace(&mut self.html, html));
+      } else {
+        a_tag.push_attr_value(href);
+      }
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
-- 
2.43.0


From 69ec050446c91c0333384804942d82357a40ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:18 +0000
Subject: [PATCH 137/156] fix: the alternative text of an image is its name up
 to the last dot

---
 core/src/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/file.rs b/core/src/file.rs
index 5ea2e20..3002fc2 100644
--- a/core/src/file.rs
+++ b/core/src/file.rs
@@ -33,7 +33,8 @@ pub fn basename(input: &str) -> &str {
 }
 
 pub fn stem(input: &str) -> &str {
-  basename(input).split('.').next().unwrap_or(input)
+  let name = basename(input);
+  name.rsplit_once('.').map_or(name, |(stem, _)| stem)
 }
 
 pub fn remove_uri_scheme(input: &str) -> &str {
-- 
2.43.0


From 7516b14f247d85be83d8f055e13161d0355702fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 138/156] fix: the id and roles of audio and video macros are
 kept

---
 backend-html5s/src/html5s.rs            | 6 ++++--
 dr-html-backend/src/asciidoctor_html.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 58aab6b..90d5a4d 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1175,7 +1175,8 @@ impl Backend for Html5s {
 
   fn visit_audio_macro(&mut self, target: &SourceString, attrs: &AttrList, block: &Block) {
     let el = if block.has_title() { "figure" } else { "div" };
-    self.open_element(el, &["audio-block"], &block.meta.attrs);
+    let merged_attrs = PriorityAttrList::new(attrs, &block.meta.attrs);
+    self.open_element(el, &["audio-block"], &merged_attrs);
     self.audio_element(&target.src, attrs);
     self.render_buffered_block_title(block, false);
     self.push(["</", el, ">"]);
@@ -1183,7 +1184,8 @@ impl Backend for Html5s {
 
   fn visit_video_macro(&mut self, target: &SourceString, attrs: &AttrList, block: &Block) {
     let el = if block.has_title() { "figure" } else { "div" };
-    self.open_element(el, &["video-block"], &block.meta.attrs);
+    let merged_attrs = PriorityAttrList::new(attrs, &block.meta.attrs);
+    self.open_element(el, &["video-block"], &merged_attrs);
     self.video_element(target, attrs);
     self.render_buffered_block_title(block, false);
     self.push(["</", el, ">"]);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ca25928..fe47a43 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1241,7 +1241,8 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_audio_macro(&mut self, target: &SourceString, attrs: &AttrList, block: &Block) {
-    self.open_element("div", &["audioblock"], &block.meta.attrs);
+    let merged_attrs = PriorityAttrList::new(attrs, &block.meta.attrs);
+    self.open_element("div", &["audioblock"], &merged_attrs);
     self.render_buffered_block_title(block);
     self.push_str(r#"<div class="content">"#);
     self.audio_element(&target.src, attrs);
-- 
2.43.0


From 97740131f900c52492e81f9bb591bf4725b0d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 139/156] fix: a hosted video names its playlist only once

---
 backend/src/html/video.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index f44573a..3ff91d1 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -60,7 +60,8 @@ fn service<B: HtmlBackend + ?Sized>(
   }
 
   if provider == Provider::YouTube {
-    more_youtube_params(backend, attrs, target, &mut param_pushed);
+    let listed = param_pushed && target.contains('/');
+    more_youtube_params(backend, attrs, target, &mut param_pushed, listed);
   }
 
   // start param (last because vimeo uses # frag not &)
@@ -134,6 +135,7 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   attrs: &AttrList,
   target: &str,
   param_pushed: &mut bool,
+  has_list: bool,
 ) {
   backend.push([
     iff!(*param_pushed, "&amp;rel=", "?rel="),
@@ -160,10 +162,15 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     backend.push_str(iff!(*param_pushed, "&amp;controls=0", "?controls=0"));
     *param_pushed = true;
   }
-  if let Some(list) = attrs.named("list") {
+  if has_list {
+    // the target names the list
+  } else if let Some(list) = attrs.named("list") {
     backend.push_with_values([iff!(*param_pushed, "&amp;list=", "?list="), list]);
     *param_pushed = true;
-  } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
+  } else if attrs.has_option("loop")
+    && !target.contains(',')
+    && attrs.named("playlist").is_none()
+  {
     backend.push_with_values([iff!(*param_pushed, "&amp;playlist=", "?playlist="), target]);
     *param_pushed = true;
   }
-- 
2.43.0


From 8e8febb7c350b30b132b6c2792bb49ff18c00726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:12 +0000
Subject: [PATCH 140/156] fix: icons are images when icons names their
 extension

---
 core/src/document_meta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 9dbb352..3c116ee 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -210,8 +210,8 @@ impl DocumentMeta {
     match self.get("icons") {
       Some(AttrValue::String(icon)) => match icon.as_str() {
         "font" => IconMode::Font,
-        "image" | "" => IconMode::Image,
-        _ => IconMode::Text,
+        // any other value is the extension of the images
+        _ => IconMode::Image,
       },
       Some(AttrValue::Bool(true)) => IconMode::Image,
       _ => IconMode::Text,
-- 
2.43.0


From a5cb89c30a42606c7441b17e3afa40afdcec8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:56 +0000
Subject: [PATCH 141/156] fix: icons are found in the icons folder of imagesdir
 unless iconsdir is set

---
 backend/src/html/backend.rs           | 17 ++---------------
 core/src/document_meta.rs             | 15 +++++++++++++++
 parser/src/tasks/parse_image_block.rs | 24 ++++++++++--------------
 3 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 0069a5c..e3f9b2a 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -311,21 +311,8 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn push_icon_img_path(&mut self) {
-    let mut s = String::new();
-    self.swapbuf(&mut s);
-    if let Some(iconsdir) = self.doc_meta().str("iconsdir")
-      && !iconsdir.is_empty()
-    {
-      s.push_attr_value(iconsdir);
-    } else if let Some(imagesdir) = self.doc_meta().str("imagesdir")
-      && !imagesdir.is_empty()
-    {
-      s.push_attr_value(imagesdir);
-    } else {
-      s.push_str("./images/icons")
-    }
-    s.push('/');
-    self.swapbuf(&mut s);
+    let dir = self.doc_meta().icons_dir();
+    self.push_with_values(["", &dir, "/"]);
   }
 
   fn push_icon_inferred_img_ext(&mut self) {
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 3c116ee..2455170 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -218,6 +218,21 @@ impl DocumentMeta {
     }
   }
 
+  /// an `iconsdir` of the document (or job), else a folder within `imagesdir`
+  pub fn icons_dir(&self) -> String {
+    let own = match self.job_attrs.get("iconsdir") {
+      Some(JobAttr { readonly: true, value }) => Some(value),
+      job_attr => self.document_attr("iconsdir").or(job_attr.map(|attr| &attr.value)),
+    };
+    if let Some(dir) = own.and_then(|value| value.str()).filter(|dir| !dir.is_empty()) {
+      return dir.to_string();
+    }
+    match self.str("imagesdir").map(|dir| dir.trim_end_matches('/')) {
+      Some(dir) if !dir.is_empty() => format!("{dir}/icons"),
+      _ => "./images/icons".to_string(),
+    }
+  }
+
   fn document_attr(&self, key: &str) -> Option<&AttrValue> {
     self.doc_attrs.get(key).or_else(|| self.header_attrs.get(key))
   }
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a3bc290..58335c9 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -188,12 +188,9 @@ impl<'arena> Parser<'arena> {
   }
 
   fn prepended_target_is_uri(&self, kind: IncludeKind) -> bool {
-    self
-      .document
-      .meta
-      .str(kind.image_dir_attr())
-      .map(|dir| regx::URI_SNIFF.is_match(dir))
-      .unwrap_or(false)
+    kind
+      .image_dir(&self.document.meta)
+      .is_some_and(|dir| regx::URI_SNIFF.is_match(&dir))
   }
 
   fn is_disallowed_abs_uri(&self, unprepended_target_is_uri: bool, kind: IncludeKind) -> bool {
@@ -229,8 +226,8 @@ impl<'arena> Parser<'arena> {
       IncludeTarget::Uri(target.to_string())
     } else if let Some(base_dir) = resolver.get_base_dir().map(Path::new) {
       let mut path = base_dir;
-      if let Some(imagesdir) = self.document.meta.str(kind.image_dir_attr()) {
-        let dir_is_uri = regx::URI_SNIFF.is_match(imagesdir);
+      if let Some(imagesdir) = kind.image_dir(&self.document.meta) {
+        let dir_is_uri = regx::URI_SNIFF.is_match(&imagesdir);
         if dir_is_uri && !self.document.meta.is_true("allow-uri-read") {
           self.err_at(
             "Cannot include URL contents (allow-uri-read not enabled)",
@@ -238,9 +235,9 @@ impl<'arena> Parser<'arena> {
           )?;
           return Ok(None);
         } else if dir_is_uri {
-          path = Path::new(imagesdir);
+          path = Path::new(&imagesdir);
         } else {
-          path = path.join(imagesdir);
+          path = path.join(imagesdir.as_str());
         }
       };
       path = path.join(target);
@@ -295,11 +292,10 @@ impl IncludeKind {
     }
   }
 
-  const fn image_dir_attr(&self) -> &'static str {
+  fn image_dir(&self, meta: &DocumentMeta) -> Option<String> {
     match self {
-      IncludeKind::InlineSvg => "imagesdir",
-      IncludeKind::DataUri => "imagesdir",
-      IncludeKind::AdmonitionIcon => "iconsdir",
+      IncludeKind::InlineSvg | IncludeKind::DataUri => meta.string("imagesdir"),
+      IncludeKind::AdmonitionIcon => Some(meta.icons_dir()),
     }
   }
 }
-- 
2.43.0


From a9435ace26e16cf7e3ccac5f0b20ea2738a8ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:37 +0000
Subject: [PATCH 142/156] fix: the alternative text of icons and interactive
 images may hold special characters

---
 backend-html5s/src/html5s.rs            |  6 ++++--
 backend/src/html/backend.rs             | 26 +++++++++++++++++--------
 backend/src/html/mod.rs                 |  1 +
 dr-html-backend/src/asciidoctor_html.rs |  6 ++++--
 4 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 90d5a4d..a23b2ca 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1072,14 +1072,16 @@ impl Backend for Html5s {
         self.push_ch('"');
         self.push_named_attr("title", attrs);
         self.push_str(">[");
-        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
+        let alt = backend::html::alt_text(attrs, false);
+        self.push_specialchar_escaped(alt.as_deref().unwrap_or(target));
         self.push_str("]</b>");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str_attr_escaped(attrs.named("alt").unwrap_or(target));
+        let alt = backend::html::alt_text(attrs, false);
+        self.push_str_attr_escaped(alt.as_deref().unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index e3f9b2a..fa6a353 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -354,8 +354,8 @@ pub trait HtmlBackend: HtmlBuf {
       ImageKind::InlineSvg(Some(inline_svg)) => self.push_str(inline_svg),
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
-        if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-          self.push_specialchar_escaped(alt);
+        if let Some(alt) = alt_text(attrs, true) {
+          self.push_specialchar_escaped(&alt);
         } else {
           let stem = asciidork_core::file::stem(target);
           self.push_specialchar_escaped(&stem.replace(['_', '-'], " "));
@@ -376,10 +376,14 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_str(r#"<img src=""#);
       self.push_img_path(fallback);
       self.push_ch('"');
-      self.push_named_or_pos_attr("alt", 0, attrs);
+      if let Some(alt) = alt_text(attrs, true) {
+        self.push_html_attr("alt", &alt);
+      }
       self.push_ch('>');
-    } else if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-      self.push_with_values([r#"<span class="alt">"#, alt, "</span>"]);
+    } else if let Some(alt) = alt_text(attrs, true) {
+      self.push_str(r#"<span class="alt">"#);
+      self.push_specialchar_escaped(&alt);
+      self.push_str("</span>");
     }
     self.push_str("</object>");
   }
@@ -938,6 +942,14 @@ pub trait HtmlBackend: HtmlBuf {
   }
 }
 
+/// the text given to stand in for an image, without its formatting
+pub fn alt_text(attrs: &AttrList, allow_positional: bool) -> Option<String> {
+  attrs
+    .named_nodes("alt")
+    .or_else(|| attrs.positional.first()?.as_ref().filter(|_| allow_positional))
+    .map(|nodes| nodes.plain_text().join(""))
+}
+
 fn render_inner_image<B: HtmlBackend + ?Sized>(
   backend: &mut B,
   target: &str,
@@ -969,9 +981,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
   }
   backend.push_str(r#"" alt=""#);
-  let nodes = attrs.named_nodes("alt");
-  if let Some(nodes) = nodes.or_else(|| attrs.positional.first()?.as_ref()) {
-    let alt = nodes.plain_text().join("");
+  if let Some(alt) = alt_text(attrs, true) {
     backend.push_str_attr_escaped(&alt);
   } else {
     let alt = file::stem(target).replace(['-', '_'], " ");
diff --git a/backend/src/html/mod.rs b/backend/src/html/mod.rs
index 01530bd..0748a4d 100644
--- a/backend/src/html/mod.rs
+++ b/backend/src/html/mod.rs
@@ -6,6 +6,7 @@ pub mod table;
 pub mod util;
 pub mod video;
 
+pub use backend::alt_text;
 pub use htmlbuf::AltHtmlBuf;
 pub use htmlbuf::HtmlBuf;
 pub use htmlbuf::escaped_attr_text;
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index fe47a43..d8245a9 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1165,14 +1165,16 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_specialchar_escaped(attrs.named("alt").unwrap_or(target));
+        let alt = backend::html::alt_text(attrs, false);
+        self.push_specialchar_escaped(alt.as_deref().unwrap_or(target));
         self.push_str("&#93;");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str_attr_escaped(attrs.named("alt").unwrap_or(target));
+        let alt = backend::html::alt_text(attrs, false);
+        self.push_str_attr_escaped(alt.as_deref().unwrap_or(target));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
-- 
2.43.0


From 3abe35be90f7e8712238c424d76e2f683ea67296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:43 +0000
Subject: [PATCH 143/156] fix: links, keys and menus keep their text in titles
 and alternative texts

---
 ast/src/inline_nodes.rs   | 24 ++++++++++++++++++++++++
 backend/src/html/video.rs |  3 ++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/ast/src/inline_nodes.rs b/ast/src/inline_nodes.rs
index 5e8c79f..27aeaf2 100644
--- a/ast/src/inline_nodes.rs
+++ b/ast/src/inline_nodes.rs
@@ -20,6 +20,30 @@ impl<'arena> InlineNodes<'arena> {
       Inline::CurlyQuote(RightSingle) => text.push("’"),
       Inline::CurlyQuote(LegacyImplicitApostrophe) => text.push("'"),
       Inline::Discarded => {}
+      Inline::Macro(MacroNode::Link { target, attrs, .. }) => {
+        match attrs.as_ref().and_then(|attrs| attrs.positional_at(0)) {
+          Some(nodes) if !nodes.is_empty() => text.extend(nodes.plain_text()),
+          _ => text.push(target),
+        }
+      }
+      Inline::Macro(MacroNode::Mailto { address: shown, linktext, .. })
+      | Inline::Macro(MacroNode::Xref { target: shown, linktext, .. }) => match linktext {
+        Some(nodes) => text.extend(nodes.plain_text()),
+        None => text.push(shown),
+      },
+      Inline::Macro(MacroNode::Button(label)) => text.push(label),
+      Inline::Macro(MacroNode::Keyboard { keys, .. }) => {
+        for (i, key) in keys.iter().enumerate() {
+          text.extend((i > 0).then_some("+"));
+          text.push(key);
+        }
+      }
+      Inline::Macro(MacroNode::Menu(items)) => {
+        for (i, item) in items.iter().enumerate() {
+          text.extend((i > 0).then_some(" > "));
+          text.push(item);
+        }
+      }
       Inline::Macro(_) => {}
       Inline::InlinePassthru(nodes) => text.extend(nodes.plain_text()),
       Inline::Newline => text.push(" "),
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 3ff91d1..e342a1c 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -4,7 +4,8 @@ use ast::{AttrData, AttrList, ReadAttr};
 use crate::html::backend::HtmlBackend;
 
 pub(crate) fn element<B: HtmlBackend + ?Sized>(backend: &mut B, target: &str, attrs: &AttrList) {
-  let poster = attrs.str_positional_at(0);
+  let poster = attrs.positional_at(0).map(|nodes| nodes.plain_text().join(""));
+  let poster = poster.as_deref();
   match poster {
     Some("youtube") => service(backend, Provider::YouTube, target, attrs),
     Some("vimeo") => service(backend, Provider::Vimeo, target, attrs),
-- 
2.43.0


From 3921661e5f0e45c06687327dc76903ab066dae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:29 +0000
Subject: [PATCH 144/156] fix: brackets within a block's attributes do not end
 the search for the next one

---
 parser/src/tasks/parse_attr_list.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index b2e9cb6..e092d7e 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -185,7 +185,11 @@ impl<'arena> Parser<'arena> {
     }
 
     // all attrs except last
-    let delimiters = self.find_delimiters(line);
+    let delimiters = if full_line {
+      self.find_delimiters_until(line, None)
+    } else {
+      self.find_delimiters(line)
+    };
     for num_tokens in delimiters.into_iter() {
       let mut tokens = Deq::with_capacity(num_tokens, self.bump);
       for _ in 0..num_tokens {
@@ -397,10 +401,19 @@ impl<'arena> Parser<'arena> {
   }
 
   fn find_delimiters(&self, line: &Line<'arena>) -> BumpVec<'arena, usize> {
+    self.find_delimiters_until(line, Some(CloseBracket))
+  }
+
+  fn find_delimiters_until(
+    &self,
+    line: &Line<'arena>,
+    end: Option<TokenKind>,
+  ) -> BumpVec<'arena, usize> {
     let mut delimiters = BumpVec::with_capacity_in(5, self.bump);
     let mut double_start_len: Option<usize> = None;
     let mut single_start_len: Option<usize> = None;
     let mut num_tokens = 0;
+    let mut last_kind = TokenKind::Eof;
     for token in line.iter().take(line.len() - 1) {
       num_tokens += 1;
       match (token.kind, double_start_len, single_start_len) {
@@ -428,9 +441,10 @@ impl<'arena> Parser<'arena> {
           delimiters.push(num_tokens - 1);
           num_tokens = 0;
         }
-        (CloseBracket, _, _) => break,
+        (kind, _, _) if Some(kind) == end && last_kind != Backslash => break,
         _ => {}
       }
+      last_kind = token.kind;
     }
     delimiters
   }
-- 
2.43.0


From 4024df2aa7ea7cd0535421be283f9031b08cb758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:06 +0000
Subject: [PATCH 145/156] fix: references by path lead into the document when
 the path is its own or an included file's

---
 backend/src/html/backend.rs                   | 11 ++---
 backend/src/utils.rs                          | 44 ++++++++++---------
 core/src/document_meta.rs                     |  7 ++-
 core/src/file.rs                              | 14 ++++++
 eval/src/eval.rs                              |  3 +-
 .../directives/includes/process_includes.rs   | 31 ++++++++++---
 6 files changed, 75 insertions(+), 35 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index fa6a353..877041f 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -412,17 +412,18 @@ pub trait HtmlBackend: HtmlBuf {
     kind: XrefKind,
     doc_title: Option<&DocTitle>,
   ) {
-    if target == "#" || Some(target.src.as_str()) == self.doc_meta().str("asciidork-docfilename") {
+    let local_id = utils::xref::local_id(target, self.doc_meta(), kind);
+    if local_id.is_some_and(str::is_empty) {
       let doctitle = doc_title
         .and_then(|t| t.attrs.named("reftext"))
         .unwrap_or_else(|| self.doc_meta().str("doctitle").unwrap_or("[^top]"))
         .to_string();
       self.push_specialchar_escaped(&doctitle);
-    } else if utils::xref::is_interdoc(target, kind) {
-      let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_specialchar_escaped(utils::xref::remove_leading_hash(&href));
+    } else if let Some(id) = local_id {
+      self.push_with_values(["[", id, "]"]);
     } else {
-      self.push_with_values(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      let href = utils::xref::href(target, self.doc_meta(), kind, false);
+      self.push_specialchar_escaped(&href);
     }
   }
 
diff --git a/backend/src/utils.rs b/backend/src/utils.rs
index 09410f0..1f8df0f 100644
--- a/backend/src/utils.rs
+++ b/backend/src/utils.rs
@@ -35,7 +35,7 @@ pub mod xref {
     let id = parts.next().filter(|id| !id.is_empty());
     let mut href = String::with_capacity(path.len() + 8 + id.map_or(0, str::len));
 
-    if xref_path_was_included(path, doc_meta) {
+    if is_part_of_document(path, doc_meta, xref_kind) {
       href.push('#');
       if let Some(id) = id {
         href.push_str(id);
@@ -65,24 +65,30 @@ pub mod xref {
     href
   }
 
-  fn xref_path_was_included(path: &str, doc_meta: &DocumentMeta) -> bool {
-    if file::has_adoc_ext(path) {
-      if Some(path) == doc_meta.str("asciidork-docfilename") {
-        true
-      } else {
-        doc_meta
-          .included_files
-          .iter()
-          .any(|included_file| included_file == path)
-      }
-    } else if !file::has_ext(path) {
-      doc_meta
-        .included_files
-        .iter()
-        .any(|included_file| file::remove_ext(included_file) == path)
+  /// whether the path is that of the document itself or of a file included in it
+  fn is_part_of_document(path: &str, doc_meta: &DocumentMeta, xref_kind: XrefKind) -> bool {
+    let path = if file::has_adoc_ext(path) {
+      file::remove_ext(path)
+    } else if xref_kind == XrefKind::Shorthand || !file::has_ext(path) {
+      path
     } else {
-      false
+      return false;
+    };
+    let docname = doc_meta.str("asciidork-docfilename").map(file::remove_ext);
+    docname == Some(path) || doc_meta.included_files.borrow().contains(path)
+  }
+
+  /// the id (empty for the top) of a target within the document, none if it's in another
+  pub fn local_id<'a>(
+    target: &'a str,
+    doc_meta: &DocumentMeta,
+    xref_kind: XrefKind,
+  ) -> Option<&'a str> {
+    if !is_interdoc(target, xref_kind) {
+      return Some(remove_leading_hash(target));
     }
+    let (path, id) = target.split_once('#').unwrap_or((target, ""));
+    is_part_of_document(path, doc_meta, xref_kind).then_some(id)
   }
 
   fn push_interdoc_suffix(href: &mut String, doc_meta: &DocumentMeta) {
@@ -111,10 +117,6 @@ pub mod xref {
   pub fn remove_leading_hash(input: &str) -> &str {
     input.strip_prefix('#').unwrap_or(input)
   }
-
-  pub fn get_id(target: &str) -> &str {
-    target.split_once('#').map(|x| x.1).unwrap_or(target)
-  }
 }
 
 pub fn file_ext(path: &str) -> Option<&str> {
diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index 2455170..3683a06 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -1,4 +1,6 @@
+use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
+use std::rc::Rc;
 
 use crate::internal::*;
 
@@ -12,7 +14,8 @@ pub struct DocumentMeta {
   header_attrs: Attrs,
   pub safe_mode: SafeMode,
   pub embedded: bool,
-  pub included_files: HashSet<String>,
+  /// paths from the base dir, without extension, shared with the documents in cells
+  pub included_files: Rc<RefCell<HashSet<String>>>,
   pub data_admonition_icons: HashMap<u64, String>,
 }
 
@@ -27,7 +30,7 @@ impl Default for DocumentMeta {
       default_attrs: Attrs::defaults(),
       authors: Vec::new(),
       embedded: false,
-      included_files: HashSet::new(),
+      included_files: Rc::default(),
       data_admonition_icons: HashMap::new(),
     }
   }
diff --git a/core/src/file.rs b/core/src/file.rs
index 3002fc2..22f0699 100644
--- a/core/src/file.rs
+++ b/core/src/file.rs
@@ -28,6 +28,20 @@ pub fn remove_ext(input: &str) -> &str {
   }
 }
 
+/// resolves `.` and `..` without looking at the file system
+pub fn normalize(path: &str) -> String {
+  let mut parts: Vec<&str> = Vec::new();
+  for part in path.split(['/', '\\']) {
+    match part {
+      "" | "." => {}
+      ".." if parts.last().is_some_and(|last| *last != "..") => _ = parts.pop(),
+      part => parts.push(part),
+    }
+  }
+  let root = if path.starts_with(['/', '\\']) { "/" } else { "" };
+  format!("{root}{}", parts.join("/"))
+}
+
 pub fn basename(input: &str) -> &str {
   input.split(&['/', '\\']).next_back().unwrap_or(input)
 }
diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index cadad6e..081794a 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -547,7 +547,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     Macro(Menu(items)) => backend.visit_menu_macro(items.as_slice()),
     Macro(Xref { target, linktext, kind }) => {
       let anchors = ctx.doc.anchors.borrow();
-      let anchor = anchors.get(utils::xref::get_id(&target.src));
+      let anchor = utils::xref::local_id(&target.src, &ctx.doc.meta, *kind)
+        .and_then(|id| anchors.get(id));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
       let nested = ctx.resolving_xref.replace(true);
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index c192adc..c74a62b 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -14,6 +14,24 @@ struct IncludeDirective<'a> {
   attrs: AttrList<'a>,
 }
 
+/// what references name the file by: its path from the base dir, without extension
+fn xref_path(directive: &IncludeDirective, path: &Path, base_dir: Option<&str>) -> Option<String> {
+  let target = directive.target.as_str();
+  if !file::has_adoc_ext(target) {
+    return None;
+  }
+  if directive.target_is_uri || path.is_uri() {
+    return Some(file::remove_ext(target).to_string());
+  }
+  let path = file::normalize(&path.to_string());
+  let base_dir = file::normalize(base_dir.unwrap_or(""));
+  let relative = path
+    .strip_prefix(base_dir.trim_end_matches('/'))
+    .and_then(|path| path.strip_prefix('/'))
+    .unwrap_or(&path);
+  Some(file::remove_ext(relative).to_string())
+}
+
 impl<'arena> Parser<'arena> {
   pub(crate) fn try_process_include_directive(
     &mut self,
@@ -59,12 +77,13 @@ impl<'arena> Parser<'arena> {
       return Ok(DirectiveAction::Passthrough);
     };
 
+    let base_dir = resolver.get_base_dir();
     let target = match super::target::prepare(
       directive.target.as_str(),
       directive.target_is_uri,
       self.lexer.source_file(),
       self.lexer.source_is_primary(),
-      resolver.get_base_dir().map(Path::new),
+      base_dir.as_deref().map(Path::new),
     ) {
       Ok(target) => target,
       Err(err) => {
@@ -76,6 +95,7 @@ impl<'arena> Parser<'arena> {
     };
 
     let target_abspath = target.path();
+    let included_path = xref_path(&directive, &target_abspath, base_dir.as_deref());
     let mut buffer = BumpVec::new_in(self.bump);
     match resolver.resolve(target, &mut buffer, self.document.meta.safe_mode) {
       Ok(_) => {
@@ -113,11 +133,10 @@ impl<'arena> Parser<'arena> {
             self.included_line_nums.take(),
           );
         }
-        self
-          .document
-          .meta
-          .included_files
-          .insert(directive.target.as_str().to_string());
+        if let Some(path) = included_path {
+          let mut included = self.document.meta.included_files.borrow_mut();
+          included.insert(path);
+        }
         Ok(DirectiveAction::ReadNextLine)
       }
       Err(ResolveError::NotFound) if directive.attrs.has_option("optional") => {
-- 
2.43.0


From 1289110c57826e141ef09a3b87c8809a2fe25eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:06 +0000
Subject: [PATCH 146/156] fix: references to included files are not reported
 when the target is there

---
 parser/src/tasks/diagnose_document.rs | 20 +++++++++++++++++---
 parser/src/tasks/parse_book_part.rs   |  2 +-
 parser/src/tasks/parse_section.rs     |  2 +-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 4b3e30a..3cfbbee 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -37,7 +37,7 @@ impl Parser<'_> {
     let Some((idx, id)) = self.target_data(ref_target, source_idx) else {
       return false; // couldn't find source idx
     };
-    if id == "__self__" {
+    if id == "__self__" || id.is_empty() {
       return true;
     }
     let anchors = self.document.anchors.borrow();
@@ -85,6 +85,13 @@ impl Parser<'_> {
     }
   }
 
+  pub(crate) fn heading_source_idx(&self, heading: &InlineNodes) -> u16 {
+    match (self.ctx.table_cell_ctx, heading.loc()) {
+      (TableCellContext::None, Some(loc)) => loc.start_depth,
+      _ => self.anchor_source_idx(None),
+    }
+  }
+
   fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
       Some((Some(loc_depth), "__self__"))
@@ -98,18 +105,25 @@ impl Parser<'_> {
           .lexer
           .source_idx_of_xref_target(prefix)
           .map(|src_idx| (Some(src_idx), id))
+          // NB: what a cell included is only known to its own lexer
+          .or_else(|| self.was_included(prefix).then_some((None, id)))
       } else {
         Some((None, id))
       }
     } else if file::has_adoc_ext(target)
-      && self.lexer.source_file_at(0).file_name().ends_with(target)
+      && let Some(src_idx) = self.lexer.source_idx_of_xref_target(target)
     {
-      Some((Some(0), "__self__"))
+      Some((Some(src_idx), "__self__"))
     } else {
       Some((None, target))
     }
   }
 
+  fn was_included(&self, path: &str) -> bool {
+    let path = if file::has_adoc_ext(path) { file::remove_ext(path) } else { path };
+    self.document.meta.included_files.borrow().contains(path)
+  }
+
   fn diagnose_toc(&self) -> Result<()> {
     let toc_pos = self.document.toc.as_ref().map(|toc| toc.position);
     match toc_pos {
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index 5d15f65..c855b49 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -48,7 +48,7 @@ impl<'arena> Parser<'arena> {
           reftext,
           title: heading.clone(),
           source_loc: None,
-          source_idx: self.lexer.source_idx(),
+          source_idx: self.heading_source_idx(&heading),
           is_biblio: false,
         },
       );
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index ac4fda6..b02462c 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -116,7 +116,7 @@ impl<'arena> Parser<'arena> {
           reftext,
           title: heading.clone(),
           source_loc: None,
-          source_idx: heading.loc().map_or(self.lexer.source_idx(), |loc| loc.start_depth),
+          source_idx: self.heading_source_idx(&heading),
           is_biblio: false,
         },
       );
-- 
2.43.0


From 75d8fbde412a6cf47d554ebcd12897810e755bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:06 +0000
Subject: [PATCH 147/156] fix: references to the top from a cell show the
 document's reftext

---
 eval/src/eval.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 081794a..bd34980 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -9,14 +9,21 @@ pub fn eval<B: Backend>(document: &Document, mut backend: B) -> Result<B::Output
   backend.into_result()
 }
 
-struct Ctx<'a, 'b> {
+struct Ctx<'a, 'b, 'r> {
   doc: &'a Document<'b>,
+  /// title of the outermost document, which is the target of references to the top
+  root_title: Option<&'a DocTitle<'r>>,
   resolving_xref: RefCell<bool>,
 }
 
 pub fn visit<B: Backend>(doc: &Document, backend: &mut B) {
+  visit_within(doc, doc.title(), backend);
+}
+
+fn visit_within<B: Backend>(doc: &Document, root_title: Option<&DocTitle>, backend: &mut B) {
   let ctx = Ctx {
     doc,
+    root_title,
     resolving_xref: RefCell::new(false),
   };
   let render_docinfo = !ctx.doc.meta.embedded;
@@ -553,7 +560,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       backend.enter_xref(target, linktext.is_some(), *kind);
       let nested = ctx.resolving_xref.replace(true);
       if nested {
-        backend.visit_missing_xref(target, *kind, ctx.doc.title());
+        backend.visit_missing_xref(target, *kind, ctx.root_title);
       } else if let Some(text) = anchor
         .map(|anchor| {
           linktext
@@ -571,7 +578,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         text.iter().for_each(|node| eval_inline(node, ctx, backend));
         backend.exit_xref_text(is_biblio);
       } else {
-        backend.visit_missing_xref(target, *kind, ctx.doc.title());
+        backend.visit_missing_xref(target, *kind, ctx.root_title);
       }
       ctx.resolving_xref.replace(nested);
       backend.exit_xref(target, linktext.is_some(), *kind);
@@ -695,7 +702,7 @@ fn eval_table_row(row: &Row, section: TableSection, ctx: &Ctx, backend: &mut imp
       }
       CellContent::AsciiDoc(document) => {
         let mut cell_backend = backend.asciidoc_table_cell_backend();
-        visit(document, &mut cell_backend);
+        visit_within(document, ctx.root_title, &mut cell_backend);
         backend.visit_asciidoc_table_cell_result(cell_backend);
       }
     }
-- 
2.43.0


From 4ee78ce3560067119a1b02d1a0adb25e795612c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:34 +0000
Subject: [PATCH 148/156] fix: callouts numbered in a table cell do not count
 in the document

---
 parser/src/parse_context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 416ffd7..7dad104 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -162,9 +162,9 @@ impl<'arena> ParseContext<'arena> {
   pub fn advance_callout_list(&mut self, bump: &'arena Bump) {
     let last = { self.callouts.borrow().last().copied() };
     if let Some(last) = last {
-      self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)],
-      ));
+      // NB: in place, as the documents in cells share these
+      *self.callouts.borrow_mut() =
+        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)];
     }
   }
 
-- 
2.43.0


From dceb9d9e254dbdb3dc592e8f5c0679b343e83ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:34 +0000
Subject: [PATCH 149/156] fix: ampersands in image and media paths are escaped

---
 backend/src/html/htmlbuf.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index ceb845c..1560f7f 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -202,16 +202,18 @@ fn push_escaped(src: &str, dest: &mut String, double_quote: &str, single_quote:
 }
 
 fn push_url_encoded(buf: &mut String, s: &str) {
+  let mut encoded = String::with_capacity(s.len());
   for c in s.chars() {
     match c {
-      ' ' => buf.push_str("%20"),
-      ',' => buf.push_str("%2C"),
-      '"' => buf.push_str("%22"),
-      '<' => buf.push_str("%3C"),
-      '>' => buf.push_str("%3E"),
-      _ => buf.push(c),
+      ' ' => encoded.push_str("%20"),
+      ',' => encoded.push_str("%2C"),
+      '"' => encoded.push_str("%22"),
+      '<' => encoded.push_str("%3C"),
+      '>' => encoded.push_str("%3E"),
+      _ => encoded.push(c),
     }
   }
+  push_escaped(&encoded, buf, "&quot;", "'");
 }
 
 fn push_uri_component(buf: &mut String, s: &str) {
-- 
2.43.0


From 41cbc9c8dc791c1c417079bc5b7ae8166923ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 150/156] fix: keep nofollow option on links opening a blank
 window by shorthand

---
 backend/src/html/open_tag.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index e906da2..6ae593c 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -150,7 +150,11 @@ impl OpenTag {
       self.push_html_attr("title", &title.plain_text().join(""))
     }
     if blank_window_shorthand {
-      self.push_str(" target=\"_blank\" rel=\"noopener\"");
+      self.push_str(" target=\"_blank\" rel=\"noopener");
+      if attrs.has_option("nofollow") {
+        self.push_str(" nofollow");
+      }
+      self.push_str("\"");
     } else {
       self.append_link_constraint_attrs(attrs);
     }
-- 
2.43.0


From 0778e7eede13cedb7577b714bf7ea2b5e566b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 151/156] fix: no brackets around explicit text of bibliography
 references

---
 eval/src/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index bd34980..d29db13 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -556,7 +556,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchors = ctx.doc.anchors.borrow();
       let anchor = utils::xref::local_id(&target.src, &ctx.doc.meta, *kind)
         .and_then(|id| anchors.get(id));
-      let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
+      let is_biblio = linktext.is_none() && anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
       let nested = ctx.resolving_xref.replace(true);
       if nested {
-- 
2.43.0


From 6f74a02a88e0b37c84e6e92022732814f065bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 152/156] fix: keep attributes and title of attributed markdown
 blockquotes

---
 parser/src/tasks/parse_block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 72f4518..6190a68 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -289,7 +289,11 @@ impl<'arena> Parser<'arena> {
     self.markdown_blockquote_lines = outer_lines;
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
-      return Ok(Some(blocks.pop().unwrap()));
+      let mut block = blocks.pop().unwrap();
+      if block.meta.is_empty() {
+        block.meta = meta;
+      }
+      return Ok(Some(block));
     }
 
     Ok(Some(Block {
-- 
2.43.0


From b95b4a48ba026b8e51723bc735e56b6fb1a035a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:25 +0000
Subject: [PATCH 153/156] fix: keep newline after inline spans in markdown
 blockquotes and quoted paragraphs

---
 parser/src/line.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 93dc2b4..af79cc3 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -371,6 +371,7 @@ impl<'arena> Line<'arena> {
 
   pub fn discard_assert_last(&mut self, kind: TokenKind) {
     let token = self.discard_last();
+    self.orig_len -= 1;
     debug_assert!(token.unwrap().kind(kind));
   }
 
@@ -1075,6 +1076,7 @@ impl<'arena> Line<'arena> {
   pub fn remove_first_token(&mut self) {
     if !self.tokens.is_empty() {
       self.tokens.remove_first();
+      self.orig_len -= 1;
     }
   }
 
-- 
2.43.0


From 3958abde009ff57c2c6388f4540ba3d2c22d8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:04 +0000
Subject: [PATCH 154/156] fix: recognize quoted paragraphs at the end of
 delimited blocks and before list items

---
 parser/src/tasks/parse_block.rs       | 51 ++++++++++++++++++++++-----
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 6190a68..480e03a 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -176,13 +176,51 @@ impl<'arena> Parser<'arena> {
       _ => {}
     }
 
+    let following = self.split_off_after_paragraph(&mut lines);
     if lines.is_quoted_paragraph(self.ctx.in_markdown_blockquote) {
-      self.parse_quoted_paragraph(lines, meta)
+      let block = self.parse_quoted_paragraph(lines, meta)?;
+      self.restore_lines(following);
+      Ok(block)
     } else {
+      lines.restore_before(following);
       self.parse_paragraph(lines, meta)
     }
   }
 
+  /// lines which can't belong to the (possibly quoted) paragraph started by the first line
+  fn split_off_after_paragraph(
+    &self,
+    lines: &mut ContiguousLines<'arena>,
+  ) -> ContiguousLines<'arena> {
+    let might_be_quoted =
+      self.ctx.in_markdown_blockquote || lines.current_satisfies(|l| l.starts(DoubleQuote));
+    if !might_be_quoted {
+      return ContiguousLines::empty(self.bump);
+    }
+    let following_items = self.split_off_list_items(lines);
+    let paragraph_end =
+      (1..lines.len()).find(|n| lines.nth(*n).is_some_and(|l| self.should_stop_at(l)));
+    let Some(paragraph_end) = paragraph_end else {
+      return following_items;
+    };
+    let mut following = Self::split_off_lines(lines, paragraph_end, self.bump);
+    following.restore_before(following_items);
+    following
+  }
+
+  fn split_off_lines(
+    lines: &mut ContiguousLines<'arena>,
+    at: usize,
+    bump: &'arena Bump,
+  ) -> ContiguousLines<'arena> {
+    let mut items = ContiguousLines::empty(bump);
+    for _ in 0..at {
+      items.push(lines.consume_current().unwrap());
+    }
+    std::mem::swap(lines, &mut items);
+    items
+  }
+
   /// paragraphs with a verbatim style are not examined for other blocks
   fn starts_verbatim_paragraph(lines: &ContiguousLines<'arena>, meta: &ChunkMeta<'arena>) -> bool {
     let is_verbatim = meta.attrs.has_str_positional("source")
@@ -500,11 +538,10 @@ impl<'arena> Parser<'arena> {
   /// a paragraph attached to a list item ends at the next item of an enclosing list,
   /// the text of a description list item at any list item
   fn split_off_list_items(&self, lines: &mut ContiguousLines<'arena>) -> ContiguousLines<'arena> {
-    let mut items = ContiguousLines::empty(self.bump);
     let list = &self.ctx.list;
     let is_desc_def = self.ctx.parsing_simple_desc_def();
     if !(list.parsing_continuations || is_desc_def) || list.delimiter != self.ctx.delimiter {
-      return items;
+      return ContiguousLines::empty(self.bump);
     }
     let Some(first_item) = (1..lines.len()).find(|n| {
       lines
@@ -512,13 +549,9 @@ impl<'arena> Parser<'arena> {
         .and_then(Line::list_marker)
         .is_some_and(|marker| is_desc_def || list.stack.contains_list_of(marker))
     }) else {
-      return items;
+      return ContiguousLines::empty(self.bump);
     };
-    for _ in 0..first_item {
-      items.push(lines.consume_current().unwrap());
-    }
-    std::mem::swap(lines, &mut items);
-    items
+    Self::split_off_lines(lines, first_item, self.bump)
   }
 
   fn parse_quoted_paragraph(
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c26bf8b..367fe7f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1089,7 +1089,7 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
-  fn should_stop_at(&self, line: &Line<'arena>) -> bool {
+  pub(crate) fn should_stop_at(&self, line: &Line<'arena>) -> bool {
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
-- 
2.43.0


From 601c8b7e79e40161ff162d46dae6a29038d0c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:39 +0000
Subject: [PATCH 155/156] fix: markdown blockquotes end where a paragraph would
 within lists and delimited blocks

---
 parser/src/tasks/parse_block.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 480e03a..44a16cb 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -192,8 +192,8 @@ impl<'arena> Parser<'arena> {
     &self,
     lines: &mut ContiguousLines<'arena>,
   ) -> ContiguousLines<'arena> {
-    let might_be_quoted =
-      self.ctx.in_markdown_blockquote || lines.current_satisfies(|l| l.starts(DoubleQuote));
+    let might_be_quoted = self.ctx.in_markdown_blockquote
+      || lines.current_satisfies(|l| l.starts(DoubleQuote) || l.starts(GreaterThan));
     if !might_be_quoted {
       return ContiguousLines::empty(self.bump);
     }
@@ -293,6 +293,7 @@ impl<'arena> Parser<'arena> {
     meta: ChunkMeta<'arena>,
   ) -> Result<Option<Block<'arena>>> {
     let mut loc = MultiSourceLocation::from(lines.current_token().unwrap().loc);
+    let following = self.split_off_after_paragraph(&mut lines);
     let mut paras = VecDeque::new();
     let mut current = ContiguousLines::new(Deq::new(self.bump));
     while let Some(mut line) = lines.consume_current() {
@@ -325,6 +326,10 @@ impl<'arena> Parser<'arena> {
     }
     self.ctx.in_markdown_blockquote = outer_flag;
     self.markdown_blockquote_lines = outer_lines;
+    match &mut self.peeked_lines {
+      Some(unparsed) => unparsed.restore_before(following),
+      None => self.restore_lines(following),
+    }
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       let mut block = blocks.pop().unwrap();
-- 
2.43.0


From 767b7fd741ed141840ad168551eb8ab193fff23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 156/156] fix: comment lines within quoted paragraphs, empty
 lines after markdown blockquotes in lists

---
 parser/src/contiguous_lines.rs  | 8 ++++----
 parser/src/deq.rs               | 2 +-
 parser/src/parser.rs            | 2 +-
 parser/src/tasks/parse_block.rs | 6 ++++++
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index b21e3f4..928e2b3 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -170,11 +170,12 @@ impl<'arena> ContiguousLines<'arena> {
   }
 
   pub fn is_quoted_paragraph(&self, in_markdown_blockquote: bool) -> bool {
-    if self.lines.len() < 2 {
+    // comment lines are no part of the paragraph
+    let mut text_lines = self.lines.iter().rev().filter(|line| !line.is_comment());
+    let (Some(last_line), Some(penult)) = (text_lines.next(), text_lines.next()) else {
       return false;
-    }
+    };
 
-    let last_line = self.last().unwrap();
     if !last_line.starts_with_seq(&[Kind(Dashes), Kind(Whitespace)])
       || last_line.num_tokens() < 3
       || !last_line.current_satisfies(Len(2, Dashes))
@@ -187,7 +188,6 @@ impl<'arena> ContiguousLines<'arena> {
       if !first_line.starts(DoubleQuote) || first_line.num_tokens() < 2 {
         return false;
       }
-      let penult = self.nth(self.lines.len() - 2).unwrap();
       penult.ends(DoubleQuote)
     } else {
       !first_line.is_empty()
diff --git a/parser/src/deq.rs b/parser/src/deq.rs
index 2e874bf..6bb467b 100644
--- a/parser/src/deq.rs
+++ b/parser/src/deq.rs
@@ -92,7 +92,7 @@ impl<'arena, T> Deq<'arena, T> {
     self.buf.last_mut()
   }
 
-  pub fn iter(&self) -> impl ExactSizeIterator<Item = &T> {
+  pub fn iter(&self) -> impl ExactSizeIterator<Item = &T> + DoubleEndedIterator {
     self.buf.iter().skip(self.pos)
   }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 371cb96..b2f7c57 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -195,12 +195,12 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
-    let mut after_empty_line = std::mem::take(&mut self.consumed_empty_line);
     if self.ctx.in_markdown_blockquote {
       let lines = self.markdown_blockquote_lines.pop_front();
       self.empty_line_before = lines.as_ref().and_then(|lines| lines.first_loc());
       return Ok(lines);
     }
+    let mut after_empty_line = std::mem::take(&mut self.consumed_empty_line);
     after_empty_line |= self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
       return Ok(None);
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 44a16cb..513b298 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -564,7 +564,13 @@ impl<'arena> Parser<'arena> {
     mut lines: ContiguousLines<'arena>,
     meta: ChunkMeta<'arena>,
   ) -> Result<Option<Block<'arena>>> {
+    while lines.last().is_some_and(Line::is_comment) {
+      lines.pop();
+    }
     let mut attr_line = lines.pop().unwrap();
+    while lines.last().is_some_and(Line::is_comment) {
+      lines.pop();
+    }
     attr_line.discard_assert(TokenKind::Dashes);
     attr_line.discard_assert(TokenKind::Whitespace);
     let last_loc = attr_line.last_loc().unwrap();
-- 
2.43.0

