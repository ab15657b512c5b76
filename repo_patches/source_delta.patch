From f6d261a9e68471bc08870fa32837d72f4175b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 01/72] fix: endif without a target is recognized on an
 unterminated last line

---
 parser/src/lexer/source_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 1ebeed0..b02631a 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -333,7 +333,8 @@ impl<'arena> SourceLexer<'arena> {
             lexeme,
             b"include" | b"ifdef" | b"ifndef" | b"endif" | b"ifeval" | b"asciidorkinclude"
           )
-          && self.remaining_len() > 4 =>
+          // an `endif` needs no target, so `::[]` may be all that remains
+          && self.remaining_len() > if lexeme == b"endif" { 3 } else { 4 } =>
       {
         if !self.peek_n(2).unwrap().is_ascii_whitespace() {
           self.advance();
-- 
2.43.0


From 2162e3fe7586ccd38562c234359167adb54ff88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 02/72] fix: accept one-character targets in
 include/ifdef/ifndef directives

---
 core/src/regx.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 551fdec..2bc4a5b 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -26,9 +26,9 @@ lazy_static! {
 // directives
 lazy_static! {
   pub static ref DIRECTIVE_INCLUDE: Regex =
-    Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+    Regex::new(r#"^include::([^\[]*[^\[\s])\[.*\]$"#).unwrap();
   pub static ref DIRECTIVE_IFDEF: Regex =
-    Regex::new(r#"^ifn?def::([^\[]+[^\[\s])\[(.*)\]$"#).unwrap();
+    Regex::new(r#"^ifn?def::([^\[]*[^\[\s])\[(.*)\]$"#).unwrap();
   pub static ref DIRECTIVE_ENDIF: Regex = Regex::new(r#"^endif::(\S*)\[\]$"#).unwrap();
 }
 
-- 
2.43.0


From 68532773679f2c0ba0883271c853202ce3047d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 03/72] fix: ifeval operand consisting of a lone quote no
 longer panics

---
 parser/src/tasks/directives/ifeval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index 9db9a7a..edc9259 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -58,8 +58,9 @@ impl<'arena> Parser<'arena> {
     } else if let Ok(float) = expr.parse::<f32>() {
       return Value::Float(float);
     }
-    if expr.starts_with('\'') && expr.ends_with('\'')
-      || expr.starts_with('"') && expr.ends_with('"')
+    if expr.len() > 1
+      && (expr.starts_with('\'') && expr.ends_with('\'')
+        || expr.starts_with('"') && expr.ends_with('"'))
     {
       Value::String(self.string(&expr[1..expr.len() - 1]))
     } else if expr.chars().all(|c| c.is_ascii_whitespace()) {
-- 
2.43.0


From a21f267d8dc9cfebe1ab6139e0e7396e97ac8dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 04/72] fix: unclosed delimited block ending in a directive
 line no longer panics

---
 parser/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..f67253b 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -204,7 +204,10 @@ impl<'arena> Parser<'arena> {
 
     let mut additional_lines = BumpVec::new_in(self.bump);
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
-      additional_lines.push(self.read_line()?.unwrap());
+      let Some(line) = self.read_line()? else {
+        break;
+      };
+      additional_lines.push(line);
     }
     lines.extend(additional_lines);
 
-- 
2.43.0


From 7bf896f7b8433736c9f603c2e050250153612a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:28 +0000
Subject: [PATCH 05/72] fix: endif closes exactly the innermost block
 conditional

---
 parser/src/line.rs                   | 20 +++++++++++
 parser/src/tasks/directives/ifdef.rs | 51 +++++++++++++---------------
 parser/src/tasks/directives/mod.rs   |  1 +
 3 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..8c69b54 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -1018,6 +1018,26 @@ impl<'arena> Line<'arena> {
     self.directive_endif_target().is_some()
   }
 
+  /// is this a conditional directive that must be closed by an `endif`,
+  /// i.e. an `ifeval`, or an `ifdef`/`ifndef` which is not in single-line form
+  pub fn opens_conditional_block(&self) -> bool {
+    let Some(token) = self.current_token() else {
+      return false;
+    };
+    if token.kind != TokenKind::Directive {
+      return false;
+    }
+    match token.lexeme.as_str() {
+      "ifdef::" | "ifndef::" => regx::DIRECTIVE_IFDEF
+        .captures(&self.reassemble_src())
+        .is_some_and(|captures| captures[2].is_empty()),
+      "ifeval::" => regx::DIRECTIVE_IFEVAL
+        .captures(&self.reassemble_src())
+        .is_some_and(|captures| captures[1].is_empty()),
+      _ => false,
+    }
+  }
+
   pub fn directive_endif_target(&self) -> Option<BumpString<'arena>> {
     if !self
       .current_token()
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index bebc212..8e0d30b 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -13,20 +13,25 @@ impl<'arena> Parser<'arena> {
 
     let attrs = captures.get(1).unwrap().as_str();
     let embedded_line = captures.get(2).unwrap();
-    self.ctx.ifdef_stack.push(self.string(attrs));
 
     match (self.evaluate_ifdef(defined, attrs), embedded_line.as_str()) {
       (false, "") => Ok(DirectiveAction::SkipLinesUntilEndIf),
       (false, _) => Ok(DirectiveAction::ReadNextLine),
-      (true, "") => Ok(DirectiveAction::ReadNextLine),
+      (true, "") => {
+        // only the block form is closed by an `endif`
+        self.ctx.ifdef_stack.push(self.string(attrs));
+        Ok(DirectiveAction::ReadNextLine)
+      }
       (true, embedded) => {
         let mut src = BumpString::with_capacity_in(embedded.len() + 1, self.bump);
         src.push_str(embedded);
         src.push('\n');
         let offset = line.first_loc().unwrap().start + embedded_line.start() as u32;
         self.lexer.set_tmp_buf(&src, BufLoc::Offset(offset));
-        let line = self.read_line()?.unwrap();
-        Ok(DirectiveAction::SubstituteLine(line))
+        match self.read_line()? {
+          Some(line) => Ok(DirectiveAction::SubstituteLine(line)),
+          None => Ok(DirectiveAction::ReadNextLine),
+        }
       }
     }
   }
@@ -58,33 +63,23 @@ impl<'arena> Parser<'arena> {
     start_line: &Line<'arena>,
   ) -> Result<Option<Line<'arena>>> {
     let mut depth = 1;
-    loop {
-      let token = self.lexer.next_token();
-      if token.matches(TokenKind::Directive, "endif::") {
-        let mut line = Line::empty(self.bump);
-        line.push(token);
-        while !self.lexer.at_newline() && !self.lexer.is_eof() {
-          line.push(self.lexer.next_token());
-        }
-        if line.is_directive_endif() {
-          depth -= 1;
-          if depth == 0 {
-            if self.lexer.at_newline() {
-              self.lexer.skip_newline();
-            }
-            break self.read_line();
-          }
+    while !self.lexer.is_eof() {
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        line.push(self.lexer.next_token());
+      }
+      self.lexer.skip_newline();
+      if line.is_directive_endif() {
+        depth -= 1;
+        if depth == 0 {
+          return self.read_line();
         }
-      } else if token.kind(TokenKind::Directive)
-        && (token.lexeme == "ifdef::" || token.lexeme == "ifndef::")
-      {
-        // TODO: we should probably check if the directive is valid
+      } else if line.opens_conditional_block() {
         depth += 1;
-      } else if self.lexer.is_eof() {
-        // TODO: should probably not be a skippable/non-strict error
-        self.err_line("This ifdef directive was never closed", start_line)?;
-        break Ok(None);
       }
     }
+    // TODO: should probably not be a skippable/non-strict error
+    self.err_line("This ifdef directive was never closed", start_line)?;
+    Ok(None)
   }
 }
diff --git a/parser/src/tasks/directives/mod.rs b/parser/src/tasks/directives/mod.rs
index 06e1540..5f7e5eb 100644
--- a/parser/src/tasks/directives/mod.rs
+++ b/parser/src/tasks/directives/mod.rs
@@ -39,6 +39,7 @@ impl<'arena> Parser<'arena> {
       )?;
       return Ok(DirectiveAction::Passthrough);
     }
+    self.ctx.ifdef_stack.pop();
     Ok(DirectiveAction::ReadNextLine)
   }
 }
-- 
2.43.0


From cd910379328f5c891779e1e1e223a06b9fad623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 06/72] fix: attribute entry inside a single-line conditional
 excludes the closing bracket

---
 parser/src/lexer/root_lexer.rs      |  9 +++++++-
 parser/src/tasks/parse_doc_attrs.rs | 32 +++++++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..230f29e 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -109,6 +109,10 @@ impl<'arena> RootLexer<'arena> {
     self.tmp_buf = Some((SourceLexer::from_str(buf, SourceFile::Tmp, self.bump), loc));
   }
 
+  pub fn clear_tmp_buf(&mut self) {
+    self.tmp_buf = None;
+  }
+
   pub const fn tmp_buf_is_empty(&self) -> bool {
     self.tmp_buf.is_none()
   }
@@ -292,7 +296,10 @@ impl<'arena> RootLexer<'arena> {
     {
       match buf_loc {
         BufLoc::Repeat(loc) => token.loc = *loc,
-        BufLoc::Offset(offset) => token.loc = token.loc.offset(*offset),
+        BufLoc::Offset(offset) => {
+          token.loc = token.loc.offset(*offset);
+          token.loc.include_depth = self.idx;
+        }
         BufLoc::From(src_loc) => {
           token.loc = SourceLocation::new(
             src_loc.start + token.loc.start,
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..4e6409b 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -12,6 +12,14 @@ impl<'arena> Parser<'arena> {
       return Ok(());
     }
 
+    // an attr def embedded in a single-line conditional, i.e. `ifdef::foo[:bar: baz]`
+    // ends at the closing bracket, which is the last char of the source line
+    let embedded_end = if self.lexer.tmp_buf_is_empty() {
+      None
+    } else {
+      Some(self.embedded_attr_def_end(start_loc, depth))
+    };
+
     #[derive(Debug, Clone, Copy, PartialEq, Eq)]
     enum State {
       InName,
@@ -45,7 +53,11 @@ impl<'arena> Parser<'arena> {
     let mut has_lbrace = false;
     let mut def_start = u32::MAX;
     loop {
-      match (state, self.lexer.byte_at(pos, depth)) {
+      let byte = match embedded_end {
+        Some(end) if pos >= end => None,
+        _ => self.lexer.byte_at(pos, depth),
+      };
+      match (state, byte) {
         (State::InName, Some(b)) if is_attr_word_char(b) => {}
         (State::InName, Some(b'!')) => {
           negated = Negation::Trailing;
@@ -196,11 +208,27 @@ impl<'arena> Parser<'arena> {
     token.kind = TokenKind::AttrDef;
     token.loc = attr_def_loc;
     token.lexeme = self.string(self.lexer.str_from_loc(attr_def_loc));
-    self.lexer.set_pos(pos);
+    if embedded_end.is_some() {
+      self.lexer.clear_tmp_buf();
+      self.lexer.set_pos(pos + 1);
+    } else {
+      self.lexer.set_pos(pos);
+    }
 
     Ok(())
   }
 
+  fn embedded_attr_def_end(&self, start: u32, depth: u16) -> u32 {
+    let mut end = start;
+    while let Some(b) = self.lexer.byte_at(end, depth) {
+      if b == b'\n' || (b == b'\r' && self.lexer.byte_at(end + 1, depth) == Some(b'\n')) {
+        break;
+      }
+      end += 1;
+    }
+    end - 1
+  }
+
   // we're selectively opting in to some high-value pass-macro wrapping
   // shenanigans, because they are documented and likely appear frequently
   // in real world use cases, but these are major implementation leaks and
-- 
2.43.0


From 5495aa805209413d48d19fb9a043fdfbfeeb1b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 07/72] fix: table rows with no columns, and duplicated cells
 wrapping over rows

---
 parser/src/tasks/table/parse_psv_table.rs | 35 +++++++++++------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..852ea41 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -34,37 +34,36 @@ impl<'arena> Parser<'arena> {
     tokens: &mut TableTokens<'arena>,
     ctx: &mut TableContext<'arena>,
   ) -> Result<Option<Row<'arena>>> {
+    if ctx.num_cols == 0 {
+      return Ok(None);
+    }
+
     let mut cells = bvec![in self.bump];
-    std::mem::swap(&mut cells, &mut ctx.spilled_cells);
     let mut num_effective_cells = ctx.row_phantom_cells();
 
-    // check if we need to distrubute spilled cells from last row
-    let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
-    ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    // every column of this row is covered by cells spanning down from above
+    if num_effective_cells >= ctx.num_cols {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
 
-    while let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? {
-      if dupe > 1 {
+    while num_effective_cells < ctx.num_cols {
+      // duplicated cells that didn't fit in the last row come first
+      if ctx.spilled_cells.is_empty() {
+        let Some((cell, dupe)) = self.parse_psv_table_cell(tokens, ctx, cells.len())? else {
+          break;
+        };
         for _ in 1..dupe {
-          ctx.add_phantom_cells(&cell, num_effective_cells);
-          num_effective_cells += cell.col_span as usize;
-          if num_effective_cells < ctx.num_cols {
-            cells.push(cell.clone());
-          } else {
-            ctx.spilled_cells.push(cell.clone());
-          }
+          ctx.spilled_cells.push(cell.clone());
         }
+        ctx.spilled_cells.push(cell);
       }
+      let cell = ctx.spilled_cells.remove(0);
       ctx.add_phantom_cells(&cell, num_effective_cells);
       num_effective_cells += cell.col_span as usize;
       cells.push(cell);
-      if num_effective_cells >= ctx.num_cols {
-        break;
-      }
     }
+
     if cells.is_empty() {
       Ok(None)
     } else {
@@ -94,7 +93,7 @@ impl<'arena> Parser<'arena> {
     };
 
     let mut drop_invalid_cell = false;
-    if !ctx.counting_cols && spec.col_span.unwrap_or(0) > ctx.num_cols as u8 {
+    if !ctx.counting_cols && spec.col_span.unwrap_or(0) as usize > ctx.num_cols {
       self.err_at(
         format!(
           "Cell column span ({}) exceeds number of columns ({})",
-- 
2.43.0


From a8e7bbd5cc1137b50a9de435892c72365a59f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 08/72] fix: overlapping row spans count every covered column

---
 parser/src/tasks/table/context.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/table/context.rs b/parser/src/tasks/table/context.rs
index a32afeb..536d117 100644
--- a/parser/src/tasks/table/context.rs
+++ b/parser/src/tasks/table/context.rs
@@ -66,10 +66,13 @@ impl TableContext<'_> {
         if row_offset == 0 && col_offset == 0 {
           continue;
         }
-        self.phantom_cells.insert((
-          self.effective_row_idx + row_offset as usize,
-          col + col_offset as usize,
-        ));
+        // a spanned position might already be covered by a cell from a row above,
+        // in which case this cell gets pushed to the next free column of that row
+        let row = self.effective_row_idx + row_offset as usize;
+        let mut phantom_col = col + col_offset as usize;
+        while !self.phantom_cells.insert((row, phantom_col)) {
+          phantom_col += 1;
+        }
       }
     }
   }
-- 
2.43.0


From 016e397cd59b9e666fc7d2c34b32c54a548ab91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 09/72] fix: duplicated cells in an implicit header row no
 longer panic

---
 parser/src/tasks/table/parse_table.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index cb044fe..d8a6b52 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -207,11 +207,14 @@ impl<'arena> Parser<'arena> {
     let repeat = cell_spec.duplication.unwrap_or(1);
     if cell_style == CellContentStyle::AsciiDoc {
       if ctx.header_row.is_unknown() || trimmed_implicit_header {
-        ctx.header_reparse_cells.push(ParseCellData {
-          cell_tokens: cell_tokens.clone(),
-          cell_spec: cell_spec.clone(),
-          col_spec: col_spec.cloned(),
-        });
+        // each duplicated cell needs its own data
+        for _ in 0..repeat.max(1) {
+          ctx.header_reparse_cells.push(ParseCellData {
+            cell_tokens: cell_tokens.clone(),
+            cell_spec: cell_spec.clone(),
+            col_spec: col_spec.cloned(),
+          });
+        }
       }
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
@@ -260,7 +263,9 @@ impl<'arena> Parser<'arena> {
     if cell_style == CellContentStyle::Literal
       && (ctx.header_row.is_unknown() || trimmed_implicit_header)
     {
-      ctx.header_reparse_cells.push(cell_data.clone());
+      for _ in 0..repeat.max(1) {
+        ctx.header_reparse_cells.push(cell_data.clone());
+      }
     }
     let cell = self.parse_non_asciidoc_cell(cell_data, cell_style)?;
     Ok(Some((cell, repeat)))
-- 
2.43.0


From aeab50fa3bab3beb28eac8c8d75e88fcf402d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 10/72] fix: nested footnotes, menu macro without items, and
 numbered level-0 sections no longer panic

---
 backend-html5s/src/html5s.rs            |  5 ++---
 backend/src/html/backend.rs             | 16 +++++++++++++++-
 dr-html-backend/src/asciidoctor_html.rs |  7 +++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..7a7495f 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1423,17 +1423,16 @@ impl Backend for Html5s {
         r#"]</a>"#,
       ]);
     }
-    self.start_buffering();
+    self.start_footnote_buffer();
   }
 
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let footnote = self.take_footnote_buffer();
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
     self.push([&nums, r##"" href="#_footnote_"##, &nums]);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..d1a259f 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -24,6 +24,8 @@ pub struct BackendState {
   pub xref_depth: u8,
   #[allow(clippy::type_complexity)]
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
+  /// output preceding each of the (possibly nested) footnotes being evaluated
+  pub footnote_buffers: Vec<String>,
 }
 
 pub trait HtmlBackend: HtmlBuf {
@@ -449,6 +451,17 @@ pub trait HtmlBackend: HtmlBuf {
       .next()
   }
 
+  fn start_footnote_buffer(&mut self) {
+    let buffer = std::mem::take(self.htmlbuf());
+    self.state_mut().footnote_buffers.push(buffer);
+  }
+
+  #[must_use]
+  fn take_footnote_buffer(&mut self) -> String {
+    let buffer = self.state_mut().footnote_buffers.pop().unwrap_or_default();
+    std::mem::replace(self.htmlbuf(), buffer)
+  }
+
   fn push_appendix_caption(&mut self) {
     if let Some(appendix_caption) = self.doc_meta().string("appendix-caption") {
       self.push([&appendix_caption, " "]);
@@ -509,7 +522,8 @@ pub trait HtmlBackend: HtmlBuf {
     let Some(sectnums) = self.doc_meta().get("sectnums") else {
       return false;
     };
-    if self.section_num_levels() < level as isize {
+    // level 0 is only a (numbered by `partnums`) part of a book
+    if level == 0 || self.section_num_levels() < level as isize {
       return false;
     }
     match sectnums {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..5e92f64 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -1310,7 +1310,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(items.next().unwrap());
     self.push_str("</b>");
 
-    let last_idx = items.len() - 1;
+    let last_idx = items.len().saturating_sub(1);
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
@@ -1469,18 +1469,17 @@ impl Backend for AsciidoctorHtml {
         "</a>]</sup>",
       ]);
     }
-    self.start_buffering();
+    self.start_footnote_buffer();
   }
 
   #[instrument(skip_all)]
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let footnote = self.take_footnote_buffer();
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-- 
2.43.0


From 50ff8cb1d04aafd0e053152a730e081fa5f895fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 11/72] fix: resolving an xref inside of an xref no longer
 recurses endlessly

---
 eval/src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..de1ffad 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -530,7 +530,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
+      let in_xref = ctx.resolving_xref.replace(true);
+      if in_xref {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
@@ -551,7 +552,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
+      ctx.resolving_xref.replace(in_xref);
       backend.exit_xref(target, linktext.is_some(), *kind);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
-- 
2.43.0


From 0434879673a1172ff6511a1c42a3112c81d077f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 12/72] fix: link macro attr list with unbalanced brackets no
 longer panics

---
 parser/src/tasks/parse_attr_list.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..b599089 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -148,6 +148,13 @@ impl<'arena> Parser<'arena> {
       return Ok(attrs);
     }
 
+    // brackets weren't balanced, so end at the first (unescaped) close bracket
+    if line.nth_token(num_tokens).not_kind(CloseBracket) {
+      num_tokens = line
+        .index_of_seq(&[Not(Backslash), Kind(CloseBracket)])
+        .map_or(num_tokens, |idx| idx + 1);
+    }
+
     let mut tokens = Deq::with_capacity(line.len() - 1, self.bump);
     for _ in 0..num_tokens {
       tokens.push_non_attr(line.consume_current().unwrap());
-- 
2.43.0


From d9f88074e1c8986a3d7d4bfbf37f2c185afdb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 13/72] fix: escaped index term shorthand without a term no
 longer panics

---
 parser/src/tasks/parse_inlines/index_term.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..2a3908d 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -179,7 +179,11 @@ impl<'arena> Parser<'arena> {
     parens.lexeme.pop();
     acc.push_node(Inline::Discarded, token.loc);
     acc.push_text_token(&single_paren);
-    let end_len = terminates(&line, lines).unwrap();
+    let Some(end_len) = terminates(&line, lines) else {
+      acc.push_text_token(&parens);
+      lines.restore_if_nonempty(line);
+      return Ok(());
+    };
     let (node, loc) = self.parse_index_term_shorthand(end_len, &parens, line, lines, acc)?;
     acc.push_node(node, loc);
     Ok(())
-- 
2.43.0


From 7f125a442e151c80112aac13eabea8e78a7656b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 14/72] fix: inlines consisting of no tokens, like an empty
 pass macro, no longer panic

---
 parser/src/tasks/parse_inlines/inline_preproc.rs |  2 +-
 parser/src/tasks/parse_inlines/mod.rs            | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index d1f3dac..bff6e16 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -66,7 +66,7 @@ impl<'arena> Parser<'arena> {
       line.discard(plus_count - 1);
     }
     let extend = if start_token.kind == Plus { plus_count as u32 } else { 1 };
-    loc.end = passlines.last_loc().unwrap().end + extend;
+    loc.end = passlines.last_loc().map_or(loc.end, |last| last.end) + extend;
     let restore_subs = self.ctx.subs;
     self.ctx.subs = subs;
     let nodes = self.parse_inlines(&mut passlines)?;
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..0276379 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -21,11 +21,11 @@ impl<'arena> Parser<'arena> {
     stop_tokens: &[TokenSpec],
   ) -> Result<InlineNodes<'arena>> {
     let inlines = BumpVec::new_in(self.bump).into();
-    if lines.is_empty() {
+    let Some(first_loc) = lines.iter().find_map(|line| line.first_loc()) else {
       return Ok(inlines);
-    }
+    };
 
-    let span_loc = lines.first_loc().unwrap().clamp_start();
+    let span_loc = first_loc.clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
     let mut acc = Accum::new(inlines, text);
@@ -837,8 +837,9 @@ impl<'arena> Parser<'arena> {
                 if !subs.special_chars() || !line.current_token().is_some_and(|t| t.kind(Ampersand))
                 {
                   // pushing the next token as text prevents recognizing the pattern
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  if let Some(next_token) = line.consume_current() {
+                    acc.push_text_token(&next_token);
+                  }
                 }
               }
             }
-- 
2.43.0


From 78138a5e6dcc5b19c5a9872dfa2d48548b33b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 15/72] fix: escaping of an ampersand before a hash never drops
 it

---
 backend/src/html/htmlbuf.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..a484335 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -152,15 +152,7 @@ fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
   let mut pos = 0;
   while let Some(c) = it.next() {
     match c {
-      '&' if it.peek() == Some(&'#') => {
-        if let Some(peek) = src.get(pos..src.len().min(pos + 6)) {
-          if NUMERIC_CHAR_REF.is_match(peek) {
-            dest.push(c);
-          } else {
-            dest.push_str("&amp;");
-          }
-        }
-      }
+      '&' if it.peek() == Some(&'#') && NUMERIC_CHAR_REF.is_match(&src[pos..]) => dest.push(c),
       '&' => dest.push_str("&amp;"),
       '<' => dest.push_str("&lt;"),
       '>' => dest.push_str("&gt;"),
@@ -183,5 +175,5 @@ fn push_url_encoded(buf: &mut String, s: &str) {
 }
 
 lazy_static! {
-  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"&#[0-9]+;|&#x[0-9a-fA-F]+;").unwrap();
+  pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"^&#(?:[0-9]+|x[0-9a-fA-F]+);").unwrap();
 }
-- 
2.43.0


From d6d0e29b684084e41da7dbf6c1b02db91c647d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 16/72] fix: fenced code block delimiter followed by whitespace
 no longer panics

---
 parser/src/tasks/parse_block.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..27632a9 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -298,11 +298,14 @@ impl<'arena> Parser<'arena> {
     let open_token = delim_line.consume_current().unwrap();
     let delimiter = open_token.to_delimiter().unwrap();
 
-    // markdown fenced code block with language specifier
-    if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing {
+    if delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing {
       while delim_line.current_is(Whitespace) {
         delim_line.discard(1);
       }
+    }
+
+    // markdown fenced code block with language specifier
+    if !delim_line.is_empty() && delimiter.len == 3 && delimiter.kind == DelimiterKind::Listing {
       let lang =
         delim_line.consume_to_string_until_one_of(&[Kind(Comma), Kind(Whitespace)], self.bump);
       let mut attr_list = AttrList::new(lang.loc, self.bump);
-- 
2.43.0


From fca4de83ba58cf196246c6d619311632237fcefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 17/72] fix: include tag selection depends on the innermost
 relevant region, not on the order of the list

---
 parser/src/lib.rs                            |   2 +-
 parser/src/tasks/directives/includes/tags.rs | 148 +++++++++++++------
 parser/src/tasks/parse_attr_list.rs          |   5 +
 3 files changed, 105 insertions(+), 50 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 41e7ff2..5e2caf5 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -62,7 +62,7 @@ mod internal {
   pub use asciidork_core::{Author, DocType, JobAttr, JobSettings, Path, ReadAttr, SafeMode};
   pub use asciidork_core::{file, iff};
   pub use ast::*;
-  pub use smallvec::SmallVec;
+  pub use smallvec::{SmallVec, smallvec};
   pub type Result<T> = std::result::Result<T, Diagnostic>;
 }
 
diff --git a/parser/src/tasks/directives/includes/tags.rs b/parser/src/tasks/directives/includes/tags.rs
index 91f4ebe..4b8ca8b 100644
--- a/parser/src/tasks/directives/includes/tags.rs
+++ b/parser/src/tasks/directives/includes/tags.rs
@@ -19,43 +19,75 @@ pub enum Spec {
   AllUntaggedIncl(String),       // !*;foo
 }
 
-#[derive(Debug, PartialEq, Eq)]
-enum Strategy {
-  Any,
-  All,
-}
-
 impl Spec {
-  fn satisfied_by(&self, stack: &TagStack) -> bool {
+  fn entries(&self) -> SmallVec<[(&str, bool); 2]> {
     match self {
-      Spec::AllNonTagDirectiveLines => true,
-      Spec::NoLines => false,
-      Spec::AllTaggedRegions => !stack.is_empty(),
-      Spec::AllUntaggedRegions => stack.is_empty(),
-      Spec::Tag(tag) => stack.contains(tag),
-      Spec::AllLinesExcl(tag) => !stack.contains(tag),
-      Spec::TagExclAllNested(tag) => stack.last_is(tag),
-      Spec::TagExclNested(incl, excl) => stack.contains(incl) && !stack.contains(excl),
-      Spec::AllTaggedExcl(tag) => !stack.is_empty() && !stack.contains(tag),
-      Spec::AllUntaggedIncl(tag) => stack.is_empty() || stack.last_is(tag),
+      Spec::AllNonTagDirectiveLines => smallvec![("**", true)],
+      Spec::NoLines => smallvec![("**", false)],
+      Spec::AllTaggedRegions => smallvec![("*", true)],
+      Spec::AllUntaggedRegions => smallvec![("*", false)],
+      Spec::Tag(tag) => smallvec![(tag.as_str(), true)],
+      Spec::AllLinesExcl(tag) => smallvec![(tag.as_str(), false)],
+      Spec::TagExclAllNested(tag) => smallvec![(tag.as_str(), true), ("*", false)],
+      Spec::TagExclNested(incl, excl) => smallvec![(incl.as_str(), true), (excl.as_str(), false)],
+      Spec::AllTaggedExcl(tag) => smallvec![("*", true), (tag.as_str(), false)],
+      Spec::AllUntaggedIncl(tag) => smallvec![("*", false), (tag.as_str(), true)],
     }
   }
 }
 
-#[derive(Debug, PartialEq, Eq)]
-pub struct TagSpecs(Vec<Spec>);
+/// decides which lines are selected, matching asciidoctor's logic:
+/// the innermost relevant tag region a line is in is the one that matters
+struct TagFilter {
+  tags: Vec<(String, bool)>,
+  wildcard: Option<bool>,
+  base_select: bool,
+}
 
-impl TagSpecs {
-  fn strategy(&self) -> Strategy {
-    if self.0.first() == Some(&Spec::AllNonTagDirectiveLines) {
-      Strategy::All
-    } else if self.0.iter().all(|s| matches!(s, Spec::AllLinesExcl(_))) {
-      Strategy::All
-    } else {
-      Strategy::Any
+impl TagFilter {
+  fn new(specs: &TagSpecs) -> Self {
+    let mut tags: Vec<(String, bool)> = Vec::with_capacity(specs.0.len());
+    for (tag, select) in specs.0.iter().flat_map(Spec::entries) {
+      match tags.iter_mut().find(|(t, _)| t == tag) {
+        Some(entry) => entry.1 = select,
+        None => tags.push((tag.to_string(), select)),
+      }
     }
+    let starts_wildcard = tags.first().is_some_and(|(t, _)| t == "*");
+    let mut take = |tag: &str| {
+      let idx = tags.iter().position(|(t, _)| t == tag)?;
+      Some(tags.remove(idx).1)
+    };
+    let all_lines = take("**");
+    let mut wildcard = take("*");
+    let base_select = match (all_lines, wildcard) {
+      (Some(select), _) => {
+        if wildcard.is_none() && !select && tags.first().is_some_and(|(_, select)| !select) {
+          wildcard = Some(true);
+        }
+        select
+      }
+      (None, Some(select)) => starts_wildcard && !select,
+      (None, None) => !tags.iter().any(|(_, select)| *select),
+    };
+    Self { tags, wildcard, base_select }
   }
 
+  /// Some(..) if the tag is relevant
+  fn selects_region(&self, tag: &str, in_region: bool, selecting: bool) -> Option<bool> {
+    if let Some((_, select)) = self.tags.iter().find(|(t, _)| t == tag) {
+      return Some(*select);
+    }
+    self
+      .wildcard
+      .map(|select| if in_region && !selecting { false } else { select })
+  }
+}
+
+#[derive(Debug, PartialEq, Eq)]
+pub struct TagSpecs(Vec<Spec>);
+
+impl TagSpecs {
   fn expected_tags(&self) -> HashSet<String> {
     self
       .0
@@ -108,17 +140,29 @@ impl TagSpecs {
         self.0.push(Spec::AllUntaggedRegions);
       }
       // this spec effectively nullifies all previous ones
-      (_, Spec::AllNonTagDirectiveLines) => self.0 = vec![Spec::AllNonTagDirectiveLines],
+      // (except for excluded tags/regions, which remain excluded)
+      (prev, Spec::AllNonTagDirectiveLines) => {
+        let specs = std::mem::take(&mut self.0);
+        self.0.push(Spec::AllNonTagDirectiveLines);
+        self.0.extend(
+          specs
+            .into_iter()
+            .chain(prev)
+            .filter_map(|spec| match spec {
+              Spec::AllLinesExcl(tag) | Spec::AllTaggedExcl(tag) | Spec::TagExclNested(_, tag) => {
+                Some(Spec::AllLinesExcl(tag))
+              }
+              Spec::AllUntaggedRegions => Some(spec),
+              _ => None,
+            }),
+        );
+      }
       (prev, spec) => {
         prev.map(|prev| self.0.push(prev));
         self.0.push(spec);
       }
     }
   }
-
-  fn specs(&self) -> impl Iterator<Item = &Spec> {
-    self.0.iter()
-  }
 }
 
 pub fn parse_spec(s: &str) -> Option<Spec> {
@@ -193,7 +237,8 @@ impl<'arena> Parser<'arena> {
     let mut dest = BumpVec::with_capacity_in(src.len(), self.bump);
     let mut tag_stack = TagStack::new();
     let lines = src.split(|&c| c == b'\n');
-    let strategy = selection.strategy();
+    let filter = TagFilter::new(&selection);
+    let mut selecting = filter.base_select;
     let mut expected_tags = selection.expected_tags();
     let mut pushed_non_empty_line = false;
     for (idx, line) in lines.enumerate() {
@@ -201,12 +246,18 @@ impl<'arena> Parser<'arena> {
         Some(TagDirective::Start(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           expected_tags.remove(&tag);
-          tag_stack.push(tag, idx);
+          if let Some(select) = filter.selects_region(&tag, !tag_stack.is_empty(), selecting) {
+            selecting = select;
+            tag_stack.push(tag, idx, selecting);
+          }
         }
         Some(TagDirective::End(tag)) => {
           dest.extend_from_slice(b"asciidorkinclude::[false]\n");
           if tag_stack.last_is(&tag) {
             tag_stack.pop();
+            selecting = tag_stack
+              .last()
+              .map_or(filter.base_select, |(_, _, select)| *select);
           } else if selection.expected_tags().contains(&tag) {
             let line = nth_line(src, idx).unwrap().to_string();
             let underline_start = line.find(&tag).unwrap_or(0) as u32;
@@ -224,11 +275,7 @@ impl<'arena> Parser<'arena> {
           }
         }
         None => {
-          if (strategy == Strategy::All
-            && selection.specs().all(|spec| spec.satisfied_by(&tag_stack)))
-            || (strategy == Strategy::Any
-              && selection.specs().any(|spec| spec.satisfied_by(&tag_stack)))
-          {
+          if selecting {
             if !pushed_non_empty_line
               && (!line.is_empty() || line.iter().any(|&b| !b.is_ascii_whitespace()))
             {
@@ -241,9 +288,7 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    if let Some((tag, line_idx)) = tag_stack.last()
-      && selection.expected_tags().contains(tag)
-    {
+    if let Some((tag, line_idx)) = tag_stack.last_of(&selection.expected_tags()) {
       let line = nth_line(src, *line_idx).unwrap().to_string();
       let underline_start = line.find(tag).unwrap_or(0) as u32;
       self.err(Diagnostic {
@@ -287,15 +332,15 @@ fn nth_line(src: &[u8], n: usize) -> Option<&str> {
 }
 
 #[derive(Debug)]
-struct TagStack(Vec<(String, usize)>);
+struct TagStack(Vec<(String, usize, bool)>);
 
 impl TagStack {
   fn new() -> Self {
     TagStack(Vec::with_capacity(3))
   }
 
-  fn push(&mut self, tag: String, line_idx: usize) {
-    self.0.push((tag, line_idx));
+  fn push(&mut self, tag: String, line_idx: usize, select: bool) {
+    self.0.push((tag, line_idx, select));
   }
 
   fn pop(&mut self) {
@@ -307,15 +352,20 @@ impl TagStack {
   }
 
   fn last_is(&self, tag: &str) -> bool {
-    self.0.last().map(|(t, _)| t == tag).unwrap_or(false)
+    self.0.last().map(|(t, ..)| t == tag).unwrap_or(false)
   }
 
-  fn last(&self) -> Option<&(String, usize)> {
+  fn last(&self) -> Option<&(String, usize, bool)> {
     self.0.last()
   }
 
-  fn contains(&self, tag: &str) -> bool {
-    self.0.iter().any(|(t, _)| t == tag)
+  fn last_of(&self, tags: &HashSet<String>) -> Option<(&String, &usize)> {
+    self
+      .0
+      .iter()
+      .rev()
+      .find(|(tag, ..)| tags.contains(tag))
+      .map(|(tag, line_idx, _)| (tag, line_idx))
   }
 }
 
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index b599089..777b891 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -301,6 +301,11 @@ impl<'arena> Parser<'arena> {
         // TODO: is this correct?
         self.ctx.subs = if matches!(name.src.as_str(), "subs" | "cols") {
           Substitutions::none()
+        } else if matches!(name.src.as_str(), "tag" | "tags") {
+          // tag wildcards (`*`, `**`) must not be taken for formatted text
+          let mut subs = Substitutions::none();
+          subs.insert(Subs::AttrRefs);
+          subs
         } else {
           Substitutions::attr_value()
         };
-- 
2.43.0


From b1858d31d4c4fb3a22c8be4e6ff21f90e0092099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 18/72] fix: lines following a tag-excluded include line
 respect block boundaries

---
 parser/src/line.rs   | 17 +++++++++++++++++
 parser/src/parser.rs | 20 ++++++++++++++++++--
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 8c69b54..18c34af 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -304,6 +304,23 @@ impl<'arena> Line<'arena> {
     self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter_kind().is_some()
   }
 
+  /// the source of the line that would close the delimited block (or table) opened by this line
+  pub fn opens_delimited_block(&self) -> Option<BumpString<'arena>> {
+    let token = self.current_token()?;
+    match token.to_delimiter() {
+      Some(Delimiter { kind: DelimiterKind::Listing, len: 3 }) => Some(token.lexeme.clone()),
+      Some(_) if self.num_tokens() == 1 => Some(token.lexeme.clone()),
+      _ => {
+        let src = self.reassemble_src();
+        matches!(src.as_str(), "|===" | "!===" | ",===" | ":===").then_some(src)
+      }
+    }
+  }
+
+  pub fn src_matches(&self, src: &str) -> bool {
+    self.reassemble_src().as_str() == src
+  }
+
   pub fn is_comment_block_delimiter(&self) -> bool {
     self.is_delimiter_kind(DelimiterKind::Comment)
   }
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index f67253b..03a097b 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -163,6 +163,7 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
+    let mut delimited: Option<BumpString<'arena>> = None;
     while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
       if line.is_emptyish() {
         if lines.is_empty() {
@@ -170,12 +171,18 @@ impl<'arena> Parser<'arena> {
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line {
+        } else if !ignored_removed_include_line || delimited.is_none() {
           // this case can happen if our first non-empty line was an include directive
-          // this case happens only when we DROP a line
+          // this case happens only when we DROP a line, and an empty line that follows
+          // a removed line belongs to the chunk only inside of a delimited block
           break;
         }
       }
+      match (line.opens_delimited_block(), &delimited) {
+        (_, Some(open)) if line.src_matches(open) => delimited = None,
+        (Some(open), None) => delimited = Some(open),
+        _ => {}
+      }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
       }
@@ -203,10 +210,16 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut additional_lines = BumpVec::new_in(self.bump);
+    let mut closing_line = None;
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       let Some(line) = self.read_line()? else {
         break;
       };
+      // we weren't _at_ the delimiter, but got it by reading past a removed line
+      if line.is_delimiter(delimiter) {
+        closing_line = Some(line);
+        break;
+      }
       additional_lines.push(line);
     }
     lines.extend(additional_lines);
@@ -214,6 +227,9 @@ impl<'arena> Parser<'arena> {
     while lines.last().map(|l| l.is_empty()) == Some(true) {
       lines.pop();
     }
+    if let Some(line) = closing_line {
+      lines.push(line);
+    }
     Ok(Some(lines))
   }
 
-- 
2.43.0


From 1b987bc619d6c9d172d9c79f84bab8e23c9b8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 19/72] fix: visible index term followed by extra parens never
 reads past the end of the source

---
 parser/src/tasks/parse_inlines/index_term.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 2a3908d..a90821c 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -90,13 +90,13 @@ impl<'arena> Parser<'arena> {
     if end_len > 2 {
       let mut trailing_parens_loc = node_loc.clamp_end();
       trailing_parens_loc.end += (end_len - 2) as u32;
-      let trailing_parens = self.lexer.src_string_from_loc(trailing_parens_loc);
+      let trailing_parens = self.string(&")".repeat(end_len - 2));
       if let Some(InlineNode { content: Inline::Text(txt), loc }) = term.last_mut() {
-        txt.push_str(&trailing_parens.src);
+        txt.push_str(&trailing_parens);
         loc.extend(trailing_parens_loc);
       } else {
         term.push(InlineNode {
-          content: Inline::Text(trailing_parens.src),
+          content: Inline::Text(trailing_parens),
           loc: trailing_parens_loc,
         });
       }
-- 
2.43.0


From e214088c14d40e3e2d7b84e2a0393e67ebee6097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 20/72] fix: ifeval compares integers with floats numerically

---
 parser/src/tasks/directives/ifeval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index edc9259..bfc17f2 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -94,6 +94,9 @@ fn eval(lhs: Value, op: Op, rhs: Value) -> bool {
     (Value::Float(lhs), Op::LessEq, Value::Float(rhs)) => lhs <= rhs,
     (Value::Float(lhs), Op::Greater, Value::Float(rhs)) => lhs > rhs,
     (Value::Float(lhs), Op::GreaterEq, Value::Float(rhs)) => lhs >= rhs,
+    // mixed numbers
+    (Value::Int(lhs), op, rhs @ Value::Float(_)) => eval(Value::Float(lhs as f32), op, rhs),
+    (lhs @ Value::Float(_), op, Value::Int(rhs)) => eval(lhs, op, Value::Float(rhs as f32)),
     // boolean
     (Value::Boolean(lhs), Op::Eq, Value::Boolean(rhs)) => lhs == rhs,
     (Value::Boolean(lhs), Op::NotEq, Value::Boolean(rhs)) => lhs != rhs,
-- 
2.43.0


From dc731af88df71b967bc052e8e09a9d3ef2d91e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 21/72] fix: include directive accepts one-character targets

---
 parser/src/tasks/directives/includes/process_includes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..81c1f96 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -273,7 +273,7 @@ fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump:
 }
 
 lazy_static! {
-  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\[]+[^\[\s])\[.*\]$"#).unwrap();
+  pub static ref VALID_INCLUDE: Regex = Regex::new(r#"^include::([^\s\[](?:[^\[]*[^\s\[])?)\[.*\]$"#).unwrap();
   // ascidoctor impl: /^(\\)?include::([^\s\[](?:[^\[]*[^\s\[])?)\[(.+)?\]$/
 }
 
-- 
2.43.0


From 32f340ea02bec8d5e6913646f54b15fc2d2cc856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 22/72] fix: heading levels beyond what the backends know, and
 leveloffset overflow, no longer panic

---
 parser/src/line.rs                |  9 +++++++--
 parser/src/tasks/heading_level.rs | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 18c34af..bb8e711 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -228,14 +228,19 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn unadjusted_heading_level(&self) -> Option<u8> {
+    const MAX_MARKERS: usize = 6;
     if self.starts_with_seq(&[Kind(EqualSigns), Kind(Whitespace)]) && self.num_tokens() > 2 {
-      Some((self.current_token().unwrap().lexeme.len() - 1) as u8)
+      let num_equals = self.current_token().unwrap().lexeme.len();
+      (num_equals <= MAX_MARKERS).then(|| (num_equals - 1) as u8)
     } else if self.starts(Hash)
       && self.contains_seq(&[Kind(Hash), Kind(Whitespace)])
       && self.num_tokens() > 2
     {
       let num_hashes = self.tokens.iter().take_while(|t| t.kind == Hash).count();
-      if self.num_tokens() > num_hashes + 1 && self.nth_token(num_hashes).kind(Whitespace) {
+      if num_hashes <= MAX_MARKERS
+        && self.num_tokens() > num_hashes + 1
+        && self.nth_token(num_hashes).kind(Whitespace)
+      {
         Some((num_hashes - 1) as u8)
       } else {
         None
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index 618257c..ce6f3d0 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -37,9 +37,9 @@ impl<'arena> Parser<'arena> {
     match value {
       AttrValue::String(s) => {
         if let Some(add) = s.strip_prefix('+') {
-          *leveloffset += add.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_add(add.parse::<i8>().unwrap_or(0));
         } else if let Some(sub) = s.strip_prefix('-') {
-          *leveloffset -= sub.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_sub(sub.parse::<i8>().unwrap_or(0));
         } else {
           *leveloffset = s.parse::<i8>().unwrap_or(*leveloffset);
         }
@@ -50,10 +50,19 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+/// deepest level the backends know of, only reachable with a leveloffset
+const MAX_LEVEL: i8 = 6;
+
 const fn adjusted_leveloffset(leveloffset: i8, heading_level: u8) -> u8 {
   if leveloffset == 0 {
     return heading_level;
   }
-  let new_level = (heading_level as i8) + leveloffset;
-  if new_level < 0 { 0 } else { new_level as u8 }
+  let new_level = (heading_level as i8).saturating_add(leveloffset);
+  if new_level < 0 {
+    0
+  } else if new_level > MAX_LEVEL {
+    MAX_LEVEL as u8
+  } else {
+    new_level as u8
+  }
 }
-- 
2.43.0


From 1a79170d826e9d691c442ddbae75e9de8ba33b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 23/72] fix: column widths summing up to more than 255 no
 longer overflow

---
 ast/src/col_widths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..a4823bd 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.unwrap_or(0) + u32::from(*n))
         }
         ColWidth::Auto => num_autowidth += 1,
       }
-- 
2.43.0


From 8a4956b2ff7cc19ea35c358c06f3d38d780f11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 24/72] fix: blank lines neither defeat nor get dropped by the
 indent attribute

---
 parser/src/contiguous_lines.rs                | 39 ++++++++++---------
 .../directives/includes/process_includes.rs   | 23 +++++------
 parser/src/tasks/parse_block.rs               |  4 +-
 3 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d32ea49..2e87051 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -287,26 +287,27 @@ impl<'arena> ContiguousLines<'arena> {
     true
   }
 
-  pub fn get_indentation(&self) -> usize {
-    let mut indent = usize::MAX;
-    for line in self.iter() {
-      let line_indent = line.get_indentation();
-      if line_indent < indent {
-        indent = line_indent;
-      }
-    }
-    if indent == usize::MAX { 0 } else { indent }
-  }
-
-  pub fn set_indentation(&mut self, indent: usize) {
-    let current = self.get_indentation();
-    if current == indent {
+  /// set the indentation of all lines before the line closing the block, keeping their
+  /// indentation relative to each other, blank lines have no indentation of their own
+  pub fn set_indentation(&mut self, indent: usize, delimiter: Delimiter) {
+    let num_lines = self
+      .iter()
+      .position(|line| line.is_delimiter(delimiter))
+      .unwrap_or(self.lines.len());
+    let Some(current) = self
+      .iter()
+      .take(num_lines)
+      .filter(|line| !line.is_emptyish())
+      .map(Line::get_indentation)
+      .min()
+    else {
       return;
-    }
-    self.lines.iter_mut().for_each(|line| {
-      let line_indent = line.get_indentation();
-      if line_indent >= current {
-        line.set_indentation(line_indent - current + indent);
+    };
+    self.lines.iter_mut().take(num_lines).for_each(|line| {
+      if line.is_emptyish() {
+        line.set_indentation(0);
+      } else {
+        line.set_indentation(line.get_indentation() - current + indent);
       }
     });
   }
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 81c1f96..f674608 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -238,34 +238,31 @@ impl<'arena> Parser<'arena> {
 }
 
 fn _set_indentation<'arena>(indent: usize, buf: &mut BumpVec<'arena, u8>, bump: &'arena Bump) {
+  const REMOVED_LINE: &[u8] = b"asciidorkinclude::[false]";
   let mut trimmed = buf.as_slice();
   if trimmed.last() == Some(&b'\n') {
     trimmed = &trimmed[..trimmed.len() - 1];
   }
+  let indentation = |line: &[u8]| line.iter().take_while(|&&c| c == b' ').count();
   let Some(min_indent) = trimmed
     .split(|&c| c == b'\n')
-    .fold(Option::<usize>::None, |acc, line| {
-      if line == b"asciidorkinclude::[false]" {
-        return acc;
-      }
-      let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      match acc {
-        Some(current) => Some(current.min(line_indent)),
-        None => Some(line_indent),
-      }
-    })
+    .filter(|line| *line != REMOVED_LINE && !line.trim_ascii().is_empty())
+    .map(indentation)
+    .min()
   else {
     return;
   };
   if indent != min_indent {
     let mut dest = BumpVec::with_capacity_in(buf.len(), bump);
     buf.split(|&c| c == b'\n').for_each(|line| {
-      let line_indent = line.iter().take_while(|&&c| c == b' ').count();
-      if line_indent >= min_indent {
+      if line == REMOVED_LINE || line.trim_ascii().is_empty() {
+        dest.extend(line);
+      } else {
+        let line_indent = indentation(line);
         dest.extend(std::iter::repeat_n(b' ', line_indent - min_indent + indent));
         dest.extend(line.iter().skip(line_indent));
-        dest.push(b'\n');
       }
+      dest.push(b'\n');
     });
     dest.pop();
     std::mem::swap(buf, &mut dest);
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 27632a9..cd15634 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -359,9 +359,7 @@ impl<'arena> Parser<'arena> {
         .named("indent")
         .and_then(|s| s.parse::<usize>().ok())
       {
-        let delimiter = lines.pop();
-        lines.set_indentation(indent);
-        delimiter.map(|d| lines.push(d));
+        lines.set_indentation(indent, delimiter);
       }
 
       if (context == Context::Listing || context == Context::Literal)
-- 
2.43.0


From 8a72378e4238dac3c7a199876f9cba2dfd5af578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 25/72] fix: line selection of an include drops no final
 newline, and UTF-8 after a BOM is validated

---
 .../src/tasks/directives/includes/normalize_includes.rs   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..03eac63 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -57,7 +57,8 @@ impl<'arena> Parser<'arena> {
     }
 
     let mut selected = BumpVec::with_capacity_in(bytes.len(), self.bump);
-    for (i, line) in bytes.split(|&b| b == b'\n').enumerate() {
+    let src = bytes.strip_suffix(b"\n").unwrap_or(bytes);
+    for (i, line) in src.split(|&b| b == b'\n').enumerate() {
       if ranges.iter().any(|range| range.contains(&(i + 1))) {
         selected.extend(line);
         selected.push(b'\n');
@@ -80,17 +81,16 @@ impl<'arena> Parser<'arena> {
     // UTF-8 BOM
     if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
       bytes.drain(0..3);
-      return Ok(());
     }
 
     // UTF-16 BOM, little endian
-    if bytes.len() >= 2 && bytes[0..2] == [0xFF, 0xFE] {
+    else if bytes.len() >= 2 && bytes[0..2] == [0xFF, 0xFE] {
       bytes.drain(0..2);
       return self.convert_utf16_le(bytes);
     }
 
     // UTF-16 BOM, big endian
-    if bytes.len() >= 2 && bytes[0..2] == [0xFE, 0xFF] {
+    else if bytes.len() >= 2 && bytes[0..2] == [0xFE, 0xFF] {
       bytes.drain(0..2);
       if !bytes.len().is_multiple_of(2) {
         bytes.push(0x00);
-- 
2.43.0


From 2ba6c62574ba93f630d39e431ecc86ebd612d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 26/72] fix: blank lines at the edges of a verbatim block
 holding excluded include lines are trimmed

---
 parser/src/contiguous_lines.rs | 19 +++++++++++++++++++
 parser/src/parser.rs           | 18 +++++++-----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index 2e87051..c0f89b0 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -258,6 +258,25 @@ impl<'arena> ContiguousLines<'arena> {
     }
   }
 
+  /// remove the empty lines directly preceding a closing delimiter (or the end)
+  pub fn trim_empty_lines_before(&mut self, delimiter: Delimiter) {
+    let mut rest = SmallVec::<[Line<'arena>; 4]>::new();
+    let num_lines = self
+      .iter()
+      .position(|line| line.is_delimiter(delimiter))
+      .unwrap_or(self.lines.len());
+    while self.lines.len() > num_lines {
+      rest.extend(self.lines.pop());
+    }
+    while self.lines.last().is_some_and(Line::is_empty) {
+      self.lines.pop();
+    }
+    rest
+      .into_iter()
+      .rev()
+      .for_each(|line| self.lines.push(line));
+  }
+
   pub fn discard_until(&mut self, predicate: impl Fn(&Line<'arena>) -> bool) -> bool {
     while let Some(line) = self.first() {
       if predicate(line) {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 03a097b..fe0e793 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -206,30 +206,26 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     };
     if lines.any(|l| l.is_delimiter(delimiter)) {
+      lines.discard_leading_empty_lines();
+      lines.trim_empty_lines_before(delimiter);
       return Ok(Some(lines));
     }
 
     let mut additional_lines = BumpVec::new_in(self.bump);
-    let mut closing_line = None;
     while !self.lexer.is_eof() && !self.at_delimiter(delimiter) {
       let Some(line) = self.read_line()? else {
         break;
       };
       // we weren't _at_ the delimiter, but got it by reading past a removed line
-      if line.is_delimiter(delimiter) {
-        closing_line = Some(line);
+      let closes = line.is_delimiter(delimiter);
+      additional_lines.push(line);
+      if closes {
         break;
       }
-      additional_lines.push(line);
     }
     lines.extend(additional_lines);
-
-    while lines.last().map(|l| l.is_empty()) == Some(true) {
-      lines.pop();
-    }
-    if let Some(line) = closing_line {
-      lines.push(line);
-    }
+    lines.discard_leading_empty_lines();
+    lines.trim_empty_lines_before(delimiter);
     Ok(Some(lines))
   }
 
-- 
2.43.0


From d0c14bc0d665dfb19538840a30ea79a8ace941f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 27/72] fix: empty role and option lists in formatted text are
 reported without panicking

---
 parser/src/tasks/parse_attr_list.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 777b891..1a2990d 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -247,13 +247,14 @@ impl<'arena> Parser<'arena> {
         return Ok(());
       }
       AttrIr::Options(groups) | AttrIr::Roles(groups) if formatted_text => {
-        self.err_at(
-          ONLY_SHORTHAND_ERR,
-          SourceLocation::spanning(
-            groups.first().unwrap().first().unwrap().loc,
-            groups.last().unwrap().last().unwrap().loc,
-          ),
-        )?;
+        // NB: a named list without a value has no tokens at all
+        let first = groups.iter().find_map(|group| group.first());
+        let last = groups.iter().filter_map(|group| group.last()).last();
+        let loc = match (first, last) {
+          (Some(first), Some(last)) => SourceLocation::spanning(first.loc, last.loc),
+          _ => attr_list.loc,
+        };
+        self.err_at(ONLY_SHORTHAND_ERR, loc)?;
         return Ok(());
       }
       AttrIr::Named(name, tokens) if formatted_text => {
-- 
2.43.0


From f0237bbd337ef08f772aa1d9b0bb17c17250ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 28/72] fix: lines following dropped lines, attribute entries
 or the end of an included file are read exactly once

---
 parser/src/lexer/mod.rs              |   2 +-
 parser/src/lexer/root_lexer.rs       |  72 +++++++++-----
 parser/src/line.rs                   |  29 +++---
 parser/src/parse_context.rs          |   9 ++
 parser/src/parser.rs                 | 134 +++++++++++++++------------
 parser/src/tasks/directives/ifdef.rs |   6 +-
 parser/src/tasks/parse_block.rs      |   5 +-
 parser/src/tasks/parse_doc_attrs.rs  |  27 ++++++
 8 files changed, 176 insertions(+), 108 deletions(-)

diff --git a/parser/src/lexer/mod.rs b/parser/src/lexer/mod.rs
index 3db281f..f6a8e79 100644
--- a/parser/src/lexer/mod.rs
+++ b/parser/src/lexer/mod.rs
@@ -1,5 +1,5 @@
 mod root_lexer;
 mod source_lexer;
 
-pub use root_lexer::BufLoc;
+pub use root_lexer::{BufLoc, LexerPosition};
 pub use root_lexer::RootLexer as Lexer;
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 230f29e..68e7523 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -14,6 +14,12 @@ pub struct RootLexer<'arena> {
   tmp_buf: Option<(SourceLexer<'arena>, BufLoc)>,
 }
 
+/// the position within every source that has been entered, but not left
+#[derive(Debug, Clone, Default)]
+pub struct LexerPosition {
+  sources: Vec<(u16, u32)>,
+}
+
 #[derive(Debug)]
 pub enum BufLoc {
   Repeat(SourceLocation),
@@ -170,6 +176,25 @@ impl<'arena> RootLexer<'arena> {
     self.sources[self.idx as usize].pos = pos - self.sources[self.idx as usize].offset;
   }
 
+  pub fn position(&self) -> LexerPosition {
+    let mut sources = Vec::with_capacity(self.source_stack.len() + 1);
+    for idx in self.source_stack.iter().chain(std::iter::once(&self.idx)) {
+      sources.push((*idx, self.sources[*idx as usize].pos));
+    }
+    LexerPosition { sources }
+  }
+
+  pub fn restore_position(&mut self, position: &LexerPosition) {
+    self.next_idx = None;
+    self.tmp_buf = None;
+    self.source_stack.clear();
+    for (idx, pos) in &position.sources {
+      self.sources[*idx as usize].pos = *pos;
+      self.source_stack.push(*idx);
+    }
+    self.idx = self.source_stack.pop().unwrap();
+  }
+
   pub fn leveloffset(&self, idx: u16) -> i8 {
     self.sources[idx as usize].leveloffset
   }
@@ -192,20 +217,19 @@ impl<'arena> RootLexer<'arena> {
     if let Some((tmp_buf, _)) = &self.tmp_buf {
       return tmp_buf.peek();
     }
-    // case: we're about to switch to a new source
-    if let Some(next_idx) = self.next_idx {
-      return self.sources[next_idx as usize].peek();
-    }
-    // case: normal path: we're peeking at the current source, and have bytes
-    if let Some(c) = self.sources[self.idx as usize].peek() {
-      return Some(c);
-    }
-    // case: we're out of bytes, check if we're returning to a previous source
-    if let Some(next_idx) = self.source_stack.last() {
-      return self.sources[*next_idx as usize].peek();
-    }
-    // case: nothing left in any source, document EOF
-    None
+    // otherwise nothing is left in any source: document EOF
+    self.unfinished_source().and_then(SourceLexer::peek)
+  }
+
+  /// the source we're about to switch to, the current source,
+  /// or else the innermost of the including ones which has bytes left
+  fn unfinished_source(&self) -> Option<&SourceLexer<'arena>> {
+    let next = self.next_idx.iter();
+    next
+      .chain(std::iter::once(&self.idx))
+      .chain(self.source_stack.iter().rev())
+      .map(|idx| &self.sources[*idx as usize])
+      .find(|source| !source.is_eof())
   }
 
   pub fn skip_byte(&mut self) {
@@ -253,12 +277,9 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
-    let cur_source = &self.sources[self.idx as usize];
-    if cur_source.is_eof() && !self.source_stack.is_empty() {
-      self.sources[*self.source_stack.last().unwrap() as usize].at_delimiter_line()
-    } else {
-      cur_source.at_delimiter_line()
-    }
+    self
+      .unfinished_source()
+      .and_then(SourceLexer::at_delimiter_line)
   }
 
   pub fn is_eof(&self) -> bool {
@@ -337,12 +358,19 @@ impl<'arena> RootLexer<'arena> {
     self.idx
   }
 
+  /// number of sources which are including the current one, directly or indirectly
+  pub fn nesting_depth(&self) -> u16 {
+    self.source_stack.len() as u16
+  }
+
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
     self
-      .sources
+      .source_stack
       .iter()
+      .chain(std::iter::once(&self.idx))
       .enumerate()
-      .fold(None, |current, (i, src)| {
+      .fold(None, |current, (i, idx)| {
+        let src = &self.sources[*idx as usize];
         src.max_include_depth.map(|d| (d, i as u16)).or(current)
       })
   }
diff --git a/parser/src/line.rs b/parser/src/line.rs
index bb8e711..cb557a4 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -296,6 +296,18 @@ impl<'arena> Line<'arena> {
       && self.is_fully_unconsumed()
   }
 
+  pub fn ends_chunk_of_attr_def(&self) -> bool {
+    self.is_list_continuation() || (self.num_tokens() == 1 && self.starts(TokenKind::DelimiterLine))
+  }
+
+  pub fn may_precede_attr_def(&self) -> bool {
+    self.is_block_attr_list()
+      || self.is_block_anchor()
+      || self.is_chunk_title()
+      || self.is_comment()
+      || self.is_heading()
+  }
+
   pub fn is_delimiter(&self, delimiter: Delimiter) -> bool {
     self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter() == Some(delimiter)
   }
@@ -309,23 +321,6 @@ impl<'arena> Line<'arena> {
     self.num_tokens() == 1 && self.current_token().unwrap().to_delimiter_kind().is_some()
   }
 
-  /// the source of the line that would close the delimited block (or table) opened by this line
-  pub fn opens_delimited_block(&self) -> Option<BumpString<'arena>> {
-    let token = self.current_token()?;
-    match token.to_delimiter() {
-      Some(Delimiter { kind: DelimiterKind::Listing, len: 3 }) => Some(token.lexeme.clone()),
-      Some(_) if self.num_tokens() == 1 => Some(token.lexeme.clone()),
-      _ => {
-        let src = self.reassemble_src();
-        matches!(src.as_str(), "|===" | "!===" | ",===" | ":===").then_some(src)
-      }
-    }
-  }
-
-  pub fn src_matches(&self, src: &str) -> bool {
-    self.reassemble_src().as_str() == src
-  }
-
   pub fn is_comment_block_delimiter(&self) -> bool {
     self.is_delimiter_kind(DelimiterKind::Comment)
   }
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..648f392 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -39,6 +39,15 @@ pub struct AttrDef {
   pub value: AttrValue,
   pub has_lbrace: bool,
   pub in_header: bool,
+  pub resume: ResumeState,
+}
+
+/// what is needed to read the lines following an attribute entry once more
+#[derive(Debug, Clone, Default)]
+pub struct ResumeState {
+  pub lexer: LexerPosition,
+  pub ifdef_stack: Vec<String>,
+  pub leveloffset: i8,
 }
 
 #[derive(Debug, PartialEq, Eq, Clone)]
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index fe0e793..a1ef47d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -102,54 +102,56 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    Ok(self._read_line(false)?.map(|(line, _)| line))
+    self.read_line_of_chunk(false)
   }
 
-  fn _read_line(&mut self, ignored_last: bool) -> Result<Option<(Line<'arena>, bool)>> {
+  /// when `stop_at_blank`, an empty line following a line that was dropped
+  /// (an attribute entry, a directive, etc.) is not consumed: it ends the chunk
+  fn read_line_of_chunk(&mut self, stop_at_blank: bool) -> Result<Option<Line<'arena>>> {
     assert!(self.peeked_lines.is_none());
-    if self.lexer.is_eof() {
-      return Ok(None);
-    }
-
     use TokenKind::*;
-    let mut drop_line = false;
-    let mut line = Line::empty(self.bump);
-    while !self.lexer.at_newline() && !self.lexer.is_eof() {
-      let mut token = self.lexer.next_token();
-      if line.is_empty() {
-        // if we encounter a line like `|===` in the very first paragraph,
-        // we know we're not in the header anymore, so any attrs refs can be set properly
-        if self.ctx.in_header
-          && !matches!(
-            token.kind,
-            Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
-          )
-        {
-          self.ctx.in_header = false;
-        } else if token.kind == Colon && self.ctx.subs.attr_refs() {
-          self.try_parse_attr_def(&mut token)?;
+    let mut dropped_lines = false;
+    loop {
+      if self.lexer.is_eof() || (dropped_lines && stop_at_blank && self.lexer.at_newline()) {
+        return Ok(None);
+      }
+      let mut drop_line = false;
+      let mut line = Line::empty(self.bump);
+      while !self.lexer.at_newline() && !self.lexer.is_eof() {
+        let mut token = self.lexer.next_token();
+        if line.is_empty() {
+          // if we encounter a line like `|===` in the very first paragraph,
+          // we know we're not in the header anymore, so any attrs refs can be set properly
+          if self.ctx.in_header
+            && !matches!(
+              token.kind,
+              Colon | EqualSigns | Word | ForwardSlashes | Directive | OpenBracket
+            )
+          {
+            self.ctx.in_header = false;
+          } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+            self.try_parse_attr_def(&mut token)?;
+          }
         }
+        self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
       }
-      self.push_token_replacing_attr_ref(token, &mut line, &mut drop_line)?;
-    }
-    self.lexer.skip_newline();
-    if drop_line {
-      return self._read_line(false);
-    }
-    if line.starts(TokenKind::Directive) && !self.ctx.within_block_comment() {
-      match self.try_process_directive(&mut line)? {
-        DirectiveAction::Passthrough => Ok(Some((line, ignored_last))),
-        DirectiveAction::SubstituteLine(line) => Ok(Some((line, ignored_last))),
-        DirectiveAction::IgnoreNotIncluded => self._read_line(true),
-        DirectiveAction::ReadNextLine => self._read_line(false),
-        DirectiveAction::SkipLinesUntilEndIf => Ok(
-          self
-            .skip_lines_until_endif(&line)?
-            .map(|l| (l, ignored_last)),
-        ),
+      self.lexer.skip_newline();
+      if !drop_line {
+        if !line.starts(TokenKind::Directive) || self.ctx.within_block_comment() {
+          return Ok(Some(line));
+        }
+        match self.try_process_directive(&mut line)? {
+          DirectiveAction::Passthrough => return Ok(Some(line)),
+          DirectiveAction::SubstituteLine(line) => return Ok(Some(line)),
+          DirectiveAction::IgnoreNotIncluded | DirectiveAction::ReadNextLine => {}
+          DirectiveAction::SkipLinesUntilEndIf => {
+            if !self.skip_lines_until_endif(&line)? {
+              return Ok(None);
+            }
+          }
+        }
       }
-    } else {
-      Ok(Some((line, ignored_last)))
+      dropped_lines = true;
     }
   }
 
@@ -163,31 +165,28 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
     let mut lines = Deq::new(self.bump);
-    let mut delimited: Option<BumpString<'arena>> = None;
-    while let Some((line, ignored_removed_include_line)) = self._read_line(false)? {
+    let mut precedes_content = true;
+    while let Some(line) = self.read_line_of_chunk(!lines.is_empty())? {
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
           // that then resolved to an initial empty line, otherwise consume_empty_lines
           // would have skipped over it, so we keep going
           continue;
-        } else if !ignored_removed_include_line || delimited.is_none() {
-          // this case can happen if our first non-empty line was an include directive
-          // this case happens only when we DROP a line, and an empty line that follows
-          // a removed line belongs to the chunk only inside of a delimited block
-          break;
         }
-      }
-      match (line.opens_delimited_block(), &delimited) {
-        (_, Some(open)) if line.src_matches(open) => delimited = None,
-        (Some(open), None) => delimited = Some(open),
-        _ => {}
+        break;
       }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
         self.ctx.comment_delim_in_lines = true;
       }
+      let ends_at_attr_def =
+        precedes_content && !self.ctx.in_header && line.starts(TokenKind::AttrDef);
+      precedes_content = line.ends_chunk_of_attr_def()
+        || (precedes_content && line.may_precede_attr_def());
       lines.push(line);
-      if self.lexer.at_newline() {
+      // an attribute entry must take effect before the following lines are read,
+      // as directives and attribute references within them may depend on it
+      if ends_at_attr_def || self.lexer.at_newline() {
         break;
       }
     }
@@ -202,8 +201,13 @@ impl<'arena> Parser<'arena> {
     &mut self,
     delimiter: Delimiter,
   ) -> Result<Option<ContiguousLines<'arena>>> {
-    let Some(mut lines) = self.read_lines()? else {
-      return Ok(None);
+    let mut lines = match self.peeked_lines.take() {
+      Some(peeked) => peeked,
+      None => {
+        self.ctx.comment_delim_in_lines = false;
+        self.lexer.consume_empty_lines();
+        ContiguousLines::new(Deq::new(self.bump))
+      }
     };
     if lines.any(|l| l.is_delimiter(delimiter)) {
       lines.discard_leading_empty_lines();
@@ -226,7 +230,7 @@ impl<'arena> Parser<'arena> {
     lines.extend(additional_lines);
     lines.discard_leading_empty_lines();
     lines.trim_empty_lines_before(delimiter);
-    Ok(Some(lines))
+    if lines.is_empty() { Ok(None) } else { Ok(Some(lines)) }
   }
 
   fn at_delimiter(&self, delimiter: Delimiter) -> bool {
@@ -316,13 +320,21 @@ impl<'arena> Parser<'arena> {
     &mut self,
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<ChunkMeta<'arena>> {
-    if let Some(meta) = self.peeked_meta.take() {
+    let peeked_meta = self.peeked_meta.take();
+    if lines.is_empty()
+      && let Some(meta) = peeked_meta
+    {
       return Ok(meta);
     }
     assert!(!lines.is_empty());
-    let start_loc = lines.current_token().unwrap().loc;
-    let mut attrs = MultiAttrList::new_in(self.bump);
-    let mut title = None;
+    let (mut attrs, mut title, start_loc) = match peeked_meta {
+      Some(meta) => (meta.attrs, meta.dot_line_title, meta.start_loc),
+      None => (
+        MultiAttrList::new_in(self.bump),
+        None,
+        lines.current_token().unwrap().loc,
+      ),
+    };
     if !lines.current().unwrap().is_fully_unconsumed() {
       return Ok(ChunkMeta::new(attrs, title, start_loc));
     }
diff --git a/parser/src/tasks/directives/ifdef.rs b/parser/src/tasks/directives/ifdef.rs
index 8e0d30b..4454d2a 100644
--- a/parser/src/tasks/directives/ifdef.rs
+++ b/parser/src/tasks/directives/ifdef.rs
@@ -61,7 +61,7 @@ impl<'arena> Parser<'arena> {
   pub(crate) fn skip_lines_until_endif(
     &mut self,
     start_line: &Line<'arena>,
-  ) -> Result<Option<Line<'arena>>> {
+  ) -> Result<bool> {
     let mut depth = 1;
     while !self.lexer.is_eof() {
       let mut line = Line::empty(self.bump);
@@ -72,7 +72,7 @@ impl<'arena> Parser<'arena> {
       if line.is_directive_endif() {
         depth -= 1;
         if depth == 0 {
-          return self.read_line();
+          return Ok(true);
         }
       } else if line.opens_conditional_block() {
         depth += 1;
@@ -80,6 +80,6 @@ impl<'arena> Parser<'arena> {
     }
     // TODO: should probably not be a skippable/non-strict error
     self.err_line("This ifdef directive was never closed", start_line)?;
-    Ok(None)
+    Ok(false)
   }
 }
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index cd15634..a3e1c58 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -9,9 +9,6 @@ impl<'arena> Parser<'arena> {
     };
 
     if let Some(comment_block) = self.parse_inline_comment_block(&mut lines) {
-      if let Some(meta) = self.peeked_meta.take() {
-        assert!(meta.is_empty());
-      }
       self.restore_lines(lines);
       return Ok(Some(comment_block));
     }
@@ -114,7 +111,7 @@ impl<'arena> Parser<'arena> {
         lines.consume_current(); // attr def
         if !lines.is_empty() {
           // re-parse adjoining chunk, to resolve attr def
-          self.lexer.set_pos(def.loc.end);
+          self.resume_reading(&def.resume);
         }
         return Ok(Some(Block {
           meta,
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 4e6409b..7cb9b33 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -176,6 +176,7 @@ impl<'arena> Parser<'arena> {
       value: value.clone(),
       has_lbrace,
       in_header: self.ctx.in_header,
+      resume: ResumeState::default(),
     });
 
     if name == "leveloffset" {
@@ -215,9 +216,35 @@ impl<'arena> Parser<'arena> {
       self.lexer.set_pos(pos);
     }
 
+    let resume = self.resume_state();
+    self.ctx.attr_defs.last_mut().unwrap().resume = resume;
+
     Ok(())
   }
 
+  fn resume_state(&self) -> ResumeState {
+    ResumeState {
+      lexer: self.lexer.position(),
+      ifdef_stack: self
+        .ctx
+        .ifdef_stack
+        .iter()
+        .map(|name| name.to_string())
+        .collect(),
+      leveloffset: self.ctx.leveloffset,
+    }
+  }
+
+  pub(crate) fn resume_reading(&mut self, state: &ResumeState) {
+    self.lexer.restore_position(&state.lexer);
+    self.ctx.leveloffset = state.leveloffset;
+    self.ctx.ifdef_stack.clear();
+    for name in &state.ifdef_stack {
+      let name = self.string(name);
+      self.ctx.ifdef_stack.push(name);
+    }
+  }
+
   fn embedded_attr_def_end(&self, start: u32, depth: u16) -> u32 {
     let mut end = start;
     while let Some(b) = self.lexer.byte_at(end, depth) {
-- 
2.43.0


From 1c743d5002db56fc9b21b13845189b4767cbbc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 29/72] fix: include depth counts nesting only, leveloffset
 accumulates, refused includes stay as text, empty files have no lines

---
 .../directives/includes/process_includes.rs   | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index f674608..3c79416 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -17,9 +17,10 @@ struct IncludeDirective<'a> {
 impl<'arena> Parser<'arena> {
   pub(crate) fn try_process_include_directive(
     &mut self,
-    line: &mut Line<'arena>,
+    line: &Line<'arena>,
   ) -> Result<DirectiveAction<'arena>> {
-    let Some(directive) = self.valid_include_directive(line)? else {
+    // the line itself stays intact, it may have to be passed through
+    let Some(directive) = self.valid_include_directive(&mut line.clone())? else {
       return Ok(DirectiveAction::Passthrough);
     };
 
@@ -89,7 +90,16 @@ impl<'arena> Parser<'arena> {
         }
         self.select_lines(&directive.attrs, &target_abspath, &mut buffer)?;
         self.set_include_indentation(&directive.attrs, &mut buffer);
-        let mut leveloffset = 0;
+        self
+          .document
+          .meta
+          .included_files
+          .insert(directive.target.as_str().to_string());
+        // an empty file has no lines at all
+        if buffer.is_empty() {
+          return Ok(DirectiveAction::ReadNextLine);
+        }
+        let mut leveloffset = self.lexer.leveloffset(self.lexer.source_idx());
         if let Some(offset_attr) = directive
           .attrs
           .named("leveloffset")
@@ -107,11 +117,6 @@ impl<'arena> Parser<'arena> {
           include_depth,
           buffer,
         );
-        self
-          .document
-          .meta
-          .included_files
-          .insert(directive.target.as_str().to_string());
         Ok(DirectiveAction::ReadNextLine)
       }
       Err(ResolveError::NotFound) if directive.attrs.has_option("optional") => {
@@ -228,8 +233,11 @@ impl<'arena> Parser<'arena> {
       .lexer
       .max_include_depth()
       .unwrap_or((self.ctx.max_include_depth, 0));
-    let abs_depth = u16::min(rel_depth + stack_depth, self.ctx.max_include_depth);
-    if self.lexer.include_depth() + 1 > abs_depth {
+    let abs_depth = u16::min(
+      rel_depth.saturating_add(stack_depth),
+      self.ctx.max_include_depth,
+    );
+    if self.lexer.nesting_depth() >= abs_depth {
       Some(rel_depth)
     } else {
       None
-- 
2.43.0


From 181618fc8f0d24db4493d69c81780325d3d6a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 30/72] fix: backslashes of verbatim content are kept, escaped
 special characters and passthroughs stay text

---
 parser/src/substitutions.rs                   |  5 +++++
 .../src/tasks/parse_inlines/inline_preproc.rs |  9 +++++++-
 .../src/tasks/parse_inlines/inline_utils.rs   | 21 +++++++++++++++++++
 parser/src/tasks/parse_inlines/mod.rs         | 19 ++++++++++-------
 4 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/parser/src/substitutions.rs b/parser/src/substitutions.rs
index b8d5732..06b3cdf 100644
--- a/parser/src/substitutions.rs
+++ b/parser/src/substitutions.rs
@@ -124,6 +124,11 @@ impl Substitutions {
     self.flags & Subs::POST_REPLACEMENT != 0
   }
 
+  /// whether any construct that could be escaped by a backslash is recognized, besides callouts
+  pub const fn recognize_escapes(&self) -> bool {
+    self.flags & !(Subs::SPECIAL_CHARS | Subs::CALLOUTS | Subs::POST_REPLACEMENT) != 0
+  }
+
   pub const fn callouts(&self) -> bool {
     self.flags & Subs::CALLOUTS != 0
   }
diff --git a/parser/src/tasks/parse_inlines/inline_preproc.rs b/parser/src/tasks/parse_inlines/inline_preproc.rs
index bff6e16..5f9c9bf 100644
--- a/parser/src/tasks/parse_inlines/inline_preproc.rs
+++ b/parser/src/tasks/parse_inlines/inline_preproc.rs
@@ -20,7 +20,7 @@ impl<'arena> Parser<'arena> {
       }
       let kind = token.kind;
       match token.kind {
-        MacroName if token.lexeme == "pass:" => {
+        MacroName if token.lexeme == "pass:" && prev_kind != Some(Backslash) => {
           if let Some((n, subs)) = self.terminates_valid_pass_macro(line, lines) {
             let placeholder = self.pass_placeholder(&token, 0, line, lines, n, subs)?;
             replaced.push_nonpass(placeholder);
@@ -31,6 +31,13 @@ impl<'arena> Parser<'arena> {
         Plus if could_be_plus_passthru(prev_kind, line) => {
           let count = line.iter().take_while(|t| t.kind(Plus)).count() + 1;
           if let Some(n) = self.terminates_plus(count, line, lines) {
+            if prev_kind == Some(Backslash) {
+              // escaped: neither the delimiters nor the content are special
+              skip_tokens = n + count;
+              replaced.push_nonpass(token);
+              prev_kind = Some(kind);
+              continue;
+            }
             let subs = Substitutions::from_pass_plus_len(count);
             let placeholder = self.pass_placeholder(&token, count, line, lines, n, subs)?;
             skip_tokens = count;
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..e561046 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -174,6 +174,27 @@ impl<'arena> Accum<'arena> {
     }
   }
 
+  /// push token as text, not recognizing any pattern, but respecting special chars
+  pub fn push_escaped_token(&mut self, token: &Token, special_chars: bool) {
+    use SpecialCharKind::*;
+    match token.kind {
+      TokenKind::LessThan if special_chars => {
+        self.push_node(Inline::SpecialChar(LessThan), token.loc);
+      }
+      TokenKind::GreaterThan if special_chars => {
+        self.push_node(Inline::SpecialChar(GreaterThan), token.loc);
+      }
+      CalloutNumber if special_chars => {
+        let start = token.loc.clamp_start().incr_end();
+        let end = token.loc.clamp_end().decr_start();
+        self.push_node(Inline::SpecialChar(LessThan), start);
+        self.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
+        self.push_node(Inline::SpecialChar(GreaterThan), end);
+      }
+      _ => self.push_text_token(token),
+    }
+  }
+
   #[inline(always)]
   pub fn push_text_token(&mut self, token: &Token) {
     if self.text.loc.end == token.loc.start {
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 0276379..64309e6 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -432,13 +432,7 @@ impl<'arena> Parser<'arena> {
             acc.push_node(CalloutNum(self.ctx.push_callout(number, is_xml)), loc);
           }
 
-          CalloutNumber if subs.special_chars() => {
-            let start = token.loc.clamp_start().incr_end();
-            let end = token.loc.clamp_end().decr_start();
-            acc.push_node(SpecialChar(SpecialCharKind::LessThan), start);
-            acc.text.push_str(&token.lexeme[1..token.lexeme.len() - 1]);
-            acc.push_node(SpecialChar(SpecialCharKind::GreaterThan), end);
-          }
+          CalloutNumber if subs.special_chars() => acc.push_escaped_token(&token, true),
 
           LessThan if line.continues_xref_shorthand() => {
             let mut loc = token.loc;
@@ -823,6 +817,13 @@ impl<'arena> Parser<'arena> {
           Backslash => {
             match line.current_token().map(|t| (t.kind, t.len())) {
               Some((Word, _)) | None => acc.push_text_token(&token),
+              // substitutions which recognize nothing that could be escaped
+              Some((next, _))
+                if !subs.recognize_escapes()
+                  && !(subs.callouts() && next == CalloutNumber) =>
+              {
+                acc.push_text_token(&token)
+              }
               Some((OpenParens, len))
                 if len > 2 && index_term::terminates(&line, lines).is_some() =>
               {
@@ -838,7 +839,9 @@ impl<'arena> Parser<'arena> {
                 {
                   // pushing the next token as text prevents recognizing the pattern
                   if let Some(next_token) = line.consume_current() {
-                    acc.push_text_token(&next_token);
+                    let arrow = next_token.kind(LessThan)
+                      && line.current_token().is_some_and(|t| matches!(t.lexeme.as_str(), "-" | "="));
+                    acc.push_escaped_token(&next_token, subs.special_chars() && !arrow);
                   }
                 }
               }
-- 
2.43.0


From 59cdb307dbc9c30d67eaf8c994726375f1cbe113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 31/72] fix: source text is escaped wherever it lands in html,
 description and callout lists close what they open

---
 backend-html5s/src/html5s.rs            | 101 ++++++++------
 backend-html5s/src/lib.rs               |   2 +-
 backend/src/html/backend.rs             |  95 +++++++-------
 backend/src/html/htmlbuf.rs             |  21 ++-
 backend/src/html/mod.rs                 |   1 +
 backend/src/html/open_tag.rs            |   8 +-
 backend/src/html/video.rs               |  42 +++---
 dr-html-backend/src/asciidoctor_html.rs | 167 ++++++++++++++----------
 dr-html-backend/src/lib.rs              |   2 +-
 9 files changed, 247 insertions(+), 192 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 7a7495f..c13c0c6 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -16,6 +16,7 @@ pub struct Html5s {
   newlines: Newlines,
   default_newlines: Newlines,
   section_level_stack: Vec<u8>,
+  callout_list_stack: Vec<&'static str>,
   state: BackendState,
 }
 
@@ -59,7 +60,7 @@ impl Backend for Html5s {
       self.open_body(document);
       if let Some(max_width) = document.meta.string("max-width") {
         self.html.pop();
-        self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+        self.push([r#" style="max-width: "#, &esc(&max_width), r#";">"#]);
       }
     }
   }
@@ -112,7 +113,7 @@ impl Backend for Html5s {
     self.push_str("<footer><div id=\"footer-text\">");
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "");
-      self.push([&label, " ", &revnumber]);
+      self.push([&esc(&label), " ", &esc(&revnumber)]);
     }
     // TODO: last-update-label
     self.push_str("</div>");
@@ -148,15 +149,15 @@ impl Backend for Html5s {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<nav id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push([r#"<nav id=""#, &esc(id), r#"" class=""#]);
+    self.push_str(&esc(&self.doc_meta.string_or("toc-class", "toc")));
     self.push_str(r#"" role="doc-toc"#);
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
     let level = self.section_level_stack.last().copied().unwrap_or(0) + 2;
-    self.push([r#""><h"#, &num_str!(level), r#" id=""#, id, r#"-title">"#]);
-    self.push_str(&toc.title);
+    self.push([r#""><h"#, &num_str!(level), r#" id=""#, &esc(id), r#"-title">"#]);
+    self.push_str(&esc(&toc.title));
     self.push([r#"</h"#, &num_str!(level), ">"]);
   }
 
@@ -199,9 +200,9 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push_html_attr("id", id);
     }
-    self.push_str("\">");
+    self.push_ch('>');
     self.push_part_prefix();
   }
 
@@ -327,14 +328,14 @@ impl Backend for Html5s {
       }
       if let Some(highlighter) = self.doc_meta.str("source-highlighter") {
         html.push(' ');
-        html.push_str(highlighter);
+        html.push_str(&esc(highlighter));
       }
       html.push_str("\"><code");
       if let Some(lang) = block.meta.attrs.source_language().or(doc_lang) {
         html.push_str(" class=\"language-");
-        html.push_str(lang);
+        html.push_str(&esc(lang));
         html.push_str("\" data-lang=\"");
-        html.push_str(lang);
+        html.push_str(&esc(lang));
         html.push('"');
       }
       self.state.ephemeral.insert(IsSourceBlock);
@@ -515,12 +516,24 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // reopen the element of the block being annotated
+    let mut close = "";
+    if let Some(el) = ["</div>", "</figure>"].into_iter().find(|el| {
+      let annotated = self.html.strip_suffix(el);
+      annotated.is_some_and(|html| html.ends_with("</pre>"))
+    }) {
+      self.html.truncate(self.html.len() - el.len());
+      close = el;
+    }
+    self.callout_list_stack.push(close);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str("</ol></div>");
+    self.push_str("</ol>");
+    if let Some(close) = self.callout_list_stack.pop() {
+      self.push_str(close);
+    }
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
@@ -994,16 +1007,16 @@ impl Backend for Html5s {
 
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\" aria-hidden=\"true\"></a>"]);
+      self.push(["<a id=\"", &esc(id), "\" aria-hidden=\"true\"></a>"]);
     }
   }
 
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
     self.push([
       "<a id=\"",
-      id,
+      &esc(id),
       "\" aria-hidden=\"true\"></a>[",
-      reftext.unwrap_or(id),
+      &esc(reftext.unwrap_or(id)),
       "]",
     ]);
   }
@@ -1026,7 +1039,7 @@ impl Backend for Html5s {
   }
 
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<kbd class="button"><samp>"#, text, "</samp></kbd>"])
+    self.push([r#"<kbd class="button"><samp>"#, &esc(text), "</samp></kbd>"])
   }
 
   fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
@@ -1044,44 +1057,44 @@ impl Backend for Html5s {
         self.push_str(r#"<b class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_str(&esc(role));
         });
         if let Some(title) = attrs.named("title") {
-          self.push([r#"" title=""#, title]);
+          self.push([r#"" title=""#, &esc(title)]);
         }
         self.push_str(r#"">["#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_str("]</b>");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
         self.push_str(r#" class="icon"#);
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_str(&esc(role));
         });
         self.push_str(r#"">"#);
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_str(&esc(target));
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push([r#" fa-"#, &esc(size)]);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push([r#" fa-flip-"#, &esc(flip)]);
         } else if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push([r#" fa-rotate-"#, &esc(rotate)]);
         }
         attrs.roles.iter().for_each(|role| {
           self.push_str(" ");
-          self.push_str(role);
+          self.push_str(&esc(role));
         });
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1133,13 +1146,13 @@ impl Backend for Html5s {
     }
     if !style.is_empty() {
       self.html.pop();
-      self.push([" style=\"", &style, "\">"]);
+      self.push([" style=\"", &esc(&style), "\">"]);
     }
     if !attrs.roles.is_empty() {
       self.html.pop();
       self.push_str(" class=\"");
       for role in attrs.roles.iter() {
-        self.push_str(&role.src);
+        self.push_str(&esc(&role.src));
         self.push_ch(' ');
       }
       self.html.pop();
@@ -1178,7 +1191,7 @@ impl Backend for Html5s {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd class=\"key\">", key, "</kbd>"]);
+      self.push(["<kbd class=\"key\">", &esc(key), "</kbd>"]);
     }
     if keys.len() > 1 {
       self.push_str("</kbd>");
@@ -1241,11 +1254,11 @@ impl Backend for Html5s {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<kbd class="menuseq"><kbd class="menu"><samp>"#);
-    self.push_str(items.next().unwrap());
+    self.push_str(&esc(items.next().unwrap()));
     self.push_str("</samp></kbd>");
     for item in items {
       self.push_str(r#"&#160;<span class="caret">&#8250;</span>&#32;<kbd class=""#);
-      self.push(["menu\"><samp>", item, "</samp></kbd>"]);
+      self.push(["menu\"><samp>", &esc(item), "</samp></kbd>"]);
     }
     self.push_str("</kbd>");
   }
@@ -1348,14 +1361,14 @@ impl Backend for Html5s {
         false
       };
       let href = if *href == "self" { &img_target.src } else { *href };
-      self.push([r#"" href=""#, href, r#"""#]);
+      self.push([r#"" href=""#, &esc(href), r#"""#]);
       self.append_link_constraint_attrs(img_attrs);
       if self_link {
         let label = self.doc_meta.string_or(
           "html5s-image-self-link-label",
           "Open the image in full size",
         );
-        self.push([r#" title=""#, &label, r#"" aria-label=""#, &label, r#"">"#]);
+        self.push([r#" title=""#, &esc(&label), r#"" aria-label=""#, &esc(&label), r#"">"#]);
       } else {
         self.push_ch('>');
       }
@@ -1379,7 +1392,7 @@ impl Backend for Html5s {
     block: &Block,
   ) {
     if let Some(title) = img_attrs.named("title") {
-      self.render_block_title(title, block, false);
+      self.render_block_title(&esc(title), block, false);
       if block.has_title() {
         self.discard_alt_buffer();
       }
@@ -1496,13 +1509,13 @@ impl Html5s {
       _ => ("", ""),
     };
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push([open, custom_caption, title, close]);
+      self.push([open, &esc(custom_caption), title, close]);
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push([open, &caption, " "]);
+      self.push([open, &esc(&caption), " "]);
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
         BlockContext::Image => incr(&mut self.fig_caption_num),
@@ -1545,14 +1558,14 @@ impl Html5s {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str("\">");
-    self.push_str(&author.fullname());
+    self.push_str(&esc(&author.fullname()));
     self.push_str("</span><br>");
     if let Some(email) = &author.email {
       self.push_str(r#"<span class="email" id="email"#);
       if index > 0 {
         self.push_str(&(index + 1).to_string());
       }
-      self.push(["\"><a href=\"mailto:", email, "\">", email, "</a></span>"]);
+      self.push(["\"><a href=\"mailto:", &esc(email), "\">", &esc(email), "</a></span>"]);
       if index == 0 {
         self.push_str("<br>");
       }
@@ -1571,7 +1584,7 @@ impl Html5s {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push([r#"<span id="revnumber">"#, &esc(&label), " ", &esc(&revnumber)]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span> ");
       } else {
@@ -1581,14 +1594,16 @@ impl Html5s {
     if let Some(revdate) = self.doc_meta.string("revdate") {
       self.push([
         r#"<time id="revdate" datetime=""#,
-        &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
+        &esc(
+          &backend::time::format_date_str(&revdate, "%Y-%m-%d").unwrap_or_else(|| revdate.clone()),
+        ),
         r#"">"#,
-        &revdate,
+        &esc(&revdate),
         "</time>",
       ]);
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push([r#"<br><span id="revremark">"#, &esc(&revremark), "</span>"]);
     }
     self.push_str("</div>");
   }
diff --git a/backend-html5s/src/lib.rs b/backend-html5s/src/lib.rs
index a7c316c..55e596d 100644
--- a/backend-html5s/src/lib.rs
+++ b/backend-html5s/src/lib.rs
@@ -19,7 +19,7 @@ mod internal {
   pub use asciidork_core::*;
   pub use ast::prelude::*;
   pub use backend::html::backend::*;
-  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag};
+  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag, esc};
   pub use backend::prelude::*;
   pub use backend::utils;
 }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index d1a259f..3d24119 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -7,7 +7,7 @@ use asciidork_core::{DocType, JobAttr, Path, SafeMode, file, iff, regx};
 use ast::{AttrValue, ReadAttr, SpecialSection, prelude::*};
 
 use crate::{
-  html::{HtmlBuf, OpenTag},
+  html::{HtmlBuf, OpenTag, esc},
   utils,
 };
 
@@ -43,37 +43,37 @@ pub trait HtmlBackend: HtmlBuf {
   fn open_doc_head(&mut self, meta: &DocumentMeta) {
     self.push_str(r#"<!DOCTYPE html><html"#);
     if !meta.is_true("nolang") {
-      self.push([r#" lang=""#, meta.str_or("lang", "en"), "\""]);
+      self.push([r#" lang=""#, &esc(meta.str_or("lang", "en")), "\""]);
     }
     self.push_str("><head>");
   }
 
   fn meta_tags(&mut self, meta: &DocumentMeta) {
     let encoding = meta.str_or("encoding", "UTF-8");
-    self.push([r#"<meta charset=""#, encoding, r#"">"#]);
+    self.push([r#"<meta charset=""#, &esc(encoding), r#"">"#]);
     self.push_str(r#"<meta http-equiv="X-UA-Compatible" content="IE=edge">"#);
     self.push_str(r#"<meta name="viewport" content="width=device-width, initial-scale=1.0">"#);
     if !meta.is_true("reproducible") {
       self.push_str(r#"<meta name="generator" content="Asciidork">"#);
     }
     if let Some(appname) = meta.str("app-name") {
-      self.push([r#"<meta name="application-name" content=""#, appname, "\">"]);
+      self.push([r#"<meta name="application-name" content=""#, &esc(appname), "\">"]);
     }
     if let Some(desc) = meta.str("description") {
-      self.push([r#"<meta name="description" content=""#, desc, "\">"]);
+      self.push([r#"<meta name="description" content=""#, &esc(desc), "\">"]);
     }
     if let Some(keywords) = meta.str("keywords") {
-      self.push([r#"<meta name="keywords" content=""#, keywords, "\">"]);
+      self.push([r#"<meta name="keywords" content=""#, &esc(keywords), "\">"]);
     }
     if let Some(copyright) = meta.str("copyright") {
-      self.push([r#"<meta name="copyright" content=""#, copyright, "\">"]);
+      self.push([r#"<meta name="copyright" content=""#, &esc(copyright), "\">"]);
     }
   }
 
   fn open_body(&mut self, document: &Document) {
     self.push_str("<body");
     if let Some(custom_id) = document.meta.str("css-signature") {
-      self.push([r#" id=""#, custom_id, "\""]);
+      self.push([r#" id=""#, &esc(custom_id), "\""]);
     }
     self.push([r#" class=""#, document.meta.get_doctype().to_str()]);
     match document.toc.as_ref().map(|toc| &toc.position) {
@@ -124,7 +124,7 @@ pub trait HtmlBackend: HtmlBuf {
     if state.xref_depth == 1 {
       self.push([
         "<a href=\"",
-        &utils::xref::href(target, self.doc_meta(), kind, true),
+        &esc(&utils::xref::href(target, self.doc_meta(), kind, true)),
         "\">",
       ]);
     }
@@ -201,15 +201,15 @@ pub trait HtmlBackend: HtmlBuf {
     if !regx::URI_SNIFF.is_match(target)
       && let Some(imagesdir) = self.doc_meta().string("imagesdir")
     {
-      self.push([&imagesdir, "/"]);
+      self.push([&esc(&imagesdir), "/"]);
     }
-    self.push_str(target);
+    self.push_str(&esc(target));
     let start = attrs.named("start");
     let end = attrs.named("end");
     match (start, end) {
-      (None, Some(end)) => self.push(["#t=,", end, "\""]),
-      (Some(start), None) => self.push(["#t=", start, "\""]),
-      (Some(start), Some(end)) => self.push(["#t=", start, ",", end, "\""]),
+      (None, Some(end)) => self.push(["#t=,", &esc(end), "\""]),
+      (Some(start), None) => self.push(["#t=", &esc(start), "\""]),
+      (Some(start), Some(end)) => self.push(["#t=", &esc(start), ",", &esc(end), "\""]),
       (None, None) => self.push_ch('"'),
     }
     if attrs.has_option("autoplay") {
@@ -226,7 +226,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_icon_uri(&mut self, name: &str, prefix: Option<&str>) {
     self.push_icon_img_path();
-    self.push([prefix.unwrap_or(""), name]);
+    self.push([prefix.unwrap_or(""), &esc(name)]);
     self.push_icon_inferred_img_ext();
   }
 
@@ -236,11 +236,11 @@ pub trait HtmlBackend: HtmlBuf {
     if let Some(iconsdir) = self.doc_meta().str("iconsdir")
       && !iconsdir.is_empty()
     {
-      s.push_str(iconsdir);
+      s.push_str(&esc(iconsdir));
     } else if let Some(imagesdir) = self.doc_meta().str("imagesdir")
       && !imagesdir.is_empty()
     {
-      s.push_str(imagesdir);
+      s.push_str(&esc(imagesdir));
     } else {
       s.push_str("./images/icons")
     }
@@ -255,13 +255,13 @@ pub trait HtmlBackend: HtmlBuf {
     if let Some(icontype) = self.doc_meta().str("icontype")
       && !icontype.is_empty()
     {
-      s.push_str(icontype);
+      s.push_str(&esc(icontype));
     } else if let Some(icons) = self.doc_meta().str("icons")
       && icons != "font"
       && icons != "image"
       && !icons.is_empty()
     {
-      s.push_str(icons);
+      s.push_str(&esc(icons));
     } else {
       s.push_str("png")
     }
@@ -288,10 +288,10 @@ pub trait HtmlBackend: HtmlBuf {
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
         if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-          self.push_str(alt);
+          self.push_str(&esc(alt));
         } else {
           let stem = asciidork_core::file::stem(target);
-          self.push_str(&stem.replace(['_', '-'], " "));
+          self.push_str(&esc(&stem.replace(['_', '-'], " ")));
         }
         self.push_str(r#"</span>"#);
       }
@@ -312,7 +312,7 @@ pub trait HtmlBackend: HtmlBuf {
       self.push_named_or_pos_attr("alt", 0, attrs);
       self.push_ch('>');
     } else if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
-      self.push([r#"<span class="alt">"#, alt, "</span>"]);
+      self.push([r#"<span class="alt">"#, &esc(alt), "</span>"]);
     }
     self.push_str("</object>");
   }
@@ -338,12 +338,12 @@ pub trait HtmlBackend: HtmlBuf {
         .and_then(|t| t.attrs.named("reftext"))
         .unwrap_or_else(|| self.doc_meta().str("doctitle").unwrap_or("[^top]"))
         .to_string();
-      self.push_str(&doctitle);
+      self.push_str(&esc(&doctitle));
     } else if utils::xref::is_interdoc(target, kind) {
       let href = utils::xref::href(target, self.doc_meta(), kind, false);
-      self.push_str(utils::xref::remove_leading_hash(&href));
+      self.push_str(&esc(utils::xref::remove_leading_hash(&href)));
     } else {
-      self.push(["[", target.strip_prefix('#').unwrap_or(target), "]"]);
+      self.push(["[", &esc(target.strip_prefix('#').unwrap_or(target)), "]"]);
     }
   }
 
@@ -373,7 +373,7 @@ pub trait HtmlBackend: HtmlBuf {
     if matches!(scheme, Some(UrlScheme::Mailto)) {
       tag.push_str("mailto:");
     }
-    tag.push_specialchar_escaped(target);
+    tag.push_str(&esc(target));
     tag.push_ch('"');
 
     if let Some(attrs) = attrs {
@@ -421,7 +421,7 @@ pub trait HtmlBackend: HtmlBuf {
     } else {
       OpenTag::new("a", &NoAttrs)
     };
-    a_tag.push([" href=\"mailto:", address]);
+    a_tag.push([" href=\"mailto:", &esc(address)]);
     if let Some(subject) = subject {
       a_tag.push_str("?subject=");
       a_tag.push_url_encoded(subject);
@@ -433,7 +433,7 @@ pub trait HtmlBackend: HtmlBuf {
     a_tag.push_ch('"');
     self.push_open_tag(a_tag);
     if !has_link_text {
-      self.push_str(address);
+      self.push_str(&esc(address));
     }
   }
 
@@ -464,7 +464,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_appendix_caption(&mut self) {
     if let Some(appendix_caption) = self.doc_meta().string("appendix-caption") {
-      self.push([&appendix_caption, " "]);
+      self.push([&esc(&appendix_caption), " "]);
     }
 
     let letter = (self.state().appendix_caption_num + b'A') as char;
@@ -512,7 +512,7 @@ pub trait HtmlBackend: HtmlBuf {
         && self.doc_meta().get_doctype() == DocType::Book
         && let Some(chapter_signifier) = self.doc_meta().string("chapter-signifier")
       {
-        self.push([&chapter_signifier, " "]);
+        self.push([&esc(&chapter_signifier), " "]);
       }
       self.push_section_number_prefix(level);
     }
@@ -550,7 +550,7 @@ pub trait HtmlBackend: HtmlBuf {
       let largest_representable_roman = 3999;
       if part_num <= largest_representable_roman {
         if let Some(part_signifier) = self.doc_meta().string("part-signifier") {
-          self.push([&part_signifier, " "]);
+          self.push([&esc(&part_signifier), " "]);
         }
         let roman = &to_roman_numeral(part_num as u16).unwrap();
         self.push_str(roman);
@@ -561,7 +561,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn push_admonition_block_textlabel(&mut self, kind: AdmonitionKind, block: &Block) {
     if let Some(caption) = block.meta.attrs.named("caption") {
-      self.push_str(caption);
+      self.push_str(&esc(caption));
       return;
     }
 
@@ -572,7 +572,7 @@ pub trait HtmlBackend: HtmlBuf {
     let mut s = String::new();
     self.swapbuf(&mut s);
     if let Some(caption) = self.doc_meta().str(kind.caption_name()) {
-      s.push_str(caption);
+      s.push_str(&esc(caption));
     } else {
       s.push_str(kind.str());
     }
@@ -597,14 +597,14 @@ pub trait HtmlBackend: HtmlBuf {
     block: &Block,
     items: &[ListItem],
   ) {
-    self.push([r#"<ol class=""#, class, "\""]);
+    self.push([r#"<ol class=""#, &esc(class), "\""]);
 
     if list_type != "1" {
       self.push([" type=\"", list_type, "\""]);
     }
 
     if let Some(attr_start) = block.meta.attrs.named("start") {
-      self.push([" start=\"", attr_start, "\""]);
+      self.push([" start=\"", &esc(attr_start), "\""]);
     } else {
       match items[0].marker {
         ListMarker::Digits(1) => {}
@@ -657,14 +657,14 @@ pub trait HtmlBackend: HtmlBuf {
   fn push_enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
     let level_str = crate::num_str!(level + 1);
     if let Some(id) = id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\""]);
+      self.push(["<h", &level_str, r#" id=""#, &esc(id), "\""]);
     } else {
       self.push(["<h", &level_str]);
     }
     self.push_str(r#" class="discrete"#);
     for role in block.meta.attrs.roles() {
       self.push_ch(' ');
-      self.push_str(role);
+      self.push_str(&esc(role));
     }
     self.push_str("\">");
   }
@@ -676,7 +676,7 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_toc_node(&mut self, node: &TocNode) {
     self.push_str("<li><a href=\"#");
     if let Some(id) = &node.id {
-      self.push_str(id);
+      self.push_str(&esc(id));
     }
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
@@ -745,16 +745,16 @@ pub trait HtmlBackend: HtmlBuf {
   fn enter_section_heading(&mut self, section: &Section, accessible: bool) {
     let level_str = crate::num_str!(section.level + 1);
     if let Some(id) = &section.id {
-      self.push(["<h", &level_str, r#" id=""#, id, "\">"]);
+      self.push(["<h", &level_str, r#" id=""#, &esc(id), "\">"]);
       if self.doc_meta().is_true("sectanchors") {
-        self.push([r##"<a class="anchor" href="#"##, id]);
+        self.push([r##"<a class="anchor" href="#"##, &esc(id)]);
         if accessible {
           self.push_str(r#"" aria-hidden="true"#);
         }
         self.push_str("\"></a>");
       }
       if self.doc_meta().is_true("sectlinks") {
-        self.push([r##"<a class="link" href="#"##, id, "\">"]);
+        self.push([r##"<a class="link" href="#"##, &esc(id), "\">"]);
       }
     } else {
       self.push(["<h", &level_str, ">"]);
@@ -783,10 +783,10 @@ pub trait HtmlBackend: HtmlBuf {
   fn render_title(&mut self, document: &Document, attrs: &DocumentMeta) {
     self.push_str(r#"<title>"#);
     if let Some(title) = attrs.str("title") {
-      self.push_str(title);
+      self.push_str(&esc(title));
     } else if let Some(title) = document.title() {
       for s in title.main.plain_text() {
-        self.push_str(s);
+        self.push_str(&esc(s));
       }
     } else {
       self.push_str("Untitled");
@@ -811,8 +811,7 @@ pub trait HtmlBackend: HtmlBuf {
       if index > 0 {
         self.push_str(", ");
       }
-      // TODO: escape/sanitize, w/ tests, see asciidoctor
-      self.push_str(&author.fullname());
+      self.push_str(&esc(&author.fullname()));
     }
     self.push_str(r#"">"#);
   }
@@ -822,7 +821,7 @@ pub trait HtmlBackend: HtmlBuf {
       Some(AttrValue::String(path)) => {
         let ext = crate::utils::file_ext(path).unwrap_or("ico");
         self.push_str(r#"<link rel="icon" type="image/"#);
-        self.push([ext, r#"" href=""#, path, "\">"]);
+        self.push([&esc(ext), r#"" href=""#, &esc(path), "\">"]);
       }
       Some(AttrValue::Bool(true)) => {
         self.push_str(r#"<link rel="icon" type="image/x-icon" href="favicon.ico">"#);
@@ -849,7 +848,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
       backend.push_str("data:image/");
       if let Some(ext) = file::ext(target) {
         let mimetype = iff!(ext == "svg", "svg+xml", ext);
-        backend.push_str(mimetype);
+        backend.push_str(&esc(mimetype));
       } else {
         backend.push_str("application/octet-stream");
       }
@@ -860,7 +859,7 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
     }
     None => {
       if target.starts_with("data:") {
-        backend.push_str(target);
+        backend.push_str(&esc(target));
       } else {
         backend.push_img_path(target);
       }
diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index a484335..701c7e3 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -1,3 +1,5 @@
+use std::borrow::Cow;
+
 use lazy_static::lazy_static;
 use regex::Regex;
 
@@ -87,7 +89,7 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, window]);
+      self.push([r#" target=""#, &esc(window)]);
       if window == "_blank" || attrs.has_option("noopener") {
         self.push_str("\" rel=\"noopener");
       }
@@ -165,7 +167,7 @@ fn push_escaped(src: &str, dest: &mut String, escape_quotes: bool) {
 }
 
 fn push_url_encoded(buf: &mut String, s: &str) {
-  for c in s.chars() {
+  for c in esc(s).chars() {
     match c {
       ' ' => buf.push_str("%20"),
       ',' => buf.push_str("%2C"),
@@ -174,6 +176,21 @@ fn push_url_encoded(buf: &mut String, s: &str) {
   }
 }
 
+/// escape source text for use in html text, or in a (double quoted) html attribute
+pub fn esc(s: &str) -> Cow<'_, str> {
+  if !s.contains(['&', '<', '>', '"']) {
+    return Cow::Borrowed(s);
+  }
+  let mut escaped = String::with_capacity(s.len() + 8);
+  for (idx, part) in s.split('"').enumerate() {
+    if idx > 0 {
+      escaped.push_str("&quot;");
+    }
+    push_escaped(part, &mut escaped, false);
+  }
+  Cow::Owned(escaped)
+}
+
 lazy_static! {
   pub static ref NUMERIC_CHAR_REF: Regex = Regex::new(r"^&#(?:[0-9]+|x[0-9a-fA-F]+);").unwrap();
 }
diff --git a/backend/src/html/mod.rs b/backend/src/html/mod.rs
index d02feaa..b431877 100644
--- a/backend/src/html/mod.rs
+++ b/backend/src/html/mod.rs
@@ -8,4 +8,5 @@ pub mod video;
 
 pub use htmlbuf::AltHtmlBuf;
 pub use htmlbuf::HtmlBuf;
+pub use htmlbuf::esc;
 pub use open_tag::OpenTag;
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 954063d..47d35f8 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -1,4 +1,4 @@
-use crate::html::htmlbuf::HtmlBuf;
+use crate::html::htmlbuf::{HtmlBuf, esc};
 use ast::{AttrValue, DocumentMeta, prelude::*};
 use core::ReadAttr;
 
@@ -49,10 +49,10 @@ impl OpenTag {
     let mut roles = attrs.roles();
     if let Some(first_role) = roles.next() {
       let mut append = String::with_capacity(24);
-      append.push_str(first_role);
+      append.push_str(&esc(first_role));
       for role in roles {
         append.push(' ');
-        append.push_str(role);
+        append.push_str(&esc(role));
       }
       tag.append_classes = Some(append);
     }
@@ -97,7 +97,7 @@ impl OpenTag {
     if let Some(prefix) = prefix {
       self.buf.push_str(prefix);
     }
-    self.buf.push_str(class.as_ref());
+    self.buf.push_str(&esc(class.as_ref()));
   }
 
   pub fn push_resolved_attr_class(
diff --git a/backend/src/html/video.rs b/backend/src/html/video.rs
index 9af92b4..3ee6a48 100644
--- a/backend/src/html/video.rs
+++ b/backend/src/html/video.rs
@@ -1,7 +1,7 @@
 use asciidork_core::{iff, regx};
 use ast::{AttrData, AttrList, ReadAttr};
 
-use crate::html::backend::HtmlBackend;
+use crate::html::{backend::HtmlBackend, esc};
 
 pub(crate) fn element<B: HtmlBackend + ?Sized>(backend: &mut B, target: &str, attrs: &AttrList) {
   let poster = attrs.str_positional_at(0);
@@ -28,26 +28,26 @@ fn service<B: HtmlBackend + ?Sized>(
   if let Some(param) = provider.slash_param()
     && let Some((id, hash)) = target_parts
   {
-    backend.push([id, "?", param, "=", hash]);
+    backend.push([&esc(id), "?", param, "=", &esc(hash)]);
     param_pushed = true;
   } else if provider == Provider::YouTube && target.contains(",") {
     for (index, id) in target.split(",").enumerate() {
       if index == 0 {
-        backend.push([id, "?playlist=", id]);
+        backend.push([&esc(id), "?playlist=", &esc(id)]);
         param_pushed = true;
       } else {
-        backend.push([",", id]);
+        backend.push([",", &esc(id)]);
       }
     }
   } else if provider == Provider::YouTube
     && let Some(playlist) = attrs.named("playlist")
   {
-    backend.push([target, "?playlist=", target, ",", playlist]);
+    backend.push([&esc(target), "?playlist=", &esc(target), ",", &esc(playlist)]);
     param_pushed = true;
   } else {
-    backend.push_str(target);
+    backend.push_str(&esc(target));
     if let Some(hash) = attrs.named("hash") {
-      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", hash]);
+      backend.push([iff!(param_pushed, "&amp;", "?"), "h=", &esc(hash)]);
       param_pushed = true;
     }
   }
@@ -66,9 +66,9 @@ fn service<B: HtmlBackend + ?Sized>(
   // start param (last because vimeo uses # frag not &)
   if let Some(start) = attrs.named("start") {
     match provider {
-      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", start]),
-      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", start]),
-      Provider::Vimeo => backend.push(["#at=", start]),
+      Provider::YouTube => backend.push([iff!(param_pushed, "&amp;", "?"), "start=", &esc(start)]),
+      Provider::Wistia => backend.push([iff!(param_pushed, "&amp;", "?"), "time=", &esc(start)]),
+      Provider::Vimeo => backend.push(["#at=", &esc(start)]),
     }
   }
 
@@ -96,15 +96,15 @@ fn native_element<B: HtmlBackend + ?Sized>(
   if !regx::URI_SNIFF.is_match(target)
     && let Some(ref imagesdir) = imagesdir
   {
-    backend.push([imagesdir, "/"]);
+    backend.push([&esc(imagesdir), "/"]);
   }
-  backend.push_str(target);
+  backend.push_str(&esc(target));
   let start = attrs.named("start");
   let end = attrs.named("end");
   match (start, end) {
-    (None, Some(end)) => backend.push(["#t=,", end, "\""]),
-    (Some(start), None) => backend.push(["#t=", start, "\""]),
-    (Some(start), Some(end)) => backend.push(["#t=", start, ",", end, "\""]),
+    (None, Some(end)) => backend.push(["#t=,", &esc(end), "\""]),
+    (Some(start), None) => backend.push(["#t=", &esc(start), "\""]),
+    (Some(start), Some(end)) => backend.push(["#t=", &esc(start), ",", &esc(end), "\""]),
     (None, None) => backend.push_ch('"'),
   }
   push_dims(backend, attrs);
@@ -112,7 +112,7 @@ fn native_element<B: HtmlBackend + ?Sized>(
     if !regx::URI_SNIFF.is_match(poster)
       && let Some(ref imagesdir) = imagesdir
     {
-      backend.push([" poster=\"", imagesdir, "/", poster, "\""]);
+      backend.push([" poster=\"", &esc(imagesdir), "/", &esc(poster), "\""]);
     } else {
       backend.push_html_attr("poster", poster);
     }
@@ -147,15 +147,15 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
   ]);
   *param_pushed = true;
   if let Some(theme) = attrs.named("theme") {
-    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), theme]);
+    backend.push([iff!(*param_pushed, "&amp;theme=", "?theme="), &esc(theme)]);
     *param_pushed = true;
   }
   if let Some(lang) = attrs.named("lang") {
-    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), lang]);
+    backend.push([iff!(*param_pushed, "&amp;hl=", "?hl="), &esc(lang)]);
     *param_pushed = true;
   }
   if let Some(end) = attrs.named("end") {
-    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), end]);
+    backend.push([iff!(*param_pushed, "&amp;end=", "?end="), &esc(end)]);
     *param_pushed = true;
   }
   if attrs.has_option("nofullscreen") {
@@ -167,10 +167,10 @@ fn more_youtube_params<B: HtmlBackend + ?Sized>(
     *param_pushed = true;
   }
   if let Some(list) = attrs.named("list") {
-    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), list]);
+    backend.push([iff!(*param_pushed, "&amp;list=", "?list="), &esc(list)]);
     *param_pushed = true;
   } else if attrs.has_option("loop") && !target.contains(['/', ',']) {
-    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", target]);
+    backend.push([iff!(*param_pushed, "&amp;", "?"), "playlist=", &esc(target)]);
     *param_pushed = true;
   }
 }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 5e92f64..2c57f74 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -22,9 +22,18 @@ pub struct AsciidoctorHtml {
   table_caption_num: usize,
   example_caption_num: usize,
   listing_caption_num: usize,
+  desc_list_stack: Vec<DescListKind>,
   state: BackendState,
 }
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum DescListKind {
+  Standard,
+  Horizontal,
+  Qanda,
+  Glossary,
+}
+
 impl Backend for AsciidoctorHtml {
   type Output = String;
   type Error = Infallible;
@@ -119,7 +128,7 @@ impl Backend for AsciidoctorHtml {
       self.render_division_start("footer");
       if let Some(rev) = self.doc_meta.string("revnumber") {
         let label = self.doc_meta.string_or("version-label", "");
-        self.push([r#"<div id="footer-text">"#, &label, " ", &rev, "<br></div>"]);
+        self.push([r#"<div id="footer-text">"#, &esc(&label), " ", &esc(&rev), "<br></div>"]);
       }
       // TODO: last-update-label
     }
@@ -159,17 +168,17 @@ impl Backend for AsciidoctorHtml {
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
       .unwrap_or("toc".to_string());
-    self.push([r#"<div id=""#, id, r#"" class=""#]);
-    self.push_str(&self.doc_meta.string_or("toc-class", "toc"));
+    self.push([r#"<div id=""#, &esc(id), r#"" class=""#]);
+    self.push_str(&esc(&self.doc_meta.string_or("toc-class", "toc")));
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
-    self.push([r#""><div id=""#, id, r#"title""#]);
+    self.push([r#""><div id=""#, &esc(id), r#"title""#]);
     if macro_block.is_some() {
       self.push_str(r#" class="title""#);
     }
     self.push_ch('>');
-    self.push_str(&toc.title);
+    self.push_str(&esc(&toc.title));
     self.push_str("</div>");
   }
 
@@ -217,11 +226,11 @@ impl Backend for AsciidoctorHtml {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id, "\""]);
+      self.push([r#" id=""#, &esc(id), "\""]);
     }
     self.push_str(r#" class="sect0"#);
     for role in title.meta.attrs.roles() {
-      self.push([" ", role]);
+      self.push([" ", &esc(role)]);
     }
     self.push_str("\">");
     self.push_part_prefix();
@@ -356,8 +365,10 @@ impl Backend for AsciidoctorHtml {
     if block.meta.attrs.is_source() || doc_lang.is_some() {
       self.push_str(r#" class="highlight"><code"#);
       if let Some(lang) = block.meta.attrs.source_language() {
-        self.push([" class=\"language-", lang, "\" data-lang=\"", lang, "\""]);
+        let lang = esc(lang);
+        self.push([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
       } else if let Some(lang) = doc_lang {
+        let lang = esc(&lang);
         self.push([" class=\"language-", &lang, "\" data-lang=\"", &lang, "\""]);
       }
       self.push_ch('>');
@@ -568,7 +579,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.state.desc_list_depth += 1;
     if block.meta.attrs.has_str_positional("horizontal") {
-      self.state.ephemeral.insert(InHorizontalDescList);
+      self.desc_list_stack.push(DescListKind::Horizontal);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<table>");
@@ -595,16 +606,17 @@ impl Backend for AsciidoctorHtml {
         self.push_str("</colgroup>");
       }
     } else if block.meta.attrs.has_str_positional("qanda") {
-      self.state.ephemeral.insert(InQandaDescList);
+      self.desc_list_stack.push(DescListKind::Qanda);
       self.open_element("div", &["qlist", "qanda"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<ol>");
     } else if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
-      self.state.ephemeral.insert(InGlossaryList);
+      self.desc_list_stack.push(DescListKind::Glossary);
       self.open_element("div", &["dlist", "glossary"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
     } else {
+      self.desc_list_stack.push(DescListKind::Standard);
       self.open_element("div", &["dlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
@@ -613,61 +625,72 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_description_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.ephemeral.remove(&InGlossaryList);
-    if self.state.ephemeral.remove(&InHorizontalDescList) {
-      self.push_str("</table></div>");
-    } else if self.state.ephemeral.remove(&InQandaDescList) {
-      self.push_str("</ol></div>");
-    } else {
-      self.push_str("</dl></div>");
+    match self.desc_list_stack.pop() {
+      Some(DescListKind::Horizontal) => self.push_str("</table></div>"),
+      Some(DescListKind::Qanda) => self.push_str("</ol></div>"),
+      _ => self.push_str("</dl></div>"),
     }
     self.state.desc_list_depth -= 1;
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_term(&mut self, _item: &ListItem, num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InGlossaryList) {
-      self.push_str(r#"<dt>"#);
-    } else if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<tr><td class="hdlist1">"#);
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      if num == 1 {
-        self.push_str(r#"<li>"#);
+    match self.desc_list_stack.last() {
+      Some(DescListKind::Glossary) => self.push_str(r#"<dt>"#),
+      Some(DescListKind::Horizontal) if num == 1 => self.push_str(r#"<tr><td class="hdlist1">"#),
+      Some(DescListKind::Horizontal) => self.push_str("<br>"),
+      Some(DescListKind::Qanda) => {
+        if num == 1 {
+          self.push_str(r#"<li>"#);
+        }
+        self.push_str(r#"<p><em>"#);
       }
-      self.push_str(r#"<p><em>"#);
-    } else {
-      self.push_str(r#"<dt class="hdlist1">"#);
+      _ => self.push_str(r#"<dt class="hdlist1">"#),
     }
   }
 
   #[instrument(skip_all)]
-  fn exit_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str(r#"</em></p>"#);
-    } else {
-      self.push_str("</dt>");
+  fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
+    let missing_description = num == total
+      && item.blocks.is_empty()
+      && !matches!(
+        item.type_meta,
+        ListItemTypeMeta::DescList { description: Some(_), .. }
+      );
+    match self.desc_list_stack.last() {
+      Some(DescListKind::Horizontal) => {
+        if num == total {
+          self.push_str("</td>");
+        }
+        if missing_description {
+          self.push_str(r#"<td class="hdlist2"></td></tr>"#);
+        }
+      }
+      Some(DescListKind::Qanda) => {
+        self.push_str(r#"</em></p>"#);
+        if missing_description {
+          self.push_str("</li>");
+        }
+      }
+      _ => self.push_str("</dt>"),
     }
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<td class="hdlist2">"#);
-    } else if !self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("<dd>");
+    match self.desc_list_stack.last() {
+      Some(DescListKind::Horizontal) => self.push_str(r#"<td class="hdlist2">"#),
+      Some(DescListKind::Qanda) => {}
+      _ => self.push_str("<dd>"),
     }
   }
 
   #[instrument(skip_all)]
   fn exit_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td></tr>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("</li>");
-    } else {
-      self.push_str("</dd>");
+    match self.desc_list_stack.last() {
+      Some(DescListKind::Horizontal) => self.push_str("</td></tr>"),
+      Some(DescListKind::Qanda) => self.push_str("</li>"),
+      _ => self.push_str("</dd>"),
     }
   }
 
@@ -1069,13 +1092,13 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn visit_inline_anchor(&mut self, id: &str) {
     if !self.state.ephemeral.contains(&InTableOfContents) {
-      self.push(["<a id=\"", id, "\"></a>"]);
+      self.push(["<a id=\"", &esc(id), "\"></a>"]);
     }
   }
 
   #[instrument(skip_all)]
   fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
-    self.push(["<a id=\"", id, "\"></a>[", reftext.unwrap_or(id), "]"]);
+    self.push(["<a id=\"", &esc(id), "\"></a>[", &esc(reftext.unwrap_or(id)), "]"]);
   }
 
   #[instrument(skip_all)]
@@ -1109,7 +1132,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_button_macro(&mut self, text: &SourceString) {
-    self.push([r#"<b class="button">"#, text, "</b>"])
+    self.push([r#"<b class="button">"#, &esc(text), "</b>"])
   }
 
   #[instrument(skip_all)]
@@ -1117,7 +1140,7 @@ impl Backend for AsciidoctorHtml {
     self.push_str(r#"<span class="icon"#);
     attrs.roles.iter().for_each(|role| {
       self.push_str(" ");
-      self.push_str(role);
+      self.push_str(&esc(role));
     });
     self.push_str(r#"">"#);
     let has_link = if let Some(link) = attrs.named("link") {
@@ -1132,14 +1155,14 @@ impl Backend for AsciidoctorHtml {
     match self.doc_meta.icon_mode() {
       IconMode::Text => {
         self.push_ch('[');
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_str("&#93;");
       }
       IconMode::Image => {
         self.push_str(r#"<img src=""#);
         self.push_icon_uri(target, None);
         self.push_str(r#"" alt=""#);
-        self.push_str(attrs.named("alt").unwrap_or(target));
+        self.push_str(&esc(attrs.named("alt").unwrap_or(target)));
         self.push_ch('"');
         self.push_named_attr("width", attrs);
         self.push_named_attr("title", attrs);
@@ -1147,15 +1170,15 @@ impl Backend for AsciidoctorHtml {
       }
       IconMode::Font => {
         self.push_str(r#"<i class="fa fa-"#);
-        self.push_str(target);
+        self.push_str(&esc(target));
         if let Some(size) = attrs.named("size").or(attrs.str_positional_at(0)) {
-          self.push([r#" fa-"#, size]);
+          self.push([r#" fa-"#, &esc(size)]);
         }
         if let Some(flip) = attrs.named("flip") {
-          self.push([r#" fa-flip-"#, flip]);
+          self.push([r#" fa-flip-"#, &esc(flip)]);
         }
         if let Some(rotate) = attrs.named("rotate") {
-          self.push([r#" fa-rotate-"#, rotate]);
+          self.push([r#" fa-rotate-"#, &esc(rotate)]);
         }
         self.push_ch('"');
         self.push_named_attr("title", attrs);
@@ -1239,7 +1262,7 @@ impl Backend for AsciidoctorHtml {
       if idx > 0 {
         self.push_ch('+');
       }
-      self.push(["<kbd>", key, "</kbd>"]);
+      self.push(["<kbd>", &esc(key), "</kbd>"]);
     }
     if keys.len() > 1 {
       self.push_str("</span>");
@@ -1307,16 +1330,16 @@ impl Backend for AsciidoctorHtml {
   fn visit_menu_macro(&mut self, items: &[SourceString]) {
     let mut items = items.iter();
     self.push_str(r#"<span class="menuseq"><b class="menu">"#);
-    self.push_str(items.next().unwrap());
+    self.push_str(&esc(items.next().unwrap()));
     self.push_str("</b>");
 
     let last_idx = items.len().saturating_sub(1);
     for (idx, item) in items.enumerate() {
       self.push_str(r#"&#160;<b class="caret">&#8250;</b><b class=""#);
       if idx == last_idx {
-        self.push(["menuitem\">", item, "</b>"]);
+        self.push(["menuitem\">", &esc(item), "</b>"]);
       } else {
-        self.push(["submenu\">", item, "</b>"]);
+        self.push(["submenu\">", &esc(item), "</b>"]);
       }
     }
     self.push_str("</span>");
@@ -1405,7 +1428,7 @@ impl Backend for AsciidoctorHtml {
       let mut a_tag = OpenTag::new("a", &NoAttrs);
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
-      a_tag.push_str(href);
+      a_tag.push_str(&esc(href));
       a_tag.push_ch('"');
       a_tag.opened_classes = false;
       a_tag.push_link_attrs(img_attrs, true, false);
@@ -1428,7 +1451,7 @@ impl Backend for AsciidoctorHtml {
     block: &Block,
   ) {
     if let Some(title) = attrs.named("title") {
-      self.render_block_title(title, block);
+      self.render_block_title(&esc(title), block);
       if block.has_title() {
         self.discard_alt_buffer();
       }
@@ -1483,7 +1506,7 @@ impl Backend for AsciidoctorHtml {
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-      self.push([r#" id="_footnote_"#, id, "\""]);
+      self.push([r#" id="_footnote_"#, &esc(id), "\""]);
     }
     self.push_str(r#">[<a id="_footnoteref_"#);
     self.push([&nums, r##"" class="footnote" href="#_footnotedef_"##, &nums]);
@@ -1568,13 +1591,13 @@ impl AsciidoctorHtml {
       self.push_str(r#"<div class="title">"#);
     }
     if let Some(custom_caption) = block.meta.attrs.named("caption") {
-      self.push_str(custom_caption);
+      self.push_str(&esc(custom_caption));
     } else if let Some(caption) = block
       .context
       .caption_attr_name()
       .and_then(|attr_name| self.doc_meta.string(attr_name))
     {
-      self.push_str(&caption);
+      self.push_str(&esc(&caption));
       self.push_ch(' ');
       let num = match block.context {
         BlockContext::Table => incr(&mut self.table_caption_num),
@@ -1626,7 +1649,7 @@ impl AsciidoctorHtml {
       };
       self.push([
         r#"<link rel="stylesheet" href="https://fonts.googleapis.com/css?family="#,
-        family,
+        &esc(family),
         "\" />",
       ]);
     }
@@ -1663,7 +1686,7 @@ impl AsciidoctorHtml {
   fn render_division_start(&mut self, id: &str) {
     self.push([r#"<div id=""#, id, "\""]);
     if let Some(max_width) = self.doc_meta.string("max-width") {
-      self.push([r#" style="max-width: "#, &max_width, r#";">"#]);
+      self.push([r#" style="max-width: "#, &esc(&max_width), r#";">"#]);
     } else {
       self.push_str(">");
     }
@@ -1687,7 +1710,7 @@ impl AsciidoctorHtml {
 
     if let Some(revnumber) = self.doc_meta.string("revnumber") {
       let label = self.doc_meta.string_or("version-label", "").to_lowercase();
-      self.push([r#"<span id="revnumber">"#, &label, " ", &revnumber]);
+      self.push([r#"<span id="revnumber">"#, &esc(&label), " ", &esc(&revnumber)]);
       if self.doc_meta.get("revdate").is_some() {
         self.push_str(",</span>");
       } else {
@@ -1695,10 +1718,10 @@ impl AsciidoctorHtml {
       }
     }
     if let Some(revdate) = self.doc_meta.string("revdate") {
-      self.push([r#"<span id="revdate">"#, &revdate, "</span>"]);
+      self.push([r#"<span id="revdate">"#, &esc(&revdate), "</span>"]);
     }
     if let Some(revremark) = self.doc_meta.string("revremark") {
-      self.push([r#"<br><span id="revremark">"#, &revremark, "</span>"]);
+      self.push([r#"<br><span id="revremark">"#, &esc(&revremark), "</span>"]);
     }
     self.push_str("</div>");
   }
@@ -1709,7 +1732,7 @@ impl AsciidoctorHtml {
       self.push_str(&(index + 1).to_string());
     }
     self.push_str(r#"" class="author">"#);
-    self.push_str(&author.fullname());
+    self.push_str(&esc(&author.fullname()));
     self.push_str("</span><br>");
 
     if let Some(email) = &author.email {
@@ -1718,9 +1741,9 @@ impl AsciidoctorHtml {
         self.push_str(&(index + 1).to_string());
       }
       self.push_str(r#"" class="email"><a href="mailto:"#);
-      self.push_str(email);
+      self.push_str(&esc(email));
       self.push_str(r#"">"#);
-      self.push_str(email);
+      self.push_str(&esc(email));
       self.push_str("</a></span><br>");
     }
   }
diff --git a/dr-html-backend/src/lib.rs b/dr-html-backend/src/lib.rs
index 391542b..99db60c 100644
--- a/dr-html-backend/src/lib.rs
+++ b/dr-html-backend/src/lib.rs
@@ -24,7 +24,7 @@ mod internal {
   pub use asciidork_core::*;
   pub use ast::prelude::*;
   pub use backend::html::backend::*;
-  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag};
+  pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag, esc};
   pub use backend::prelude::*;
   pub use backend::utils;
 }
-- 
2.43.0


From dbe315cd1a882d17062eb16f13ce2e8399509f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 32/72] fix: macros, line breaks and character references are
 not substituted in verbatim content

---
 parser/src/tasks/parse_inlines/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 64309e6..c89f417 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -434,7 +434,7 @@ impl<'arena> Parser<'arena> {
 
           CalloutNumber if subs.special_chars() => acc.push_escaped_token(&token, true),
 
-          LessThan if line.continues_xref_shorthand() => {
+          LessThan if subs.macros() && line.continues_xref_shorthand() => {
             let mut loc = token.loc;
             line.discard_assert(LessThan);
             let mut inner = line.extract_line_before(&[Kind(GreaterThan), Kind(GreaterThan)]);
@@ -557,7 +557,8 @@ impl<'arena> Parser<'arena> {
           }
 
           OpenBracket
-            if line.starts_with_seq(&[Kind(OpenBracket); 2])
+            if subs.macros()
+              && line.starts_with_seq(&[Kind(OpenBracket); 2])
               && self.ctx.bibliography_ctx == BiblioContext::List
               && line.contains_seq(&[Kind(CloseBracket); 3]) =>
           {
@@ -581,7 +582,7 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
-          OpenBracket if line.continues_inline_anchor() => {
+          OpenBracket if subs.macros() && line.continues_inline_anchor() => {
             let second_bracket = line.consume_current().unwrap();
             if let Some(anchor) = self.parse_inline_anchor(&mut line)? {
               self.insert_anchor(
@@ -757,7 +758,10 @@ impl<'arena> Parser<'arena> {
           }
 
           // already encoded entities, eg: &#8212;
-          Ampersand if line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) => {
+          Ampersand
+            if subs.char_replacement()
+              && line.starts_with_seq(&[Kind(Hash), Kind(Digits), Kind(SemiColon)]) =>
+          {
             acc.push_text_token(&token);
           }
 
@@ -790,7 +794,8 @@ impl<'arena> Parser<'arena> {
           }
 
           Whitespace
-            if line.current_is(Plus)
+            if subs.post_replacement()
+              && line.current_is(Plus)
               && line
                 .peek_token()
                 .is_none_or(|t| t.kind == TokenKind::Newline) =>
-- 
2.43.0


From ea9ea15961210bb4ef93ddad8c07ed5362dddef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 33/72] fix: what follows an invalid link macro target is still
 substituted

---
 parser/src/tasks/parse_inlines/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c89f417..0407eda 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -236,8 +236,9 @@ impl<'arena> Parser<'arena> {
                 if !line.no_whitespace_until(OpenBracket) {
                   // turns out we didn't have a valid uri target here
                   acc.push_text_token(&token);
-                  let next_token = line.consume_current().unwrap();
-                  acc.push_text_token(&next_token);
+                  if let Some(next_token) = line.consume_if(UriScheme) {
+                    acc.push_text_token(&next_token);
+                  }
                 } else {
                   let target = self
                     .macro_target_from_passthru(&mut line)
-- 
2.43.0


From 5e898d0ce6ef3bfbc20f0cb602ed44f8db4218fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 34/72] fix: entities of verbatim content are text, keys of the
 kbd macro may contain spaces

---
 core/src/regx.rs                      |  5 ---
 parser/src/tasks/parse_inlines/mod.rs | 51 ++++++++++++++++++---------
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 2bc4a5b..6f674ec 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -44,11 +44,6 @@ lazy_static! {
   pub static ref REPEAT_STAR_LI_START: Regex = Regex::new(r#"^\s?(\*+)( |\t)+.+"#).unwrap();
 }
 
-// keyboard macro
-lazy_static! {
-  pub static ref KBD_MACRO_KEYS: Regex = Regex::new(r"(?:\s*([^\s,+]+|[,+])\s*)").unwrap();
-}
-
 // image
 lazy_static! {
   pub static ref SVG_TARGET: Regex = Regex::new(r"(?i)\.svg(\[|\?|$)").unwrap();
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 0407eda..5bf8883 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -766,6 +766,15 @@ impl<'arena> Parser<'arena> {
             acc.push_text_token(&token);
           }
 
+          Entity if subs.special_chars() && !subs.char_replacement() => {
+            let mut rest = token.clone();
+            rest.drop_leading_bytes(1);
+            let mut ampersand = token.loc;
+            ampersand.end = rest.loc.start;
+            acc.push_node(SpecialChar(SpecialCharKind::Ampersand), ampersand);
+            acc.push_text_token(&rest);
+          }
+
           Ampersand | LessThan | GreaterThan if subs.special_chars() => {
             acc.push_node(
               SpecialChar(match token.kind {
@@ -1061,31 +1070,41 @@ impl<'arena> Parser<'arena> {
     let open_bracket = line.consume_current().unwrap();
     let mut keys_src_loc = open_bracket.loc.incr();
     let mut keys_src_str = BumpString::new_in(self.bump);
-    let mut last_kind = None;
-    loop {
-      let Some(peek) = line.current_token() else {
+    while let Some(peek) = line.current_token() {
+      if peek.kind(CloseBracket) {
         break;
-      };
-      match (last_kind, peek.kind) {
-        (_, AttrRef) | (Some(_), Backslash) => {
-          last_kind = Some(line.consume_current().unwrap().kind);
-        }
-        (_, CloseBracket) if last_kind.is_none_or(|k| k != Backslash) => break,
-        _ => {
-          let token = line.consume_current().unwrap();
-          last_kind = Some(token.kind);
+      }
+      let token = line.consume_current().unwrap();
+      let closes_later = || line.iter().skip(1).any(|t| t.kind(CloseBracket));
+      if token.kind(Backslash) && line.current_is(CloseBracket) && closes_later() {
+        let bracket = line.consume_current().unwrap();
+        keys_src_str.push_str(&bracket.lexeme);
+        keys_src_loc.extend(bracket.loc);
+      } else {
+        if !token.kind(AttrRef) {
           keys_src_str.push_str(&token.lexeme);
-          keys_src_loc.extend(token.loc);
         }
+        keys_src_loc.extend(token.loc);
       }
     }
     let keys_src = SourceString::new(keys_src_str, keys_src_loc);
     line.discard_assert(CloseBracket);
     macro_loc.end = keys_src.loc.end + 1;
     let mut keys = BumpVec::new_in(self.bump);
-    for captures in regx::KBD_MACRO_KEYS.captures_iter(&keys_src).step_by(2) {
-      let key = captures.get(1).unwrap().as_str();
-      keys.push(self.string(key));
+    let trimmed = keys_src.trim();
+    let mut delimiter = trimmed.char_indices().skip(1).map(|(_, c)| c);
+    match delimiter.find(|c| matches!(c, ',' | '+')) {
+      // a trailing delimiter is the last key itself, e.g. `Ctrl++`
+      Some(delim) if trimmed.ends_with(delim) => {
+        let (init, _) = trimmed.rsplit_once(delim).unwrap();
+        let last = init.rfind(delim).map_or(0, |idx| idx + 1);
+        if last > 0 {
+          keys.extend(init[..last - 1].split(delim).map(|key| self.string(key.trim())));
+        }
+        keys.push(self.string(format!("{}{delim}", &init[last..]).trim()));
+      }
+      Some(delim) => keys.extend(trimmed.split(delim).map(|key| self.string(key.trim()))),
+      None => keys.push(self.string(trimmed)),
     }
     Macro(Keyboard { keys, keys_src })
   }
-- 
2.43.0


From fdeaf53347eef40d921c0f221ab35a97b7f7c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 35/72] fix: html5s attributes of inline images go to the
 opening tag

---
 backend-html5s/src/html5s.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index c13c0c6..ac5a38f 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1128,6 +1128,7 @@ impl Backend for Html5s {
       false
     };
 
+    let start = self.html.len();
     self.render_image(target, attrs, kind, false);
     let mut style = String::new();
     if let Some(align) = attrs.named("align") {
@@ -1144,23 +1145,25 @@ impl Backend for Html5s {
       style.push_str(float);
       style.push(';');
     }
+    let mut extra = String::new();
     if !style.is_empty() {
-      self.html.pop();
-      self.push([" style=\"", &esc(&style), "\">"]);
+      extra.push_str(&format!(" style=\"{}\"", esc(&style)));
     }
     if !attrs.roles.is_empty() {
-      self.html.pop();
-      self.push_str(" class=\"");
-      for role in attrs.roles.iter() {
-        self.push_str(&esc(&role.src));
-        self.push_ch(' ');
-      }
-      self.html.pop();
-      self.push_str("\">");
+      let roles: Vec<_> = attrs.roles.iter().map(|role| esc(&role.src)).collect();
+      extra.push_str(&format!(" class=\"{}\"", roles.join(" ")));
     }
     if attrs.named("loading") == Some("lazy") {
-      self.html.pop();
-      self.push_str(r#" loading="lazy">"#);
+      extra.push_str(" loading=\"lazy\"");
+    }
+    if extra.is_empty() {
+      // nothing to add
+    } else if matches!(kind, ImageKind::InlineSvg(_)) {
+      self.html.insert_str(start, &format!("<span{extra}>"));
+      self.push_str("</span>");
+    } else if let Some(idx) = self.html[start..].find('>') {
+      // the element's opening tag, attribute values contain no `>`
+      self.html.insert_str(start + idx, &extra);
     }
     if with_link {
       self.push_str("</a>");
-- 
2.43.0


From dced28e933bca764538b508dab73f80e0da27c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:22 +0000
Subject: [PATCH 36/72] fix: bare urls may contain ports, queries and parens,
 and leave trailing punctuation and closing marks to the text

---
 parser/src/line.rs                    | 22 ++++++++++++++++------
 parser/src/tasks/parse_inlines/mod.rs |  8 ++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index cb557a4..edecb82 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -692,6 +692,7 @@ impl<'arena> Line<'arena> {
     &mut self,
     start: Option<&Token>,
     stop: Option<TokenKind>,
+    closing: &[TokenSpec],
     bump: &'arena Bump,
   ) -> SourceString<'arena> {
     let mut loc = start.map_or_else(|| self.first_loc().unwrap(), |t| t.loc);
@@ -702,15 +703,24 @@ impl<'arena> Line<'arena> {
     } else {
       for token in self.iter() {
         match token.kind {
-          Whitespace | GreaterThan | OpenBracket | OpenParens | CloseParens | Bang | SemiColon
-          | Colon | Star | QuestionMark => break,
+          Whitespace | Newline | LessThan | GreaterThan | OpenBracket | CloseBracket | Star => break,
+          _ if !closing.is_empty() && self.has_seq_at(closing, num_tokens as u32) => break,
           _ => num_tokens += 1,
         }
       }
-    }
-
-    if stop.is_none() && num_tokens > 0 && self.tokens.get(num_tokens - 1).kind(Dots) {
-      num_tokens -= 1;
+      // punctuation at the end belongs to the text
+      let end_is = |n: usize, kinds: &[TokenKind]| {
+        n > 0 && self.tokens.get(n - 1).is_some_and(|t| kinds.contains(&t.kind))
+      };
+      while end_is(num_tokens, &[Dots, Comma, QuestionMark, Bang, CloseParens]) {
+        num_tokens -= 1;
+      }
+      if end_is(num_tokens, &[Colon, SemiColon, TermDelimiter]) {
+        num_tokens -= 1;
+        if end_is(num_tokens, &[CloseParens]) {
+          num_tokens -= 1;
+        }
+      }
     }
 
     let mut s = BumpString::new_in(bump);
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 5bf8883..2a202e9 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -470,7 +470,7 @@ impl<'arena> Parser<'arena> {
             let scheme_token = line.consume_current().unwrap();
             let mut loc = scheme_token.loc;
             let line_end = line.last_loc().unwrap();
-            let target = line.consume_url(Some(&scheme_token), Some(GreaterThan), self.bump);
+            let target = line.consume_url(Some(&scheme_token), Some(GreaterThan), &[], self.bump);
             if target.src == scheme_token.lexeme {
               // turns out we don't have a valid uri here, backtrack
               acc.pop_node();
@@ -868,8 +868,8 @@ impl<'arena> Parser<'arena> {
             && self.ctx.inline_ctx != InlineCtx::LinkMacroAttrs =>
           {
             let mut loc = token.loc;
-            let line_end = line.last_loc().unwrap();
-            let target = line.consume_url(Some(&token), None, self.bump);
+            let line_end = line.last_loc().unwrap_or(token.loc);
+            let target = line.consume_url(Some(&token), None, stop_tokens, self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
             } else {
@@ -940,7 +940,7 @@ impl<'arena> Parser<'arena> {
     let mut macro_loc = token.loc;
     let line_end = line.last_loc().unwrap();
     acc.commit();
-    let target = line.consume_url(Some(token), Some(OpenBracket), self.bump);
+    let target = line.consume_url(Some(token), Some(OpenBracket), &[], self.bump);
     line.discard_assert(OpenBracket);
     let line_has_caret = line.contains(Caret);
     let mut attrs = self.parse_link_macro_attr_list(line)?;
-- 
2.43.0


From fca3c7227b28a639a77f40d27b1ffef1bc56ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 37/72] fix: the target of a link ends at the first space

---
 parser/src/line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index edecb82..c749d6e 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -493,7 +493,9 @@ impl<'arena> Line<'arena> {
     let Some(end_idx) = self.index_of_seq(&[Not(Backslash), Kind(CloseBracket)]) else {
       return false;
     };
-    if end_idx < open_idx {
+    // the target of a link has no spaces
+    let is_link = prev.kind(UriScheme) || matches!(prev.lexeme.as_str(), "link:" | "mailto:");
+    if end_idx < open_idx || (is_link && !self.no_whitespace_until(OpenBracket)) {
       false
     } else {
       !self.current_is(Colon) || prev.lexeme.as_str() == "xref:"
-- 
2.43.0


From 073bf0b422aa9bd1962db757a38e2020dca96423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 38/72] fix: nofollow of a link that opens in a named window
 does not end up in its target

---
 backend/src/html/htmlbuf.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index 701c7e3..50ffc0e 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -89,13 +89,12 @@ pub trait HtmlBuf {
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
     if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, &esc(window)]);
+      self.push([r#" target=""#, &esc(window), "\""]);
       if window == "_blank" || attrs.has_option("noopener") {
-        self.push_str("\" rel=\"noopener");
-      }
-      if attrs.has_option("nofollow") {
-        self.push_str(" nofollow\"");
-      } else {
+        self.push_str(" rel=\"noopener");
+        if attrs.has_option("nofollow") {
+          self.push_str(" nofollow");
+        }
         self.push_ch('"');
       }
     } else if attrs.has_option("nofollow") {
-- 
2.43.0


From 5c216f1ca682e1f0dcc8b2a9ba133f241cb44425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 39/72] fix: a link text of just a caret leaves the target as
 the text

---
 parser/src/tasks/parse_inlines/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 2a202e9..9dbbc54 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1132,6 +1132,7 @@ fn link_macro_blank_window_shorthand(attr_list: &mut AttrList) -> bool {
   let Some(mut nodes) = attr_list.take_positional(0) else {
     return false;
   };
+  let is_single = nodes.len() == 1;
   let Some(node) = nodes.last_mut() else {
     attr_list.positional[0] = Some(nodes);
     return false;
@@ -1141,6 +1142,11 @@ fn link_macro_blank_window_shorthand(attr_list: &mut AttrList) -> bool {
   {
     let mut shortened = text.clone();
     shortened.pop();
+    if shortened.is_empty() && is_single {
+      // no text but the caret, the target is the text
+      attr_list.positional[0] = None;
+      return true;
+    }
     node.content = Inline::Text(shortened);
     node.loc.end -= 1;
     attr_list.positional[0] = Some(nodes);
-- 
2.43.0


From bf5ea9ab58936f2b956ee4cd1c09549e1c34e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 40/72] fix: emails may end a sentence and contain digits,
 percent signs, hyphens and capitals

---
 core/src/regx.rs                 |  2 +-
 parser/src/lexer/source_lexer.rs | 44 +++++++++++++++-
 parser/src/line.rs               | 90 ++++++++++++--------------------
 3 files changed, 76 insertions(+), 60 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 6f674ec..90eb0c0 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -10,7 +10,7 @@ lazy_static! {
 // email
 lazy_static! {
   pub static ref EMAIL_RE: Regex = Regex::new(
-    r"^([a-z0-9_+]([a-z0-9_+.]*[a-z0-9_+])?)@([a-z0-9]+([\-\.]{1}[a-z0-9]+)*\.[a-z]{2,6})"
+    r"^\w[\w.%+-]*@[A-Za-z0-9][A-Za-z0-9_.-]*\.[A-Za-z]{2,5}$"
   )
   .unwrap();
 }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index b02631a..5e7864a 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -319,6 +319,21 @@ impl<'arena> SourceLexer<'arena> {
 
   fn word(&mut self) -> Token<'arena> {
     let start = self.pos - 1;
+    // the local part of an email may end with (or be) some other token, like `a.1@b.org`
+    let ends_local_part = self.src[start as usize] == b'@'
+      && start > 0
+      && is_email_local_byte(self.src[start as usize - 1]);
+    if ends_local_part {
+      let tail = &self.src[self.pos as usize..];
+      let is_domain_byte = |c: &u8| c.is_ascii_alphanumeric() || b"._-".contains(c);
+      let domain_len = tail.iter().take_while(|c| is_domain_byte(c)).count();
+      if tail.get(domain_len) != Some(&b'@')
+        && let Some(len) = email_domain_len(&tail[..domain_len])
+      {
+        self.pos += len as u32;
+        return self.token(MaybeEmail, start, self.pos);
+      }
+    }
     let end = self.advance_to_word_boundary(true);
     // PERF: if i feel clear about the safety of how i move across
     // bytes and word boundaries, i could change all of these to get_unchecked
@@ -366,8 +381,11 @@ impl<'arena> SourceLexer<'arena> {
         let domain_end = self
           .advance_while_with(|c| c.is_ascii_alphanumeric() || c == b'.' || c == b'-' || c == b'_');
         let domain = &self.src[end as usize + 1..domain_end as usize];
-        if domain.len() > 3 && domain.contains(&b'.') && !self.peek_is(b'@') {
-          return self.token(MaybeEmail, start, domain_end);
+        if !self.peek_is(b'@')
+          && let Some(len) = email_domain_len(domain)
+        {
+          self.reverse_by((domain.len() - len) as u32);
+          return self.token(MaybeEmail, start, end + 1 + len as u32);
         }
         self.reverse_by(domain.len() as u32);
         let end = self.advance_to_word_boundary(false);
@@ -708,6 +726,28 @@ impl<'a> Iterator for LinesIter<'a> {
 /// root lexer will set the actual depth
 const TMP_DEPTH: u16 = 0;
 
+const fn is_email_local_byte(c: u8) -> bool {
+  c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'%' | b'+' | b'-')
+}
+
+/// length of the domain at the start of `src`, which ends with a tld of 2-5 letters
+fn email_domain_len(src: &[u8]) -> Option<usize> {
+  if !src.first().is_some_and(u8::is_ascii_alphanumeric) {
+    return None;
+  }
+  let dots = (1..src.len()).rev().filter(|idx| src[*idx] == b'.');
+  dots
+    .map(|dot| {
+      let tld = &src[dot + 1..];
+      (dot, tld.iter().take_while(|c| c.is_ascii_alphabetic()).count())
+    })
+    .find(|(dot, len)| {
+      let next = src.get(dot + 1 + len);
+      (2..=5).contains(len) && !next.is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_')
+    })
+    .map(|(dot, len)| dot + 1 + len)
+}
+
 #[cfg(test)]
 mod tests {
   use super::*;
diff --git a/parser/src/line.rs b/parser/src/line.rs
index c749d6e..ab7b354 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -76,72 +76,48 @@ impl<'arena> Line<'arena> {
   }
 
   fn finalize_email(&mut self, mut token: Token<'arena>) {
-    if self.tokens.is_empty() {
-      if regx::EMAIL_RE.is_match(&token.lexeme) {
-        token.kind = Email;
-      } else {
-        token.kind = Word;
-      }
-      self.tokens.push(token);
-      self.orig_len += 1;
-      return;
-    }
-
-    let init_idx = self.tokens.len() - 1;
-    let mut idx = init_idx;
-    while idx > 0 {
-      let Some(prev_token) = self.tokens.get(idx) else {
-        break;
-      };
-      match prev_token.kind {
-        Dots if prev_token.len() > 1 => break,
-        Word | Digits | Dots | Underscore | Plus => {
-          idx -= 1;
-        }
-        _ => break,
-      }
-    }
-
-    if idx == init_idx {
-      if regx::EMAIL_RE.is_match(&token.lexeme) {
-        token.kind = Email;
-      } else {
-        token.kind = Word;
-      }
-      self.tokens.push(token);
-      self.orig_len += 1;
-      return;
+    // the local part may consist of several tokens
+    let is_local_part = |t: &Token| {
+      matches!(t.kind, Word | Digits | Dots | Underscore | Plus | Percent | Dashes)
+        && t.loc.include_depth == token.loc.include_depth
+        && !t.lexeme.contains('@')
+    };
+    let mut start = self.tokens.len();
+    while start > 0 && self.tokens.get(start - 1).is_some_and(is_local_part) {
+      start -= 1;
     }
-
-    let mut end_idx = idx;
-    if !matches!(
-      self.tokens.get(end_idx).unwrap().kind,
-      Word | Digits | Dots | Underscore | Plus
-    ) {
-      end_idx += 1;
+    while self
+      .tokens
+      .get(start)
+      .is_some_and(|t| !matches!(t.kind, Word | Digits | Underscore))
+    {
+      start += 1;
     }
-    let start = self.tokens.get(end_idx).unwrap().loc.start;
-    let mut maybe_email = String::with_capacity((token.loc.end - start) as usize);
-    for t in self.tokens.iter().skip(end_idx) {
+    let mut maybe_email = String::with_capacity(32);
+    for t in self.tokens.iter().skip(start) {
       maybe_email.push_str(&t.lexeme);
     }
     maybe_email.push_str(&token.lexeme);
 
-    if !regx::EMAIL_RE.is_match(&maybe_email) {
+    let follows = |kinds: &[TokenKind]| {
+      start > 0 && self.tokens.get(start - 1).is_some_and(|t| kinds.contains(&t.kind))
+    };
+    if follows(&[Colon, ForwardSlashes, GreaterThan, MacroName, UriScheme, TermDelimiter])
+      || !regx::EMAIL_RE.is_match(&maybe_email)
+    {
       token.kind = Word;
-      self.tokens.push(token);
-      self.orig_len += 1;
+      self.push_nonpass(token);
       return;
     }
-
-    let start_token = self.tokens.get_mut(end_idx).unwrap();
-    start_token.lexeme.clear();
-    start_token.loc.end = token.loc.end;
-    start_token.lexeme.push_str(&maybe_email);
-    start_token.kind = Email;
-
-    self.tokens.truncate(end_idx + 1);
-    self.orig_len = (end_idx + 1) as u32;
+    token.kind = Email;
+    if let Some(first) = self.tokens.get(start) {
+      token.loc.start = first.loc.start;
+      token.lexeme.clear();
+      token.lexeme.push_str(&maybe_email);
+      self.tokens.truncate(start);
+      self.orig_len = start as u32;
+    }
+    self.push_nonpass(token);
   }
 
   pub fn push_nonpass(&mut self, token: Token<'arena>) {
-- 
2.43.0


From 5c48af265595d940f7b7387add52b36d4dad794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 41/72] fix: an escaped bracket does not end the attributes of
 a macro

---
 parser/src/tasks/parse_attr_list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 1a2990d..d57c5e8 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -391,6 +391,7 @@ impl<'arena> Parser<'arena> {
     let mut double_start_len: Option<usize> = None;
     let mut single_start_len: Option<usize> = None;
     let mut num_tokens = 0;
+    let mut last_kind = TokenKind::Eof;
     for token in line.iter().take(line.len() - 1) {
       num_tokens += 1;
       match (token.kind, double_start_len, single_start_len) {
@@ -418,9 +419,10 @@ impl<'arena> Parser<'arena> {
           delimiters.push(num_tokens - 1);
           num_tokens = 0;
         }
-        (CloseBracket, _, _) => break,
+        (CloseBracket, _, _) if last_kind != Backslash => break,
         _ => {}
       }
+      last_kind = token.kind;
     }
     delimiters
   }
-- 
2.43.0


From 2b915ba4165501aebf1df8a25c7caaff35d8026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 42/72] fix: an include target whose scheme comes from an
 attribute reference is a URI

---
 parser/src/tasks/directives/includes/process_includes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3c79416..81a6535 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -157,7 +157,9 @@ impl<'arena> Parser<'arena> {
       let has_spaces = target.contains(' ');
       let target = self.string(target);
       let first_token = line.consume_current().unwrap();
-      let target_is_uri = line.current_token().kind(TokenKind::UriScheme);
+      // the scheme might also come from an attribute reference
+      let target_is_uri =
+        line.current_token().kind(TokenKind::UriScheme) || Path::new(target.as_str()).is_uri();
       let num_target_tokens = line.first_nonescaped(TokenKind::OpenBracket).unwrap().1;
       line.discard(num_target_tokens + 1); // including open bracket
       Ok(Some(IncludeDirective {
-- 
2.43.0


From 19375a1c819a37f74cdf8794e6503794701cd52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 43/72] fix: an absolute include target does not depend on the
 including source

---
 parser/src/tasks/directives/includes/target.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/parser/src/tasks/directives/includes/target.rs b/parser/src/tasks/directives/includes/target.rs
index 39c577d..efec801 100644
--- a/parser/src/tasks/directives/includes/target.rs
+++ b/parser/src/tasks/directives/includes/target.rs
@@ -21,15 +21,13 @@ pub fn prepare(
     let abspath = base_dir.join(target);
     return Ok(Target::FilePath(abspath.to_string()));
   }
+  if target.is_absolute() {
+    return Ok(target.into());
+  }
   match src_file {
     Src::Path(src) => {
-      let abspath = if target.is_relative() {
-        let dir = Path::new(src.dirname());
-        dir.join(target)
-      } else {
-        target
-      };
-      Ok(abspath.into())
+      let dir = Path::new(src.dirname());
+      Ok(dir.join(target).into())
     }
     Src::Stdin { .. } => unimplemented!("include from stdin not implemented yet"),
     Src::Tmp => unreachable!(),
-- 
2.43.0


From 1d577b5526f8a88df8767d3fd2afae3bb94aac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 44/72] fix: invalid cross references are reported in document
 order

---
 parser/src/tasks/diagnose_document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..cc57b83 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -11,7 +11,10 @@ impl Parser<'_> {
     if self.ctx.table_cell_ctx != TableCellContext::None {
       return Ok(());
     }
-    for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
+    let xrefs = self.ctx.xrefs.borrow();
+    let mut xrefs: Vec<_> = xrefs.iter().collect();
+    xrefs.sort_by_key(|(target, loc)| (loc.include_depth, loc.start, (*target).clone()));
+    for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
-- 
2.43.0


From 3cfa725c40a620d7e37eb17c6fe1651872d7ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 45/72] fix: a reference to an attribute that is set to nothing
 is replaced with nothing

---
 parser/src/tasks/attr_refs.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index b73c234..64613ec 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -76,6 +76,14 @@ impl<'arena> Parser<'arena> {
           line.push(token);
           self.ctx.replacing_attr = true;
         }
+        // set, but empty
+        Some(AttrValue::Bool(true)) => {
+          #[cfg(feature = "attr_ref_observation")]
+          if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
+            observer.attr_ref_replaced(token.attr_name(), token.loc);
+          }
+          line.push(token);
+        }
         _ => {
           #[cfg(feature = "attr_ref_observation")]
           if let Some(ref mut observer) = self.attr_ref_observer.as_mut() {
-- 
2.43.0


From 2426e8b5494c725864c3ca21cbcaed8bc3dd9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 46/72] fix: the token after an attribute without text is not
 part of its replacement

---
 parser/src/tasks/attr_refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 64613ec..50acb85 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -72,9 +72,9 @@ impl<'arena> Parser<'arena> {
               buf_loc = BufLoc::From(def.val_loc);
             }
             self.lexer.set_tmp_buf(attr_val, buf_loc);
+            self.ctx.replacing_attr = true;
           }
           line.push(token);
-          self.ctx.replacing_attr = true;
         }
         // set, but empty
         Some(AttrValue::Bool(true)) => {
-- 
2.43.0


From 257d8dcca35fdbbfda6130e39e526eeed748fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 47/72] fix: the message of an unresolved include is located at
 the directive

---
 parser/src/tasks/directives/includes/process_includes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 81a6535..a8f483b 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -128,10 +128,12 @@ impl<'arena> Parser<'arena> {
         let mut msg = self.string("+++Unresolved directive in ");
         msg.push_str(self.lexer.source_file().file_name());
         msg.push_str(" - ");
-        let offset = directive.first_token.loc.start + msg.len() as u32;
         msg.push_str(directive.line_src.as_str());
         msg.push_str("+++\n");
-        self.lexer.set_tmp_buf(&msg, BufLoc::Offset(offset));
+        // the message does not appear in the source, so all of it is located
+        // at the directive, whose locations may not exceed the source
+        let loc = directive.first_token.loc;
+        self.lexer.set_tmp_buf(&msg, BufLoc::Repeat(loc));
         Ok(DirectiveAction::ReadNextLine)
       }
       Err(error) => {
-- 
2.43.0


From 97de4817b93bcf3f76bbfcec0b78da7fe045f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 48/72] fix: diagnostics of a table cell belong to the file and
 line the cell comes from

---
 parser/src/lexer/root_lexer.rs        |  6 +++++-
 parser/src/parser.rs                  | 11 ++++++++---
 parser/src/tasks/table/parse_table.rs | 11 ++++++++---
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 68e7523..061c18f 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -305,7 +305,11 @@ impl<'arena> RootLexer<'arena> {
 
   pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
     let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
-    let before_offset = self.line_number(offset_loc) - 1;
+    self.reline_diagnostics_from(offset_loc, diagnostics);
+  }
+
+  pub fn reline_diagnostics_from(&self, start: SourceLocation, diagnostics: &mut [Diagnostic]) {
+    let before_offset = self.line_number(start) - 1;
     diagnostics
       .iter_mut()
       .for_each(|diag| diag.line_num += before_offset);
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a1ef47d..ad98ac3 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -76,11 +76,16 @@ impl<'arena> Parser<'arena> {
     self.attr_ref_observer = Some(observer);
   }
 
-  pub fn cell_parser(&mut self, src: BumpVec<'arena, u8>, offset: u32) -> Parser<'arena> {
-    let mut cell_parser = Parser::new(src, self.lexer.source_file().clone(), self.bump);
+  pub fn cell_parser(
+    &mut self,
+    src: BumpVec<'arena, u8>,
+    loc: SourceLocation,
+  ) -> Parser<'arena> {
+    let source_file = self.lexer.source_file_at(loc.include_depth).clone();
+    let mut cell_parser = Parser::new(src, source_file, self.bump);
     cell_parser.include_resolver = self.include_resolver.as_ref().map(|r| r.clone_box());
     cell_parser.strict = self.strict;
-    cell_parser.lexer.adjust_offset(offset);
+    cell_parser.lexer.adjust_offset(loc.start);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index d8a6b52..323f8df 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -218,7 +218,12 @@ impl<'arena> Parser<'arena> {
       }
       cell_tokens.trim_for_cell(cell_style);
       cell_tokens.remove_resolved_attr_refs();
-      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), loc.start);
+      // the cell might be from another source than the one we're reading by now
+      let source_idx = cell_tokens
+        .current_token()
+        .map_or(self.lexer.source_idx(), |token| token.loc.include_depth);
+      let cell_start = SourceLocation::new(loc.start, loc.start, source_idx);
+      let cell_parser = self.cell_parser(cell_tokens.into_bytes(), cell_start);
       return match cell_parser.parse() {
         Ok(ParseResult {
           document,
@@ -230,7 +235,7 @@ impl<'arena> Parser<'arena> {
         }) => {
           self.ctx.attr_defs.extend(attr_defs);
           if !warnings.is_empty() {
-            self.lexer.reline_diagnostics(loc.start, &mut warnings);
+            self.lexer.reline_diagnostics_from(cell_start, &mut warnings);
             self.errors.borrow_mut().extend(warnings);
           }
 
@@ -244,7 +249,7 @@ impl<'arena> Parser<'arena> {
           Ok(Some((cell, repeat)))
         }
         Err(mut diagnostics) => {
-          self.lexer.reline_diagnostics(loc.start, &mut diagnostics);
+          self.lexer.reline_diagnostics_from(cell_start, &mut diagnostics);
           if !diagnostics.is_empty() && self.strict {
             Err(diagnostics.remove(0))
           } else {
-- 
2.43.0


From 562c721c9e91b2bcfa6891aca13285270639475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 49/72] fix: the shortest attribute entry may end the document
 without a newline

---
 parser/src/tasks/parse_doc_attrs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 7cb9b33..dce2a53 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -7,8 +7,8 @@ impl<'arena> Parser<'arena> {
     let start_loc = token.loc.start;
     let depth = token.loc.include_depth;
 
-    // we need at least 4 bytes to have a valid attr def: `:a:\n`
-    if self.lexer.byte_at(start_loc + 3, depth).is_none() {
+    // we need at least 3 bytes to have a valid attr def: `:a:`
+    if self.lexer.byte_at(start_loc + 2, depth).is_none() {
       return Ok(());
     }
 
-- 
2.43.0


From 1e808359fd44cb3ef4e81e76a06effb0d089bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 50/72] fix: wrapped attribute values with CRLF line ends

---
 parser/src/tasks/parse_doc_attrs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index dce2a53..c747a45 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -115,7 +115,7 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
-        if self.lexer.byte_at(pos + 1, depth) == Some(b'\r') {
+        if self.lexer.byte_at(pos, depth) == Some(b'\r') {
           pos += 2;
         } else {
           pos += 1;
-- 
2.43.0


From fcf11dad259ca999b41cfb980f028388b2ea8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 51/72] fix: strict include paths are case mismatches only if a
 name differs in case

---
 cli/src/resolver.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cli/src/resolver.rs b/cli/src/resolver.rs
index fe517be..0e1a598 100644
--- a/cli/src/resolver.rs
+++ b/cli/src/resolver.rs
@@ -1,6 +1,6 @@
 use std::fs::File;
 use std::io::{BufReader, Read};
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 
 use asciidork_core::SafeMode;
 use asciidork_parser::includes::*;
@@ -73,7 +73,7 @@ impl CliResolver {
       }
     }
 
-    if self.strict && pathb != pathc {
+    if self.strict && case_mismatch(&pathb, &pathc) {
       match (pathb.file_name(), pathc.file_name()) {
         // only send back the filename so we don't accidentally expose
         // full system filepaths in error messages for security reasons
@@ -94,3 +94,26 @@ impl CliResolver {
     Ok(len)
   }
 }
+
+/// whether a path, as requested, spells some name of the actual file in another case;
+/// they may well differ otherwise: by relative parts, or by following symbolic links
+fn case_mismatch(requested: &Path, actual: &Path) -> bool {
+  let Ok(absolute) = std::path::absolute(requested) else {
+    return false;
+  };
+  let mut normalized = PathBuf::new();
+  for component in absolute.components() {
+    if component == Component::ParentDir {
+      normalized.pop();
+    } else {
+      normalized.push(component);
+    }
+  }
+  let lowercase = |component: &Component| component.as_os_str().to_string_lossy().to_lowercase();
+  normalized
+    .components()
+    .rev()
+    .zip(actual.components().rev())
+    .take_while(|(a, b)| lowercase(a) == lowercase(b))
+    .any(|(a, b)| a != b)
+}
-- 
2.43.0


From 29f87cb5edcf91059a4f42e26f4aa85c386a3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 52/72] fix: a wrapped attribute value may end at the end of
 the document

---
 parser/src/tasks/parse_doc_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c747a45..93e5456 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -115,6 +115,11 @@ impl<'arena> Parser<'arena> {
           attr_def_string.push('\n');
         }
 
+        // nothing to continue with, at the end of the document
+        if self.lexer.byte_at(pos, depth).is_none() {
+          break;
+        }
+
         if self.lexer.byte_at(pos, depth) == Some(b'\r') {
           pos += 2;
         } else {
-- 
2.43.0


From b4f0fa7f1d2cb45170f81e9484a085ea9f9544d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 53/72] fix: attribute entries and directives are text amid a
 paragraph or comment, comment blocks may precede the header

---
 parser/src/parser.rs                 | 37 ++++++++++++++++++++++------
 parser/src/tasks/parse_doc_header.rs | 12 ++++++---
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ad98ac3..d39323f 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -107,12 +107,17 @@ impl<'arena> Parser<'arena> {
   }
 
   pub(crate) fn read_line(&mut self) -> Result<Option<Line<'arena>>> {
-    self.read_line_of_chunk(false)
+    self.read_line_of_chunk(false, true, self.ctx.within_block_comment())
   }
 
   /// when `stop_at_blank`, an empty line following a line that was dropped
   /// (an attribute entry, a directive, etc.) is not consumed: it ends the chunk
-  fn read_line_of_chunk(&mut self, stop_at_blank: bool) -> Result<Option<Line<'arena>>> {
+  fn read_line_of_chunk(
+    &mut self,
+    stop_at_blank: bool,
+    allow_attr_def: bool,
+    in_comment: bool,
+  ) -> Result<Option<Line<'arena>>> {
     assert!(self.peeked_lines.is_none());
     use TokenKind::*;
     let mut dropped_lines = false;
@@ -134,7 +139,7 @@ impl<'arena> Parser<'arena> {
             )
           {
             self.ctx.in_header = false;
-          } else if token.kind == Colon && self.ctx.subs.attr_refs() {
+          } else if allow_attr_def && token.kind == Colon && self.ctx.subs.attr_refs() {
             self.try_parse_attr_def(&mut token)?;
           }
         }
@@ -142,7 +147,7 @@ impl<'arena> Parser<'arena> {
       }
       self.lexer.skip_newline();
       if !drop_line {
-        if !line.starts(TokenKind::Directive) || self.ctx.within_block_comment() {
+        if !line.starts(TokenKind::Directive) || in_comment {
           return Ok(Some(line));
         }
         match self.try_process_directive(&mut line)? {
@@ -171,7 +176,16 @@ impl<'arena> Parser<'arena> {
     }
     let mut lines = Deq::new(self.bump);
     let mut precedes_content = true;
-    while let Some(line) = self.read_line_of_chunk(!lines.is_empty())? {
+    let mut in_doc_header = false;
+    let mut in_comment = self.ctx.within_block_comment();
+    loop {
+      let in_header = self.ctx.in_header;
+      // amid a paragraph or a comment, it's just text
+      let allow_attr_def = !in_comment && (precedes_content || in_doc_header);
+      let stop_at_blank = !lines.is_empty();
+      let Some(line) = self.read_line_of_chunk(stop_at_blank, allow_attr_def, in_comment)? else {
+        break;
+      };
       if line.is_emptyish() {
         if lines.is_empty() {
           // this case can happen if our first non-empty line was an include directive
@@ -182,12 +196,21 @@ impl<'arena> Parser<'arena> {
         break;
       }
       if line.is_delimiter_kind(DelimiterKind::Comment) {
-        self.ctx.comment_delim_in_lines = true;
+        in_comment = !in_comment;
+        self.ctx.comment_delim_in_lines = in_comment;
+        self.ctx.in_header = in_header && precedes_content;
+      } else if in_comment {
+        self.ctx.in_header = in_header;
       }
+      in_doc_header |= self.ctx.in_header && precedes_content && line.is_heading();
       let ends_at_attr_def =
         precedes_content && !self.ctx.in_header && line.starts(TokenKind::AttrDef);
       precedes_content = line.ends_chunk_of_attr_def()
-        || (precedes_content && line.may_precede_attr_def());
+        || (precedes_content
+          && (in_comment
+            || line.is_attr_decl()
+            || line.may_precede_attr_def()
+            || line.is_comment_block_delimiter()));
       lines.push(line);
       // an attribute entry must take effect before the following lines are read,
       // as directives and attribute references within them may depend on it
diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..3dda90c 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -72,16 +72,20 @@ impl<'arena> Parser<'arena> {
       return Ok(end_delim.first_loc());
     }
 
-    loop {
+    self.ctx.delimiter = block_start.current_token().and_then(Token::to_delimiter);
+    let end = loop {
       let Some(mut next_lines) = self.read_lines()? else {
         self.err_line("Unclosed comment block, started here", &block_start)?;
-        return Ok(None);
+        break None;
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
         let end_delim = next_lines.consume_current().unwrap();
-        return Ok(end_delim.first_loc());
+        *lines = next_lines;
+        break end_delim.first_loc();
       }
-    }
+    };
+    self.ctx.delimiter = None;
+    Ok(end)
   }
 
   pub(crate) fn prepare_toc(&mut self) {
-- 
2.43.0


From 3565650fb8b139b2588c936ce34294f3fe3708a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 54/72] fix: a book's leading blocks may be followed by further
 blocks

---
 parser/src/tasks/parse_book.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_book.rs b/parser/src/tasks/parse_book.rs
index 4950d05..e6d8f05 100644
--- a/parser/src/tasks/parse_book.rs
+++ b/parser/src/tasks/parse_book.rs
@@ -65,7 +65,10 @@ impl<'arena> Parser<'arena> {
           sections: sectioned.sections,
         })))
       }
-      Some(DocContent::Blocks(_)) => unreachable!(),
+      Some(DocContent::Blocks(more)) => {
+        blocks.extend(more);
+        Ok(Some(DocContent::Blocks(blocks)))
+      }
       Some(DocContent::Parts(book)) => {
         if let Some(preamble) = book.preamble {
           blocks.extend(preamble);
-- 
2.43.0


From 192cba5c102d53d48a22a9ecdf2c3266c407a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 55/72] fix: a discrete heading may be written with hashes

---
 parser/src/tasks/parse_block.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index a3e1c58..5e51c0e 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -196,7 +196,13 @@ impl<'arena> Parser<'arena> {
     let mut line = lines.consume_current().unwrap();
     let line_end_loc = line.last_loc().unwrap();
     let level = self.line_heading_level(&line).unwrap();
-    line.discard_assert(TokenKind::EqualSigns);
+    if line.current_is(TokenKind::Hash) {
+      while line.current_is(TokenKind::Hash) {
+        line.discard_assert(TokenKind::Hash);
+      }
+    } else {
+      line.discard_assert(TokenKind::EqualSigns);
+    }
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
-- 
2.43.0


From baf8e23743988275a2d29482492132d460433c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 56/72] fix: a paragraph whose text amounts to nothing does not
 end the document

---
 parser/src/tasks/parse_block.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 5e51c0e..3ddcdd2 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -438,13 +438,23 @@ impl<'arena> Parser<'arena> {
 
     // TODO: probably a better stack-like context API is possible here...
     let restore_subs = self.ctx.set_subs_for(context, &meta);
+    let first_loc = lines.first_loc();
     let inlines = self.parse_inlines(&mut lines)?;
     self.ctx.subs = restore_subs;
 
-    // can be empty when parsing empty desc list principal
-    let Some(loc) = inlines.loc() else {
-      self.restore_lines(lines);
-      return Ok(None);
+    let loc = match (inlines.loc(), first_loc) {
+      (Some(loc), _) => loc,
+      // the text may amount to nothing, i.e. `{empty}`
+      (None, Some(loc))
+        if !self.ctx.parsing_simple_desc_def() && lines.first_loc() != first_loc =>
+      {
+        loc.into()
+      }
+      // can be empty when parsing empty desc list principal
+      _ => {
+        self.restore_lines(lines);
+        return Ok(None);
+      }
     };
 
     self.restore_lines(lines);
-- 
2.43.0


From 4a64fffbb96127511d657b45c3547bdc739eefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 57/72] fix: a diagnostic about part of a line quotes the whole
 line

---
 parser/src/diagnostic.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 12abce6..45fa2ff 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -14,13 +14,14 @@ impl Parser<'_> {
   pub(crate) fn err_line(&self, message: impl Into<String>, line: &Line) -> Result<()> {
     let loc = line.first_loc().expect("non empty line for `err_line`");
     let (line_num, offset) = self.lexer.line_number_with_offset(loc);
-    let line = line.reassemble_src().to_string();
+    let src_line = self.lexer.line_of(loc);
+    let rest = (src_line.len() as u32).saturating_sub(offset);
     self.handle_err(Diagnostic {
       line_num,
       message: message.into(),
       underline_start: offset,
-      underline_width: line.len() as u32,
-      line,
+      underline_width: rest.min(line.reassemble_src().len() as u32),
+      line: String::from(src_line.as_str()),
       source_file: self.lexer.source_file_at(loc.include_depth).clone(),
     })
   }
-- 
2.43.0


From cfe8f4a9ddb1c524cdd9c99a9ec94b9dc39c7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 58/72] fix: cross references of included files and of AsciiDoc
 cells within them are diagnosed where they are

---
 parser/src/parser.rs                  | 22 ++++++++++++++++++++++
 parser/src/tasks/anchors.rs           |  2 +-
 parser/src/tasks/diagnose_document.rs | 19 ++++++++++---------
 parser/src/tasks/parse_book_part.rs   |  2 +-
 parser/src/tasks/parse_inlines/mod.rs |  6 +++---
 parser/src/tasks/parse_section.rs     |  2 +-
 6 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index d39323f..4b95fc1 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -10,6 +10,8 @@ pub struct Parser<'arena> {
   pub(super) peeked_lines: Option<ContiguousLines<'arena>>,
   pub(super) peeked_meta: Option<ChunkMeta<'arena>>,
   pub(super) ctx: ParseContext<'arena>,
+  /// where the asciidoc cell being parsed starts, in the sources of the root document
+  pub(super) cell_origin: Option<SourceLocation>,
   pub(super) errors: RefCell<Vec<Diagnostic>>,
   pub(super) strict: bool, // todo: naming...
   pub(super) include_resolver: Option<Box<dyn IncludeResolver>>,
@@ -33,6 +35,7 @@ impl<'arena> Parser<'arena> {
       peeked_lines: None,
       peeked_meta: None,
       ctx: ParseContext::new(lexer.bump),
+      cell_origin: None,
       errors: RefCell::new(Vec::new()),
       strict: true,
       include_resolver: None,
@@ -87,6 +90,7 @@ impl<'arena> Parser<'arena> {
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(loc.start);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
+    cell_parser.cell_origin = Some(self.source_loc(loc));
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
 
@@ -98,6 +102,24 @@ impl<'arena> Parser<'arena> {
     cell_parser
   }
 
+  /// location in terms of the sources of the root document, which an asciidoc cell
+  /// doesn't know: what it includes itself is located at the start of the cell
+  pub(crate) fn source_loc(&self, mut loc: SourceLocation) -> SourceLocation {
+    match self.cell_origin {
+      None => loc,
+      Some(origin) if loc.include_depth > 0 => origin,
+      Some(origin) => {
+        loc.include_depth = origin.include_depth;
+        loc
+      }
+    }
+  }
+
+  /// index of the source being read, in the sources of the root document
+  pub(crate) fn source_idx(&self) -> u16 {
+    self.source_loc(self.lexer.loc()).include_depth
+  }
+
   pub(crate) fn loc(&self) -> SourceLocation {
     self
       .peeked_lines
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index 8e7a1c3..cb466cf 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -37,7 +37,7 @@ impl<'arena> Parser<'arena> {
       reftext,
       title: InlineNodes::new(self.bump),
       source_loc,
-      source_idx: self.lexer.source_idx(),
+      source_idx: self.source_idx(),
       is_biblio,
     }
   }
diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index cc57b83..9f32da5 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -15,7 +15,7 @@ impl Parser<'_> {
     let mut xrefs: Vec<_> = xrefs.iter().collect();
     xrefs.sort_by_key(|(target, loc)| (loc.include_depth, loc.start, (*target).clone()));
     for (ref_target, ref_loc) in xrefs {
-      let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
+      let Some((idx, id)) = self.target_data(ref_target) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
@@ -28,7 +28,7 @@ impl Parser<'_> {
         self.invalid_xref(ref_target, *ref_loc)?;
         continue;
       };
-      if anchor.source_idx != idx {
+      if idx.is_some_and(|idx| anchor.source_idx != idx) {
         // NB: here we could give a more precise error saying that
         // the anchor was found, but was in a different file
         self.invalid_xref(ref_target, *ref_loc)?;
@@ -44,11 +44,12 @@ impl Parser<'_> {
     )
   }
 
-  fn target_data<'a>(&self, target: &'a str, loc_depth: u16) -> Option<(u16, &'a str)> {
+  /// the id referred to, and the source it must be in if the target names a file
+  fn target_data<'a>(&self, target: &'a str) -> Option<(Option<u16>, &'a str)> {
     if target == "#" {
-      Some((loc_depth, "__self__"))
+      Some((None, "__self__"))
     } else if target.starts_with('#') {
-      Some((loc_depth, target))
+      Some((None, target))
     } else if let Some(idx) = target.find('#') {
       let id = &target[idx + 1..];
       let prefix = &target[..idx];
@@ -56,16 +57,16 @@ impl Parser<'_> {
         self
           .lexer
           .source_idx_of_xref_target(prefix)
-          .map(|src_idx| (src_idx, id))
+          .map(|src_idx| (Some(src_idx), id))
       } else {
-        Some((loc_depth, id))
+        Some((None, id))
       }
     } else if file::has_adoc_ext(target)
       && self.lexer.source_file_at(0).file_name().ends_with(target)
     {
-      Some((0, "__self__"))
+      Some((Some(0), "__self__"))
     } else {
-      Some((loc_depth, target))
+      Some((None, target))
     }
   }
 
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..72b0973 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -39,7 +39,7 @@ impl<'arena> Parser<'arena> {
           reftext: None,
           title: heading.clone(),
           source_loc: None,
-          source_idx: self.lexer.source_idx(),
+          source_idx: self.source_idx(),
           is_biblio: false,
         },
       );
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 9dbbc54..f153afa 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -310,7 +310,7 @@ impl<'arena> Parser<'arena> {
                     reftext: attrs.take_positional(0),
                     title: InlineNodes::new(self.bump),
                     source_loc: Some(id.loc),
-                    source_idx: self.lexer.source_idx(),
+                    source_idx: self.source_idx(),
                     is_biblio: false,
                   },
                 )?;
@@ -923,7 +923,7 @@ impl<'arena> Parser<'arena> {
 
   fn push_xref(&mut self, target: &SourceString<'arena>) {
     let mut ref_id = target.src.clone();
-    let mut ref_loc = target.loc;
+    let mut ref_loc = self.source_loc(target.loc);
     if ref_id.len() > 1 && ref_id.starts_with('#') {
       ref_id.drain(..1);
       ref_loc.start += 1;
@@ -1006,7 +1006,7 @@ impl<'arena> Parser<'arena> {
         Anchor {
           reftext: None,
           title: nodes.clone(),
-          source_idx: self.lexer.source_idx(),
+          source_idx: self.source_idx(),
           source_loc: Some(id.loc),
           is_biblio: false,
         },
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..98c6c5a 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -116,7 +116,7 @@ impl<'arena> Parser<'arena> {
           reftext,
           title: heading.clone(),
           source_loc: None,
-          source_idx: self.lexer.source_idx(),
+          source_idx: self.source_idx(),
           is_biblio: false,
         },
       );
-- 
2.43.0


From c87865a6252e06ea8284b89b4ddd317fbc091259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 59/72] fix: a reference to an attribute is not kept next to
 its value in bare URLs and anchors

---
 parser/src/line.rs                    | 20 ++++++++++++++++++--
 parser/src/tasks/parse_attr_list.rs   |  8 ++++++++
 parser/src/tasks/parse_inlines/mod.rs | 14 +++++++++++---
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index ab7b354..07318db 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -614,7 +614,9 @@ impl<'arena> Line<'arena> {
         break;
       }
       let token = self.consume_current().unwrap();
-      s.push_str(&token.lexeme);
+      if token.kind != AttrRef {
+        s.push_str(&token.lexeme);
+      }
       loc.extend(token.loc);
     }
     SourceString::new(s, loc)
@@ -671,6 +673,7 @@ impl<'arena> Line<'arena> {
     start: Option<&Token>,
     stop: Option<TokenKind>,
     closing: &[TokenSpec],
+    attr_refs: bool,
     bump: &'arena Bump,
   ) -> SourceString<'arena> {
     let mut loc = start.map_or_else(|| self.first_loc().unwrap(), |t| t.loc);
@@ -706,9 +709,22 @@ impl<'arena> Line<'arena> {
       s.push_str(&start.lexeme);
       loc.extend(start.loc);
     }
+    let mut ref_loc: Option<SourceLocation> = None;
     for _ in 0..num_tokens {
       let token = self.consume_current().unwrap();
-      s.push_str(&token.lexeme);
+      // either the reference, or what it was replaced with
+      let is_replacement = ref_loc.is_some_and(|ref_loc| ref_loc == token.loc);
+      if token.kind(AttrRef) {
+        ref_loc = Some(token.loc);
+      }
+      let omit = if attr_refs {
+        token.kind(AttrRef)
+      } else {
+        is_replacement
+      };
+      if !omit {
+        s.push_str(&token.lexeme);
+      }
       loc.extend(token.loc);
     }
     SourceString::new(s, loc)
diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index d57c5e8..1fd6688 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -66,6 +66,14 @@ impl<'arena> Parser<'arena> {
     ) {
       return Ok(None);
     }
+    // nothing left, once the attribute references are replaced
+    if line
+      .iter()
+      .find(|token| !token.kind(AttrRef))
+      .is_none_or(|token| matches!(token.kind, Comma | CloseBracket))
+    {
+      return Ok(None);
+    }
     let start = current.loc.start - 2;
     let id = line.consume_to_string_until_one_of(&[Kind(Comma), Kind(CloseBracket)], self.bump);
     assert!(!id.is_empty());
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index f153afa..46cd2a9 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -470,7 +470,13 @@ impl<'arena> Parser<'arena> {
             let scheme_token = line.consume_current().unwrap();
             let mut loc = scheme_token.loc;
             let line_end = line.last_loc().unwrap();
-            let target = line.consume_url(Some(&scheme_token), Some(GreaterThan), &[], self.bump);
+            let target = line.consume_url(
+              Some(&scheme_token),
+              Some(GreaterThan),
+              &[],
+              subs.attr_refs(),
+              self.bump,
+            );
             if target.src == scheme_token.lexeme {
               // turns out we don't have a valid uri here, backtrack
               acc.pop_node();
@@ -869,7 +875,8 @@ impl<'arena> Parser<'arena> {
           {
             let mut loc = token.loc;
             let line_end = line.last_loc().unwrap_or(token.loc);
-            let target = line.consume_url(Some(&token), None, stop_tokens, self.bump);
+            let target =
+              line.consume_url(Some(&token), None, stop_tokens, subs.attr_refs(), self.bump);
             if target.src == token.lexeme {
               acc.push_text_token(&token);
             } else {
@@ -940,7 +947,8 @@ impl<'arena> Parser<'arena> {
     let mut macro_loc = token.loc;
     let line_end = line.last_loc().unwrap();
     acc.commit();
-    let target = line.consume_url(Some(token), Some(OpenBracket), &[], self.bump);
+    let attr_refs = self.ctx.subs.attr_refs();
+    let target = line.consume_url(Some(token), Some(OpenBracket), &[], attr_refs, self.bump);
     line.discard_assert(OpenBracket);
     let line_has_caret = line.contains(Caret);
     let mut attrs = self.parse_link_macro_attr_list(line)?;
-- 
2.43.0


From 80822fd2ccf3a5673c65207d895864f4fdedc57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 60/72] fix: references in attribute values honor case, escapes
 and attribute-missing

---
 core/src/regx.rs                      |  3 +-
 parser/src/docinfo.rs                 | 19 +------------
 parser/src/tasks/directives/ifeval.rs |  4 ++-
 parser/src/tasks/parse_doc_attrs.rs   | 40 +++++++++++++++++++++------
 4 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/core/src/regx.rs b/core/src/regx.rs
index 90eb0c0..a446a79 100644
--- a/core/src/regx.rs
+++ b/core/src/regx.rs
@@ -4,7 +4,8 @@ use regex::{Regex, bytes::Regex as BytesRegex};
 // attrs
 lazy_static! {
   pub static ref ATTR_DECL: Regex = Regex::new(r"^:([^\s:]+):\s*([^\s].*)?$").unwrap();
-  pub static ref ATTR_VAL_REPLACE: Regex = Regex::new(r"\{([^\s}]+)\}").unwrap();
+  pub static ref ATTR_VAL_REPLACE: Regex =
+    Regex::new(r"(\\)?\{([0-9A-Za-z_][0-9A-Za-z_-]*)\}").unwrap();
 }
 
 // email
diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 1e125bd..1a2a1a1 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -260,23 +260,6 @@ impl Parser<'_> {
       return Some(Cow::Borrowed(line_src));
     }
 
-    let attr_missing = self.document.meta.str("attribute-missing");
-    let mut drop_line = false;
-    let replaced = regx::ATTR_VAL_REPLACE.replace_all(line_src, |caps: &regex::Captures| {
-      let attr_name = caps.get(1).unwrap().as_str();
-      match self.document.meta.get(attr_name) {
-        Some(AttrValue::String(value)) => value.to_string(),
-        _ => match attr_missing {
-          Some("drop") => String::new(),
-          Some("drop-line") => {
-            drop_line = true;
-            String::new()
-          }
-          _ => caps.get(0).unwrap().as_str().to_string(),
-        },
-      }
-    });
-
-    (!drop_line).then_some(replaced)
+    self.try_replace_attr_vals(line_src, self.document.meta.str("attribute-missing"))
   }
 }
diff --git a/parser/src/tasks/directives/ifeval.rs b/parser/src/tasks/directives/ifeval.rs
index bfc17f2..048c337 100644
--- a/parser/src/tasks/directives/ifeval.rs
+++ b/parser/src/tasks/directives/ifeval.rs
@@ -46,7 +46,9 @@ impl<'arena> Parser<'arena> {
   }
 
   fn coerce_eval_expr(&self, expr: &str) -> Value<'arena> {
-    let expr = self.replace_attr_vals(expr);
+    let expr = self
+      .try_replace_attr_vals(expr, Some("drop"))
+      .unwrap_or_default();
     match &*expr {
       "true" => return Value::Boolean(true),
       "false" => return Value::Boolean(false),
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index 93e5456..b497da7 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -307,16 +307,40 @@ impl<'arena> Parser<'arena> {
     }
   }
 
+  /// replace attr references, dropping the line if directed by `attribute-missing`
   pub(crate) fn replace_attr_vals<'h>(&self, haystack: &'h str) -> Cow<'h, str> {
-    regx::ATTR_VAL_REPLACE.replace_all(haystack, |caps: &regex::Captures| {
-      if let Some(AttrValue::String(replace)) =
-        self.document.meta.get(caps.get(1).unwrap().as_str())
-      {
-        replace
-      } else {
-        ""
+    self
+      .try_replace_attr_vals(haystack, self.document.meta.str("attribute-missing"))
+      .unwrap_or_default()
+  }
+
+  /// returns `None` if the line should be dropped
+  pub(crate) fn try_replace_attr_vals<'h>(
+    &self,
+    haystack: &'h str,
+    attr_missing: Option<&str>,
+  ) -> Option<Cow<'h, str>> {
+    let mut drop_line = false;
+    let replaced = regx::ATTR_VAL_REPLACE.replace_all(haystack, |caps: &regex::Captures| {
+      let attr_ref = caps.get(0).unwrap().as_str();
+      if caps.get(1).is_some() {
+        return attr_ref[1..].to_string();
       }
-    })
+      match self.document.meta.get(&caps[2].to_lowercase()) {
+        Some(AttrValue::String(value)) => value.to_string(),
+        // set, but empty
+        Some(AttrValue::Bool(true)) => String::new(),
+        _ => match attr_missing {
+          Some("drop") => String::new(),
+          Some("drop-line") => {
+            drop_line = true;
+            String::new()
+          }
+          _ => attr_ref.to_string(),
+        },
+      }
+    });
+    (!drop_line).then_some(replaced)
   }
 }
 
-- 
2.43.0


From d1ad2826c67266af04e740b00833765c07e31b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:03 +0000
Subject: [PATCH 61/72] fix: references in the value of an attribute are not
 substituted again

---
 parser/src/tasks/attr_refs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/tasks/attr_refs.rs b/parser/src/tasks/attr_refs.rs
index 50acb85..214c34a 100644
--- a/parser/src/tasks/attr_refs.rs
+++ b/parser/src/tasks/attr_refs.rs
@@ -51,7 +51,11 @@ impl<'arena> Parser<'arena> {
         self.ctx.replacing_attr = false;
       }
     }
-    if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
+    if token.kind(TokenKind::AttrRef) && token.is_attr_replacement() {
+      // the value of an attribute is not substituted again
+      token.kind = TokenKind::Word;
+      line.push(token);
+    } else if token.kind(TokenKind::AttrRef) && self.ctx.subs.attr_refs() {
       match self.document.meta.get(&token.lowercase_attr_name()) {
         Some(AttrValue::String(attr_val)) => {
           #[cfg(feature = "attr_ref_observation")]
@@ -90,7 +94,8 @@ impl<'arena> Parser<'arena> {
             observer.attr_ref_missing(token.attr_name(), token.loc);
           }
           match self.document.meta.str("attribute-missing") {
-            Some("drop") => {}
+            // keep the ref itself, as it may be resolved anew in an asciidoc cell
+            Some("drop") => line.push(token),
             Some("drop-line") => *drop_line = true,
             val => {
               token.kind = TokenKind::Word;
-- 
2.43.0


From 73e109c3e85e0c32a2709b32edb3e6e9c2370a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 62/72] fix: html5s keeps the id, roles and title of a nested
 list

---
 backend-html5s/src/html5s.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index ac5a38f..fe18e8d 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -500,7 +500,7 @@ impl Backend for Html5s {
     if items.iter().any(ListItem::is_checklist) {
       list.push_class("task-list");
     }
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_open_tag(wrap);
     }
     self.render_buffered_block_title(block, true);
@@ -510,7 +510,7 @@ impl Backend for Html5s {
   fn exit_unordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ul>");
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -540,7 +540,7 @@ impl Backend for Html5s {
     self.state.desc_list_depth += 1;
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
-    if depth == 1 {
+    if wraps_list(block, depth) {
       tag.push_class("dlist");
     }
     let is_horizontal = block.meta.attrs.has_str_positional("horizontal");
@@ -555,7 +555,7 @@ impl Backend for Html5s {
       self.state.ephemeral.insert(InGlossaryList);
       tag.push_class("glossary");
     }
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_open_tag(tag);
       if is_qanda {
         self.html.pop();
@@ -578,7 +578,7 @@ impl Backend for Html5s {
   fn exit_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.ephemeral.remove(&InGlossaryList);
     self.push_str("</dl>");
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
     self.state.desc_list_depth -= 1;
@@ -615,7 +615,7 @@ impl Backend for Html5s {
 
   fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
     let (class, list_type) = self.start_enter_ordered_list(block, depth);
-    if depth == 1 {
+    if wraps_list(block, depth) {
       let classes = &["olist", class];
       let el = if block.has_title() { "section" } else { "div" };
       self.open_element(el, classes, &block.meta.attrs);
@@ -627,7 +627,7 @@ impl Backend for Html5s {
   fn exit_ordered_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
     self.state.interactive_list_stack.pop();
     self.push_str("</ol>");
-    if depth == 1 {
+    if wraps_list(block, depth) {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
   }
@@ -1709,3 +1709,9 @@ const fn incr(num: &mut usize) -> usize {
 }
 
 pub(crate) use backend::num_str;
+
+// nested lists are only wrapped if there is something to convey with the wrapper
+fn wraps_list(block: &Block, depth: u8) -> bool {
+  let attrs = &block.meta.attrs;
+  depth == 1 || block.has_title() || attrs.id().is_some() || attrs.roles().next().is_some()
+}
-- 
2.43.0


From d6f525d72163e9974d0c1e0fa665391ffffb2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 63/72] fix: the text given to a cross reference takes
 precedence, and nested anchors are dropped from it

---
 eval/src/eval.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index de1ffad..8f6aec0 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -528,17 +528,17 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
     Macro(Xref { target, linktext, kind }) => {
       let anchors = ctx.doc.anchors.borrow();
       let anchor = anchors.get(utils::xref::get_id(&target.src));
-      let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
+      let is_biblio = linktext.is_none() && anchor.is_some_and(|a| a.is_biblio);
       backend.enter_xref(target, linktext.is_some(), *kind);
       let in_xref = ctx.resolving_xref.replace(true);
       if in_xref {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
-          anchor
-            .reftext
+          linktext
             .as_ref()
-            .unwrap_or(linktext.as_ref().unwrap_or(&anchor.title))
+            .or(anchor.reftext.as_ref())
+            .unwrap_or(&anchor.title)
         })
         .filter(|text| !text.is_empty())
       {
@@ -582,6 +582,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
         linktext.is_some(),
       );
     }
+    // the anchor belongs to the text referred to, not to the reference
+    InlineAnchor(_) if *ctx.resolving_xref.borrow() => {}
     InlineAnchor(id) => backend.visit_inline_anchor(id),
     BiblioAnchor(id) => {
       backend.visit_biblio_anchor(
-- 
2.43.0


From b3ac2ed24b242a749ccf6ea0119d6cd14f45ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 64/72] fix: the id of an inline anchor can start with an
 underscore

---
 parser/src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/line.rs b/parser/src/line.rs
index 07318db..ad8b404 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -944,7 +944,7 @@ impl<'arena> Line<'arena> {
   }
 
   pub fn continues_inline_anchor(&self) -> bool {
-    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon])]) {
+    if !self.starts_with_seq(&[Kind(OpenBracket), OneOf(&[Word, Colon, Underscore])]) {
       return false;
     }
     let Some(close_idx) = self.index_of_seq(&[Kind(CloseBracket); 2]) else {
-- 
2.43.0


From 37ede4ddf1388f19b83b7d0281f88127c309083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 65/72] fix: unset sectids does not discard explicit section
 ids

---
 parser/src/tasks/section_id.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ce523ed..ab64fc6 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -9,14 +9,14 @@ impl<'arena> Parser<'arena> {
     line: &Line<'arena>,
     attrs: &MultiAttrList<'arena>,
   ) -> Option<BumpString<'arena>> {
-    if self.document.meta.is_false("sectids") {
-      return None;
-    }
     if let Some(id) = attrs.id() {
       let custom_id = self.string(&id.src);
       self.ctx.anchor_ids.borrow_mut().insert(custom_id.clone());
       return Some(custom_id);
     }
+    if self.document.meta.is_false("sectids") {
+      return None;
+    }
     let id_sep = match self.document.meta.get("idseparator") {
       Some(AttrValue::Bool(true)) => None,
       Some(AttrValue::String(s)) => s.chars().next(),
-- 
2.43.0


From 9af1925e85a6e153acbfedbed382f394adac3737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 66/72] fix: cross references can refer to blocks having an id

---
 parser/src/parser.rs                  |  5 ++-
 parser/src/tasks/anchors.rs           | 49 +++++++++++++++++++++++++++
 parser/src/tasks/parse_block.rs       | 12 +++++--
 parser/src/tasks/parse_book_part.rs   | 11 +-----
 parser/src/tasks/parse_inlines/mod.rs |  2 +-
 parser/src/tasks/parse_section.rs     | 16 +--------
 6 files changed, 65 insertions(+), 30 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 4b95fc1..9c780f8 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -410,7 +410,10 @@ impl<'arena> Parser<'arena> {
           };
           let mut anchor_attrs = AttrList::new(anchor.loc, self.bump);
           anchor_attrs.id = Some(anchor.id);
-          anchor_attrs.positional.push(anchor.reftext);
+          if let Some(reftext) = anchor.reftext {
+            let name = SourceString::new(self.string("reftext"), anchor.loc);
+            anchor_attrs.insert_named(name, reftext);
+          }
           attrs.push(anchor_attrs);
         }
         // consume trailing comment lines for valid meta
diff --git a/parser/src/tasks/anchors.rs b/parser/src/tasks/anchors.rs
index cb466cf..c0ec3aa 100644
--- a/parser/src/tasks/anchors.rs
+++ b/parser/src/tasks/anchors.rs
@@ -22,11 +22,47 @@ impl<'arena> Parser<'arena> {
         id.loc,
       )?;
     } else {
+      self.ctx.anchor_ids.borrow_mut().insert(id.src.clone());
       anchors.insert(id.src.clone(), anchor);
     }
     Ok(())
   }
 
+  /// a block having an id can be referred to by its reftext, or else title
+  pub(crate) fn insert_block_anchor(&mut self, meta: &ChunkMeta<'arena>) -> Result<()> {
+    let Some(id) = explicit_id(meta) else {
+      return Ok(());
+    };
+    let mut anchor = self.anchor_from(reftext(meta), Some(id.loc), false);
+    if let Some(title) = &meta.dot_line_title {
+      anchor.title = title.clone();
+    }
+    self.insert_anchor(id, anchor)
+  }
+
+  pub(crate) fn insert_heading_anchor(
+    &mut self,
+    id: &BumpString<'arena>,
+    meta: &ChunkMeta<'arena>,
+    heading: &InlineNodes<'arena>,
+  ) -> Result<()> {
+    let explicit_id = explicit_id(meta);
+    let mut anchor = self.anchor_from(reftext(meta), explicit_id.map(|id| id.loc), false);
+    anchor.title = heading.clone();
+    match explicit_id {
+      Some(id) => self.insert_anchor(id, anchor),
+      // an auto-generated id is known to be unique
+      None => {
+        self
+          .document
+          .anchors
+          .borrow_mut()
+          .insert(id.clone(), anchor);
+        Ok(())
+      }
+    }
+  }
+
   pub(crate) fn anchor_from(
     &self,
     reftext: Option<InlineNodes<'arena>>,
@@ -42,3 +78,16 @@ impl<'arena> Parser<'arena> {
     }
   }
 }
+
+fn explicit_id<'a, 'arena>(meta: &'a ChunkMeta<'arena>) -> Option<&'a SourceString<'arena>> {
+  let id = meta.attrs.iter().find_map(|attrs| attrs.id.as_ref());
+  id.filter(|id| !id.src.is_empty())
+}
+
+fn reftext<'arena>(meta: &ChunkMeta<'arena>) -> Option<InlineNodes<'arena>> {
+  meta
+    .attrs
+    .iter()
+    .find_map(|attrs| attrs.named.get("reftext"))
+    .cloned()
+}
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 3ddcdd2..06fa4d0 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -48,6 +48,11 @@ impl<'arena> Parser<'arena> {
     }
 
     let first_token = lines.current_token().unwrap();
+    let discrete_heading = lines.current_satisfies(|l| l.is_heading())
+      && (meta.attrs.has_str_positional("discrete") || meta.attrs.has_str_positional("float"));
+    if !discrete_heading && first_token.kind != AttrDef {
+      self.insert_block_anchor(&meta)?;
+    }
 
     if lines.is_block_macro() {
       return match first_token.lexeme.as_str() {
@@ -60,9 +65,7 @@ impl<'arena> Parser<'arena> {
       .map(Some);
     } else if lines.starts_list() {
       return self.parse_list(lines, Some(meta)).map(Some);
-    } else if lines.current_satisfies(|l| l.is_heading())
-      && (meta.attrs.has_str_positional("discrete") || meta.attrs.has_str_positional("float"))
-    {
+    } else if discrete_heading {
       return self.parse_discrete_heading(lines, meta).map(Some);
     }
 
@@ -206,6 +209,9 @@ impl<'arena> Parser<'arena> {
     line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&line, &meta.attrs);
     let content = self.parse_inlines(&mut line.into_lines())?;
+    if let Some(id) = &id {
+      self.insert_heading_anchor(id, &meta, &content)?;
+    }
     self.restore_lines(lines);
     Ok(Block {
       context: Context::DiscreteHeading,
diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index 72b0973..58f3f82 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -33,16 +33,7 @@ impl<'arena> Parser<'arena> {
     );
 
     if let Some(id) = &id {
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
-        Anchor {
-          reftext: None,
-          title: heading.clone(),
-          source_loc: None,
-          source_idx: self.source_idx(),
-          is_biblio: false,
-        },
-      );
+      self.insert_heading_anchor(id, &meta, &heading)?;
     }
 
     let mut title = PartTitle { meta, text: heading, id };
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 46cd2a9..4a3559f 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -1004,7 +1004,7 @@ impl<'arena> Parser<'arena> {
     self.ctx.inline_ctx = InlineCtx::None;
     if had_inline_attrs
       && let Some(InlineNode {
-        content: Span(SpanKind::Text, Some(attrs), nodes),
+        content: Span(_, Some(attrs), nodes),
         ..
       }) = acc.inlines.last()
       && let Some(id) = &attrs.id
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 98c6c5a..d2502de 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -105,21 +105,7 @@ impl<'arena> Parser<'arena> {
     }
 
     if let Some(id) = &id {
-      let reftext = meta
-        .attrs
-        .iter()
-        .find_map(|a| a.named.get("reftext"))
-        .cloned();
-      self.document.anchors.borrow_mut().insert(
-        id.clone(),
-        Anchor {
-          reftext,
-          title: heading.clone(),
-          source_loc: None,
-          source_idx: self.source_idx(),
-          is_biblio: false,
-        },
-      );
+      self.insert_heading_anchor(id, &meta, &heading)?;
     }
 
     if meta.attrs.str_positional_at(0) == Some("bibliography") {
-- 
2.43.0


From 14f82679729e3fe891af1dfa05842f5f5ab05629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 67/72] fix: soft job attributes override the built-in defaults

---
 core/src/document_meta.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..1b9755b 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -210,12 +210,13 @@ impl DocumentMeta {
   }
 
   fn resolve_attr(&self, key: &str) -> Option<&AttrValue> {
+    self.assigned_attr(key).or_else(|| self.default_attrs.get(key))
+  }
+
+  fn assigned_attr(&self, key: &str) -> Option<&AttrValue> {
     match self.doc_attrs.get(key) {
       Some(value) => Some(value),
-      None => match self.header_attrs.get(key) {
-        Some(value) => Some(value),
-        None => self.default_attrs.get(key),
-      },
+      None => self.header_attrs.get(key),
     }
   }
 
@@ -240,7 +241,7 @@ impl ReadAttr for DocumentMeta {
 
       key => match self.job_attrs.get(key) {
         Some(JobAttr { readonly: true, value }) => Some(value),
-        Some(JobAttr { readonly: false, value }) => self.resolve_attr(key).or(Some(value)),
+        Some(JobAttr { readonly: false, value }) => self.assigned_attr(key).or(Some(value)),
         _ if key == "doctitle" => self
           .resolve_attr("doctitle")
           .or_else(|| self.resolve_attr("_asciidork_derived_doctitle")),
-- 
2.43.0


From b2c339dbc2261a3a7e36fb36cc1059047cddaf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:02 +0000
Subject: [PATCH 68/72] fix: generated section ids keep underscores of words, a
 comma does not separate, a lone < does not hide the rest

---
 parser/src/tasks/section_id.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/section_id.rs b/parser/src/tasks/section_id.rs
index ab64fc6..24e73cf 100644
--- a/parser/src/tasks/section_id.rs
+++ b/parser/src/tasks/section_id.rs
@@ -56,19 +56,23 @@ impl<'arena> Parser<'arena> {
     id.push_str(prefix);
 
     let mut chars = line.chars().peekable();
+    let mut prev_c = '\0';
     while let Some(c) = chars.next() {
+      let after = std::mem::replace(&mut prev_c, c);
       match c {
         '<' if chars.peek() == Some(&'<') => {
           chars.next();
         }
-        '<' => in_html_tag = true,
+        '<' if is_html_tag(chars.clone()) => in_html_tag = true,
         '>' => in_html_tag = false,
-        ' ' | '-' | '.' | ',' | '\t' => {
-          if separator.map(|c| c != last_c).unwrap_or(false) {
-            id.push(separator.unwrap());
-            last_c = separator.unwrap();
+        ' ' | '-' | '.' | '\t' if !in_html_tag => match separator {
+          Some(separator) if separator != last_c => {
+            id.push(separator);
+            last_c = separator;
           }
-        }
+          None if c == '-' || c == '.' => id.push(c),
+          _ => {}
+        },
         // only pay the cost of the regex if we need to
         '[' if chars.peek() == Some(&'[') && !removed_aux_ids => {
           let sans_aux_ids = AUX_ID_RE.replace_all(line, "$1");
@@ -79,6 +83,11 @@ impl<'arena> Parser<'arena> {
           return self._autogen_sect_id(&sans_entities, prefix, separator, true, removed_aux_ids);
         }
         _ if in_html_tag => {}
+        // an underscore within a word does not format, so it belongs to the id
+        '_' if after.is_alphanumeric() && chars.peek().is_some_and(|c| c.is_alphanumeric()) => {
+          id.push(c);
+          last_c = c;
+        }
         mut c if c.is_ascii_alphanumeric() => {
           c.make_ascii_lowercase();
           last_c = c;
@@ -131,6 +140,13 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+fn is_html_tag(mut rest: impl Iterator<Item = char>) -> bool {
+  rest
+    .next()
+    .is_some_and(|c| c == '/' || c.is_ascii_alphabetic())
+    && rest.any(|c| c == '>')
+}
+
 lazy_static! {
   static ref ENTITY_RE: Regex = Regex::new(
     r"&(?:[A-Za-z][A-Za-z]+\d{0,2}|#\d\d\d{0,4}|#x[\dA-Fa-f][\dA-Fa-f][\dA-Fa-f]{0,3});"
-- 
2.43.0


From b912ffbd6166a15a15a40c6f510e94f58553ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:53 +0000
Subject: [PATCH 69/72] fix: items, texts and attached blocks of lists end
 where the next item, continuation or comment begins

---
 backend-html5s/src/html5s.rs            |   6 +-
 dr-html-backend/src/asciidoctor_html.rs |   6 +-
 parser/src/contiguous_lines.rs          |  10 ++
 parser/src/lexer/root_lexer.rs          |   8 +-
 parser/src/lexer/source_lexer.rs        |   5 +-
 parser/src/line.rs                      |   3 +-
 parser/src/list_context.rs              |   2 +-
 parser/src/parse_context.rs             |  22 ++--
 parser/src/parser.rs                    |   5 +-
 parser/src/tasks/parse_block.rs         |  10 +-
 parser/src/tasks/parse_inlines/mod.rs   |  18 ++-
 parser/src/tasks/parse_list.rs          | 148 +++++++++++++-----------
 12 files changed, 144 insertions(+), 99 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index fe18e8d..dcfb295 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -602,9 +602,11 @@ impl Backend for Html5s {
     self.push_str("</dd>");
   }
 
-  fn enter_description_list_description_text(&mut self, _text: &Block, item: &ListItem) {
+  fn enter_description_list_description_text(&mut self, text: &Block, item: &ListItem) {
     let first = item.blocks.first();
-    if first.is_none() || !matches!(first.unwrap().content, BlockContent::Simple { .. }) {
+    if text.context == BlockContext::Paragraph
+      && (first.is_none() || !matches!(first.unwrap().content, BlockContent::Simple { .. }))
+    {
       self.state.ephemeral.insert(VisitingSimpleTermDescription);
     }
   }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 2c57f74..ac8510c 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -695,8 +695,10 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_description_list_description_text(&mut self, _text: &Block, _item: &ListItem) {
-    self.state.ephemeral.insert(VisitingSimpleTermDescription);
+  fn enter_description_list_description_text(&mut self, text: &Block, _item: &ListItem) {
+    if text.context == BlockContext::Paragraph {
+      self.state.ephemeral.insert(VisitingSimpleTermDescription);
+    }
   }
 
   #[instrument(skip_all)]
diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index c0f89b0..0793a83 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -225,6 +225,12 @@ impl<'arena> ContiguousLines<'arena> {
       .unwrap_or(false)
   }
 
+  pub fn starts_literal_paragraph(&self) -> bool {
+    self
+      .first()
+      .is_some_and(|line| line.is_indented() && !line.starts_list_item() && !line.is_comment())
+  }
+
   pub fn starts_list_continuation(&self) -> bool {
     if self.len() < 2 {
       return false;
@@ -243,6 +249,10 @@ impl<'arena> ContiguousLines<'arena> {
     self.first().map(Line::is_comment).unwrap_or(false)
   }
 
+  pub fn num_leading_comment_lines(&self) -> usize {
+    self.lines.iter().take_while(|l| l.is_comment()).count()
+  }
+
   pub fn discard_leading_comment_lines(&mut self) -> Option<SourceLocation> {
     let mut loc = SourceLocation::default();
     while self.starts_with_comment_line() {
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 061c18f..11acca2 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -256,15 +256,17 @@ impl<'arena> RootLexer<'arena> {
     }
   }
 
-  pub fn consume_empty_lines(&mut self) {
+  /// returns the number of lines consumed
+  pub fn consume_empty_lines(&mut self) -> usize {
     self.maybe_advance_source();
-    self.sources[self.idx as usize].consume_empty_lines();
+    let mut num_lines = self.sources[self.idx as usize].consume_empty_lines();
     if self.sources[self.idx as usize].is_eof()
       && let Some(prev_idx) = self.source_stack.pop()
     {
       self.idx = prev_idx;
-      self.consume_empty_lines();
+      num_lines += self.consume_empty_lines();
     }
+    num_lines
   }
 
   pub fn raw_lines(&'arena self) -> impl Iterator<Item = &'arena str> {
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 5e7864a..149c730 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -149,10 +149,13 @@ impl<'arena> SourceLexer<'arena> {
     }
   }
 
-  pub fn consume_empty_lines(&mut self) {
+  pub fn consume_empty_lines(&mut self) -> usize {
+    let mut num_lines = 0;
     while self.at_newline() {
       self.skip_newline();
+      num_lines += 1;
     }
+    num_lines
   }
 
   pub fn at_delimiter_line(&self) -> Option<(u32, u8)> {
diff --git a/parser/src/line.rs b/parser/src/line.rs
index ad8b404..b918597 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -857,7 +857,8 @@ impl<'arena> Line<'arena> {
       return false;
     }
     match self.current_token().map(|t| t.kind) {
-      None | Some(Plus) => false,
+      None => false,
+      Some(Plus) => !self.is_list_continuation(),
       Some(OpenBracket) => !self.is_block_attr_list(),
       _ => !self.starts_list_item() && !self.is_any_delimiter(),
     }
diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 95df2dd..25cb510 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -5,7 +5,7 @@ use crate::internal::*;
 #[derive(Debug, Default)]
 pub(crate) struct ListContext {
   pub(crate) stack: ListStack,
-  pub(crate) parsing_continuations: bool,
+  pub(crate) parsing_description: bool,
 }
 
 #[derive(Debug)]
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 648f392..038dd1a 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -210,24 +210,16 @@ impl<'arena> ParseContext<'arena> {
     self.table_cell_ctx == TableCellContext::AsciiDocCell
   }
 
-  pub fn parsing_simple_desc_def(&self) -> bool {
-    if self.list.parsing_continuations || self.list.stack.is_empty() {
-      return false;
-    }
-    self.parsing_description_list()
-  }
-
-  pub fn parsing_description_list_continuations(&self) -> bool {
-    self.parsing_description_list() && self.list.parsing_continuations
+  pub const fn parsing_simple_desc_def(&self) -> bool {
+    self.list.parsing_description
   }
 
   pub fn parsing_description_list(&self) -> bool {
-    self.delimiter.is_none()
-      && self
-        .list
-        .stack
-        .last()
-        .is_some_and(|last| last.is_description())
+    self
+      .list
+      .stack
+      .last()
+      .is_some_and(|last| last.is_description())
   }
 
   pub fn within_block_comment(&self) -> bool {
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index 9c780f8..61c5c56 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -8,6 +8,8 @@ pub struct Parser<'arena> {
   pub(super) lexer: Lexer<'arena>,
   pub(super) document: Document<'arena>,
   pub(super) peeked_lines: Option<ContiguousLines<'arena>>,
+  /// number of blank lines preceding the lines last read
+  pub(super) blanks_before_chunk: usize,
   pub(super) peeked_meta: Option<ChunkMeta<'arena>>,
   pub(super) ctx: ParseContext<'arena>,
   /// where the asciidoc cell being parsed starts, in the sources of the root document
@@ -33,6 +35,7 @@ impl<'arena> Parser<'arena> {
       bump: lexer.bump,
       document: Document::new(lexer.bump),
       peeked_lines: None,
+      blanks_before_chunk: 0,
       peeked_meta: None,
       ctx: ParseContext::new(lexer.bump),
       cell_origin: None,
@@ -192,7 +195,7 @@ impl<'arena> Parser<'arena> {
     if let Some(peeked) = self.peeked_lines.take() {
       return Ok(Some(peeked));
     }
-    self.lexer.consume_empty_lines();
+    self.blanks_before_chunk = self.lexer.consume_empty_lines();
     if self.lexer.is_eof() {
       return Ok(None);
     }
diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 06fa4d0..7105b39 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -84,7 +84,11 @@ impl<'arena> Parser<'arena> {
           && lines.nth_token(2).is_none()
           && lines.nth_token(1).unwrap().len() > 2 =>
       {
-        return Ok(Some(self.parse_table(lines, meta)?));
+        let outer_list = std::mem::take(&mut self.ctx.list);
+        let table = self.parse_table(lines, meta)?;
+        self.ctx.list = outer_list;
+        self.blanks_before_chunk = 0;
+        return Ok(Some(table));
       }
       GreaterThan if lines.nth_token(1).kind(Whitespace) => {
         return self.parse_markdown_blockquote(lines, meta);
@@ -345,6 +349,8 @@ impl<'arena> Parser<'arena> {
 
     let prev = self.ctx.delimiter;
     self.ctx.delimiter = Some(delimiter);
+    // lists within the block know nothing of the lists around it
+    let outer_list = std::mem::take(&mut self.ctx.list);
     self.restore_lines(lines);
     let context = meta.block_style_or(Context::from(delimiter.kind));
     let restore_subs = self.ctx.set_subs_for(context, &meta);
@@ -422,6 +428,8 @@ impl<'arena> Parser<'arena> {
     };
 
     self.ctx.delimiter = prev;
+    self.ctx.list = outer_list;
+    self.blanks_before_chunk = 0;
     Ok(Some(Block {
       content,
       context,
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index 4a3559f..dfe38fc 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -31,8 +31,10 @@ impl<'arena> Parser<'arena> {
     let mut acc = Accum::new(inlines, text);
     let mut inline_attrs: Option<AttrList> = None;
 
+    let mut is_first = true;
     while let Some(mut line) = lines.consume_current() {
-      if self.should_stop_at(&line) {
+      let leading = std::mem::take(&mut is_first);
+      if self.should_stop_at(&line) || (!leading && self.ends_paragraph_in_list(&line)) {
         acc.inlines.remove_trailing_newline();
         lines.restore_if_nonempty(line);
         return self.finish_inlines(acc, inline_attrs);
@@ -1023,12 +1025,21 @@ impl<'arena> Parser<'arena> {
     Ok(())
   }
 
+  // within a list, lines which start a (nested, sibling or parent) list item,
+  // or attach a block to an item, end the paragraph they directly follow
+  fn ends_paragraph_in_list(&self, line: &Line<'arena>) -> bool {
+    !self.ctx.list.stack.is_empty()
+      && self.ctx.can_nest_blocks
+      && line.is_fully_unconsumed()
+      && (line.starts_list_item() || line.is_list_continuation())
+  }
+
   fn should_stop_at(&self, line: &Line<'arena>) -> bool {
     // delimiter
     (line.current_is(DelimiterLine) && self.ctx.can_nest_blocks)
 
     // new block from attr list-ish
-    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.delimiter.is_none())
+    || ((line.is_block_attr_list() || line.is_block_anchor()) && self.ctx.can_nest_blocks)
 
     // description list
     || (
@@ -1036,9 +1047,6 @@ impl<'arena> Parser<'arena> {
       && (line.starts_description_list_item() || line.is_list_continuation())
     )
 
-    // list continuation
-    || (self.ctx.list.parsing_continuations && line.is_list_continuation())
-
     // special case: ending verbatim delimited block, non-matching delimiters
     // within the verbatim block are rendered as is
     || (
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..a2586e3 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -16,6 +16,7 @@ impl<'arena> Parser<'arena> {
     self.restore_lines(lines);
 
     self.ctx.list.stack.push(marker);
+    let in_description = std::mem::take(&mut self.ctx.list.parsing_description);
     let depth = self.ctx.list.stack.depth();
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
@@ -38,6 +39,7 @@ impl<'arena> Parser<'arena> {
       self.ctx.bibliography_ctx = BiblioContext::Section;
     }
     self.ctx.list.stack.pop();
+    self.ctx.list.parsing_description = in_description;
     if variant == ListVariant::Callout {
       self.ctx.advance_callout_list(self.bump);
     }
@@ -69,6 +71,7 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     }
 
+    self.blanks_before_chunk = 0;
     let mut line = lines.consume_current().unwrap();
     line.trim_leading_whitespace();
     if list_variant == ListVariant::Description {
@@ -105,14 +108,22 @@ impl<'arena> Parser<'arena> {
     if !line.is_empty() {
       item_lines.push(line);
     }
-    while lines
-      .current()
-      .map(|line| line.continues_list_item_principle())
-      .unwrap_or(false)
-    {
-      let mut line = lines.consume_current().unwrap();
-      line.discard_leading_whitespace();
-      item_lines.push(line);
+    loop {
+      // comment lines neither end the text of an item, nor the item
+      let comments = lines.num_leading_comment_lines();
+      if lines
+        .nth(comments)
+        .is_some_and(|line| line.continues_list_item_principle())
+      {
+        for _ in 0..=comments {
+          let mut line = lines.consume_current().unwrap();
+          line.discard_leading_whitespace();
+          item_lines.push(line);
+        }
+      } else {
+        lines.discard_leading_comment_lines();
+        break;
+      }
     }
 
     let mut item_lines = ContiguousLines::new(item_lines);
@@ -131,51 +142,41 @@ impl<'arena> Parser<'arena> {
   fn parse_list_item_blocks(
     &mut self,
     lines: ContiguousLines<'arena>,
-    mut blocks: BumpVec<'arena, Block<'arena>>,
+    blocks: BumpVec<'arena, Block<'arena>>,
   ) -> Result<BumpVec<'arena, Block<'arena>>> {
-    if lines.starts_nested_list(&self.ctx.list.stack, true) {
-      self.restore_lines(lines);
-      if let Some(block) = self.parse_block()? {
-        blocks.push(block);
-      }
-      return Ok(blocks);
-    }
-
-    if lines.starts_list_continuation() {
-      self.restore_lines(lines);
-      return self.parse_list_continuation_blocks(blocks);
-    }
-
-    if !lines.is_empty() {
-      self.restore_lines(lines);
-      return Ok(blocks);
-    }
-
-    let Some(lines) = self.read_lines()? else {
-      return Ok(blocks);
-    };
-
-    // ELSE IF the next Contiguous Lines starts a NESTED list, parse a block
-    if lines.starts_nested_list(&self.ctx.list.stack, false) {
-      blocks.push(self.parse_list(lines, None)?);
-      return Ok(blocks);
-    }
-
     self.restore_lines(lines);
-    Ok(blocks)
+    self.parse_list_continuation_blocks(blocks)
   }
 
   fn parse_list_continuation_blocks(
     &mut self,
     mut accum: BumpVec<'arena, Block<'arena>>,
   ) -> Result<BumpVec<'arena, Block<'arena>>> {
+    let adjoining = self.peeked_lines.is_some() && self.blanks_before_chunk == 0;
     let Some(mut lines) = self.read_lines()? else {
       return Ok(accum);
     };
 
-    if lines.starts_nested_list(&self.ctx.list.stack, false) {
-      accum.push(self.parse_list(lines, None)?);
-      return Ok(accum);
+    if adjoining && lines.num_leading_comment_lines() < lines.len() {
+      lines.discard_leading_comment_lines();
+    }
+
+    if lines.starts_nested_list(&self.ctx.list.stack, adjoining) {
+      self.restore_lines(lines);
+      if let Some(block) = self.parse_block()? {
+        accum.push(block);
+      }
+      return self.parse_list_continuation_blocks(accum);
+    }
+
+    // indented lines belong to the item as a literal paragraph
+    if !adjoining && lines.starts_literal_paragraph() {
+      self.blanks_before_chunk = 0;
+      self.restore_lines(lines);
+      if let Some(block) = self.parse_block()? {
+        accum.push(block);
+      }
+      return self.parse_list_continuation_blocks(accum);
     }
 
     if !lines.starts_list_continuation() {
@@ -183,8 +184,15 @@ impl<'arena> Parser<'arena> {
       return Ok(accum);
     }
 
+    // each blank line before the continuation moves on to an enclosing item
+    if self.blanks_before_chunk > 0 && self.ctx.list.stack.len() > 1 {
+      self.blanks_before_chunk -= 1;
+      self.restore_lines(lines);
+      return Ok(accum);
+    }
+
     if let Some(marker) = lines.nth(1).and_then(|line| line.list_marker())
-      && self.ctx.list.stack.continues_current_list(marker)
+      && !self.ctx.list.stack.starts_nested_list(marker)
     {
       self.err_line("Dangling list continuation", lines.current().unwrap())?;
       lines.consume_current();
@@ -193,12 +201,11 @@ impl<'arena> Parser<'arena> {
     }
 
     lines.consume_current(); // the `+` line starting the continuation
+    self.blanks_before_chunk = 0;
     self.restore_lines(lines);
-    self.ctx.list.parsing_continuations = true;
     if let Some(block) = self.parse_block()? {
       accum.push(block);
     }
-    self.ctx.list.parsing_continuations = false;
     self.parse_list_continuation_blocks(accum)
   }
 
@@ -219,12 +226,10 @@ impl<'arena> Parser<'arena> {
       self.restore_lines(lines);
     }
 
-    let description = self
-      .parse_block()?
-      .filter(|block| block.context != BlockContext::Comment);
+    let description = self.parse_description_list_item_text()?;
 
     Ok(Some(ListItem {
-      blocks: self.parse_description_list_item_blocks()?,
+      blocks: self.parse_list_continuation_blocks(BumpVec::new_in(self.bump))?,
       marker,
       marker_src,
       type_meta: ListItemTypeMeta::DescList { description, extra_terms },
@@ -232,6 +237,33 @@ impl<'arena> Parser<'arena> {
     }))
   }
 
+  fn parse_description_list_item_text(&mut self) -> Result<Option<Block<'arena>>> {
+    let Some(mut lines) = self.read_lines()? else {
+      return Ok(None);
+    };
+    if lines.num_leading_comment_lines() < lines.len() {
+      lines.discard_leading_comment_lines();
+    }
+    let ends_item = lines.current().is_some_and(|line| {
+      // a sibling item, or one of an enclosing list
+      line.is_fully_unconsumed()
+        && line
+          .list_marker()
+          .is_some_and(|marker| !self.ctx.list.stack.starts_nested_list(marker))
+    });
+    let starts_continuation = lines.starts_list_continuation();
+    self.restore_lines(lines);
+    if ends_item || starts_continuation {
+      return Ok(None);
+    }
+
+    self.blanks_before_chunk = 0;
+    self.ctx.list.parsing_description = true;
+    let description = self.parse_block()?;
+    self.ctx.list.parsing_description = false;
+    Ok(description.filter(|block| block.context != BlockContext::Comment))
+  }
+
   fn parse_description_list_term(
     &mut self,
     line: &mut Line<'arena>,
@@ -260,31 +292,13 @@ impl<'arena> Parser<'arena> {
       return Ok(());
     }
     lines.discard_leading_comment_lines();
+    self.blanks_before_chunk = 0;
     let mut line = lines.consume_current().unwrap();
     terms.push(self.parse_description_list_term(&mut line)?);
     lines.restore_if_nonempty(line);
     self.restore_lines(lines);
     self.gather_extra_terms(marker, terms)
   }
-
-  fn parse_description_list_item_blocks(&mut self) -> Result<BumpVec<'arena, Block<'arena>>> {
-    let mut blocks = BumpVec::new_in(self.bump);
-    let Some(lines) = self.read_lines()? else {
-      return Ok(blocks);
-    };
-    if lines.starts_list_continuation() {
-      self.restore_lines(lines);
-      blocks = self.parse_list_continuation_blocks(blocks)?;
-    } else if lines.starts_nested_list(&self.ctx.list.stack, true) {
-      self.restore_lines(lines);
-      if let Some(block) = self.parse_block()? {
-        blocks.push(block);
-      }
-    } else {
-      self.restore_lines(lines);
-    }
-    Ok(blocks)
-  }
 }
 
 // tests
-- 
2.43.0


From b4760a7ef9cd19610098978b88f27b18053fb97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:03 +0000
Subject: [PATCH 70/72] fix: table cells, implicit header rows and empty fields
 of every format; lines of whitespace are blank lines

---
 parser/src/lexer/root_lexer.rs            | 15 ++++-
 parser/src/lexer/source_lexer.rs          | 75 ++++++++++++----------
 parser/src/tasks/table/mod.rs             | 22 ++++++-
 parser/src/tasks/table/parse_csv_table.rs | 10 +--
 parser/src/tasks/table/parse_dsv_table.rs | 45 ++++++-------
 parser/src/tasks/table/parse_psv_table.rs |  9 ++-
 parser/src/tasks/table/parse_table.rs     | 78 ++++++++++++++---------
 7 files changed, 152 insertions(+), 102 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 11acca2..f0245a6 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -200,10 +200,23 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn at_newline(&self) -> bool {
-    self.peek_is(b'\n') || self.peek_is(b'\r')
+    match &self.tmp_buf {
+      Some((tmp_buf, _)) => matches!(tmp_buf.peek(), Some(b'\n' | b'\r')),
+      None => self
+        .unfinished_source()
+        .is_some_and(SourceLexer::at_newline),
+    }
   }
 
   pub fn skip_newline(&mut self) {
+    if self.tmp_buf.is_none() {
+      let trailing = self
+        .unfinished_source()
+        .map_or(0, SourceLexer::blank_line_whitespace);
+      for _ in 0..trailing {
+        self.skip_byte();
+      }
+    }
     if self.peek_is(b'\r') {
       self.skip_byte();
     }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 149c730..c9a5602 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -141,6 +141,7 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn skip_newline(&mut self) {
+    self.pos += self.blank_line_whitespace();
     if self.peek_is(b'\r') {
       self.advance();
     }
@@ -168,37 +169,20 @@ impl<'arena> SourceLexer<'arena> {
     {
       return None;
     }
-    let sequence = [
-      self.nth(0),
-      self.nth(1),
-      self.nth(2),
-      self.nth(3),
-      self.nth(4),
-    ];
-    match sequence {
-      [Some(b'`'), Some(b'`'), Some(b'`'), b, _] if b != Some(b'`') => Some((3, b'`')),
-      [Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None, _, _] => Some((2, b'-')),
-      #[rustfmt::skip]
-        [Some(b'*'), Some(b'*'), Some(b'*'), Some(b'*'), Some(b'\n' | b'\r') | None]
-      | [Some(b'_'), Some(b'_'), Some(b'_'), Some(b'_'), Some(b'\n' | b'\r') | None]
-      | [Some(b'-'), Some(b'-'), Some(b'-'), Some(b'-'), Some(b'\n' | b'\r') | None]
-      | [Some(b'+'), Some(b'+'), Some(b'+'), Some(b'+'), Some(b'\n' | b'\r') | None]
-      | [Some(b'.'), Some(b'.'), Some(b'.'), Some(b'.'), Some(b'\n' | b'\r') | None]
-      | [Some(b'/'), Some(b'/'), Some(b'/'), Some(b'/'), Some(b'\n' | b'\r') | None]
-      | [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'\n' | b'\r') | None] => {
-        Some((4, sequence[0].unwrap()))
-      },
-      [Some(b'='), Some(b'='), Some(b'='), Some(b'='), Some(b'=')] => {
-        let mut n = 5;
-        while self.nth(n) == Some(b'=') {
-          n += 1;
-        }
-        if matches!(self.nth(n), Some(b'\n' | b'\r') | None) {
-          Some((n, b'='))
-        } else {
-          None
-        }
-      }
+    let delim = self.nth(0)?;
+    let mut len = 1;
+    while self.nth(len) == Some(delim) {
+      len += 1;
+    }
+    let mut end = len;
+    while matches!(self.nth(end), Some(b' ' | b'\t')) {
+      end += 1;
+    }
+    match (delim, len) {
+      (b'`', 3) => Some((3, b'`')),
+      (b'-', 2) if self.is_line_end(end) => Some((2, b'-')),
+      (b'*' | b'_' | b'-' | b'+' | b'.' | b'/', 4) if self.is_line_end(end) => Some((4, delim)),
+      (b'=', 4..) if self.is_line_end(end) => Some((len, delim)),
       _ => None,
     }
   }
@@ -276,8 +260,25 @@ impl<'arena> SourceLexer<'arena> {
     self.at_line_start() && self.at_newline()
   }
 
-  fn at_newline(&self) -> bool {
-    self.peek_is(b'\n') || self.peek_is(b'\r')
+  // a line of nothing but whitespace is a blank line
+  pub fn at_newline(&self) -> bool {
+    self.peek_is(b'\n') || self.peek_is(b'\r') || self.blank_line_whitespace() > 0
+  }
+
+  /// number of whitespace bytes that make up a blank line
+  pub fn blank_line_whitespace(&self) -> u32 {
+    if !self.at_line_start() {
+      return 0;
+    }
+    let mut n = 0;
+    while matches!(self.nth(n), Some(b' ' | b'\t')) {
+      n += 1;
+    }
+    if self.is_line_end(n) { n } else { 0 }
+  }
+
+  fn is_line_end(&self, n: u32) -> bool {
+    matches!(self.nth(n), Some(b'\n' | b'\r') | None)
   }
 
   fn nth(&self, n: u32) -> Option<u8> {
@@ -288,7 +289,13 @@ impl<'arena> SourceLexer<'arena> {
     let (len, _) = self.at_delimiter_line()?;
     let start = self.pos;
     self.skip(len);
-    Some(self.token(DelimiterLine, start, start + len))
+    let token = self.token(DelimiterLine, start, start + len);
+    if len != 3 {
+      while matches!(self.peek(), Some(b' ' | b'\t')) {
+        self.advance();
+      }
+    }
+    Some(token)
   }
 
   fn skip(&mut self, n: u32) {
diff --git a/parser/src/tasks/table/mod.rs b/parser/src/tasks/table/mod.rs
index a1508d2..34de7ce 100644
--- a/parser/src/tasks/table/mod.rs
+++ b/parser/src/tasks/table/mod.rs
@@ -101,7 +101,7 @@ impl<'arena> TableTokens<'arena> {
     let Some(sep) = embeddable_separator else {
       return self.consume_current();
     };
-    if !self.current().kind(TokenKind::Word) {
+    if !self.current().kind(TokenKind::Word) && !self.current().kind(TokenKind::Whitespace) {
       return self.consume_current();
     }
 
@@ -112,10 +112,11 @@ impl<'arena> TableTokens<'arena> {
       debug_assert!(!before.is_empty());
       let lexeme = BumpString::from_str_in(before, self.0.bump_arena());
       let loc = token.loc;
+      let kind = token.kind;
       let before_len = before.len() as u32;
       self.drop_leading_bytes(before_len);
       Some(Token {
-        kind: TokenKind::Word,
+        kind,
         lexeme,
         loc: SourceLocation::new(loc.start, loc.start + before_len, loc.include_depth),
         attr_replacement: false,
@@ -125,6 +126,23 @@ impl<'arena> TableTokens<'arena> {
     }
   }
 
+  /// consume what a backslash escapes: only the separator, if that's what comes next
+  pub fn consume_escaped(&mut self, sep: char) -> Option<Token<'arena>> {
+    let token = self.current()?;
+    let sep_len = sep.len_utf8();
+    if !token.lexeme.starts_with(sep) || token.lexeme.len() == sep_len {
+      return self.consume_current();
+    }
+    let loc = token.loc;
+    self.drop_leading_bytes(sep_len as u32);
+    Some(Token {
+      kind: TokenKind::Word,
+      lexeme: BumpString::from_str_in(sep.encode_utf8(&mut [0; 4]), self.0.bump_arena()),
+      loc: SourceLocation::new(loc.start, loc.start + sep_len as u32, loc.include_depth),
+      attr_replacement: false,
+    })
+  }
+
   pub fn is_empty(&self) -> bool {
     self.0.is_empty()
   }
diff --git a/parser/src/tasks/table/parse_csv_table.rs b/parser/src/tasks/table/parse_csv_table.rs
index fe539d1..46a272c 100644
--- a/parser/src/tasks/table/parse_csv_table.rs
+++ b/parser/src/tasks/table/parse_csv_table.rs
@@ -38,13 +38,9 @@ impl<'arena> Parser<'arena> {
           .map(|data| data.map(|(cell, _)| cell));
       }
 
-      let token = tokens
-        .consume_splitting(ctx.embeddable_cell_separator)
-        .unwrap();
-
-      if token.kind(Newline) {
-        ctx.counting_cols = false
-      }
+      // neither separators nor newlines end anything within quotes
+      let separator = if quote.is_some() { None } else { ctx.embeddable_cell_separator };
+      let token = tokens.consume_splitting(separator).unwrap();
 
       end = token.loc.end;
       match token.kind {
diff --git a/parser/src/tasks/table/parse_dsv_table.rs b/parser/src/tasks/table/parse_dsv_table.rs
index b8ce8cc..c62e87c 100644
--- a/parser/src/tasks/table/parse_dsv_table.rs
+++ b/parser/src/tasks/table/parse_dsv_table.rs
@@ -50,8 +50,10 @@ impl<'arena> Parser<'arena> {
     let mut start = tokens.current().unwrap().loc.start;
 
     let mut trimmed_newline = false;
-    while tokens.current().is_whitespaceish() {
-      let trimmed = tokens.consume_current().unwrap();
+    while tokens.current().is_whitespaceish() && !self.at_dsv_separator(tokens, ctx) {
+      let trimmed = tokens
+        .consume_splitting(ctx.embeddable_cell_separator)
+        .unwrap();
       start = trimmed.loc.end;
       if trimmed.kind(TokenKind::Newline) {
         trimmed_newline = true;
@@ -59,6 +61,11 @@ impl<'arena> Parser<'arena> {
       }
     }
 
+    // trailing blank lines
+    if tokens.is_empty() && ctx.dsv_last_consumed != DsvLastConsumed::Delimiter {
+      return Ok(None);
+    }
+
     // delimiter followed by newline is an empty cell
     if ctx.dsv_last_consumed == DsvLastConsumed::Delimiter && trimmed_newline {
       let spec = CellSpec::default();
@@ -67,21 +74,11 @@ impl<'arena> Parser<'arena> {
         .map(|data| data.map(|(cell, _)| cell));
     }
 
-    let maybe_cell = match ctx.format {
-      DataFormat::Csv(_) => self.finish_csv_table_cell(tokens, ctx, col_index, start)?,
-      DataFormat::Delimited(_) => self.finish_dsv_table_cell(tokens, ctx, col_index, start)?,
+    match ctx.format {
+      DataFormat::Csv(_) => self.finish_csv_table_cell(tokens, ctx, col_index, start),
+      DataFormat::Delimited(_) => self.finish_dsv_table_cell(tokens, ctx, col_index, start),
       _ => unreachable!(),
-    };
-
-    if ctx.header_row.is_unknown()
-      && maybe_cell.is_some()
-      && ctx.dsv_last_consumed == DsvLastConsumed::Newline
-      && tokens.current().kind(TokenKind::Newline)
-    {
-      ctx.header_row = HeaderRow::FoundImplicit;
     }
-
-    Ok(maybe_cell)
   }
 
   fn finish_dsv_table_cell(
@@ -108,13 +105,19 @@ impl<'arena> Parser<'arena> {
       end = token.loc.end;
       if !token.kind(TokenKind::Backslash) {
         cell_tokens.push(token);
-      } else if let Some(next) = tokens.consume_current() {
+      } else if let Some(next) = tokens.consume_escaped(ctx.cell_separator) {
         end = next.loc.end;
         cell_tokens.push(next);
       }
     }
   }
 
+  fn at_dsv_separator(&self, tokens: &TableTokens, ctx: &TableContext) -> bool {
+    tokens
+      .current()
+      .is_some_and(|token| token.lexeme.starts_with(ctx.cell_separator))
+  }
+
   pub(crate) fn consume_dsv_delimiter(
     &self,
     tokens: &mut TableTokens,
@@ -128,16 +131,6 @@ impl<'arena> Parser<'arena> {
     }
 
     ctx.dsv_last_consumed = DsvLastConsumed::Other;
-    if let Some(tokenkind) = ctx.cell_separator_tokenkind {
-      return if tokens.current().kind(tokenkind) {
-        ctx.dsv_last_consumed = DsvLastConsumed::Delimiter;
-        tokens.consume_current();
-        true
-      } else {
-        false
-      };
-    }
-
     let sep_len = ctx.cell_separator.len_utf8();
     let token = tokens.current_mut().unwrap();
     if token.lexeme.starts_with(ctx.cell_separator) {
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 852ea41..7ba352d 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -107,15 +107,21 @@ impl<'arena> Parser<'arena> {
 
     let mut end = start;
     let mut cell_tokens = Line::empty(self.bump);
+    // the spec of the next cell must be set off from the text of this one
+    let mut after_space = false;
 
     // trim leading whitespace
     while tokens.current().kind(TokenKind::Whitespace) {
       let trimmed = tokens.consume_current().unwrap();
       start = trimmed.loc.end;
+      after_space = true;
     }
 
     loop {
-      if self.starts_psv_cell(tokens, ctx.cell_separator) {
+      let at_sep = tokens
+        .current()
+        .is_some_and(|token| token.lexeme.starts_with(ctx.cell_separator));
+      if (after_space || at_sep) && self.starts_psv_cell(tokens, ctx.cell_separator) {
         if drop_invalid_cell {
           return self.parse_psv_table_cell(tokens, ctx, col_index);
         } else {
@@ -138,6 +144,7 @@ impl<'arena> Parser<'arena> {
       }
 
       end = token.loc.end;
+      after_space = token.is_whitespaceish();
       // NB: allow for escaping a delimiter, but other backslashes should pass thru
       if !token.kind(TokenKind::Backslash) || !self.starts_psv_cell(tokens, ctx.cell_separator) {
         cell_tokens.push(token);
diff --git a/parser/src/tasks/table/parse_table.rs b/parser/src/tasks/table/parse_table.rs
index 323f8df..28e3dab 100644
--- a/parser/src/tasks/table/parse_table.rs
+++ b/parser/src/tasks/table/parse_table.rs
@@ -25,8 +25,8 @@ impl<'arena> Parser<'arena> {
       .unwrap_or_else(|| bvec![in self.bump]);
 
     let mut format = match (meta.attrs.named("format"), delim_ch) {
-      (Some("psv"), b'!') if self.ctx.parsing_adoc_cell() => DataFormat::Prefix('!'),
-      (Some("psv"), _) => DataFormat::Csv('|'),
+      (Some("psv"), b'!') => DataFormat::Prefix('!'),
+      (Some("psv"), _) => DataFormat::Prefix('|'),
       (Some("csv"), _) => DataFormat::Csv(','),
       (Some("tsv"), _) => DataFormat::Csv('\t'),
       (Some("dsv"), _) => DataFormat::Delimited(':'),
@@ -84,11 +84,14 @@ impl<'arena> Parser<'arena> {
       ctx.header_row = HeaderRow::ExplicitlySet;
     } else if meta.attrs.has_option("noheader") {
       ctx.header_row = HeaderRow::ExplicitlyUnset;
-    } else if lines.len() != 1 {
+    } else if lines.is_empty() {
       ctx.header_row = HeaderRow::FoundNone;
     }
 
     let (mut tokens, end_loc) = self.table_content(lines, &delim_line)?;
+    if ctx.header_row.is_unknown() && !self.has_implicit_header(&tokens, &ctx) {
+      ctx.header_row = HeaderRow::FoundNone;
+    }
     if ctx.counting_cols {
       if !matches!(ctx.format, DataFormat::Prefix(_)) {
         self.parse_dsv_implicit_first_row(&mut tokens, &mut ctx)?;
@@ -119,11 +122,45 @@ impl<'arena> Parser<'arena> {
     })
   }
 
+  // the first row is a header if the first line is set off by a blank line,
+  // unless the text of its last cell continues beyond that
+  fn has_implicit_header(
+    &self,
+    tokens: &TableTokens<'arena>,
+    ctx: &TableContext<'arena>,
+  ) -> bool {
+    let mut idx = 0;
+    let mut quotes = 0;
+    while let Some(token) = tokens.nth(idx).filter(|token| !token.kind(Newline)) {
+      quotes += usize::from(token.kind(DoubleQuote));
+      idx += 1;
+    }
+    let mut newlines = 0;
+    while let Some(token) = tokens.nth(idx).filter(|token| token.is_whitespaceish()) {
+      newlines += usize::from(token.kind(Newline));
+      idx += 1;
+    }
+    if newlines < 2 || (matches!(ctx.format, DataFormat::Csv(_)) && quotes % 2 == 1) {
+      return false;
+    }
+    if matches!(ctx.format, DataFormat::Prefix(_)) && tokens.nth(idx).is_some() {
+      let mut rest = tokens.clone();
+      rest.discard(idx);
+      if !self.starts_psv_cell(&mut rest, ctx.cell_separator) {
+        return false;
+      }
+    }
+    true
+  }
+
   pub(crate) fn push_table_row(
     &mut self,
     mut row: Row<'arena>,
     ctx: &mut TableContext<'arena>,
   ) -> Result<()> {
+    if ctx.header_row.is_unknown() {
+      ctx.header_row = HeaderRow::FoundImplicit;
+    }
     if ctx.table.rows.is_empty()
       && ctx.table.header_row.is_none()
       && ctx.header_row.known_to_exist()
@@ -134,9 +171,6 @@ impl<'arena> Parser<'arena> {
       ctx.table.header_row = Some(row);
     } else {
       ctx.table.rows.push(row);
-      if ctx.header_row.is_unknown() {
-        ctx.header_row = HeaderRow::FoundNone;
-      }
     }
     Ok(())
   }
@@ -152,6 +186,9 @@ impl<'arena> Parser<'arena> {
     ctx.effective_row_idx += 1;
     let width = if ctx.autowidths { ColWidth::Auto } else { ColWidth::Proportional(1) };
     ctx.table.col_widths = ColWidths::new(bvec![in self.bump; width; ctx.num_cols]);
+    if ctx.header_row.is_unknown() {
+      ctx.header_row = HeaderRow::FoundImplicit;
+    }
     if ctx.header_row.known_to_exist() {
       let mut row = Row::new(cells);
       if ctx.header_row == HeaderRow::FoundImplicit {
@@ -160,9 +197,6 @@ impl<'arena> Parser<'arena> {
       ctx.table.header_row = Some(row);
     } else {
       ctx.table.rows.push(Row::new(cells));
-      if ctx.header_row.is_unknown() {
-        ctx.header_row = HeaderRow::FoundNone;
-      }
     }
     Ok(())
   }
@@ -184,29 +218,13 @@ impl<'arena> Parser<'arena> {
       cell_style = CellContentStyle::Default;
     }
 
-    let mut trimmed_implicit_header = false;
-    if ctx.header_row.is_unknown() && matches!(ctx.format, DataFormat::Prefix(_)) {
-      let mut ws = SmallVec::<[TokenKind; 12]>::new();
-      while cell_tokens.last().is_whitespaceish() {
-        let token = cell_tokens.pop().unwrap();
-        loc.end = token.loc.start;
-        ws.push(token.kind);
-      }
-      if ws.len() > 1 && ws[ws.len() - 2..] == [Newline, Newline] {
-        trimmed_implicit_header = true;
-        ctx.header_row = HeaderRow::FoundImplicit;
-      } else if cell_tokens.contains_seq(&[TokenSpec::Kind(Newline); 2]) {
-        ctx.header_row = HeaderRow::FoundNone
-      }
-    } else {
-      while cell_tokens.last().is_whitespaceish() {
-        loc.end = cell_tokens.pop().unwrap().loc.start;
-      }
+    while cell_tokens.last().is_whitespaceish() {
+      loc.end = cell_tokens.pop().unwrap().loc.start;
     }
 
     let repeat = cell_spec.duplication.unwrap_or(1);
     if cell_style == CellContentStyle::AsciiDoc {
-      if ctx.header_row.is_unknown() || trimmed_implicit_header {
+      if ctx.header_row.is_unknown() {
         // each duplicated cell needs its own data
         for _ in 0..repeat.max(1) {
           ctx.header_reparse_cells.push(ParseCellData {
@@ -265,9 +283,7 @@ impl<'arena> Parser<'arena> {
       cell_spec,
       col_spec: col_spec.cloned(),
     };
-    if cell_style == CellContentStyle::Literal
-      && (ctx.header_row.is_unknown() || trimmed_implicit_header)
-    {
+    if cell_style == CellContentStyle::Literal && ctx.header_row.is_unknown() {
       for _ in 0..repeat.max(1) {
         ctx.header_reparse_cells.push(cell_data.clone());
       }
-- 
2.43.0


From b4cdcf77a5a1a0721792032b61970083c290af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:54 +0000
Subject: [PATCH 71/72] fix: trailing whitespace of lines is insignificant

---
 parser/src/lexer/root_lexer.rs      |  8 ++++----
 parser/src/lexer/source_lexer.rs    | 27 ++++++++++++++++++++-------
 parser/src/tasks/parse_doc_attrs.rs | 13 ++++++++++---
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index f0245a6..06a6e0c 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -35,7 +35,7 @@ impl<'arena> RootLexer<'arena> {
       next_idx: None,
       source_stack: Vec::new(),
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
-      sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump)],
+      sources: bvec![in bump; SourceLexer::new(src, file, 0, None, Rc::new(bvec![in bump]), bump).trimming_lines()],
       tmp_buf: None,
     }
   }
@@ -47,7 +47,7 @@ impl<'arena> RootLexer<'arena> {
       next_idx: None,
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       source_stack: Vec::new(),
-      sources: bvec![in bump; SourceLexer::from_str(src, file, bump)],
+      sources: bvec![in bump; SourceLexer::from_str(src, file, bump).trimming_lines()],
       tmp_buf: None,
     }
   }
@@ -59,7 +59,7 @@ impl<'arena> RootLexer<'arena> {
       next_idx: None,
       plugin_macros: Rc::new(BumpVec::new_in(bump)),
       source_stack: Vec::new(),
-      sources: bvec![in bump; SourceLexer::from_byte_slice(bytes, file, bump)],
+      sources: bvec![in bump; SourceLexer::from_byte_slice(bytes, file, bump).trimming_lines()],
       tmp_buf: None,
     }
   }
@@ -212,7 +212,7 @@ impl<'arena> RootLexer<'arena> {
     if self.tmp_buf.is_none() {
       let trailing = self
         .unfinished_source()
-        .map_or(0, SourceLexer::blank_line_whitespace);
+        .map_or(0, SourceLexer::insignificant_whitespace);
       for _ in 0..trailing {
         self.skip_byte();
       }
diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index c9a5602..0175685 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -13,6 +13,8 @@ pub struct SourceLexer<'arena> {
   pub leveloffset: i8,
   pub plugin_macros: Rc<BumpVec<'arena, BumpString<'arena>>>,
   pub max_include_depth: Option<u16>,
+  /// included asciidoc files are trimmed when read, others must be kept as they are
+  pub trim_lines: bool,
 }
 
 impl<'arena> SourceLexer<'arena> {
@@ -32,6 +34,7 @@ impl<'arena> SourceLexer<'arena> {
       leveloffset,
       file,
       max_include_depth,
+      trim_lines: false,
       plugin_macros,
     }
   }
@@ -49,10 +52,16 @@ impl<'arena> SourceLexer<'arena> {
       leveloffset: 0,
       file,
       max_include_depth: None,
+      trim_lines: false,
       plugin_macros: Rc::new(bvec![in bump]),
     }
   }
 
+  pub fn trimming_lines(mut self) -> Self {
+    self.trim_lines = true;
+    self
+  }
+
   pub fn next_token(&mut self) -> Option<Token<'arena>> {
     if let Some(token) = self.delimiter_line() {
       return Some(token);
@@ -141,7 +150,7 @@ impl<'arena> SourceLexer<'arena> {
   }
 
   pub fn skip_newline(&mut self) {
-    self.pos += self.blank_line_whitespace();
+    self.pos += self.insignificant_whitespace();
     if self.peek_is(b'\r') {
       self.advance();
     }
@@ -260,21 +269,25 @@ impl<'arena> SourceLexer<'arena> {
     self.at_line_start() && self.at_newline()
   }
 
-  // a line of nothing but whitespace is a blank line
   pub fn at_newline(&self) -> bool {
-    self.peek_is(b'\n') || self.peek_is(b'\r') || self.blank_line_whitespace() > 0
+    self.peek_is(b'\n') || self.peek_is(b'\r') || self.insignificant_whitespace() > 0
   }
 
-  /// number of whitespace bytes that make up a blank line
-  pub fn blank_line_whitespace(&self) -> u32 {
-    if !self.at_line_start() {
+  /// number of whitespace bytes that make up a blank line, or trail the text of a line
+  pub fn insignificant_whitespace(&self) -> u32 {
+    let blank_line = self.at_line_start();
+    if !blank_line && !self.trim_lines {
       return 0;
     }
     let mut n = 0;
     while matches!(self.nth(n), Some(b' ' | b'\t')) {
       n += 1;
     }
-    if self.is_line_end(n) { n } else { 0 }
+    match self.nth(n) {
+      Some(b'\n' | b'\r') => n,
+      None if blank_line => n,
+      _ => 0,
+    }
   }
 
   fn is_line_end(&self, n: u32) -> bool {
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index b497da7..6c3fbc0 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -106,8 +106,9 @@ impl<'arena> Parser<'arena> {
 
     // gather line continuations
     loop {
-      if attr_def_string.ends_with(" \\") {
-        attr_def_string.pop();
+      let text = attr_def_string.trim_end_matches([' ', '\t']).len();
+      if attr_def_string[..text].ends_with(" \\") {
+        attr_def_string.truncate(text - 1);
 
         // https://docs.asciidoctor.org/asciidoc/latest/attributes/wrap-values/#hard
         if attr_def_string.ends_with(" + ") {
@@ -173,7 +174,13 @@ impl<'arena> Parser<'arena> {
       observer.attr_defined(&name, &value, name_src.loc);
     }
 
-    let attr_def_loc = SourceLocation::new(start_loc, pos, depth);
+    let mut end = pos;
+    while self.lexer.byte_at(pos, depth).is_some()
+      && matches!(self.lexer.byte_at(end - 1, depth), Some(b' ' | b'\t'))
+    {
+      end -= 1;
+    }
+    let attr_def_loc = SourceLocation::new(start_loc, end, depth);
     self.ctx.attr_defs.push(AttrDef {
       name: name.clone(),
       loc: attr_def_loc,
-- 
2.43.0


From 6af85400091ab388736cdf27fd6de27d30edd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 72/72] fix: a tab at the end of a line may separate an empty
 field

---
 parser/src/lexer/source_lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lexer/source_lexer.rs b/parser/src/lexer/source_lexer.rs
index 0175685..b705978 100644
--- a/parser/src/lexer/source_lexer.rs
+++ b/parser/src/lexer/source_lexer.rs
@@ -280,7 +280,8 @@ impl<'arena> SourceLexer<'arena> {
       return 0;
     }
     let mut n = 0;
-    while matches!(self.nth(n), Some(b' ' | b'\t')) {
+    // NB: a tab might separate the fields of a table
+    while self.nth(n) == Some(b' ') || (blank_line && self.nth(n) == Some(b'\t')) {
       n += 1;
     }
     match self.nth(n) {
-- 
2.43.0

