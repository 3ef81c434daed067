From 4397a471942b62563783f8d107305b157be46906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 01/32] fix: diagnostic positions in sources with multi-byte
 characters

---
 src/utils/sourcefile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..2543008 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -126,7 +126,8 @@ impl SourceFile {
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
+                // `index` is a byte offset, so there must be one entry per byte
+                coords.resize(coords.len() + c.len_utf8(), (line, col));
             }
             coords.into_boxed_slice()
         })[index as usize]
-- 
2.43.0


From b8f2634f41d37a46b50f0a37e6fb916e54fb6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 02/32] fix: invalid escape sequences are reported instead of
 causing a panic

---
 src/parser/tokenizer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..8d7d690 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -135,18 +135,17 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
             match chars.next() {
                 Some('\n') => {
                     on_error(errors::SyntaxError::TokenInvalidEscape);
-                    (1, TokenKind::Escape)
+                    (1, TokenKind::RawText)
                 },
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
-                        end
+                    if matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit())) {
+                        (end, TokenKind::Escape)
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-                        2
-                    };
-                    (len, TokenKind::Escape)
+                        (2, TokenKind::RawText)
+                    }
                 } else {
                     (1 + c.len_utf8(), TokenKind::Escape)
                 },
-- 
2.43.0


From 034524cd3ed0e0f0fc44026ef4c56c23c6569449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 03/32] fix: indentation with multi-byte whitespace characters

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From 0d157bc39a2edfa42666731c7d50187632b513b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 04/32] fix: repeated unique IDs are lowercase identifiers
 within the length limit

---
 src/utils/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..7babe2d 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,7 +169,8 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        // `id` is a lowercase identifier, so it is ASCII and can be sliced
+        let mut id_base = id.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From 1e569cdccd9fa7e6d6bac9fe6be06d0de84f161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 05/32] fix: the common type of heterogeneous values is 'any'

---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From 044ae138e0ad69bc138d4c8331d2c4710598e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 06/32] fix: a link with block content is not inline

---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From f122b493032f2fbec36e41ab801b99dd32779e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 07/32] fix: integer overflow is reported as an error

---
 src/compiler/highlight.rs   |  6 +++---
 src/compiler/native.rs      | 19 ++++++++++++-------
 src/errors/runtime_error.rs |  2 ++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..8609f1e 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -180,16 +180,16 @@ impl <'a> LineHighlighter<'a> {
     }
 }
 
-pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
+pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> Option<HTML> {
     let mut out = Vec::new();
     for (i, line) in lines.into_iter().enumerate() {
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &start.checked_add(i as Int)?.to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
-    HTML::from_iter(out)
+    Some(HTML::from_iter(out))
 }
 
 fn no_highlighting(src: &str) -> Vec<HTML> {
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..91158b3 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            ARGS.into_iter()
+                .try_fold(0, Int::checked_add)
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +229,9 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| Some([Value::Int(FROM.checked_add(i as Int)?), v].into()))
+                .collect::<Option<Vec<Value>>>()
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         @bind_content
@@ -424,7 +428,7 @@ crate::native_defs! {
     }
     
     fn CODE(LANGUAGE: implicit Option<RcStr> = (), CODE_BLOCK: named bool = false, FIRST_LINE_NO: named Int = 1, SOURCE: content RcStr) {
-        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)
+        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)?
     }
     
     fn IMPORT(PATH: content RcStr) {
@@ -494,7 +498,7 @@ impl <'a> Compiler<'a> {
         Ok(undecorated.into())
     }
     
-    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> Tag {
+    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> errors::PapyriResult<Tag> {
         use super::highlight::{syntax_highlight, enumerate_lines};
         
         let default = language.as_ref()
@@ -518,6 +522,7 @@ impl <'a> Compiler<'a> {
         
         tag.content = if is_block {
             enumerate_lines(lines, first_line_no)
+                .ok_or(errors::RuntimeError::IntOverflow)?
         } else {
             if first_line_no != 1 {
                 self.report(errors::Warning::InlineHighlightEnumerate, call_range);
@@ -528,7 +533,7 @@ impl <'a> Compiler<'a> {
             HTML::from_iter(lines)
         };
         
-        tag
+        Ok(tag)
     }
     
     fn native_fetch_impl(&mut self, path: RcStr) -> errors::PapyriResult<String> {
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..70d7a54 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -32,6 +32,7 @@ pub enum RuntimeError {
     Raised(std::rc::Rc<str>),
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
+    IntOverflow,
     ParseIntError(std::num::ParseIntError),
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
@@ -67,6 +68,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::Raised(msg) => f.write_str(msg),
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
+            RuntimeError::IntOverflow => f.write_str("integer overflow"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
-- 
2.43.0


From 9fb8e7e7f20c75eae0c70ef30315f8e6f2aeb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 08/32] fix: files can be written when the output directory is
 given as e.g. './out' or '../out'

---
 src/utils/relpath.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..171286f 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -7,11 +7,17 @@ use crate::errors;
 
 /// Converts the given path `rel` into a normalised relative path using the
 /// given `base` path. Returns `None` if the resulting path would not be a
-/// descendant of `base`.
+/// descendant of `base`. If `base` is itself a relative path, it is resolved
+/// from the current working directory.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
+    // normalising a relative path would discard any leading `..` components
+    let base = std::env::current_dir().ok()?
+        .join(base)
+        .normalize();
+    
     base.join(rel)
         .normalize()
-        .strip_prefix(base)
+        .strip_prefix(&base)
         .map(Path::to_path_buf)
         .ok()
 }
-- 
2.43.0


From d4dded56f24646ef7d1adb0a0dcc46eca18f3e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 09/32] fix: the output directory itself is not accepted as the
 path of an output file

---
 src/utils/relpath.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 171286f..2af9186 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -20,6 +20,7 @@ pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
         .strip_prefix(&base)
         .map(Path::to_path_buf)
         .ok()
+        .filter(|p| !p.as_os_str().is_empty())
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From 7a3af86700986c594ff0742023cf703d476754be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 10/32] fix: listing directories with '.PAPYRI' files, or
 subdirectories with '.papyri' names

---
 src/compiler/native.rs | 9 ++++-----
 src/utils/relpath.rs   | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 91158b3..d138303 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -397,11 +397,10 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                .map(|p| {
+                    let path = format!("{base_path}/{}", p.to_string_lossy());
+                    path.strip_suffix(".papyri").unwrap_or(&path).into()
+                })
                 .collect::<Vec<Value>>()
         }
         
diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 2af9186..0efd913 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -60,7 +60,7 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
     let mut paths: Vec<_> = walkdir::WalkDir::new(path)
         .into_iter()
         .filter_map(entry_to_path)
-        .filter(|p| super::sourcefile::is_papyri_file(p))
+        .filter(|p| super::sourcefile::is_papyri_file(p) && !canonical_path.join(p).is_dir())
         .collect();
     
     paths.sort();
-- 
2.43.0


From cde55395ea66f3be9f82eb373af9ce3a4576b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 11/32] fix: failure to write the end of an output file is
 reported

---
 src/bin/papyri.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index dc55923..42831de 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -1,4 +1,5 @@
 use std::{fs, io};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use arg::Args;
 use indexmap::IndexSet;
@@ -118,7 +119,9 @@ impl Main {
         let result = self.ctx.compile_synthetic("<stdin>", src_str.as_ref());
         
         if self.ctx.diagnostics.is_empty() {
-            self.ctx.render(&result.out, !self.options.text, &mut std::io::stdout())
+            let mut stdout = std::io::stdout();
+            self.ctx.render(&result.out, !self.options.text, &mut stdout)
+                .and_then(|()| stdout.flush())
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
             self.ctx.diagnostics.print_to_stderr();
@@ -293,6 +296,7 @@ impl Main {
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
         self.ctx.render(&html, !self.options.text, &mut out_writer)
+            .and_then(|()| out_writer.flush())
             .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
         
         if !self.options.silent {
-- 
2.43.0


From 3367b1004199b59029dc1691dea476e1b1b686b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 12/32] fix: incomplete output files are not left behind to be
 skipped as unchanged

---
 src/bin/papyri.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 42831de..f418d85 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -291,13 +291,21 @@ impl Main {
             .map_or(Ok(()), fs::create_dir_all)
             .map_err(|e| format!("Failed to create directory \"{path_str}\": {e}"))?;
         
-        let mut out_writer = fs::File::create(path)
+        // write to a temporary file first; an incomplete output file would be
+        // skipped as unchanged the next time `--skip-unchanged` is used
+        let mut tmp_path = path.as_os_str().to_os_string();
+        tmp_path.push(".tmp");
+        let mut out_writer = fs::File::create(&tmp_path)
             .map(io::BufWriter::new)
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
         self.ctx.render(&html, !self.options.text, &mut out_writer)
             .and_then(|()| out_writer.flush())
-            .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
+            .and_then(|()| fs::rename(&tmp_path, path))
+            .map_err(|e| {
+                let _ = fs::remove_file(&tmp_path);
+                format!("Failed to write file \"{path_str}\": {e}")
+            })?;
         
         if !self.options.silent {
             println!("    => {path_str}");
-- 
2.43.0


From 420260e9e7ec46a42a57e00d4c1b7050319d0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 13/32] fix: compile_str does not allow file IO, as documented

---
 src/compiler/context.rs       | 15 +++++++++++++++
 src/compiler/module_loader.rs |  2 ++
 src/compiler/native.rs        |  2 ++
 src/errors/runtime_error.rs   |  2 ++
 src/lib.rs                    |  1 +
 5 files changed, 22 insertions(+)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2b95148..4cd3ed6 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -36,6 +36,10 @@ pub struct Context {
     /// The output files collector for this compiler context, if it has one.
     pub out_files: Option<OutFiles<HTML>>,
     
+    /// Whether Papyri source files are allowed to read from the filesystem,
+    /// including by using `@import` or `@include`. This is true by default.
+    pub allow_file_io: bool,
+    
     /// An HTTP client used for net requests, if enabled.
     pub http_client: Option<reqwest::blocking::Client>,
 }
@@ -55,6 +59,7 @@ impl Context {
             natives_frame,
             unique_ids: text::UniqueIDGenerator::new(),
             out_files: out_dir.map(OutFiles::new),
+            allow_file_io: true,
             http_client,
         };
         ctx.compile_stdlib();
@@ -77,6 +82,16 @@ impl Context {
         }
     }
     
+    /// Returns an error if this context does not allow Papyri source files to
+    /// read from the filesystem.
+    pub(super) fn check_file_io_allowed(&self) -> errors::PapyriResult {
+        if self.allow_file_io {
+            Ok(())
+        } else {
+            Err(errors::RuntimeError::FileIODisabled.into())
+        }
+    }
+    
     /// Clears any state from the previous compile job. Any `out_files` must
     /// already have been handled before calling this method.
     pub fn reset(&mut self) {
diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index d2be480..a6c1123 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -107,6 +107,8 @@ impl Context {
     /// This method should only be used to load a module included or imported
     /// by another Papyri source file.
     pub fn load_cached(&mut self, path: path::PathBuf) -> PapyriResult<CachedCompileResult> {
+        self.check_file_io_allowed()?;
+        
         // use `match` instead of `.map_err` here because otherwise rustc thinks `path` is moved
         let k = match fs::canonicalize(&path) {
             Ok(canonical_path) => canonical_path,
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index d138303..295a974 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -390,6 +390,7 @@ crate::native_defs! {
     
     impl FILE {
         fn LIST(PATH: content RcStr) {
+            compiler.ctx.check_file_io_allowed()?;
             let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
             let base_path = PATH.trim_end_matches('/');
             relpath::find_papyri_source_files_in_dir(
@@ -405,6 +406,7 @@ crate::native_defs! {
         }
         
         fn READ(PATH: content RcStr) {
+            compiler.ctx.check_file_io_allowed()?;
             let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
             std::fs::read_to_string(path)
                 .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 70d7a54..b4996d5 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -34,6 +34,7 @@ pub enum RuntimeError {
     IndexOutOfRange(i64, usize),
     IntOverflow,
     ParseIntError(std::num::ParseIntError),
+    FileIODisabled,
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
@@ -70,6 +71,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
             RuntimeError::IntOverflow => f.write_str("integer overflow"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
+            RuntimeError::FileIODisabled => f.write_str("file access is not enabled"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
diff --git a/src/lib.rs b/src/lib.rs
index 5b49100..d1c714c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@ pub mod utils;
 /// context, use `compiler::Context::compile_synthetic`.
 pub fn compile_str(src: &str) -> Result<String, errors::Diagnostics> {
     let mut ctx = compiler::Context::new(errors::ReportingLevel::Warning, None, None);
+    ctx.allow_file_io = false;
     let result = ctx.compile_synthetic("<string>", src);
     
     if ctx.diagnostics.is_empty() {
-- 
2.43.0


From 694ce1013e6b1b77aff83e911692f86e3cdd3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 14/32] fix: a module which failed to compile is not importable
 by the next source file

---
 src/compiler/module_loader.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index a6c1123..19edec1 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -100,9 +100,9 @@ impl Context {
     /// Loads a Papyri source file from the filesystem and compiles it, or
     /// returns a cached result if the source file has already been loaded and
     /// compiled. This fails if the source file cannot be read, if a circular
-    /// import is detected, or if either of those two failures occurred during
-    /// a previous attempt to load the same module; any other errors which
-    /// occur during compilation are reported through `self.diagnostics`.
+    /// import is detected, or if any error occurred during a previous attempt
+    /// to load the same module; any other errors which occur during compilation
+    /// are reported through `self.diagnostics`.
     /// 
     /// This method should only be used to load a module included or imported
     /// by another Papyri source file.
@@ -124,14 +124,16 @@ impl Context {
                 
                 // compile with no `out_files`
                 let old_out_files = std::mem::take(&mut self.out_files);
+                let old_num_errors = self.diagnostics.num_errors;
                 let result = self.load_uncached(&path)
                     .map(|r| (r.out, Rc::new(r.exports)));
                 
                 self.out_files = old_out_files;
                 
-                let state = result.as_ref()
-                    .cloned()
-                    .map_or(ModuleState::Error, ModuleState::Loaded);
+                let state = match &result {
+                    Ok(r) if self.diagnostics.num_errors == old_num_errors => ModuleState::Loaded(r.clone()),
+                    _ => ModuleState::Error,
+                };
                 
                 self.module_cache.set_by_index(index, state);
                 result
-- 
2.43.0


From 273c104fd381cda27980faeb30237902016f0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 15/32] fix: unique IDs generated by an imported module are not
 repeated in the next document

---
 src/compiler/context.rs       |  1 +
 src/compiler/module_loader.rs | 15 +++++++++++++++
 src/utils/text.rs             |  5 +++++
 3 files changed, 21 insertions(+)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 4cd3ed6..5f9b919 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -97,6 +97,7 @@ impl Context {
     pub fn reset(&mut self) {
         self.diagnostics.clear();
         self.unique_ids.clear();
+        self.module_cache.reset();
         if matches!(&self.out_files, Some(o) if !o.is_empty()) {
             errors::ice("Output files were not consumed");
         }
diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index 19edec1..34cedae 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -22,6 +22,10 @@ pub struct ModuleCache {
     
     /// The cache of compiled modules.
     cache: IndexMap<Box<path::Path>, ModuleState, fxhash::FxBuildHasher>,
+    
+    /// Indicates whether any unique IDs were generated by a cached module. If
+    /// so, they are only unique within the current document.
+    has_unique_ids: bool,
 }
 
 type CachedCompileResult = (HTML, RcDict);
@@ -47,6 +51,15 @@ impl ModuleCache {
         ModuleCache {
             stdlib: None,
             cache: IndexMap::default(),
+            has_unique_ids: false,
+        }
+    }
+    
+    /// Forgets the compiled modules if any of them generated unique IDs, since
+    /// the same IDs may be generated again in another document.
+    pub(super) fn reset(&mut self) {
+        if std::mem::take(&mut self.has_unique_ids) {
+            self.cache.clear();
         }
     }
     
@@ -125,10 +138,12 @@ impl Context {
                 // compile with no `out_files`
                 let old_out_files = std::mem::take(&mut self.out_files);
                 let old_num_errors = self.diagnostics.num_errors;
+                let old_num_ids = self.unique_ids.len();
                 let result = self.load_uncached(&path)
                     .map(|r| (r.out, Rc::new(r.exports)));
                 
                 self.out_files = old_out_files;
+                self.module_cache.has_unique_ids |= self.unique_ids.len() != old_num_ids;
                 
                 let state = match &result {
                     Ok(r) if self.diagnostics.num_errors == old_num_errors => ModuleState::Loaded(r.clone()),
diff --git a/src/utils/text.rs b/src/utils/text.rs
index 7babe2d..26ee30c 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -145,6 +145,11 @@ impl UniqueIDGenerator {
         }
     }
     
+    /// Returns the number of IDs issued since the last call to `clear()`.
+    pub(crate) fn len(&self) -> usize {
+        self.ids_used.len()
+    }
+    
     /// Clears this generator, allowing previously-issued IDs to be reused.
     pub fn clear(&mut self) {
         self.ids_used.clear();
-- 
2.43.0


From be39c86f46eb6bc6b92f37aaa0930afa053d7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 16/32] fix: a content parameter with the same name as another
 parameter is reported

---
 src/parser/func.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/func.rs b/src/parser/func.rs
index b231da5..1208c81 100644
--- a/src/parser/func.rs
+++ b/src/parser/func.rs
@@ -66,6 +66,7 @@ impl <'a> Parser<'a> {
         let mut positional_spread = false;
         let mut named_count = 0;
         let mut named_spread = false;
+        let mut names_used = NameIDSet::default();
         
         self.skip_whitespace();
         let lpar = self.poll_if_kind(TokenKind::LPar);
@@ -78,7 +79,6 @@ impl <'a> Parser<'a> {
             )?;
             
             let mut any_named_params = false;
-            let mut names_used = NameIDSet::default();
             let mut any_optional_params = false;
             let mut any_optional_named_params = false;
             
@@ -138,7 +138,10 @@ impl <'a> Parser<'a> {
             (false, dot.range)
         } else {
             let (c, spread_kind, _) = self.parse_param()?;
-            if spread_kind != SpreadKind::NoSpread {
+            if names_used.contains(&c.name_id) {
+                let name = self.string_pool.get(c.name_id);
+                self.report(SyntaxError::ParamDuplicateName(name), c.range);
+            } else if spread_kind != SpreadKind::NoSpread {
                 self.report(SyntaxError::ParamContentSpread, c.range);
             } else if let Some(value) = c.default_value.as_ref() {
                 self.report(SyntaxError::ParamContentDefault, value.range());
-- 
2.43.0


From ce7ec5dc9e13c0edef5fbe34613ff8f032b9b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 17/32] fix: a comment does not turn the quote after it the
 wrong way

---
 src/parser/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 8d7d690..2071f13 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -45,6 +45,8 @@ pub fn tokenize(src: Rc<SourceFile>, strip_comments: bool, diagnostics: &mut err
         
         quote_dir = match kind {
             TokenKind::Equals | TokenKind::LBrace | TokenKind::LPar | TokenKind::LSqb | TokenKind::RAngle | TokenKind::Newline | TokenKind::Whitespace => QuoteDir::Left,
+            // a comment does not change which characters are around the quote
+            TokenKind::Comment => quote_dir,
             _ => QuoteDir::Right,
         };
         cur = end;
-- 
2.43.0


From b7e0d8408587ba88efa7d9ab088a34d6edc84b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 18/32] fix: attributes whose names are rendered the same are
 not accepted twice in a tag

---
 src/compiler/render.rs |  5 ++---
 src/compiler/tag.rs    | 12 ++++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/compiler/render.rs b/src/compiler/render.rs
index a9f7757..eae766f 100644
--- a/src/compiler/render.rs
+++ b/src/compiler/render.rs
@@ -3,7 +3,7 @@ use std::io;
 use crate::utils::{StringPool, str_ids, taginfo, text};
 use super::context::Context;
 use super::html::HTML;
-use super::tag::Tag;
+use super::tag::{attr_name, Tag};
 
 /// Renders a compiled Papyri document to HTML (or plain text).
 struct Renderer<'a, T: io::Write> {
@@ -53,8 +53,7 @@ impl <'a, T: io::Write> Renderer<'a, T> {
         if self.as_html {
             write!(self.writer, "<{name}")?;
             for (&k, v) in tag.attributes.iter() {
-                let attr_name = self.string_pool.get(k)
-                    .replace('_', "-");
+                let attr_name = attr_name(&self.string_pool.get(k));
                 write!(self.writer, " {attr_name}")?;
                 if let Some(v) = v {
                     write!(self.writer, "=\"{}\"", text::encode_entities(v, true))?;
diff --git a/src/compiler/tag.rs b/src/compiler/tag.rs
index f77360c..6a0b39c 100644
--- a/src/compiler/tag.rs
+++ b/src/compiler/tag.rs
@@ -58,6 +58,11 @@ impl From<Tag> for Value {
     }
 }
 
+/// Returns the name of an attribute, as it is rendered.
+pub(super) fn attr_name(name: &str) -> String {
+    name.replace('_', "-")
+}
+
 impl <'a> Compiler<'a> {
     pub(super) fn compile_tag(&mut self, tag: &ast::Tag) -> errors::Reported<Tag> {
         let tag_name_id = self.compile_tag_name(&tag.name)?;
@@ -112,10 +117,13 @@ impl <'a> Compiler<'a> {
     }
     
     fn add_attr(&mut self, attrs: &mut AttrMap, name_id: NameID, value: Option<RcStr>, range: SourceRange) -> errors::Reported {
-        if attrs.insert(name_id, value).is_some() {
-            let name = self.get_name(name_id);
+        let name = self.get_name(name_id);
+        let rendered_name = attr_name(&name);
+        // attribute names in HTML are case-insensitive
+        if attrs.keys().any(|&k| attr_name(&self.get_name(k)).eq_ignore_ascii_case(&rendered_name)) {
             return Err(self.report(errors::RuntimeError::AttrMultipleValues(name), range));
         }
+        attrs.insert(name_id, value);
         Ok(())
     }
 }
-- 
2.43.0


From a34abb30c8e16a6be054def597438ed0d3ebc7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 19/32] fix: html::parse lost the contents of <template>
 elements

---
 src/compiler/html_parse.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index 6547d37..2bab480 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -42,7 +42,7 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
         // TODO: represent doctypes properly
         NodeData::Doctype {..} => HTML::Empty,
         
-        NodeData::Element {name, attrs, ..} => {
+        NodeData::Element {name, attrs, template_contents, ..} => {
             let name_id = pool.insert_lowercase(name.local.as_ref());
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
@@ -52,10 +52,14 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
                     Some(attr.value.as_ref().into()),
                 ))
                 .collect();
-            let children: HTML = node.children.borrow()
-                .iter()
-                .map(|node| node_to_html(node, pool))
-                .collect();
+            // the contents of a `<template>` are in a separate document fragment
+            let children: HTML = match template_contents.borrow().as_ref() {
+                Some(contents) => node_to_html(contents, pool),
+                None => node.children.borrow()
+                    .iter()
+                    .map(|node| node_to_html(node, pool))
+                    .collect(),
+            };
             
             HTML::Tag(Tag::new_with_attrs(
                 name_id,
-- 
2.43.0


From 5de52d159d2f40398033c8af9fd92e925bc1b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 20/32] fix: html::parse dropped the prefix of xlink:, xml: and
 xmlns: attributes

---
 src/compiler/html_parse.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index 2bab480..816f1dc 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -46,11 +46,16 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
             let name_id = pool.insert_lowercase(name.local.as_ref());
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
-                .map(|attr| (
-                    pool.insert_lowercase(attr.name.local.as_ref()),
+                .map(|attr| {
+                    let local = attr.name.local.as_ref();
+                    // e.g. `xlink:href`
+                    let name_id = match attr.name.prefix.as_deref() {
+                        None | Some("") => pool.insert_lowercase(local),
+                        Some(prefix) => pool.insert_lowercase(format!("{prefix}:{local}")),
+                    };
                     // TODO: correctly represent boolean attributes as None
-                    Some(attr.value.as_ref().into()),
-                ))
+                    (name_id, Some(attr.value.as_ref().into()))
+                })
                 .collect();
             // the contents of a `<template>` are in a separate document fragment
             let children: HTML = match template_contents.borrow().as_ref() {
-- 
2.43.0


From 66efe0103b8454bcb7bb006e493e45e8fed91762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:19 +0000
Subject: [PATCH 21/32] fix: html::parse changed non-ASCII letters in names,
 e.g. the Kelvin sign to an ASCII k

---
 src/utils/string_pool.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/string_pool.rs b/src/utils/string_pool.rs
index 5915147..14c6491 100644
--- a/src/utils/string_pool.rs
+++ b/src/utils/string_pool.rs
@@ -67,7 +67,8 @@ impl StringPool {
     /// and returns its unique ID.
     pub(crate) fn insert_lowercase<T>(&mut self, s: T) -> NameID
     where T: AsRef<str> {
-        self.insert(s.as_ref().to_lowercase())
+        // names in HTML are only case-insensitive for ASCII letters
+        self.insert(s.as_ref().to_ascii_lowercase())
     }
     
     pub(crate) fn get_id_if_present(&self, s: &str) -> Option<NameID> {
-- 
2.43.0


From 04f5c8e2c020cdff1e670849c291aa7b1ae737fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 22/32] fix: a newline at the start of <pre> or <textarea>
 content is lost when the output is parsed

---
 src/compiler/render.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/compiler/render.rs b/src/compiler/render.rs
index eae766f..3dd6639 100644
--- a/src/compiler/render.rs
+++ b/src/compiler/render.rs
@@ -60,6 +60,10 @@ impl <'a, T: io::Write> Renderer<'a, T> {
                 }
             }
             write!(self.writer, ">")?;
+            // HTML parsers ignore a newline directly after these start tags
+            if matches!(name.as_ref(), "pre" | "textarea" | "listing") && starts_with_newline(&tag.content) {
+                writeln!(self.writer)?;
+            }
         }
         
         self.render(&tag.content)?;
@@ -79,6 +83,16 @@ impl <'a, T: io::Write> Renderer<'a, T> {
     }
 }
 
+/// Indicates whether the text of the given HTML item starts with a newline.
+fn starts_with_newline(html: &HTML) -> bool {
+    match html {
+        HTML::Text(t) => t.starts_with('\n'),
+        HTML::RawNewline => true,
+        HTML::Sequence(seq) => seq.iter().next().map_or(false, starts_with_newline),
+        _ => false,
+    }
+}
+
 impl Context {
     /// Renders the given HTML content to the writer.
     pub fn render<T: io::Write>(&self, html: &HTML, as_html: bool, writer: &mut T) -> io::Result<()> {
-- 
2.43.0


From 37943428d8472c5b0bbcb08f48c1cc40c2effb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:53 +0000
Subject: [PATCH 23/32] fix: an output file named like another one with .tmp
 added was lost

---
 src/bin/papyri.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index f418d85..79328a3 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -292,9 +292,9 @@ impl Main {
             .map_err(|e| format!("Failed to create directory \"{path_str}\": {e}"))?;
         
         // write to a temporary file first; an incomplete output file would be
-        // skipped as unchanged the next time `--skip-unchanged` is used
-        let mut tmp_path = path.as_os_str().to_os_string();
-        tmp_path.push(".tmp");
+        // skipped as unchanged the next time `--skip-unchanged` is used. Its name
+        // must not be that of another output file.
+        let tmp_path = path.with_file_name(format!(".papyri-{}.tmp", std::process::id()));
         let mut out_writer = fs::File::create(&tmp_path)
             .map(io::BufWriter::new)
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
-- 
2.43.0


From a64d0b89e4f243aba4269c217f4745c87f6dc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 24/32] fix: exit status 0 although source files could not be
 searched for

---
 src/bin/papyri.rs    | 54 ++++++++++++++++++++++++++++----------------
 src/utils/relpath.rs | 10 +++++---
 2 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 79328a3..9341289 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -143,7 +143,8 @@ impl Main {
         let mut num_skipped = 0;
         let mut num_files_written = 0;
         
-        for src_path in self.get_source_paths()? {
+        let (source_paths, num_file_errors) = self.get_source_paths()?;
+        for src_path in source_paths {
             match self.process_source_file(&src_path, &in_dir)? {
                 SourceFileResult::OkWroteFiles(k) => {
                     num_ok += 1;
@@ -164,7 +165,10 @@ impl Main {
             "{num_files_written} file{} written; {num_ok} OK, {num_failed} failed, {num_skipped} skipped",
             utils::text::pluralise(num_files_written),
         );
-        if num_failed > 0 {
+        if num_file_errors > 0 {
+            // some source files may be missing from the counts
+            Err(format!("{msg}; {num_file_errors} file error{}", utils::text::pluralise(num_file_errors)))
+        } else if num_failed > 0 {
             Err(msg)
         } else {
             if !self.options.silent { println!("{msg}"); }
@@ -172,8 +176,11 @@ impl Main {
         }
     }
     
-    fn get_source_paths(&self) -> Result<IndexSet<PathBuf, fxhash::FxBuildHasher>, String> {
+    /// Returns the paths of the source files to compile, and the number of file
+    /// errors which were reported while searching for them.
+    fn get_source_paths(&self) -> Result<(IndexSet<PathBuf, fxhash::FxBuildHasher>, u32), String> {
         let mut source_paths = IndexSet::default();
+        let mut num_errors = 0;
         for path_str in self.options.paths.iter() {
             if utils::text::looks_like_glob(path_str) {
                 // glob pattern
@@ -189,27 +196,36 @@ impl Main {
                 }
             } else {
                 let path = PathBuf::from(path_str);
-                if path.is_dir() {
-                    // directory
-                    let paths = utils::relpath::find_papyri_source_files_in_dir(
-                        &path,
-                        |p, e| eprintln!("File error: {e} in \"{}\"", p.to_string_lossy()),
-                    );
-                    if let Ok(paths) = paths {
-                        for p in paths {
-                            source_paths.insert(path.join(p));
+                match fs::metadata(&path) {
+                    Ok(m) if m.is_dir() => {
+                        // directory
+                        let paths = utils::relpath::find_papyri_source_files_in_dir(&path, |p, e| {
+                            // a dangling symbolic link is not a source file
+                            if e.kind() != io::ErrorKind::NotFound { num_errors += 1; }
+                            eprintln!("File error: {e} in \"{}\"", p.to_string_lossy());
+                        });
+                        if let Ok(paths) = paths {
+                            for p in paths {
+                                source_paths.insert(path.join(p));
+                            }
                         }
-                    }
-                } else if utils::sourcefile::is_papyri_file(&path) {
-                    // source file
-                    source_paths.insert(path);
-                } else {
-                    eprintln!("File \"{path_str}\" is not a Papyri source file");
+                    },
+                    _ if utils::sourcefile::is_papyri_file(&path) => {
+                        // source file
+                        source_paths.insert(path);
+                    },
+                    Err(e) => {
+                        num_errors += 1;
+                        eprintln!("File error: {e} in \"{path_str}\"");
+                    },
+                    Ok(_) => {
+                        eprintln!("File \"{path_str}\" is not a Papyri source file");
+                    },
                 }
             }
         }
         source_paths.sort();
-        Ok(source_paths)
+        Ok((source_paths, num_errors))
     }
     
     fn process_source_file(&mut self, src_path: &Path, in_dir: &Path) -> Result<SourceFileResult, String> {
diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 0efd913..9302885 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -11,9 +11,13 @@ use crate::errors;
 /// from the current working directory.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
     // normalising a relative path would discard any leading `..` components
-    let base = std::env::current_dir().ok()?
-        .join(base)
-        .normalize();
+    let base = if base.is_absolute() {
+        base.normalize()
+    } else {
+        std::env::current_dir().ok()?
+            .join(base)
+            .normalize()
+    };
     
     base.join(rel)
         .normalize()
-- 
2.43.0


From e747b2a9e4256f840f19b84c011a308a7b53c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 25/32] fix: a source file with brackets in its name is not
 taken for a pattern

---
 src/bin/papyri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 9341289..f2a7866 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -182,7 +182,7 @@ impl Main {
         let mut source_paths = IndexSet::default();
         let mut num_errors = 0;
         for path_str in self.options.paths.iter() {
-            if utils::text::looks_like_glob(path_str) {
+            if utils::text::looks_like_glob(path_str) && fs::symlink_metadata(path_str).is_err() {
                 // glob pattern
                 let paths = glob::glob(path_str)
                     .map_err(|e| format!("Pattern error: {e} at \"{path_str}\""))?;
-- 
2.43.0


From 0810dc1bcce069f3a845aa7a1c410cafa0138c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:51 +0000
Subject: [PATCH 26/32] fix: a directory matching a pattern is not taken for a
 source file

---
 src/bin/papyri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index f2a7866..b3fa992 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -190,7 +190,7 @@ impl Main {
                 for entry in paths {
                     let path = entry
                         .map_err(|e| format!("File error: {e} at \"{path_str}\""))?;
-                    if utils::sourcefile::is_papyri_file(&path) {
+                    if utils::sourcefile::is_papyri_file(&path) && !path.is_dir() {
                         source_paths.insert(path);
                     }
                 }
-- 
2.43.0


From f95b6eb3034f2e5a603a258fe99d6b3be6abc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 27/32] fix: a source file selected by several spellings of its
 path is compiled once

---
 src/bin/papyri.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index b3fa992..fadfa62 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -1,4 +1,6 @@
 use std::{fs, io};
+use std::collections::HashSet;
+use std::ffi::OsStr;
 use std::io::Write;
 use std::path::{Path, PathBuf};
 use arg::Args;
@@ -143,7 +145,7 @@ impl Main {
         let mut num_skipped = 0;
         let mut num_files_written = 0;
         
-        let (source_paths, num_file_errors) = self.get_source_paths()?;
+        let (source_paths, num_file_errors) = self.get_source_paths(&in_dir)?;
         for src_path in source_paths {
             match self.process_source_file(&src_path, &in_dir)? {
                 SourceFileResult::OkWroteFiles(k) => {
@@ -178,7 +180,7 @@ impl Main {
     
     /// Returns the paths of the source files to compile, and the number of file
     /// errors which were reported while searching for them.
-    fn get_source_paths(&self) -> Result<(IndexSet<PathBuf, fxhash::FxBuildHasher>, u32), String> {
+    fn get_source_paths(&self, in_dir: &Path) -> Result<(IndexSet<PathBuf, fxhash::FxBuildHasher>, u32), String> {
         let mut source_paths = IndexSet::default();
         let mut num_errors = 0;
         for path_str in self.options.paths.iter() {
@@ -225,6 +227,17 @@ impl Main {
             }
         }
         source_paths.sort();
+        
+        // the same source file may be selected by different spellings of its path
+        let mut seen = HashSet::new();
+        source_paths.retain(|p| {
+            let out_path = self.options.out_dir.as_ref()
+                .and_then(|_| utils::relpath::make_relative(in_dir, p));
+            let src_dir = p.parent()
+                .and_then(|d| fs::canonicalize(in_dir.join(d)).ok());
+            src_dir.map_or(true, |d| seen.insert((d, p.file_name().map(OsStr::to_owned), out_path)))
+        });
+        
         Ok((source_paths, num_errors))
     }
     
-- 
2.43.0


From a91ee8d9f24aac41fbadd4cf7cd97e917c2200aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 28/32] fix: whitespace before empty braces in a string is kept

---
 src/parser/template.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/parser/template.rs b/src/parser/template.rs
index 3cf6378..f2ef66d 100644
--- a/src/parser/template.rs
+++ b/src/parser/template.rs
@@ -7,7 +7,7 @@ use super::token::{Token, TokenKind, QuoteKind};
 impl <'a> Parser<'a> {
     pub(super) fn parse_template_parts(&mut self, open: Token, open_kind: QuoteKind) -> Reported<(Vec<TemplatePart>, SourceRange)> {
         let mut parts: Vec<TemplatePart> = Vec::new();
-        let mut brace_stack: Vec<Token> = Vec::new();
+        let mut brace_stack: Vec<(Token, usize)> = Vec::new();
         let close = loop {
             let tok = self.expect_poll()
                 .map_err(|_| self.err_unmatched(open))?;
@@ -20,15 +20,17 @@ impl <'a> Parser<'a> {
                 },
                 
                 TokenKind::LBrace => {
-                    brace_stack.push(tok);
+                    brace_stack.push((tok, parts.len()));
                     self.skip_whitespace();
                 },
-                TokenKind::RBrace => {
-                    if brace_stack.pop().is_none() {
+                TokenKind::RBrace => match brace_stack.pop() {
+                    None => {
                         self.err_unexpected_token(tok);
-                    } else if matches!(parts.last(), Some(TemplatePart::Whitespace)) {
+                    },
+                    // whitespace before the opening brace is kept
+                    Some((_, i)) => if matches!(parts[i..].last(), Some(TemplatePart::Whitespace)) {
                         parts.pop();
-                    }
+                    },
                 },
                 
                 TokenKind::VarName => {
@@ -57,7 +59,7 @@ impl <'a> Parser<'a> {
             }
         };
         
-        for tok in brace_stack {
+        for (tok, _) in brace_stack {
             self.err_unmatched(tok);
         }
         
-- 
2.43.0


From caee555b09e946cf896fd7b7d6b3a976eb5b21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 29/32] fix: the value of an implicit parameter belongs to its
 type, or an error is reported

---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From 4bdfd44f19ee7290caf646c6c13dd713b755d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 30/32] fix: a source file with an upper-case extension can be
 imported by its listed path

---
 src/compiler/native.rs  | 4 ++--
 src/utils/sourcefile.rs | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 295a974..9cbb954 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -1,6 +1,6 @@
 use crate::errors;
 use crate::utils::{str_ids, text, relpath};
-use crate::utils::sourcefile::{SourceRange, SourceFileID};
+use crate::utils::sourcefile::{SourceRange, SourceFileID, has_papyri_suffix};
 use crate::parser::Type;
 use super::base::Compiler;
 use super::func::Func;
@@ -562,7 +562,7 @@ impl <'a> Compiler<'a> {
             .to_path_buf();
         
         path.pop();
-        if add_papyri_suffix && !relative_path.ends_with(".papyri") {
+        if add_papyri_suffix && !has_papyri_suffix(relative_path) {
             path.push(format!("{relative_path}.papyri"));
         } else {
             path.push(relative_path);
diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 2543008..75cdc37 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -12,6 +12,11 @@ pub fn is_papyri_file(path: &path::Path) -> bool {
     matches!(path.extension(), Some(ext) if ext.eq_ignore_ascii_case("papyri"))
 }
 
+/// Determines whether the given string ends with the `.papyri` extension.
+pub(crate) fn has_papyri_suffix(path_str: &str) -> bool {
+    path_str.to_ascii_lowercase().ends_with(".papyri")
+}
+
 /// Determines whether the given file path appears to a Papyri library, i.e. a
 /// file with the `.lib.papyri` extension.
 pub fn is_papyri_library(path: &path::Path) -> bool {
-- 
2.43.0


From a39ad0f34161b94b20673cf938012e225a97e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 31/32] fix: file::list gives paths of the listed files for an
 empty or root path, and for names with two extensions

---
 src/compiler/native.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 9cbb954..2be634c 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -392,15 +392,24 @@ crate::native_defs! {
         fn LIST(PATH: content RcStr) {
             compiler.ctx.check_file_io_allowed()?;
             let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
-            let base_path = PATH.trim_end_matches('/');
+            // `trim_end_matches` would change an empty or root path
+            let base_path = match PATH.trim_end_matches('/') {
+                "" => std::path::Path::new(PATH.as_ref()),
+                s => std::path::Path::new(s),
+            };
             relpath::find_papyri_source_files_in_dir(
                     &path,
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
                 .map(|p| {
-                    let path = format!("{base_path}/{}", p.to_string_lossy());
-                    path.strip_suffix(".papyri").unwrap_or(&path).into()
+                    let path = base_path.join(p);
+                    let path = path.to_string_lossy();
+                    // the extension is needed if there is another one before it
+                    path.strip_suffix(".papyri")
+                        .filter(|s| !has_papyri_suffix(s))
+                        .unwrap_or(&path)
+                        .into()
                 })
                 .collect::<Vec<Value>>()
         }
-- 
2.43.0


From ef6ea7031fed8af5e9a3184ceab484c0cedf7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 32/32] fix: a source file which is also found by a symbolic
 link is listed once

---
 src/utils/relpath.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 9302885..02e33f9 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -68,5 +68,7 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
         .collect();
     
     paths.sort();
+    // a symbolic link may lead to another of these files
+    paths.dedup();
     Ok(paths)
 }
-- 
2.43.0

