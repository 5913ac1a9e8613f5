From 8af3462e08a437ac24919a3f5bfd870352006bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 1/6] fix: restore max_width when a code block formatter panics

---
 src/formatter.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..e07128d 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -109,6 +109,19 @@ impl MarkdownFormatter {
     }
 }
 
+/// Sets the `max_width` of a [MarkdownFormatter] when dropped.
+struct RestoreMaxWidth<'m> {
+    formatter: &'m MarkdownFormatter,
+    max_width: Option<usize>,
+}
+
+impl Drop for RestoreMaxWidth<'_> {
+    fn drop(&mut self) {
+        self.formatter
+            .set_config(|c| c.set_max_width(self.max_width));
+    }
+}
+
 pub(crate) struct FormatState<'i, 'm, I>
 where
     I: Iterator,
@@ -552,6 +565,11 @@ where
         let indentation = self.indentation_len();
         let current_max_width = self.formatter.get_config(|c| c.max_width());
         let new_max_with = current_max_width.map(|width| width.saturating_sub(indentation));
+        // Restores the width when dropped, which also happens if the `code_block_formatter` panics.
+        let restore_max_width = RestoreMaxWidth {
+            formatter: self.formatter,
+            max_width: current_max_width,
+        };
         self.formatter.set_config(|c| c.set_max_width(new_max_with));
 
         let rewrite = if info_string.contains("markdown") {
@@ -569,8 +587,7 @@ where
         };
 
         // restore the width after formatting the code block
-        self.formatter
-            .set_config(|c| c.set_max_width(current_max_width));
+        drop(restore_max_width);
 
         rewrite
     }
-- 
2.43.0


From bf4878e1e7fabe7e928960b0c9dd5abc06fe170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 2/6] fix: include footnote indentation in the indentation of
 nested content

---
 src/footnote.rs  | 6 ++++++
 src/formatter.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 95eb986..5723221 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -30,6 +30,12 @@ impl FootnoteDefinition {
         self.buffer.is_empty()
     }
 
+    /// Get the length of the indentation that will be written before the buffered text
+    pub(super) fn indentation_len(&self) -> usize {
+        let outer_indentation: usize = self.indentation.iter().map(|i| i.len()).sum();
+        outer_indentation + FOOTNOTE_INDENTATION.len()
+    }
+
     /// Consume Self and return the formatted buffer
     pub(super) fn into_parts(self) -> (String, Vec<Cow<'static, str>>, Cow<'static, str>) {
         (self.buffer, self.indentation, FOOTNOTE_INDENTATION.into())
diff --git a/src/formatter.rs b/src/formatter.rs
index e07128d..9c49a33 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -269,7 +269,12 @@ where
 
     /// Get the length of the indentation
     fn indentation_len(&self) -> usize {
-        self.indentation.iter().map(|i| i.len()).sum()
+        // Footnote definitions take the indentation and restore it once they're formatted
+        let taken_indentation = self.writers.iter().map(|w| match w {
+            MarkdownWriter::FootnoteDefinition(f) => f.indentation_len(),
+            _ => 0,
+        });
+        self.indentation.iter().map(|i| i.len()).sum::<usize>() + taken_indentation.sum::<usize>()
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
-- 
2.43.0


From cb1d06e6da2877ac8855cd4dab006b6ec4964534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 3/6] fix: report errors when writing to stdout

---
 src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 03acee5..7eebb0b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@
 use clap::Parser;
 use markdown_fmt::{FormatBuilder, rewrite_markdown_with_builder};
 use std::fs;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use tracing_subscriber::{EnvFilter, fmt, prelude::*};
 
@@ -25,8 +26,10 @@ struct Cli {
 
 fn output_result(input: &Path, result: &str, stdout: bool) -> Result<(), anyhow::Error> {
     if stdout {
-        print!("{result}");
-        Ok(())
+        // Flush explicitly because errors are ignored when stdout is flushed at exit
+        let mut output = io::stdout().lock();
+        output.write_all(result.as_bytes())?;
+        Ok(output.flush()?)
     } else {
         Ok(std::fs::write(input, result)?)
     }
-- 
2.43.0


From 578be2959dc13b67368a23715ebfb8c328202aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 4/6] fix: write logs to stderr so they don't mix with --stdout
 output

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7eebb0b..9f051f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,7 +37,7 @@ fn output_result(input: &Path, result: &str, stdout: bool) -> Result<(), anyhow:
 
 fn main() -> Result<(), anyhow::Error> {
     tracing_subscriber::registry()
-        .with(fmt::layer())
+        .with(fmt::layer().with_writer(io::stderr))
         .with(EnvFilter::from_env("MARKDOWN_FMT_LOG"))
         .init();
 
-- 
2.43.0


From 253e094e3c60109a44da274e6bbfd6dfeaf51a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 5/6] fix: replace the input file atomically when formatting in
 place

---
 src/main.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9f051f4..2cffef3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,6 +24,56 @@ struct Cli {
     reflow_text: bool,
 }
 
+/// Overwrite a file so that it always contains either its original or all of its new content,
+/// even if writing fails or gets interrupted.
+fn replace_file(path: &Path, content: &str) -> io::Result<()> {
+    let metadata = fs::metadata(path)?;
+    if !metadata.is_file() {
+        return fs::write(path, content);
+    }
+    // Replace the file that symbolic links point to and not the link itself
+    let path = fs::canonicalize(path)?;
+    // Renaming doesn't require write permission for the file that gets replaced
+    fs::OpenOptions::new().write(true).open(&path)?;
+
+    let (tmp_path, mut tmp_file) = create_tmp_file(&path)?;
+    let result = (|| {
+        #[cfg(unix)]
+        {
+            use std::os::unix::fs::{MetadataExt, fchown};
+            // Keeping the owner is best effort since it might require additional privileges
+            let _ = fchown(&tmp_file, Some(metadata.uid()), Some(metadata.gid()));
+        }
+        tmp_file.set_permissions(metadata.permissions())?;
+        tmp_file.write_all(content.as_bytes())?;
+        tmp_file.sync_all()?;
+        fs::rename(&tmp_path, &path)
+    })();
+    if result.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    result
+}
+
+/// Create a new file in the same directory as `path`
+fn create_tmp_file(path: &Path) -> io::Result<(PathBuf, fs::File)> {
+    let pid = std::process::id();
+    let mut options = fs::OpenOptions::new();
+    options.write(true).create_new(true);
+    // Nobody else should be able to read the content before the final permissions are set
+    #[cfg(unix)]
+    std::os::unix::fs::OpenOptionsExt::mode(&mut options, 0o600);
+    let mut attempt = 0_u64;
+    loop {
+        let tmp_path = path.with_file_name(format!(".markdown-fmt-{pid}-{attempt}.tmp"));
+        match options.open(&tmp_path) {
+            Ok(file) => return Ok((tmp_path, file)),
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => attempt += 1,
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 fn output_result(input: &Path, result: &str, stdout: bool) -> Result<(), anyhow::Error> {
     if stdout {
         // Flush explicitly because errors are ignored when stdout is flushed at exit
@@ -31,7 +81,7 @@ fn output_result(input: &Path, result: &str, stdout: bool) -> Result<(), anyhow:
         output.write_all(result.as_bytes())?;
         Ok(output.flush()?)
     } else {
-        Ok(std::fs::write(input, result)?)
+        Ok(replace_file(input, result)?)
     }
 }
 
-- 
2.43.0


From 785a6d0fd4e6054d450caed6db71a5c6606bc36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:19 +0000
Subject: [PATCH 6/6] fix: report errors of writing the last part of a
 generated test file

The buffered writer was dropped without a flush, which ignores errors, so the build
script succeeded although a generated file was truncated or empty.
---
 build.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build.rs b/build.rs
index b3712ad..73b481a 100644
--- a/build.rs
+++ b/build.rs
@@ -142,7 +142,8 @@ where
     for test_case in test_cases.into_iter() {
         write_test_case(writer, prefix, test_case, url)?;
     }
-    Ok(())
+    // Dropping a buffered writer would ignore an error of the last write
+    writer.flush()
 }
 
 #[cfg(feature = "gen-tests")]
-- 
2.43.0

