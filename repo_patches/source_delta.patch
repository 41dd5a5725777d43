From 88b7ff5f4902d87d87e21254f193802507da9bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 01/16] fix: pages with definition lists can be serialized

---
 .../src/lang/elements/blocks/definitions.rs   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..2a83af3 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -150,8 +150,12 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Serialize,
     Deserialize,
 )]
-#[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    // NOTE: A named field is needed as an element within Located is flattened
+    //       when serialized, which only works with structs and maps
+    #[into_iterator(owned, ref, ref_mut)]
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +179,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +222,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +230,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From 5800d6e6f3cd0cc2aed4ef0ab6afce1bb92fdf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 02/16] fix: html attributes of code blocks and links come in a
 fixed order

---
 vimwiki-core/src/lang/output/html/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..7f9dca4 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -579,7 +579,13 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
-                for (attr, value) in self.metadata.iter() {
+                //
+                // NOTE: We sort metadata keys to ensure that output is
+                //       consistent, otherwise the attributes can move around
+                //       with each output
+                let mut metadata = self.metadata.iter().collect::<Vec<_>>();
+                metadata.sort();
+                for (attr, value) in metadata {
                     write!(f, r#" {}="{}""#, attr, value)?;
                 }
 
@@ -1062,6 +1068,14 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
             properties: Option<&HashMap<Cow<'_, str>, Cow<'_, str>>>,
             use_img_tag: bool,
         ) -> HtmlOutputResult {
+            // NOTE: We sort property keys to ensure that output is consistent,
+            //       otherwise the attributes can move around with each output
+            let properties = properties.map(|properties| {
+                let mut properties = properties.iter().collect::<Vec<_>>();
+                properties.sort();
+                properties
+            });
+
             if use_img_tag {
                 write!(f, "<img src=\"{}\"", href)?;
 
@@ -1074,7 +1088,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 }
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in properties {
                         write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
                     }
                 }
@@ -1084,7 +1098,7 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                 write!(f, "<a href=\"{}\"", href)?;
 
                 if let Some(properties) = properties {
-                    for (k, v) in properties.iter() {
+                    for (k, v) in properties {
                         write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
                     }
                 }
-- 
2.43.0


From 954f46d8272cbe33d949e024c5db1e639614799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 03/16] fix: concurrent toggles of the timekeeper are not lost

---
 vimwiki-core/src/timekeeper.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/vimwiki-core/src/timekeeper.rs b/vimwiki-core/src/timekeeper.rs
index 329da88..6ffe1f8 100644
--- a/vimwiki-core/src/timekeeper.rs
+++ b/vimwiki-core/src/timekeeper.rs
@@ -24,11 +24,7 @@ pub fn disable() {
 }
 
 pub fn toggle_enabled() {
-    if is_enabled() {
-        disable();
-    } else {
-        enable();
-    }
+    TIMEKEEPER_ENABLED.fetch_xor(true, Ordering::Relaxed);
 }
 
 /// Prints a report based on the timekeeper's memory
-- 
2.43.0


From 91aae21b74b5a3b8bc629a9b503f97898e53fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 04/16] fix: timekeeper report with clearing loses no counts
 recorded meanwhile

---
 vimwiki-core/src/timekeeper.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vimwiki-core/src/timekeeper.rs b/vimwiki-core/src/timekeeper.rs
index 6ffe1f8..4cc51ac 100644
--- a/vimwiki-core/src/timekeeper.rs
+++ b/vimwiki-core/src/timekeeper.rs
@@ -29,12 +29,16 @@ pub fn toggle_enabled() {
 
 /// Prints a report based on the timekeeper's memory
 pub fn print_report(clear_after_print: bool) {
-    let mut results: Vec<(&'static str, (usize, u128))> = TIMEKEEPER
-        .lock()
-        .unwrap()
-        .iter()
-        .map(|(k, v)| (*k, *v))
-        .collect();
+    // NOTE: Clearing happens together with taking the results, otherwise
+    //       anything recorded while the report is printed would be lost
+    let mut results: Vec<(&'static str, (usize, u128))> = {
+        let mut timekeeper = TIMEKEEPER.lock().unwrap();
+        let results = timekeeper.iter().map(|(k, v)| (*k, *v)).collect();
+        if clear_after_print {
+            timekeeper.clear();
+        }
+        results
+    };
 
     // Sort with most expensive average item first
     results.sort_unstable_by_key(|k| (k.1 .1 as f64 / k.1 .0 as f64) as u128);
@@ -65,10 +69,6 @@ pub fn print_report(clear_after_print: bool) {
     }
     println!();
     println!("===============================");
-
-    if clear_after_print {
-        clear();
-    }
 }
 
 /// Clears the timekeeper's memory
-- 
2.43.0


From c16906dc0d2e1b0a9325aa2c8ff525f89089c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 05/16] fix: --no-cache no longer writes to the cache

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..29a60da 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From cd047d6a60fe0da921566e0531c0c174626af8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 06/16] fix: --include filters wikis by their configured index
 exactly once

---
 vimwiki-cli/src/ast.rs   |  2 +-
 vimwiki-cli/src/utils.rs | 11 -----------
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index 29a60da..ac4d044 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -159,7 +159,7 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
+            if let Some(wiki) = ast.wikis.last_mut() {
                 wiki.files.push(file);
             }
         }
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..1c47449 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -84,17 +84,6 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
-
     Ok(config)
 }
 
-- 
2.43.0


From 82ea7eb19ad61649ab0556c21e68d7b74e5058ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 07/16] fix: inspect reports a failure to write its output

---
 vimwiki-cli/src/subcommand/inspect.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/subcommand/inspect.rs b/vimwiki-cli/src/subcommand/inspect.rs
index 4bdf0a1..7c62413 100644
--- a/vimwiki-cli/src/subcommand/inspect.rs
+++ b/vimwiki-cli/src/subcommand/inspect.rs
@@ -31,6 +31,9 @@ pub fn inspect(
         Ok(())
     } else {
         let stdout = io::stdout();
-        serde_json::to_writer_pretty(stdout, &values).map_err(io::Error::from)
+        let mut writer = io::BufWriter::new(stdout.lock());
+        serde_json::to_writer_pretty(&mut writer, &values)
+            .map_err(io::Error::from)?;
+        writer.flush()
     }
 }
-- 
2.43.0


From 4084c21f5f1d70485589df1614f460dee3e235ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 08/16] fix: --include-vimwiki-css creates a missing output
 directory

---
 vimwiki-cli/src/subcommand/convert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..09d7da5 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -34,6 +34,7 @@ pub fn convert(
                 let css_path =
                     wiki.path_html.join(HtmlWikiConfig::default_css_name());
                 debug!("Writing css to {:?}", css_path);
+                std::fs::create_dir_all(wiki.path_html.as_path())?;
                 std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
             }
         }
@@ -66,6 +67,7 @@ pub fn convert(
             let wiki = config.runtime.to_tmp_wiki();
             let css_path = wiki.path_html.join("style.css");
             debug!("Writing css to {:?}", css_path);
+            std::fs::create_dir_all(wiki.path_html.as_path())?;
             std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
         }
     }
-- 
2.43.0


From 45d7c07bd0ad081ade519ffb184049abc0a7cf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 09/16] fix: failing to write to stdout is an error instead of
 a panic

---
 vimwiki-cli/src/subcommand/convert.rs | 8 ++++++--
 vimwiki-cli/src/subcommand/format.rs  | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index 09d7da5..e6d91e6 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -1,6 +1,10 @@
 use crate::{css, Ast, CommonOpt, ConvertSubcommand};
 use log::*;
-use std::{ffi::OsStr, io, path::Path};
+use std::{
+    ffi::OsStr,
+    io::{self, Write},
+    path::Path,
+};
 use vimwiki::*;
 use walkdir::WalkDir;
 
@@ -169,7 +173,7 @@ fn process_file(
 
     // If told to print to stdout, do so
     if stdout {
-        println!("{}", html);
+        writeln!(io::stdout(), "{}", html)?;
 
     // Otherwise, we generate files based on resolved output paths
     } else {
diff --git a/vimwiki-cli/src/subcommand/format.rs b/vimwiki-cli/src/subcommand/format.rs
index c3ea7bb..fb04c17 100644
--- a/vimwiki-cli/src/subcommand/format.rs
+++ b/vimwiki-cli/src/subcommand/format.rs
@@ -1,6 +1,11 @@
 use crate::{CommonOpt, FormatSubcommand};
 use log::*;
-use std::{collections::HashSet, ffi::OsStr, io, path::Path};
+use std::{
+    collections::HashSet,
+    ffi::OsStr,
+    io::{self, Write},
+    path::Path,
+};
 use vimwiki::*;
 use walkdir::WalkDir;
 
@@ -98,7 +103,7 @@ fn process_file(
 
     // Otherwise, print to stdout
     } else {
-        println!("{}", text);
+        writeln!(io::stdout(), "{}", text)?;
     }
 
     Ok(())
-- 
2.43.0


From f051a2fb96742129cf7df74502811d3f409702cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 10/16] fix: format --inline never leaves a truncated note
 behind

---
 vimwiki-cli/src/subcommand/format.rs |  4 ++--
 vimwiki-cli/src/utils.rs             | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/format.rs b/vimwiki-cli/src/subcommand/format.rs
index fb04c17..9c6b000 100644
--- a/vimwiki-cli/src/subcommand/format.rs
+++ b/vimwiki-cli/src/subcommand/format.rs
@@ -1,4 +1,4 @@
-use crate::{CommonOpt, FormatSubcommand};
+use crate::{utils::replace_file, CommonOpt, FormatSubcommand};
 use log::*;
 use std::{
     collections::HashSet,
@@ -99,7 +99,7 @@ fn process_file(
     // If indicated, we replace the file's contents inline
     if inplace {
         info!("Writing to {:?}", input_path);
-        std::fs::write(input_path, text)?;
+        replace_file(input_path, text.as_bytes())?;
 
     // Otherwise, print to stdout
     } else {
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index 1c47449..901d1ba 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -1,11 +1,34 @@
 use crate::CommonOpt;
 use log::*;
 use std::{
-    io,
+    fs,
+    io::{self, Write},
     path::{Path, PathBuf},
 };
 use vimwiki::{HtmlConfig, HtmlWikiConfig, VimwikiConfig};
 
+/// Replaces the content of an existing file such that it holds either its old
+/// or its new content in full at any time, whatever happens in between
+pub fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    // Make sure that we are allowed to write to the file before replacing it
+    let permissions =
+        fs::OpenOptions::new().write(true).open(path)?.metadata()?.permissions();
+
+    let tmp_path =
+        path.with_file_name(format!(".vimwiki-{}.tmp", std::process::id()));
+    let result = fs::File::create(tmp_path.as_path()).and_then(|mut file| {
+        file.set_permissions(permissions)?;
+        file.write_all(contents)?;
+        file.sync_all()?;
+        fs::rename(tmp_path.as_path(), path)
+    });
+
+    if result.is_err() {
+        let _ = fs::remove_file(tmp_path.as_path());
+    }
+    result
+}
+
 /// Attempts to load a vimwiki format config from a file
 pub fn load_format_config(path: &Path) -> io::Result<VimwikiConfig> {
     trace!("load_format_config(path = {:?})", path);
-- 
2.43.0


From 74dc487a0a1679278daba759ab060e0797dc9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 11/16] fix: failing to examine a given path is an error
 instead of guessing its kind

---
 vimwiki-cli/src/subcommand/format.rs | 2 +-
 vimwiki-cli/src/utils.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-cli/src/subcommand/format.rs b/vimwiki-cli/src/subcommand/format.rs
index 9c6b000..d73261c 100644
--- a/vimwiki-cli/src/subcommand/format.rs
+++ b/vimwiki-cli/src/subcommand/format.rs
@@ -28,7 +28,7 @@ pub fn format(
 
         // If path is to a file, we want to process it directly regardless of
         // the extension
-        if path.is_file() {
+        if std::fs::metadata(path.as_path())?.is_file() {
             process_file(config.clone(), path.as_path(), cmd.inline)?;
 
         // Otherwise, we walk the directory
diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index 901d1ba..b018cf1 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -94,7 +94,7 @@ pub fn load_html_config(
             }
         };
         debug!("Creating temporary wiki for {:?}", path);
-        if path.is_dir() {
+        if fs::metadata(path.as_path())?.is_dir() {
             config.wikis.push(HtmlWikiConfig {
                 path: path.to_path_buf(),
                 ..Default::default()
-- 
2.43.0


From 77ca982786c209ce84ddb4d345144429ca7e9602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 12/16] fix: formatting a table with rows of different length
 loses no cell

---
 .../src/lang/elements/blocks/tables.rs        | 110 ++++++++++++------
 vimwiki-core/src/lang/output/vimwiki/mod.rs   |  21 ++--
 2 files changed, 82 insertions(+), 49 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..1b7b42d 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -965,30 +965,17 @@ mod iter {
 
     impl<'a, 'b> Cells<'a, 'b> {
         pub fn new(table: &'a Table<'b>) -> Self {
-            Self {
+            let mut it = Self {
                 table,
                 row: 0,
                 col: 0,
-            }
-        }
-
-        /// Returns true if the iterator has at least one content cell
-        pub fn has_content(&self) -> bool {
-            let mut cells = Cells {
-                table: self.table,
-                row: self.row,
-                col: self.col,
             };
-
-            cells.any(|cell| cell.is_content())
+            it.skip_missing();
+            it
         }
-    }
-
-    impl<'a, 'b> Iterator for Cells<'a, 'b> {
-        type Item = &'a Located<Cell<'b>>;
 
-        fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
+        /// Moves to the next position within the table
+        fn advance(&mut self) {
             let col_cnt = self.table.col_cnt();
             let row_cnt = self.table.row_cnt();
 
@@ -1007,6 +994,37 @@ mod iter {
                 self.row = row_cnt;
                 self.col = col_cnt;
             }
+        }
+
+        /// Moves past positions without a cell, which exist whenever some
+        /// row is shorter than another
+        fn skip_missing(&mut self) {
+            while self.row < self.table.row_cnt()
+                && self.table.get_cell(self.row, self.col).is_none()
+            {
+                self.advance();
+            }
+        }
+
+        /// Returns true if the iterator has at least one content cell
+        pub fn has_content(&self) -> bool {
+            let mut cells = Cells {
+                table: self.table,
+                row: self.row,
+                col: self.col,
+            };
+
+            cells.any(|cell| cell.is_content())
+        }
+    }
+
+    impl<'a, 'b> Iterator for Cells<'a, 'b> {
+        type Item = &'a Located<Cell<'b>>;
+
+        fn next(&mut self) -> Option<Self::Item> {
+            let cell = self.table.get_cell(self.row, self.col);
+            self.advance();
+            self.skip_missing();
 
             cell
         }
@@ -1043,10 +1061,44 @@ mod iter {
 
     impl<'a> IntoCells<'a> {
         pub fn new(table: Table<'a>) -> Self {
-            Self {
+            let mut it = Self {
                 table,
                 row: 0,
                 col: 0,
+            };
+            it.skip_missing();
+            it
+        }
+
+        /// Moves to the next position within the table
+        fn advance(&mut self) {
+            let col_cnt = self.table.col_cnt();
+            let row_cnt = self.table.row_cnt();
+
+            // If not yet reached end of row, advance column ptr
+            if self.col + 1 < col_cnt {
+                self.col += 1;
+
+            // Else if not yet reached end of all rows, advance row ptr and
+            // reset column ptr
+            } else if self.row + 1 < row_cnt {
+                self.row += 1;
+                self.col = 0;
+
+            // Otherwise, we have reached the end, so ensure we are done
+            } else {
+                self.row = row_cnt;
+                self.col = col_cnt;
+            }
+        }
+
+        /// Moves past positions without a cell, which exist whenever some
+        /// row is shorter than another
+        fn skip_missing(&mut self) {
+            while self.row < self.table.row_cnt()
+                && self.table.get_cell(self.row, self.col).is_none()
+            {
+                self.advance();
             }
         }
 
@@ -1072,24 +1124,8 @@ mod iter {
         fn next(&mut self) -> Option<Self::Item> {
             let cell =
                 self.table.cells.remove(&CellPos::new(self.row, self.col));
-            let col_cnt = self.table.col_cnt();
-            let row_cnt = self.table.row_cnt();
-
-            // If not yet reached end of row, advance column ptr
-            if self.col + 1 < col_cnt {
-                self.col += 1;
-
-            // Else if not yet reached end of all rows, advance row ptr and
-            // reset column ptr
-            } else if self.row + 1 < row_cnt {
-                self.row += 1;
-                self.col = 0;
-
-            // Otherwise, we have reached the end, so ensure we are done
-            } else {
-                self.row = row_cnt;
-                self.col = col_cnt;
-            }
+            self.advance();
+            self.skip_missing();
 
             cell
         }
diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..c0ec78b 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,19 +469,16 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
-            let min_align_size = self
-                .column(*col)
-                .map(|x| match x.as_inner() {
-                    Cell::Align(ColumnAlign::None) => 1,  /* - */
-                    Cell::Align(ColumnAlign::Left) => 2,  /* :- */
-                    Cell::Align(ColumnAlign::Right) => 2, /* -: */
-                    Cell::Align(ColumnAlign::Center) => 3, /* :-: */
-                    _ => 0,
-                })
-                .max()
-                .unwrap_or_default();
+        for (pos, cell) in self.cells().zip_with_position() {
+            let min_align_size = match cell.as_inner() {
+                Cell::Align(ColumnAlign::None) => 1,   /* - */
+                Cell::Align(ColumnAlign::Left) => 2,   /* :- */
+                Cell::Align(ColumnAlign::Right) => 2,  /* -: */
+                Cell::Align(ColumnAlign::Center) => 3, /* :-: */
+                _ => 0,
+            };
 
+            let size = max_column_sizes.entry(pos.col).or_default();
             if min_align_size > *size {
                 *size = min_align_size;
             }
-- 
2.43.0


From ecc7348661b114a681935bdf1016d054143e54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 13/16] fix: concurrent runs never mix their output in one
 cache entry

---
 vimwiki-cli/src/ast.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index ac4d044..1e6633d 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -287,16 +287,27 @@ fn load_wiki_file(
     // Update our cache with the new file; old files get cleaned later
     if !has_cached_page && !no_cache {
         let cache_file_path = cache.join(checksum.as_str());
-        match fs::File::create(cache_file_path.as_path()) {
+
+        // The entry is written to a file of our own and renamed once complete,
+        // so no other process loads a part of it or writes into it
+        let tmp_path =
+            cache.join(format!("{}.{}.tmp", checksum, std::process::id()));
+        match fs::File::create(tmp_path.as_path()) {
             Ok(file) => {
                 let mut writer = io::BufWriter::new(file);
                 match serde_json::to_writer_pretty(&mut writer, &page) {
                     Ok(()) => {
-                        if let Err(x) = writer.flush() {
+                        if let Err(x) = writer.flush().and_then(|_| {
+                            fs::rename(
+                                tmp_path.as_path(),
+                                cache_file_path.as_path(),
+                            )
+                        }) {
                             error!(
                                 "{:?} :: failed to write cache: {}",
                                 path, x
                             );
+                            let _ = fs::remove_file(tmp_path);
                         } else {
                             debug!(
                                 "{:?} :: wrote cache to {:?}",
@@ -306,6 +317,7 @@ fn load_wiki_file(
                     }
                     Err(x) => {
                         error!("{:?} :: failed to write cache: {}", path, x);
+                        let _ = fs::remove_file(tmp_path);
                     }
                 }
             }
-- 
2.43.0


From 77e5b2a78054b3f19877e37f798b7193c92697e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 14/16] fix: code blocks without a known language no longer
 panic with a custom syntax directory

---
 vimwiki-core/src/lang/output/html/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 7f9dca4..454d27a 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -501,6 +501,9 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
         if f.config().code.server_side {
             // Load and use the syntax set from the specified directory if
             // given, otherwise use the default syntax set
+            //
+            // NOTE: A custom set may not include the plain text syntax that
+            //       we fall back to when there is no (known) language
             let custom_ss = f
                 .config()
                 .code
@@ -508,7 +511,16 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
                 .as_ref()
                 .map(SyntaxSet::load_from_folder)
                 .transpose()
-                .map_err(HtmlOutputError::from)?;
+                .map_err(HtmlOutputError::from)?
+                .map(|ss| {
+                    if ss.find_syntax_by_name("Plain Text").is_some() {
+                        return ss;
+                    }
+
+                    let mut builder = ss.into_builder();
+                    builder.add_plain_text_syntax();
+                    builder.build()
+                });
             let ss = custom_ss.as_ref().unwrap_or(&DEFAULT_SYNTAX_SET);
 
             // Load and use the theme set from the specified directory if
-- 
2.43.0


From e7108cd8ce50d4fe10024875b1f4b74868d4ce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:42 +0000
Subject: [PATCH 15/16] fix: reporting timings to a failing standard output no
 longer panics

---
 vimwiki-core/src/timekeeper.rs | 44 +++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/vimwiki-core/src/timekeeper.rs b/vimwiki-core/src/timekeeper.rs
index 4cc51ac..6d0cfbb 100644
--- a/vimwiki-core/src/timekeeper.rs
+++ b/vimwiki-core/src/timekeeper.rs
@@ -1,8 +1,11 @@
 use crate::lang::parsers::Span;
 use lazy_static::lazy_static;
-use std::sync::{
-    atomic::{AtomicBool, Ordering},
-    Mutex,
+use std::{
+    io::{self, Write},
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Mutex,
+    },
 };
 
 lazy_static! {
@@ -56,19 +59,28 @@ pub fn print_report(clear_after_print: bool) {
         }
     }
 
-    println!("====== TIMEKEEPER REPORT ======");
-    println!();
-    for (ctx, (cnt, nanos)) in results.drain(..) {
-        println!(
-            "- {}: ({} calls, total {}, average {})",
-            ctx,
-            cnt,
-            time_to_str(nanos),
-            time_to_str((nanos as f64 / cnt as f64) as u128),
-        );
-    }
-    println!();
-    println!("===============================");
+    let mut write_report = || -> io::Result<()> {
+        let stdout = io::stdout();
+        let mut stdout = stdout.lock();
+
+        writeln!(stdout, "====== TIMEKEEPER REPORT ======")?;
+        writeln!(stdout)?;
+        for (ctx, (cnt, nanos)) in results.drain(..) {
+            writeln!(
+                stdout,
+                "- {}: ({} calls, total {}, average {})",
+                ctx,
+                cnt,
+                time_to_str(nanos),
+                time_to_str((nanos as f64 / cnt as f64) as u128),
+            )?;
+        }
+        writeln!(stdout)?;
+        writeln!(stdout, "===============================")
+    };
+
+    // NOTE: A report that cannot be printed must not affect anything else
+    let _ = write_report();
 }
 
 /// Clears the timekeeper's memory
-- 
2.43.0


From 63d61d9c619a05fbf6573c17a8fbb472608944ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 16/16] fix: links in files whose names are not UTF-8 no longer
 panic

---
 vimwiki-core/src/lang/output/html/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..a57158f 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -366,9 +366,14 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     src: P1,
     target: P2,
 ) -> Result<RelativeReference<'static>, RelativeReferenceError> {
-    let src_rel = RelativePathBuf::from_path(make_path_relative(src))
+    // NOTE: Names of files and directories need not be UTF-8, which relative
+    //       paths require; src and target convert the same way, so whatever
+    //       directories they share still cancel out
+    let src_rel = make_path_relative(src);
+    let src_rel = RelativePathBuf::from_path(&*src_rel.to_string_lossy())
         .expect("Impossible: relative path should always succeed");
-    let target_rel = RelativePathBuf::from_path(make_path_relative(target))
+    let target_rel = make_path_relative(target);
+    let target_rel = RelativePathBuf::from_path(&*target_rel.to_string_lossy())
         .expect("Impossible: relative path should always succeed");
 
     // NOTE: a relative path of a/b -> a/c would yield ../c, but in the case
-- 
2.43.0

