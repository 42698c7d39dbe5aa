From 9fb113d9bf6e34b3e89b18f31d4bdcc8502a9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 01/24] fix: replace output files atomically

Writing in place truncated the user's journal first, so a crash, a full disk
or a concurrent reader found it empty or cut short, and errors reported only
when the data reaches the disk were ignored.
---
 src/filespec.rs | 80 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 15 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index bcb45c3..79a906e 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -2,9 +2,9 @@
 //! specify stdin or stdout.
 
 use std::fmt;
-use std::fs::File;
-use std::io::{stdin, stdout, Read, Write};
-use std::path::PathBuf;
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, stdin, stdout, Read, Write};
+use std::path::{Path, PathBuf};
 use std::str::FromStr;
 
 use anyhow::{Context, Error, Result};
@@ -39,16 +39,6 @@ impl FileSpec {
             ),
         })
     }
-
-    pub fn writer(&self) -> Result<Box<dyn Write>> {
-        use FileSpec::*;
-        Ok(match self {
-            Stdio => Box::new(stdout()),
-            Path(path) => Box::new(
-                File::create(path).with_context(|| format!("opening {:?} for writing", path))?,
-            ),
-        })
-    }
 }
 
 impl FromStr for FileSpec {
@@ -77,11 +67,71 @@ pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
 }
 
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
-    let mut f = file_spec.writer()?;
-    f.write_all(content.as_bytes())?;
+    match file_spec {
+        FileSpec::Stdio => {
+            let mut f = stdout();
+            f.write_all(content.as_bytes())?;
+            f.flush()?;
+            Ok(())
+        }
+        FileSpec::Path(path) => {
+            replace_file(path, content.as_bytes()).with_context(|| format!("writing {:?}", path))
+        }
+    }
+}
+
+/// Puts `content` in place of the file at `path`. At no time is there anything
+/// but the previous or the complete new content at `path`, and the new content
+/// is on disk before it is put in place.
+fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
+    // Opened without truncating it, so that a file that may not be written to
+    // is refused.
+    let (target, permissions) = match OpenOptions::new().write(true).open(path) {
+        Ok(mut existing) => {
+            let metadata = existing.metadata()?;
+            if !metadata.is_file() {
+                // Pipes, devices and the like cannot be replaced.
+                existing.write_all(content)?;
+                return Ok(());
+            }
+            (fs::canonicalize(path)?, Some(metadata.permissions()))
+        }
+        Err(e) if e.kind() == io::ErrorKind::NotFound => (dangling_link_target(path)?, None),
+        Err(e) => return Err(e.into()),
+    };
+
+    let dir = match target.parent() {
+        Some(dir) if !dir.as_os_str().is_empty() => dir,
+        _ => Path::new("."),
+    };
+    let mut builder = tempfile::Builder::new();
+    builder.prefix(".accountmerge-").suffix(".tmp");
+    #[cfg(unix)]
+    builder.permissions(std::os::unix::fs::PermissionsExt::from_mode(0o666));
+    let mut new_file = builder.tempfile_in(dir)?;
+    new_file.write_all(content)?;
+    if let Some(permissions) = permissions {
+        new_file.as_file().set_permissions(permissions)?;
+    }
+    new_file.as_file().sync_all()?;
+    new_file.persist(&target)?;
     Ok(())
 }
 
+/// Returns the path that a file at `path` would be created at, which differs
+/// from `path` if that is a symbolic link to a file that does not exist.
+fn dangling_link_target(path: &Path) -> io::Result<PathBuf> {
+    let mut target = path.to_path_buf();
+    // Links cannot form a loop, opening `path` would have said so.
+    while let Ok(link) = fs::read_link(&target) {
+        target = match target.parent() {
+            Some(dir) => dir.join(link),
+            None => link,
+        };
+    }
+    Ok(target)
+}
+
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
     let content: String = format!("{}", ledger);
     write_file(file_spec, &content)
-- 
2.43.0


From 014810ca4d7a24aa511e33885db4b7d59b1f6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 02/24] fix: write the merged journal before an unmerged file
 that is an input

Feeding the unmerged file back and overwriting it first lost the transactions
just resolved if the merged journal could then not be written.
---
 src/filespec.rs  | 10 ++++++++++
 src/merge/cmd.rs | 44 +++++++++++++++++++++++++-------------------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 79a906e..80ef9e5 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -39,6 +39,16 @@ impl FileSpec {
             ),
         })
     }
+
+    /// Returns true if both are known to be the same existing file.
+    pub fn is_same(&self, other: &FileSpec) -> bool {
+        match (self, other) {
+            (FileSpec::Path(a), FileSpec::Path(b)) => {
+                matches!((fs::canonicalize(a), fs::canonicalize(b)), (Ok(a), Ok(b)) if a == b)
+            }
+            _ => false,
+        }
+    }
 }
 
 impl FromStr for FileSpec {
diff --git a/src/merge/cmd.rs b/src/merge/cmd.rs
index ac102c5..8765a80 100644
--- a/src/merge/cmd.rs
+++ b/src/merge/cmd.rs
@@ -32,30 +32,36 @@ impl Command {
             }
         }
 
-        if !unmerged.is_empty() {
-            match self.unmerged.as_ref() {
-                Some(fs) => {
-                    // Deliberately leave the source tags on the unmerged files
-                    // so that:
-                    // * The human has more context of where the transaction
-                    //   came from.
-                    // * When re-attempting to merge from the unmerged file, the
-                    //   sources::read_ledger_file can cause each source in the
-                    //   file to be merged independently.
-                    let ledger = TransactionPostings::into_ledger(unmerged);
-                    filespec::write_ledger_file(fs, &ledger)?;
-                }
-                None => {
-                    bail!("{} input transactions have gone unmerged and no --unmerged output file was specified",
-                    unmerged.len());
-                }
+        // Deliberately leave the source tags on the unmerged files so that:
+        // * The human has more context of where the transaction came from.
+        // * When re-attempting to merge from the unmerged file, the
+        //   sources::read_ledger_file can cause each source in the file to be
+        //   merged independently.
+        let unmerged_output = match (unmerged.len(), self.unmerged.as_ref()) {
+            (0, _) => None,
+            (_, Some(fs)) => Some((fs, TransactionPostings::into_ledger(unmerged))),
+            (n, None) => {
+                bail!("{} input transactions have gone unmerged and no --unmerged output file was specified", n);
             }
-        }
+        };
 
         let mut trns = merger.build();
         sources::strip_sources(&mut trns);
         let ledger = TransactionPostings::into_ledger(trns);
 
-        filespec::write_ledger_file(&self.output, &ledger)
+        // Between the two writes every transaction must be in some file. When
+        // the unmerged file is also an input, then overwriting it drops the
+        // transactions that have now been merged.
+        match unmerged_output {
+            None => filespec::write_ledger_file(&self.output, &ledger),
+            Some((fs, unmerged_ledger)) if self.inputs.iter().any(|input| input.is_same(fs)) => {
+                filespec::write_ledger_file(&self.output, &ledger)?;
+                filespec::write_ledger_file(fs, &unmerged_ledger)
+            }
+            Some((fs, unmerged_ledger)) => {
+                filespec::write_ledger_file(fs, &unmerged_ledger)?;
+                filespec::write_ledger_file(&self.output, &ledger)
+            }
+        }
     }
 }
-- 
2.43.0


From 8dbe1e604ed3866bc4c9e4460f8495d1f6b1ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 03/24] fix: choose the same fingerprint for a candidate mark
 on every run

---
 src/merge/posting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 003693f..2d0e7ee 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -318,8 +318,9 @@ fn merge(dest: &mut PostingInternal, mut src: PostingInternal) {
 }
 
 fn primary_fingerprint(comment: &Comment) -> &str {
+    // Tags are held in no particular order.
     fingerprints_from_comment(comment)
-        .next()
+        .min()
         .expect("must always have a fingerprint tag")
 }
 
-- 
2.43.0


From 4ab17d994a1d15b7b3eeac8e1794ae244b1a02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 04/24] fix: fail the PDF import if a helper program fails

---
 src/importers/nationwide_pdf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..7289275 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -98,10 +98,13 @@ impl NationwidePdf {
                 png_fmt.as_os_str(),
             ];
 
-            Command::new(self.graphics_magic_binary.as_os_str())
+            let status = Command::new(self.graphics_magic_binary.as_os_str())
                 .args(gm_args)
                 .status()
                 .context("converting PDF into PNG files")?;
+            if !status.success() {
+                bail!("converting PDF into PNG files: {}", status);
+            }
         }
 
         let png_list_file_path = tmpdir.path().join("png-files.txt");
@@ -137,10 +140,13 @@ impl NationwidePdf {
                 // Configuration to use (i.e output format).
                 "tsv".as_ref(),
             ];
-            Command::new(self.tesseract_binary.as_os_str())
+            let status = Command::new(self.tesseract_binary.as_os_str())
                 .args(tess_args)
                 .status()
                 .context("performing OCR on PNG files")?;
+            if !status.success() {
+                bail!("performing OCR on PNG files: {}", status);
+            }
         }
 
         {
-- 
2.43.0


From 068bb7e617a3139b60d53740154b81f42ee0de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 05/24] fix: keep the page order of PDF statements of more than
 100 pages

---
 src/importers/nationwide_pdf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 7289275..6e0d9f5 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -86,7 +86,8 @@ impl NationwidePdf {
             .ok_or_else(|| anyhow!("converting glob path to utf-8 string"))?;
 
         {
-            let png_fmt = tmpdir.path().join("page-%02d.png");
+            // The number must be wide enough for the names to sort by page.
+            let png_fmt = tmpdir.path().join("page-%06d.png");
             let gm_args: [&OsStr; 6] = [
                 "convert".as_ref(),
                 // DPI of the PNG files.
-- 
2.43.0


From dd9057d4a5f557bc8690f1d86f87bb101bac0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 06/24] fix: reject incomplete amounts in Nationwide CSV
 statements
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A statement cut short within an amount was imported with a wrong value:
"£12.3" was read as 12.03.
---
 src/importers/nationwide_csv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..f84a7e7 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -478,7 +478,7 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)(\d+)\.(\d{2})$").unwrap();
             }
             let captures = RE
                 .captures(s)
-- 
2.43.0


From d416d732750bfb6ca974edba830290f73c9000a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 07/24] fix: give the peer postings of PayPal imports a
 fingerprint

Without --include-legacy-fingerprint they had none, so that no PayPal import
could be merged.
---
 src/importers/paypal_csv.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3b7fd20..379e4d7 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -127,10 +127,11 @@ impl PaypalCsv {
         let mut peer_comment = Comment::builder()
             .with_tag(tags::IMPORT_PEER)
             .with_tag(tags::UNKNOWN_ACCOUNT)
-            .with_option_tag(if self.include_legacy_fingerprint {
-                Some(fp.peer.legacy_tag())
+            .with_tag(if self.include_legacy_fingerprint {
+                fp.peer.legacy_tag()
             } else {
-                None
+                // Every posting needs a fingerprint to be merged.
+                fp.peer.tag()
             })
             .with_value_tag(TRANSACTION_TYPE_TAG, record.type_)
             .build();
-- 
2.43.0


From c8edfb3e1d7980198a7601eb6f87b19313c1f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 08/24] fix: keep postings marked as cleared when reading a
 journal

ledger_parser took them for comments, so that every command that reads a
journal turned them into comment text; a PayPal import could not be merged or
formatted.
---
 src/filespec.rs   |  4 +++-
 src/ledgerutil.rs | 60 ++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 80ef9e5..590e0cf 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -10,6 +10,8 @@ use std::str::FromStr;
 use anyhow::{Context, Error, Result};
 use ledger_parser::Ledger;
 
+use crate::ledgerutil;
+
 /// Specifies a file to read from to write to (depending on context).
 #[derive(Clone, Debug)]
 pub enum FileSpec {
@@ -73,7 +75,7 @@ pub fn read_file(file_spec: &FileSpec) -> Result<String> {
 
 pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
     let content: String = read_file(file_spec)?;
-    ledger_parser::parse(&content).map_err(Into::into)
+    ledgerutil::parse_ledger(&content)
 }
 
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
diff --git a/src/ledgerutil.rs b/src/ledgerutil.rs
index 71fd285..8a0cf80 100644
--- a/src/ledgerutil.rs
+++ b/src/ledgerutil.rs
@@ -1,6 +1,64 @@
 //! Helpers for handling ledger-parser structures.
 
-use ledger_parser::{Amount, Ledger, LedgerItem, PostingAmount, Transaction};
+use anyhow::Result;
+use ledger_parser::{Amount, Ledger, LedgerItem, PostingAmount, Transaction, TransactionStatus};
+
+/// Comment line that stands for the cleared status of a posting while parsing.
+const CLEARED_MARK: &str = "\u{1}cleared";
+
+/// Parses a journal.
+///
+/// `ledger_parser` takes any line that starts with "*" for a comment, so that
+/// it would lose postings with the cleared status. They are presented to it as
+/// pending postings with a mark in the comment.
+pub fn parse_ledger(content: &str) -> Result<Ledger> {
+    let mut ledger = ledger_parser::parse(&mark_cleared_postings(content))?;
+    for item in &mut ledger.items {
+        if let LedgerItem::Transaction(trn) = item {
+            for post in &mut trn.postings {
+                if let Some(comment) = post.comment.take() {
+                    let mut lines: Vec<&str> = comment.split('\n').collect();
+                    if lines.contains(&CLEARED_MARK) {
+                        post.status = Some(TransactionStatus::Cleared);
+                        lines.retain(|line| *line != CLEARED_MARK);
+                    }
+                    if !lines.is_empty() {
+                        post.comment = Some(lines.join("\n"));
+                    }
+                }
+            }
+        }
+    }
+    Ok(ledger)
+}
+
+fn mark_cleared_postings(content: &str) -> String {
+    let mut result = String::with_capacity(content.len());
+    let mut in_transaction = false;
+    for line in content.split_inclusive('\n') {
+        let text = line.trim_start_matches([' ', '\t']);
+        let indented = text.len() < line.len();
+        if text.trim_end().is_empty() {
+            in_transaction = false;
+        } else if !indented && !text.starts_with([';', '#', '%', '|', '*']) {
+            in_transaction = text.starts_with(|c: char| c.is_ascii_digit());
+        }
+        match text.strip_prefix('*') {
+            Some(posting) if indented && in_transaction => {
+                result.push_str("  !");
+                result.push_str(posting);
+                if !posting.ends_with('\n') {
+                    result.push('\n');
+                }
+                result.push_str("  ; ");
+                result.push_str(CLEARED_MARK);
+                result.push('\n');
+            }
+            _ => result.push_str(line),
+        }
+    }
+    result
+}
 
 /// Returns a `PostingAmount` with only `.amount` set.
 pub fn simple_posting_amount(amount: Amount) -> PostingAmount {
-- 
2.43.0


From 276141192403883fe21347e01dec43e2084d5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 09/24] fix: import PDF statements whatever the name of the
 temporary directory

---
 src/importers/nationwide_pdf.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 6e0d9f5..7db398a 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -80,10 +80,11 @@ impl NationwidePdf {
         use std::process::Command;
 
         let tmpdir = tempfile::tempdir().context("creating temporary directory")?;
-        let png_pattern = tmpdir.path().join("page-*.png");
-        let png_pattern_str = png_pattern
+        let tmpdir_str = tmpdir
+            .path()
             .to_str()
             .ok_or_else(|| anyhow!("converting glob path to utf-8 string"))?;
+        let png_pattern_str = format!("{}/page-*.png", glob::Pattern::escape(tmpdir_str));
 
         {
             // The number must be wide enough for the names to sort by page.
@@ -113,7 +114,7 @@ impl NationwidePdf {
             use std::io::Write;
             let mut png_list_file =
                 File::create(&png_list_file_path).context("creating file to list PNG files")?;
-            let png_glob = glob::glob(png_pattern_str).context("globbing for PNG files")?;
+            let png_glob = glob::glob(&png_pattern_str).context("globbing for PNG files")?;
             for png_path_result in png_glob {
                 let png_path = png_path_result?;
                 let png_path_str = png_path
-- 
2.43.0


From f3c490474fe46716ad267709540c6ecd482e982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 10/24] fix: reject time zone files whose header cannot be read

---
 src/tzabbr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tzabbr.rs b/src/tzabbr.rs
index 114e3ec..1b7b0a5 100644
--- a/src/tzabbr.rs
+++ b/src/tzabbr.rs
@@ -25,6 +25,9 @@ impl TzAbbrDB {
 
         let mut map = HashMap::new();
         let mut rdr = csv::Reader::from_reader(r);
+        // Without readable headers, deserialize() would take the columns by
+        // their position.
+        rdr.headers()?;
         for result in rdr.deserialize() {
             let record: TzRecord = result?;
             let offset: FixedOffset = parse_utc_offset(&record.utc_offset)?;
-- 
2.43.0


From 24d84462caf245dff701cbae75fd6e0a0c4e500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 11/24] fix: do not overwrite an unmerged file that might be an
 input first

If it could not be determined whether the unmerged file is an input, then it
was overwritten before the merged journal was written.
---
 src/filespec.rs  | 17 +++++++++++++----
 src/merge/cmd.rs | 11 ++++++++++-
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 590e0cf..b21b07a 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -42,17 +42,26 @@ impl FileSpec {
         })
     }
 
-    /// Returns true if both are known to be the same existing file.
-    pub fn is_same(&self, other: &FileSpec) -> bool {
+    /// Returns true if both are the same existing file.
+    pub fn is_same(&self, other: &FileSpec) -> Result<bool> {
         match (self, other) {
             (FileSpec::Path(a), FileSpec::Path(b)) => {
-                matches!((fs::canonicalize(a), fs::canonicalize(b)), (Ok(a), Ok(b)) if a == b)
+                let a = existing_path(a)?;
+                Ok(a.is_some() && a == existing_path(b)?)
             }
-            _ => false,
+            _ => Ok(false),
         }
     }
 }
 
+fn existing_path(path: &Path) -> Result<Option<PathBuf>> {
+    match fs::canonicalize(path) {
+        Ok(path) => Ok(Some(path)),
+        Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(None),
+        Err(e) => Err(e).with_context(|| format!("finding {:?}", path)),
+    }
+}
+
 impl FromStr for FileSpec {
     type Err = Error;
 
diff --git a/src/merge/cmd.rs b/src/merge/cmd.rs
index 8765a80..189f8c3 100644
--- a/src/merge/cmd.rs
+++ b/src/merge/cmd.rs
@@ -54,7 +54,7 @@ impl Command {
         // transactions that have now been merged.
         match unmerged_output {
             None => filespec::write_ledger_file(&self.output, &ledger),
-            Some((fs, unmerged_ledger)) if self.inputs.iter().any(|input| input.is_same(fs)) => {
+            Some((fs, unmerged_ledger)) if self.is_input(fs)? => {
                 filespec::write_ledger_file(&self.output, &ledger)?;
                 filespec::write_ledger_file(fs, &unmerged_ledger)
             }
@@ -64,4 +64,13 @@ impl Command {
             }
         }
     }
+
+    fn is_input(&self, fs: &FileSpec) -> Result<bool> {
+        for input in &self.inputs {
+            if input.is_same(fs)? {
+                return Ok(true);
+            }
+        }
+        Ok(false)
+    }
 }
-- 
2.43.0


From 639222f9908bfdcc9fc4a0bb75165305928ab165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 12/24] fix: soft match postings on the date of the transaction
 they were added to

A posting added to an existing transaction of another date was found under the
date of its source transaction until the journal was saved and read again.
---
 src/merge/merger.rs  | 5 ++++-
 src/merge/posting.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/merge/merger.rs b/src/merge/merger.rs
index 1dce4f5..b8feaff 100644
--- a/src/merge/merger.rs
+++ b/src/merge/merger.rs
@@ -145,9 +145,12 @@ impl Merger {
         dest_trn_idx: transaction::Index,
         post_actions: Vec<(posting::Input, PostingMergeAction)>,
     ) -> Result<()> {
-        for (post, action) in post_actions {
+        for (mut post, action) in post_actions {
             match action {
                 PostingMergeAction::New => {
+                    // The posting takes on the date of the transaction it is
+                    // added to, which is not always that of the source.
+                    post.trn_date = self.trns.get(dest_trn_idx).trn.raw.date;
                     let post_idx = self.posts.add(post, dest_trn_idx)?;
                     self.trns.add_post_to_trn(dest_trn_idx, post_idx);
                 }
diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 2d0e7ee..399c281 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -175,7 +175,7 @@ impl ConsumePostings {
 // `PostingInternal`.
 
 pub struct Input {
-    trn_date: NaiveDate,
+    pub trn_date: NaiveDate,
     pub posting: PostingInternal,
 }
 
-- 
2.43.0


From fc1b8207e36fb4a6f3b965a2ede1c9905431fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 13/24] fix: find a byte order mark in PayPal and time zone
 files however they are read

csv skips a byte order mark only if it gets the whole of it from its first
read, so that an import from a pipe could fail or succeed depending on how
the bytes arrived.
---
 src/importers/paypal_csv.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 379e4d7..e0e4a69 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -7,7 +7,7 @@ use ledger_parser::{Amount, Balance, Commodity, CommodityPosition, Posting, Real
 
 use crate::accounts::ASSETS_UNKNOWN;
 use crate::comment::Comment;
-use crate::filespec::FileSpec;
+use crate::filespec::{self, FileSpec};
 use crate::fingerprint::FingerprintBuilder;
 use crate::importers::importer::TransactionImporter;
 use crate::importers::util::{self_and_peer_account_amount, self_and_peer_fingerprints};
@@ -42,15 +42,19 @@ pub struct PaypalCsv {
 
 impl TransactionImporter for PaypalCsv {
     fn get_transactions(&self) -> Result<Import> {
+        // Read each file as a whole: csv recognises a byte order mark only if
+        // its first read returns all of it.
+        let input = filespec::read_file(&self.input)?;
         let mut csv_rdr = csv::ReaderBuilder::new()
             .has_headers(true)
             .flexible(false)
             .trim(csv::Trim::All)
-            .from_reader(self.input.reader()?);
+            .from_reader(input.as_bytes());
         let headers = csv_rdr.headers()?.clone();
         let mut csv_records = csv_rdr.records();
 
-        let tz_abbrs = TzAbbrDB::from_reader(self.timezone_abbr_file.reader()?)?;
+        let tz_abbrs =
+            TzAbbrDB::from_reader(filespec::read_file(&self.timezone_abbr_file)?.as_bytes())?;
 
         let transactions = self.read_transactions(&headers, &mut csv_records, &tz_abbrs)?;
 
-- 
2.43.0


From 955bceb654f2fe1302aa0d6080ac30bbedd0dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 14/24] fix: do not write merged and unmerged transactions to
 the same file

With both outputs leading to one file, the second write replaced the first,
so that transactions were lost although the merge succeeded.
---
 src/filespec.rs  | 55 ++++++++++++++++++++++++++++++++++++++----------
 src/merge/cmd.rs |  3 +++
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index b21b07a..14c216e 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -52,6 +52,38 @@ impl FileSpec {
             _ => Ok(false),
         }
     }
+
+    /// Returns true if a file written to `self` would be replaced by one
+    /// written to `other`.
+    pub fn is_replaced_by(&self, other: &FileSpec) -> Result<bool> {
+        match (self, other) {
+            (FileSpec::Path(a), FileSpec::Path(b)) => {
+                let a = replaced_path(a)?;
+                Ok(a.is_some() && a == replaced_path(b)?)
+            }
+            _ => Ok(false),
+        }
+    }
+}
+
+/// Returns the absolute path that writing to `path` puts a new file at. There
+/// is none for pipes, devices and the like.
+fn replaced_path(path: &Path) -> Result<Option<PathBuf>> {
+    if let Some(existing) = existing_path(path)? {
+        return Ok(fs::metadata(&existing)?.is_file().then_some(existing));
+    }
+    let target = dangling_link_target(path)?;
+    let dir = existing_path(parent_dir(&target))?;
+    Ok(dir
+        .zip(target.file_name())
+        .map(|(dir, name)| dir.join(name)))
+}
+
+fn parent_dir(path: &Path) -> &Path {
+    match path.parent() {
+        Some(dir) if !dir.as_os_str().is_empty() => dir,
+        _ => Path::new("."),
+    }
 }
 
 fn existing_path(path: &Path) -> Result<Option<PathBuf>> {
@@ -121,15 +153,11 @@ fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
         Err(e) => return Err(e.into()),
     };
 
-    let dir = match target.parent() {
-        Some(dir) if !dir.as_os_str().is_empty() => dir,
-        _ => Path::new("."),
-    };
     let mut builder = tempfile::Builder::new();
     builder.prefix(".accountmerge-").suffix(".tmp");
     #[cfg(unix)]
     builder.permissions(std::os::unix::fs::PermissionsExt::from_mode(0o666));
-    let mut new_file = builder.tempfile_in(dir)?;
+    let mut new_file = builder.tempfile_in(parent_dir(&target))?;
     new_file.write_all(content)?;
     if let Some(permissions) = permissions {
         new_file.as_file().set_permissions(permissions)?;
@@ -143,14 +171,19 @@ fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
 /// from `path` if that is a symbolic link to a file that does not exist.
 fn dangling_link_target(path: &Path) -> io::Result<PathBuf> {
     let mut target = path.to_path_buf();
-    // Links cannot form a loop, opening `path` would have said so.
-    while let Ok(link) = fs::read_link(&target) {
-        target = match target.parent() {
-            Some(dir) => dir.join(link),
-            None => link,
+    // Links cannot form a loop, opening or finding `path` would have said so.
+    loop {
+        target = match fs::read_link(&target) {
+            Ok(link) => match target.parent() {
+                Some(dir) => dir.join(link),
+                None => link,
+            },
+            Err(e) => match e.kind() {
+                io::ErrorKind::NotFound | io::ErrorKind::InvalidInput => return Ok(target),
+                _ => return Err(e),
+            },
         };
     }
-    Ok(target)
 }
 
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
diff --git a/src/merge/cmd.rs b/src/merge/cmd.rs
index 189f8c3..6ebd3e7 100644
--- a/src/merge/cmd.rs
+++ b/src/merge/cmd.rs
@@ -39,6 +39,9 @@ impl Command {
         //   merged independently.
         let unmerged_output = match (unmerged.len(), self.unmerged.as_ref()) {
             (0, _) => None,
+            (n, Some(fs)) if self.output.is_replaced_by(fs)? => {
+                bail!("{} input transactions have gone unmerged and the --unmerged output file {} is also the output file", n, fs);
+            }
             (_, Some(fs)) => Some((fs, TransactionPostings::into_ledger(unmerged))),
             (n, None) => {
                 bail!("{} input transactions have gone unmerged and no --unmerged output file was specified", n);
-- 
2.43.0


From cd8e58f9b3ad216ccf82dbdf83c50865512b1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 15/24] fix: import what follows a change of year within a page
 of a PDF statement

A line with only a year is no transaction line, and was taken for blank lines
after which the rest of the page is not part of the table: transactions after
it were silently left out.
---
 src/importers/nationwide_pdf.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 7db398a..0af279f 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -168,7 +168,7 @@ impl NationwidePdf {
 
         for trn_line in &trn_lines {
             if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
+                if prev_trn_line.is_gap_before(trn_line.top) {
                     // There have been blank lines, this is probably the end of
                     // the transactions.
                     break;
@@ -473,7 +473,14 @@ mod table {
                     DateField::Year => {
                         // A transaction will not start on this line.
                         // Lines starting with years only specify the year, and
-                        // maybe a carry-over balance.
+                        // maybe a carry-over balance. They are part of the
+                        // table, and leave no gap in it.
+                        if let Some(prev) = trn_lines.last_mut() {
+                            if !prev.is_gap_before(line.top) {
+                                prev.last_top = line.top;
+                                prev.last_height = line.height;
+                            }
+                        }
                     }
                     _ => {
                         // Lines that start with day and month or nothing at all
@@ -486,7 +493,8 @@ mod table {
                                 receipt: self.columns.receipts.join_words_in(line),
                                 balance: self.columns.balance.join_words_in(line),
                                 top: line.top,
-                                height: line.height,
+                                last_top: line.top,
+                                last_height: line.height,
                             });
                         }
                     }
@@ -517,9 +525,19 @@ mod table {
         pub receipt: Option<String>,
         pub balance: Option<String>,
 
-        // Spatial position of the line on the page.
+        // Spatial position on the page of the line.
         pub top: i32,
-        pub height: i32,
+        // Spatial position of the last line with a year that follows this
+        // line, or of this line if none does.
+        pub last_top: i32,
+        pub last_height: i32,
+    }
+
+    impl TransactionLine {
+        /// Returns true if blank lines separate a line at `top` from this one.
+        pub fn is_gap_before(&self, top: i32) -> bool {
+            top > self.last_top + self.last_height * 2
+        }
     }
 
     impl fmt::Display for TransactionLine {
-- 
2.43.0


From 29893c761e48325532fdfc4ae352c62c6a892e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 16/24] fix: number the transactions of a day across pages of a
 PDF statement

A transaction that continues on the next page reset the number of the next
one of the same day, so that equal transactions got the same fingerprint.
---
 src/importers/nationwide_pdf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 0af279f..9774a1b 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -269,7 +269,11 @@ impl TransactionsAccumulator {
             }
         }
 
-        self.prev_date = trn_line.implied_date;
+        // The first line on a page has no date if it continues a transaction
+        // from the previous page.
+        if trn_line.implied_date.is_some() {
+            self.prev_date = trn_line.implied_date;
+        }
 
         let cur_trn: &mut TransactionBuilder = if let Some(cur_trn) = &mut self.cur_trn_opt {
             cur_trn
-- 
2.43.0


From d00368a3d19da6ae13125c50b5013562604f3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 17/24] fix: keep a private journal private while and after it
 is rewritten

---
 src/filespec.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 14c216e..b9e75d7 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -139,7 +139,7 @@ pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
 fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
     // Opened without truncating it, so that a file that may not be written to
     // is refused.
-    let (target, permissions) = match OpenOptions::new().write(true).open(path) {
+    let (target, existing) = match OpenOptions::new().write(true).open(path) {
         Ok(mut existing) => {
             let metadata = existing.metadata()?;
             if !metadata.is_file() {
@@ -147,7 +147,7 @@ fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
                 existing.write_all(content)?;
                 return Ok(());
             }
-            (fs::canonicalize(path)?, Some(metadata.permissions()))
+            (fs::canonicalize(path)?, Some(metadata))
         }
         Err(e) if e.kind() == io::ErrorKind::NotFound => (dangling_link_target(path)?, None),
         Err(e) => return Err(e.into()),
@@ -156,17 +156,39 @@ fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
     let mut builder = tempfile::Builder::new();
     builder.prefix(".accountmerge-").suffix(".tmp");
     #[cfg(unix)]
-    builder.permissions(std::os::unix::fs::PermissionsExt::from_mode(0o666));
+    if existing.is_none() {
+        builder.permissions(std::os::unix::fs::PermissionsExt::from_mode(0o666));
+    }
     let mut new_file = builder.tempfile_in(parent_dir(&target))?;
-    new_file.write_all(content)?;
-    if let Some(permissions) = permissions {
-        new_file.as_file().set_permissions(permissions)?;
+    if let Some(existing) = existing {
+        // Before there is any content that only some may read.
+        copy_access(&existing, new_file.as_file())?;
     }
+    new_file.write_all(content)?;
     new_file.as_file().sync_all()?;
     new_file.persist(&target)?;
     Ok(())
 }
 
+/// Gives `file` the owner and permissions in `metadata`.
+fn copy_access(metadata: &fs::Metadata, file: &File) -> io::Result<()> {
+    #[allow(unused_mut)]
+    let mut permissions = metadata.permissions();
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::{fchown, MetadataExt, PermissionsExt};
+        // Users other than root can only choose the group, and only among
+        // their own. The rights of a group are for no other group.
+        if fchown(file, Some(metadata.uid()), Some(metadata.gid())).is_err()
+            && fchown(file, None, Some(metadata.gid())).is_err()
+            && file.metadata()?.gid() != metadata.gid()
+        {
+            permissions.set_mode(permissions.mode() & !0o070);
+        }
+    }
+    file.set_permissions(permissions)
+}
+
 /// Returns the path that a file at `path` would be created at, which differs
 /// from `path` if that is a symbolic link to a file that does not exist.
 fn dangling_link_target(path: &Path) -> io::Result<PathBuf> {
-- 
2.43.0


From 2636f0ac1a07f94e8695137ebc2f1f514b318775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 18/24] fix: keep the page images of a statement private

---
 src/importers/nationwide_pdf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 9774a1b..dd50337 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -79,7 +79,11 @@ impl NationwidePdf {
         use std::fs::File;
         use std::process::Command;
 
-        let tmpdir = tempfile::tempdir().context("creating temporary directory")?;
+        // Nobody else may look at the pages of the statement.
+        let mut builder = tempfile::Builder::new();
+        #[cfg(unix)]
+        builder.permissions(std::os::unix::fs::PermissionsExt::from_mode(0o700));
+        let tmpdir = builder.tempdir().context("creating temporary directory")?;
         let tmpdir_str = tmpdir
             .path()
             .to_str()
-- 
2.43.0


From 0c3f57d564b882e4941c2756eb6c835914f0ca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 19/24] fix: accept blank lines with white space in a journal,
 and report missing names

ledger_parser panics where a line ends instead of an account or a payee, as in
a line of white space after a posting, and at the end of a file without a final
line break after some accounts.
---
 src/ledgerutil.rs | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/ledgerutil.rs b/src/ledgerutil.rs
index 8a0cf80..d15ac0e 100644
--- a/src/ledgerutil.rs
+++ b/src/ledgerutil.rs
@@ -1,7 +1,9 @@
 //! Helpers for handling ledger-parser structures.
 
-use anyhow::Result;
+use anyhow::{bail, Result};
+use lazy_static::lazy_static;
 use ledger_parser::{Amount, Ledger, LedgerItem, PostingAmount, Transaction, TransactionStatus};
+use regex::Regex;
 
 /// Comment line that stands for the cleared status of a posting while parsing.
 const CLEARED_MARK: &str = "\u{1}cleared";
@@ -11,8 +13,12 @@ const CLEARED_MARK: &str = "\u{1}cleared";
 /// `ledger_parser` takes any line that starts with "*" for a comment, so that
 /// it would lose postings with the cleared status. They are presented to it as
 /// pending postings with a mark in the comment.
+///
+/// It also panics where it finds the end of a line instead of an account or a
+/// payee, so that lines of white space and a missing end of the last line are
+/// put right, and names that are missing reported, before it sees them.
 pub fn parse_ledger(content: &str) -> Result<Ledger> {
-    let mut ledger = ledger_parser::parse(&mark_cleared_postings(content))?;
+    let mut ledger = ledger_parser::parse(&prepare_for_parser(content)?)?;
     for item in &mut ledger.items {
         if let LedgerItem::Transaction(trn) = item {
             for post in &mut trn.postings {
@@ -32,16 +38,38 @@ pub fn parse_ledger(content: &str) -> Result<Ledger> {
     Ok(ledger)
 }
 
-fn mark_cleared_postings(content: &str) -> String {
-    let mut result = String::with_capacity(content.len());
+fn prepare_for_parser(content: &str) -> Result<String> {
+    lazy_static! {
+        // The code can go on over several lines.
+        static ref NO_PAYEE_RX: Regex =
+            Regex::new(r"^[^\s]+(?:[ \t]+[*!])?(?:[ \t]+\([^)]+\))?[ \t]+(?:[\r\n]|$)").unwrap();
+    }
+
+    let mut result = String::with_capacity(content.len() + 1);
     let mut in_transaction = false;
-    for line in content.split_inclusive('\n') {
+    let mut offset = 0;
+    for (line_idx, line) in content.split_inclusive('\n').enumerate() {
+        let rest = &content[offset..];
+        offset += line.len();
         let text = line.trim_start_matches([' ', '\t']);
         let indented = text.len() < line.len();
-        if text.trim_end().is_empty() {
+        if matches!(text, "" | "\n" | "\r\n") {
             in_transaction = false;
-        } else if !indented && !text.starts_with([';', '#', '%', '|', '*']) {
+            result.push_str(text);
+            continue;
+        }
+        if !indented && !text.starts_with([';', '#', '%', '|', '*']) {
             in_transaction = text.starts_with(|c: char| c.is_ascii_digit());
+            if in_transaction && NO_PAYEE_RX.is_match(rest) {
+                bail!("line {}: transaction without a payee", line_idx + 1);
+            }
+        }
+        if indented && in_transaction {
+            let posting = text.strip_prefix(['*', '!']).unwrap_or(text);
+            let account = posting.trim_start_matches([' ', '\t']);
+            if account.is_empty() || account.starts_with(['\r', '\n']) {
+                bail!("line {}: posting without an account", line_idx + 1);
+            }
         }
         match text.strip_prefix('*') {
             Some(posting) if indented && in_transaction => {
@@ -57,7 +85,10 @@ fn mark_cleared_postings(content: &str) -> String {
             _ => result.push_str(line),
         }
     }
-    result
+    if !result.is_empty() && !result.ends_with('\n') {
+        result.push('\n');
+    }
+    Ok(result)
 }
 
 /// Returns a `PostingAmount` with only `.amount` set.
-- 
2.43.0


From a674985fa53adcd595a730b196c412e6eb84989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 20/24] fix: reject amounts too large to represent in
 Nationwide CSV files

---
 src/importers/nationwide_csv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index f84a7e7..7b4201a 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -486,7 +486,11 @@ mod de {
             let is_negative: bool = captures.get(1).unwrap().as_str() == "-";
             let pounds: i64 = deserialize_captured_number(&captures, 2)?;
             let pence: i64 = deserialize_captured_number(&captures, 3)?;
-            let mut quantity = Decimal::new(pounds * 100 + pence, 2);
+            let total_pence = pounds
+                .checked_mul(100)
+                .and_then(|p| p.checked_add(pence))
+                .ok_or_else(|| de::Error::custom("monetary value too large"))?;
+            let mut quantity = Decimal::new(total_pence, 2);
             quantity.set_sign_negative(is_negative);
             Ok(GbpValue(Amount {
                 commodity: Commodity {
-- 
2.43.0


From 8dcc1c09323bb26ed502dfe16f6f6c30a813efae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 21/24] fix: survive absurd positions in the output of the OCR

---
 src/importers/nationwide_pdf.rs | 2 +-
 src/importers/tesseract.rs      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index dd50337..ca5d3ed 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -544,7 +544,7 @@ mod table {
     impl TransactionLine {
         /// Returns true if blank lines separate a line at `top` from this one.
         pub fn is_gap_before(&self, top: i32) -> bool {
-            top > self.last_top + self.last_height * 2
+            top > self.last_top.saturating_add(self.last_height.saturating_mul(2))
         }
     }
 
diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..0833a52 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -161,7 +161,7 @@ impl Document {
                                     "{}({}-{})",
                                     &word.text,
                                     word.left,
-                                    word.left + word.width
+                                    word.left.saturating_add(word.width)
                                 )),
                                 " "
                             ),
@@ -258,7 +258,7 @@ impl Word {
     pub fn horiz_bounds(&self) -> Bounds {
         Bounds {
             min: self.left,
-            max: self.left + self.width,
+            max: self.left.saturating_add(self.width),
         }
     }
 }
-- 
2.43.0


From 46d4f788e1f14d22d003377c5fb7acdf745e64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 22/24] fix: stop rule chains that jump to each other without
 end, and check jumps inside lists of actions

---
 src/rules/table/mod.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..679dc6c 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 use std::path::PathBuf;
 
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, bail, Result};
 use clap::Args;
 use serde_derive::Deserialize;
 
@@ -18,6 +18,10 @@ mod source;
 
 const START_CHAIN: &str = "start";
 
+/// Limit on jumps within jumps, which stops chains that jump to each other
+/// without end.
+const MAX_JUMP_DEPTH: usize = 200;
+
 fn load_from_path(path: &std::path::Path) -> Result<Table> {
     let rf = source::File::from_path(path)?;
     let table = rf.load()?;
@@ -77,7 +81,7 @@ impl Table {
                 trn: &mut trn.trn,
                 post,
             };
-            start.apply(self, &mut ctx)?;
+            start.apply(self, &mut ctx, 0)?;
         }
         Ok(trn)
     }
@@ -114,9 +118,9 @@ impl Chain {
         Self(rules)
     }
 
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         for rule in &self.0 {
-            match rule.apply(table, ctx)? {
+            match rule.apply(table, ctx, depth)? {
                 RuleResult::Continue => {}
                 RuleResult::Return => break,
             }
@@ -140,9 +144,9 @@ pub struct Rule {
 }
 
 impl Rule {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<RuleResult> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<RuleResult> {
         if self.predicate.is_match(ctx) {
-            self.action.apply(table, ctx)?;
+            self.action.apply(table, ctx, depth)?;
             Ok(self.result)
         } else {
             Ok(RuleResult::Continue)
@@ -179,7 +183,7 @@ enum Action {
 }
 
 impl Action {
-    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {
+    fn apply(&self, table: &Table, ctx: &mut PostingContext, depth: usize) -> Result<()> {
         use Action::*;
 
         match self {
@@ -203,7 +207,7 @@ impl Action {
             }
             All(actions) => {
                 for action in actions {
-                    action.apply(table, ctx)?;
+                    action.apply(table, ctx, depth)?;
                 }
             }
             Error(err_msg) => {
@@ -216,7 +220,10 @@ impl Action {
             }
             Noop => {}
             JumpChain(name) => {
-                table.get_chain(name)?.apply(table, ctx)?;
+                if depth >= MAX_JUMP_DEPTH {
+                    bail!("chains jump to each other without end: {}", name);
+                }
+                table.get_chain(name)?.apply(table, ctx, depth + 1)?;
             }
             SetAccount(v) => {
                 ctx.post.raw.account = v.clone();
@@ -245,6 +252,7 @@ impl Action {
         use Action::*;
 
         match self {
+            All(actions) => actions.iter().try_for_each(|action| action.validate(table)),
             JumpChain(name) => table.get_chain(name).map(|_| ()),
             _ => Ok(()),
         }
-- 
2.43.0


From 49baf7840d6beda86967a61dbd8a39f6ce176195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 23/24] fix: do not write a journal that cannot be read again

---
 src/filespec.rs      | 12 +++++++++++-
 src/importers/cmd.rs |  6 ++++--
 src/merge/cmd.rs     | 19 ++++++++++++-------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index b9e75d7..0a0e984 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -209,6 +209,16 @@ fn dangling_link_target(path: &Path) -> io::Result<PathBuf> {
 }
 
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
-    let content: String = format!("{}", ledger);
+    let content: String = ledger_content(file_spec, ledger)?;
     write_file(file_spec, &content)
 }
+
+/// Returns what to write to `file_spec`, if that can be read again. Names in
+/// other formats, such as those of currencies, can contain what means something
+/// else in a journal.
+pub fn ledger_content(file_spec: &FileSpec, ledger: &Ledger) -> Result<String> {
+    let content: String = format!("{}", ledger);
+    ledgerutil::parse_ledger(&content)
+        .with_context(|| format!("not writing {}, which could not be read again", file_spec))?;
+    Ok(content)
+}
diff --git a/src/importers/cmd.rs b/src/importers/cmd.rs
index d76a579..bb81f1a 100644
--- a/src/importers/cmd.rs
+++ b/src/importers/cmd.rs
@@ -77,6 +77,9 @@ impl Command {
             FileSpec::Path(new_p.into())
         };
 
+        let ledger = ledger_from_transactions(import.transactions);
+        let content = filespec::ledger_content(&output, &ledger)?;
+
         if self.make_parent_dirs {
             match output {
                 FileSpec::Stdio => {
@@ -90,7 +93,6 @@ impl Command {
             }
         }
 
-        let ledger = ledger_from_transactions(import.transactions);
-        filespec::write_ledger_file(&output, &ledger)
+        filespec::write_file(&output, &content)
     }
 }
diff --git a/src/merge/cmd.rs b/src/merge/cmd.rs
index 6ebd3e7..5a49165 100644
--- a/src/merge/cmd.rs
+++ b/src/merge/cmd.rs
@@ -55,15 +55,20 @@ impl Command {
         // Between the two writes every transaction must be in some file. When
         // the unmerged file is also an input, then overwriting it drops the
         // transactions that have now been merged.
+        let unmerged_output = match unmerged_output {
+            Some((fs, ledger)) => Some((fs, filespec::ledger_content(fs, &ledger)?)),
+            None => None,
+        };
+        let content = filespec::ledger_content(&self.output, &ledger)?;
         match unmerged_output {
-            None => filespec::write_ledger_file(&self.output, &ledger),
-            Some((fs, unmerged_ledger)) if self.is_input(fs)? => {
-                filespec::write_ledger_file(&self.output, &ledger)?;
-                filespec::write_ledger_file(fs, &unmerged_ledger)
+            None => filespec::write_file(&self.output, &content),
+            Some((fs, unmerged_content)) if self.is_input(fs)? => {
+                filespec::write_file(&self.output, &content)?;
+                filespec::write_file(fs, &unmerged_content)
             }
-            Some((fs, unmerged_ledger)) => {
-                filespec::write_ledger_file(fs, &unmerged_ledger)?;
-                filespec::write_ledger_file(&self.output, &ledger)
+            Some((fs, unmerged_content)) => {
+                filespec::write_file(fs, &unmerged_content)?;
+                filespec::write_file(&self.output, &content)
             }
         }
     }
-- 
2.43.0


From f0ad01ad06499e951b21a0bfa580b7a9be118a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 24/24] fix: put a new file in place on disk before writing the
 next one

After a power loss the names in one directory can be older than those in
another, so that a merge that takes transactions out of one file after it wrote
them to another could lose them.
---
 src/filespec.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 0a0e984..2850601 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -135,7 +135,9 @@ pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
 
 /// Puts `content` in place of the file at `path`. At no time is there anything
 /// but the previous or the complete new content at `path`, and the new content
-/// is on disk before it is put in place.
+/// is on disk before it is put in place. It is in place on disk too before this
+/// returns, so that files written one after another get there in that order
+/// wherever they are.
 fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
     // Opened without truncating it, so that a file that may not be written to
     // is refused.
@@ -167,6 +169,30 @@ fn replace_file(path: &Path, content: &[u8]) -> Result<()> {
     new_file.write_all(content)?;
     new_file.as_file().sync_all()?;
     new_file.persist(&target)?;
+    sync_dir(parent_dir(&target))?;
+    Ok(())
+}
+
+/// Puts the names of the files in `dir` on disk.
+#[cfg(unix)]
+fn sync_dir(dir: &Path) -> io::Result<()> {
+    match File::open(dir).and_then(|dir| dir.sync_all()) {
+        // Not every directory that can be written to can be opened, and not
+        // every file system knows how to do this.
+        Err(e)
+            if matches!(
+                e.kind(),
+                io::ErrorKind::PermissionDenied | io::ErrorKind::InvalidInput
+            ) =>
+        {
+            Ok(())
+        }
+        result => result,
+    }
+}
+
+#[cfg(not(unix))]
+fn sync_dir(_dir: &Path) -> io::Result<()> {
     Ok(())
 }
 
-- 
2.43.0

