From 8d3ed7a1b21208fdc68cfecb0eafae22b90b6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 01/25] fix: copy files into a storage directory through a
 partial file

---
 src/storage/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..435676c 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{self, BufWriter, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -302,9 +302,14 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
+                        let mut source = fs::File::open(&entry.path)
+                            .with_context(|| format!("open `{}`", entry.path))?;
+                        let mut new_file = PartialFile::create(&new_path)
+                            .with_context(|| format!("create `{}`", new_path.display()))?;
+                        io::copy(&mut source, &mut new_file).with_context(|| {
                             format!("copy `{}` to `{}`", entry.path, new_path.display())
                         })?;
+                        new_file.finish().context("finish copying file")?;
                     }
                     File::Inline(_, content) => {
                         let mut new_file = PartialFile::create(&new_path)
-- 
2.43.0


From 92bbd8d607289179c95b45fb893317286eacb31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 02/25] fix: replace `current` symlink atomically

---
 src/lib.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..715ab25 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -72,17 +72,25 @@ pub async fn install(
     #[cfg(windows)]
     use std::os::windows::fs::symlink_file as symlink;
 
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
+    // Switch over in one step, so that there is no moment without `current`
+    let new_link = current.with_extension(format!("{}.part", std::process::id()));
+    if new_link.symlink_metadata().is_ok() {
+        fs::remove_file(&new_link).context("clear left-over symlink")?;
     }
-
-    symlink(&target_build.path, &current).with_context(|| {
-        format!(
-            "create symlink pointing at new build: {} to {}",
-            target_build.path,
-            current.display()
-        )
-    })?;
+    symlink(&target_build.path, &new_link)
+        .and_then(|_| {
+            fs::rename(&new_link, &current).map_err(|e| {
+                let _ = fs::remove_file(&new_link);
+                e
+            })
+        })
+        .with_context(|| {
+            format!(
+                "create symlink pointing at new build: {} to {}",
+                target_build.path,
+                current.display()
+            )
+        })?;
     log::info!(
         "successfully installed `{}` as `{}`",
         target_version,
-- 
2.43.0


From d3a8e54d631b690f8b99d425bb569d47ee9893c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 03/25] fix: only list regular files of a storage directory

---
 src/storage/mod.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 435676c..90013a2 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -138,25 +138,27 @@ impl Storage {
                 .with_context(|| format!("could not read directory `{}`", path.display()))?
                 .map(|entry| -> Result<_> {
                     let entry = entry.context("could not read file entry")?;
-                    let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
                     let metadata = entry.metadata().with_context(|| {
-                        format!("could not read metadata of `{}`", path.display())
+                        format!("could not read metadata of `{}`", entry.path().display())
                     })?;
 
-                    Ok((metadata, path_as_string(path)?))
+                    Ok((metadata, entry.path()))
                 })
                 .collect::<Result<Vec<_>>>()?
                 .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
-                .map(|(metadata, path)| Entry {
-                    storage: self.clone(),
-                    path,
-                    size: metadata.len(),
+                // neither directories nor symlinks (`current` might be dangling)
+                .filter(|(metadata, _)| metadata.is_file())
+                .map(|(metadata, path)| {
+                    let path = path.canonicalize().with_context(|| {
+                        format!("cannot canonicalize path `{}`", path.display())
+                    })?;
+                    Ok(Entry {
+                        storage: self.clone(),
+                        path: path_as_string(path)?,
+                        size: metadata.len(),
+                    })
                 })
-                .collect::<Vec<_>>()),
+                .collect::<Result<Vec<_>>>()?),
             InnerStorage::S3(bucket) => {
                 use rusoto_s3::{ListObjectsV2Request, S3Client, S3};
 
-- 
2.43.0


From 2e8e6be856ddbf1f80450d81bcf09fe69a7607c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 04/25] fix: don't treat a dangling `current` symlink as
 installed

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 715ab25..961f585 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,7 +48,7 @@ pub async fn install(
                 curent_path.display()
             );
 
-            if current_version == target_version {
+            if current_version == target_version && current.exists() {
                 log::info!("version `{}` already installed", target_version);
                 return Ok(());
             }
-- 
2.43.0


From a3ae56936c82956c42402766d8cf7c67772f176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 05/25] fix: apply patches in the order of the upgrade path

---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..89b4683 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -194,7 +194,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path: Vec<_> = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -202,7 +202,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From 21ff49567e68752850555ef8a6cfd4e9cb92b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 06/25] fix: never calculate a patch from a version to itself

---
 src/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index 645752d..570e09c 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -85,6 +85,13 @@ impl Index {
             size.file_size(options::BINARY).expect("never negative")
         }
 
+        ensure!(
+            from != to,
+            "Rejecting to calculate patch between same versions ({}->{})",
+            from,
+            to
+        );
+
         if self.get_patch(from.clone(), to.clone()).await.is_ok() {
             log::warn!(
                 "asked to calculate patch from `{:?}` to `{:?}` but it's already present",
-- 
2.43.0


From 1c89d74aa1b5750174e1273cc9ac04230bbf3e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 07/25] fix: reject versions containing path separators

---
 src/index/version.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..52806f0 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,7 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    PathSeparator,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +40,10 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::PathSeparator => write!(
+                f,
+                "Invalid version format: path separators must not appear in version"
+            ),
         }
     }
 }
@@ -50,6 +55,9 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        if s.contains(std::path::is_separator) {
+            return Err(InvalidVersion::PathSeparator);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 1758078fa56a2dc09517b78204704c379b8df88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 08/25] fix: reject empty builds before they replace anything

---
 src/index.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index 570e09c..33a0234 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -411,6 +411,15 @@ impl Index {
             }
             FileEntry::Inline(entry, ..) => Path::new(&entry.path).to_path_buf(),
         };
+        let new_size = match file {
+            FileEntry::InFilesystem(entry) => entry.size,
+            FileEntry::Inline(_, content) => content.len() as u64,
+        };
+        ensure!(
+            new_size > 0,
+            "Asked to add `{}` but it's empty (size 0). That's not gonna be useful.",
+            path.display()
+        );
 
         let file_name = paths::file_name(&path)?;
         let version: Version = file_name.parse()?;
-- 
2.43.0


From a33ef27ae90c281261ac24428035041f7eeb36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 09/25] fix: don't write patches whose name can't be read back

---
 src/index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index 33a0234..1770f5c 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -121,6 +121,11 @@ impl Index {
         let new_build = crate::decompress(Cursor::new(new_build))?;
 
         let path_name = Patch::new(from.clone(), to.clone());
+        ensure!(
+            Patch::from_path(path_name.file_name()).ok().as_ref() == Some(&path_name),
+            "patch name `{}` would be ambiguous",
+            path_name
+        );
         // TODO: Fix that arbitrary "+ zst" here and everywhere else
         let patch_path = local.join(path_name.to_string() + ".zst");
         log::debug!("write patch {:?} to `{:?}`", path_name, patch_path);
-- 
2.43.0


From 274664001841bfa017cddc07d8c9bfed79dc587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 10/25] fix: don't panic when the working directory is gone

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 90165bb..6fcbe97 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -118,7 +118,7 @@ pub struct WorkingDir(PathBuf);
 
 impl Default for WorkingDir {
     fn default() -> Self {
-        WorkingDir(std::env::current_dir().expect("cannot access current working directory"))
+        WorkingDir(std::env::current_dir().unwrap_or_else(|_| PathBuf::from(".")))
     }
 }
 
-- 
2.43.0


From de52d87f3f65613aec467791726fa2cfb93445fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 11/25] fix: don't use empty local files

---
 src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 1770f5c..e56e38b 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -190,7 +190,10 @@ impl Index {
         let file = self.local.get_file(path).await.context("fetch local file");
 
         match file {
-            Ok(FileEntry::InFilesystem(local)) => Ok(local),
+            Ok(FileEntry::InFilesystem(local)) => {
+                ensure!(local.size > 0, "local file `{}` is empty", local.path);
+                Ok(local)
+            }
             Ok(_) => unreachable!("local storage always returns local files"),
             Err(e) => Err(e).context("get local build"),
         }
-- 
2.43.0


From bd926bd5e9fbe37897392ea4bc4c6918cea00d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 12/25] fix: never write into somebody else's partial file

---
 src/partial_file.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/partial_file.rs b/src/partial_file.rs
index dd30cc2..2e97a9d 100644
--- a/src/partial_file.rs
+++ b/src/partial_file.rs
@@ -1,7 +1,7 @@
 use erreur::{Context, Result};
 use std::{
     ffi::OsString,
-    fs::{self, File},
+    fs::{self, File, OpenOptions},
     io::{BufWriter, Write},
     path::{Path, PathBuf},
     time::SystemTime,
@@ -22,12 +22,16 @@ impl PartialFile {
         let target_path: PathBuf = target_path.into();
         let partial_path = generate_partial_file_name(&target_path)
             .context("could not generate name for partial/temporary file")?;
-        let partial_file = File::create(&partial_path).with_context(|| {
-            format!(
-                "could not create partial/temp file `{}`",
-                partial_path.display()
-            )
-        })?;
+        let partial_file = OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&partial_path)
+            .with_context(|| {
+                format!(
+                    "could not create partial/temp file `{}`",
+                    partial_path.display()
+                )
+            })?;
         let partial_file = BufWriter::new(partial_file);
 
         Ok(PartialFile {
@@ -106,7 +110,7 @@ fn generate_partial_file_name(path: &Path) -> Result<PathBuf> {
         let timestamp = SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .context("cannot get timestamp")?;
-        format!("artefacta-temp-{}", timestamp.as_secs())
+        format!("artefacta-temp-{}", timestamp.as_nanos())
     };
     let new_file_name = {
         let mut res = OsString::from("._");
-- 
2.43.0


From 711f4cddec6d89a52f40e73e64a42254ba3493bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 13/25] fix: install a build even if the current one is unknown

---
 src/index.rs |  5 -----
 src/lib.rs   | 10 ++++++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index e56e38b..02176e4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -232,11 +232,6 @@ impl Index {
     /// Upgrade from one version to the next
     pub async fn upgrade_to_build(&mut self, from: Version, to: Version) -> Result<Entry> {
         log::debug!("searching for upgrade path from `{}` to `{}`", from, to);
-        ensure!(
-            self.patch_graph.has_build(from.clone()),
-            "build `{:?}` unknown",
-            from
-        );
         ensure!(
             self.patch_graph.has_build(to.clone()),
             "build `{:?}` unknown",
diff --git a/src/lib.rs b/src/lib.rs
index 961f585..963bac5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,9 +39,11 @@ pub async fn install(
     target_version: Version,
     current: &Path,
 ) -> Result<()> {
-    let target_build = match fs::read_link(&current) {
-        Ok(curent_path) => {
-            let current_version = paths::build_version_from_path(&curent_path)?;
+    let current_link = fs::read_link(&current)
+        .context("could not read link")
+        .and_then(|path| Ok((paths::build_version_from_path(&path)?, path)));
+    let target_build = match current_link {
+        Ok((current_version, curent_path)) => {
             log::debug!(
                 "identified version `{}` from path `{}`",
                 current_version,
@@ -59,7 +61,7 @@ pub async fn install(
                 .context("get build")?
         }
         Err(e) => {
-            log::debug!("could not read `current` symlink: {}", e);
+            log::debug!("could not identify version of `current` symlink: {}", e);
             index
                 .get_build(target_version.clone())
                 .await
-- 
2.43.0


From 9bc255f144d17de518b7fdaca355c01cce57756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 14/25] fix: don't drop parts of a version that look like a
 file extension

---
 src/paths.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..ac0f955 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,11 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of pesky .tar or .patch suffix (only one, it might be part of the version)
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From 9e5522a775d02cbba669a7181ce4044f3c1b90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 15/25] fix: list all files of an S3 storage, and only those

---
 src/storage/mod.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 90013a2..58a7616 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -164,20 +164,27 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
+                let mut objects = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            prefix: Some(bucket.key_for("")),
+                            continuation_token,
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+                    objects.extend(res.contents.unwrap_or_default());
+
+                    continuation_token = res.next_continuation_token;
+                    if continuation_token.is_none() {
+                        break;
+                    }
                 }
 
-                res.contents
-                    .unwrap_or_default()
+                objects
                     .iter()
                     .map(|obj| {
                         Ok(Entry {
-- 
2.43.0


From 97393d53b66bad77c22cd9b36dbe08caa6b6e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 16/25] fix: always pick the same build for a tag

---
 src/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 02176e4..ceef516 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -382,7 +382,8 @@ impl Index {
         self.patch_graph
             .builds
             .keys()
-            .find(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .filter(|build| crate::git::tag_to_slice(build.as_str()) == parsed_tag)
+            .min() // more than one might match, but always pick the same
             .cloned()
             .with_context(|| format!("no build found matching tag `{}`", tag))
     }
-- 
2.43.0


From 260b4df045c35f9d591a21fa5afcb17430fcbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 17/25] fix: list only the objects directly below the prefix of
 the store

Objects of a store further down in the same bucket were taken for builds
and patches of this store, so that sync did not upload builds of the same
name and get_build tried to fetch objects that do not exist.
---
 src/storage/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 58a7616..e8f0573 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -171,6 +171,8 @@ impl Storage {
                         .list_objects_v2(ListObjectsV2Request {
                             bucket: bucket.bucket.to_owned(),
                             prefix: Some(bucket.key_for("")),
+                            // what is further down belongs to another store
+                            delimiter: Some("/".to_owned()),
                             continuation_token,
                             ..Default::default()
                         })
-- 
2.43.0


From d13b359ac7324ddb13cfdd25aef9801a912a7aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 18/25] fix: report arguments which are not valid UTF-8 instead
 of panicking

---
 src/cli.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 6fcbe97..1e1f7de 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,10 +6,11 @@ use std::{
     path::{Path, PathBuf},
     str::FromStr,
 };
-use structopt::StructOpt;
+use structopt::{clap::AppSettings, StructOpt};
 
 /// Manage software builds in different versions across local and remote storage
 #[derive(Debug, StructOpt)]
+#[structopt(global_setting = AppSettings::StrictUtf8)]
 pub struct Cli {
     /// Path to local storage directory
     #[structopt(long = "local", env = "ARTEFACTA_LOCAL_STORE")]
-- 
2.43.0


From fc931850fc1b563d5a6069199cc6e65737655a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 19/25] fix: reject to calculate a patch from a build without
 content instead of panicking

---
 src/index.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index ceef516..335dd78 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -114,6 +114,11 @@ impl Index {
             .context("get old build")?;
         let old_build = read_file(old_build).context("read old build")?;
         let old_build = crate::decompress(Cursor::new(old_build))?;
+        ensure!(
+            !old_build.is_empty(),
+            "build `{}` has no content to calculate a patch from",
+            from
+        );
 
         let new_build = self.get_build(to.clone()).await.context("get new build")?;
         let new_build_size = new_build.size;
-- 
2.43.0


From a52063cb055ffe4dfe08ebbaf55ccef54ad89c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 20/25] fix: sort builds of more than 2 GB in several
 partitions instead of panicking

---
 src/index.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 335dd78..fb8b152 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -142,10 +142,12 @@ impl Index {
             const MB: u64 = 1_000_000;
             bidiff::DiffParams::new(
                 {
+                    // each partition has to be smaller than 2 GB
+                    let needed = old_build.len() / (i32::MAX as usize - 1) + 1;
                     if new_build_size > (100 * MB) {
-                        4
+                        needed.max(4)
                     } else {
-                        1
+                        needed
                     }
                 },
                 Some(100 * MB as usize),
-- 
2.43.0


From 6f5193159de16015f521d277cdba6ee8d53edd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 21/25] fix: sort tags with long numbers without overflow, and
 by a total order

---
 src/git.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..e30b069 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -37,6 +37,26 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
 }
 
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
+/// Key to sort tags by: like text, but with the numbers in it compared by value
+fn sort_key(tag: &str) -> Vec<(char, usize, &str)> {
+    let mut key = Vec::new();
+    let mut rest = tag.chars();
+    loop {
+        let from_here = rest.as_str();
+        match rest.next() {
+            Some(c) if c.is_ascii_digit() => {
+                let tail = from_here.trim_start_matches(|c: char| c.is_ascii_digit());
+                let number = from_here.strip_suffix(tail).unwrap_or(from_here);
+                let number = number.trim_start_matches('0');
+                key.push(('0', number.len(), number));
+                rest = tail.chars();
+            }
+            Some(c) => key.push((c, 0, "")),
+            None => return key,
+        }
+    }
+}
+
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
         let num = x.parse::<u32>().ok()?;
@@ -46,7 +66,7 @@ pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>>
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by(|a, b| sort_key(a).cmp(&sort_key(b)).then_with(|| a.cmp(b)));
         tags
     };
     let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
-- 
2.43.0


From fc6e4d84e9766f3320d12af66d5deefd83f8ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 22/25] fix: notice truncated patches instead of storing a part
 of the build

---
 src/apply_patch.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..01d077a 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,9 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // Needs to be read in advance: the patch reader would take a file that ends
+    // too early for the end of the patch
+    let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,8 +21,11 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
-        .context("read patch")
+    bipatch::Reader::new(
+        Cursor::new(patch_decompressed),
+        Cursor::new(archive_decompressed),
+    )
+    .context("read patch")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 75516fab701c79b6176b1d7e40b77e3ab2e9d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 23/25] fix: don't take a link to an empty or foreign file for
 the installed build

---
 src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 963bac5..ebe4660 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,15 +50,23 @@ pub async fn install(
                 curent_path.display()
             );
 
-            if current_version == target_version && current.exists() {
-                log::info!("version `{}` already installed", target_version);
-                return Ok(());
+            if current_version == target_version {
+                let build = index
+                    .get_build(target_version.clone())
+                    .await
+                    .context("get build")?;
+                if curent_path == Path::new(&build.path) {
+                    log::info!("version `{}` already installed", target_version);
+                    return Ok(());
+                }
+                // it leads to a file in some other directory
+                build
+            } else {
+                index
+                    .upgrade_to_build(current_version, target_version.clone())
+                    .await
+                    .context("get build")?
             }
-
-            index
-                .upgrade_to_build(current_version, target_version.clone())
-                .await
-                .context("get build")?
         }
         Err(e) => {
             log::debug!("could not identify version of `current` symlink: {}", e);
-- 
2.43.0


From 9327be00794937209601ec0849ef4c1552929618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 24/25] fix: know patches of which a build is only in the other
 storage

---
 src/index.rs       | 21 +++++++++++++--------
 src/index/graph.rs | 22 +++++++++++++++++-----
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index fb8b152..916e378 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -39,18 +39,23 @@ impl Index {
         let local = Storage::try_from(local.as_ref())
             .context("invalid local storage path")
             .note("`mkdir -pv` is your friend")?;
+        let remote_files = remote.list_files().await.context("list files")?;
+        let local_files = local.list_files().await.context("list files")?;
+
+        // A patch might be in one storage and one of its builds in the other, so
+        // add all builds first
         let mut patch_graph = PatchGraph::empty();
         patch_graph
-            .update_from_file_list(
-                &remote.list_files().await.context("list files")?,
-                Location::Remote,
-            )
+            .add_builds_from_file_list(&remote_files, Location::Remote)
             .with_context(|| format!("build patch graph from `{:?}`", remote))?;
         patch_graph
-            .update_from_file_list(
-                &local.list_files().await.context("list files")?,
-                Location::Local,
-            )
+            .add_builds_from_file_list(&local_files, Location::Local)
+            .with_context(|| format!("build patch graph from `{:?}`", local))?;
+        patch_graph
+            .add_patches_from_file_list(&remote_files, Location::Remote)
+            .with_context(|| format!("build patch graph from `{:?}`", remote))?;
+        patch_graph
+            .add_patches_from_file_list(&local_files, Location::Local)
             .with_context(|| format!("build patch graph from `{:?}`", local))?;
 
         Ok(Index {
diff --git a/src/index/graph.rs b/src/index/graph.rs
index 89b4683..5f6eb35 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -30,17 +30,18 @@ impl PatchGraph {
         Self::default()
     }
 
+    #[cfg(test)]
     pub fn update_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+        self.add_builds_from_file_list(list, location)?;
+        self.add_patches_from_file_list(list, location)
+    }
+
+    pub fn add_builds_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
         let builds: Vec<_> = list
             .iter()
             .filter(|entry| entry.path.ends_with(".tar.zst"))
             .filter(|entry| entry.size > 0)
             .collect();
-        let patches: Vec<_> = list
-            .iter()
-            .filter(|entry| entry.path.ends_with(".patch.zst"))
-            .filter(|entry| entry.size > 0)
-            .collect();
 
         log::trace!("Builds: {:?}", builds);
         for entry in builds {
@@ -52,6 +53,17 @@ impl PatchGraph {
                 .with_context(|| format!("add build `{}`", entry.path))?;
         }
 
+        Ok(())
+    }
+
+    /// Ignores patches of which a build is unknown, so add all builds before
+    pub fn add_patches_from_file_list(&mut self, list: &[Entry], location: Location) -> Result<()> {
+        let patches: Vec<_> = list
+            .iter()
+            .filter(|entry| entry.path.ends_with(".patch.zst"))
+            .filter(|entry| entry.size > 0)
+            .collect();
+
         log::trace!("Patches: {:?}", patches);
         for entry in patches {
             if entry.path.ends_with('/') {
-- 
2.43.0


From 5995ff53f428338d20809b7d0557d6bcfcd47aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 25/25] fix: keep the comment on the format of versions with
 its function

---
 src/git.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/git.rs b/src/git.rs
index e30b069..d7e4a1d 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -36,7 +36,6 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
-/// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 /// Key to sort tags by: like text, but with the numbers in it compared by value
 fn sort_key(tag: &str) -> Vec<(char, usize, &str)> {
     let mut key = Vec::new();
@@ -57,6 +56,7 @@ fn sort_key(tag: &str) -> Vec<(char, usize, &str)> {
     }
 }
 
+/// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
         let num = x.parse::<u32>().ok()?;
-- 
2.43.0

