From 5d40ef279d6608b82eef89ae37fc63a0f61de852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 01/20] fix: keep patches of an upgrade path in the order they
 apply

`patches_needed` sorted the patches of the route by version string, so a
route like 9 -> 10 -> 11 was applied as 10 -> 11, 9 -> 10.
---
 src/index/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/index/graph.rs b/src/index/graph.rs
index 555877a..89b4683 100644
--- a/src/index/graph.rs
+++ b/src/index/graph.rs
@@ -194,7 +194,7 @@ impl PatchGraph {
             |_| 0,
         )
         .with_context(|| format!("no A& solution for patch from `{:?}` to `{:?}`", from, to))?;
-        let mut path: Vec<_> = steps
+        let path: Vec<_> = steps
             .windows(2)
             .map(|x| {
                 let from = self.graph[x[0]].version.clone();
@@ -202,7 +202,6 @@ impl PatchGraph {
                 Patch::new(from, to)
             })
             .collect();
-        path.sort();
 
         Ok((cost, path))
     }
-- 
2.43.0


From d5920479a3032b97ba960fc116df4c74c575ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 02/20] fix: strip only one .tar or .patch suffix when reading
 a file name

`trim_end_matches` strips the suffix repeatedly, so the builds `foo`,
`foo.tar` and `foo.patch` were all read back as version `foo`.
---
 src/paths.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/paths.rs b/src/paths.rs
index 71c7fc0..a6ba5a9 100644
--- a/src/paths.rs
+++ b/src/paths.rs
@@ -18,10 +18,11 @@ pub fn file_name(path: impl AsRef<Path>) -> Result<String> {
         .with_context(|| format!("no file stem for `{:?}`", path))?;
     let name = path_as_string(file_name)?;
 
-    // get rid of pesky .tar suffixes
-    let name = name.trim_end_matches(".tar");
-    // get rid of pesky .patch suffixes
-    let name = name.trim_end_matches(".patch");
+    // get rid of one pesky .tar or .patch suffix (any more are part of the name)
+    let name = name
+        .strip_suffix(".tar")
+        .or_else(|| name.strip_suffix(".patch"))
+        .unwrap_or(&name);
 
     Ok(name.to_string())
 }
-- 
2.43.0


From 6d50019f07d31ee0a13e5e4e0d347aa4ecf2a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 03/20] fix: reject `/` in versions

Versions are used as file names. `add-package ../../x src` wrote its archive
outside of the temporary directory and registered another version.
---
 src/index/version.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/index/version.rs b/src/index/version.rs
index 28fdae8..b4dd8ad 100644
--- a/src/index/version.rs
+++ b/src/index/version.rs
@@ -28,6 +28,7 @@ impl fmt::Display for Version {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum InvalidVersion {
     ThreeDashes,
+    PathSeparator,
 }
 
 impl StdError for InvalidVersion {}
@@ -39,6 +40,9 @@ impl fmt::Display for InvalidVersion {
                 f,
                 "Invalid version format: `---` must not appear in version"
             ),
+            InvalidVersion::PathSeparator => {
+                write!(f, "Invalid version format: `/` must not appear in version")
+            }
         }
     }
 }
@@ -50,6 +54,9 @@ impl FromStr for Version {
         if s.contains("---") {
             return Err(InvalidVersion::ThreeDashes);
         }
+        if s.contains('/') {
+            return Err(InvalidVersion::PathSeparator);
+        }
         Ok(Version { data: s.into() })
     }
 }
-- 
2.43.0


From 4cf64620368e8d8b08e3db37ad5b4f52c20bd853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 04/20] fix: list regular files only, and before canonicalizing
 them

A dangling `current` symlink in the local store made every command fail,
and a directory named like a build was taken for one.
---
 src/storage/mod.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 9cd5d80..7517c2a 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -139,24 +139,27 @@ impl Storage {
                 .map(|entry| -> Result<_> {
                     let entry = entry.context("could not read file entry")?;
                     let path = entry.path();
-                    let path = path.canonicalize().with_context(|| {
-                        format!("cannot canonicalize path `{}`", path.display())
-                    })?;
                     let metadata = entry.metadata().with_context(|| {
                         format!("could not read metadata of `{}`", path.display())
                     })?;
 
-                    Ok((metadata, path_as_string(path)?))
+                    Ok((metadata, path))
                 })
                 .collect::<Result<Vec<_>>>()?
                 .into_iter()
-                .filter(|(metadata, _)| !metadata.file_type().is_symlink())
-                .map(|(metadata, path)| Entry {
-                    storage: self.clone(),
-                    path,
-                    size: metadata.len(),
+                .filter(|(metadata, _)| metadata.file_type().is_file())
+                .map(|(metadata, path)| {
+                    let path = path.canonicalize().with_context(|| {
+                        format!("cannot canonicalize path `{}`", path.display())
+                    })?;
+
+                    Ok(Entry {
+                        storage: self.clone(),
+                        path: path_as_string(path)?,
+                        size: metadata.len(),
+                    })
                 })
-                .collect::<Vec<_>>()),
+                .collect::<Result<Vec<_>>>()?),
             InnerStorage::S3(bucket) => {
                 use rusoto_s3::{ListObjectsV2Request, S3Client, S3};
 
-- 
2.43.0


From 8908ba3fd3a1b227bf5fdcdd5cdede5c13edda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 05/20] fix: do not trust a dangling `current` symlink on
 install

When the file `current` points at is gone, install reported the version as
already installed, or failed because it was unknown. Install it afresh.
---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ff2c321..364b1af 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -40,7 +40,7 @@ pub async fn install(
     current: &Path,
 ) -> Result<()> {
     let target_build = match fs::read_link(&current) {
-        Ok(curent_path) => {
+        Ok(curent_path) if current.exists() => {
             let current_version = paths::build_version_from_path(&curent_path)?;
             log::debug!(
                 "identified version `{}` from path `{}`",
@@ -58,8 +58,8 @@ pub async fn install(
                 .await
                 .context("get build")?
         }
-        Err(e) => {
-            log::debug!("could not read `current` symlink: {}", e);
+        res => {
+            log::debug!("no usable `current` symlink: {:?}", res);
             index
                 .get_build(target_version.clone())
                 .await
-- 
2.43.0


From 5da6843a4fd2f6dd3d3b895c531a0cf07b25d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 06/20] fix: replace the `current` symlink in one step on
 install

Removing the old symlink before creating the new one left no `current` at
all after a crash or an error in between, and a dangling one was never
removed so that creating the new one failed.
---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 364b1af..fb14e5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -72,17 +72,22 @@ pub async fn install(
     #[cfg(windows)]
     use std::os::windows::fs::symlink_file as symlink;
 
-    if current.exists() {
-        fs::remove_file(&current).context("clear old `current` symlink")?;
+    // Create the new symlink next to the old one and rename it into place, so
+    // that there always is a `current` (a left-over might be in the way)
+    let new_current = current.with_file_name("._artefacta-temp-current");
+    if fs::symlink_metadata(&new_current).is_ok() {
+        fs::remove_file(&new_current).context("clear left-over new `current` symlink")?;
     }
 
-    symlink(&target_build.path, &current).with_context(|| {
+    symlink(&target_build.path, &new_current).with_context(|| {
         format!(
             "create symlink pointing at new build: {} to {}",
             target_build.path,
-            current.display()
+            new_current.display()
         )
     })?;
+    fs::rename(&new_current, &current)
+        .with_context(|| format!("replace `{}` symlink", current.display()))?;
     log::info!(
         "successfully installed `{}` as `{}`",
         target_version,
-- 
2.43.0


From 97b65bc56db8e3e2447179de28130801d0cc7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 07/20] fix: add files to a local storage under a temporary
 name first

Files were copied straight to their final name, so a crash or a full disk
in the middle left a truncated build or patch behind that looks complete.
---
 src/storage/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7517c2a..ce08763 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -4,7 +4,7 @@ pub use std::{
     convert::{TryFrom, TryInto},
     fmt,
     fs::{self, read_dir},
-    io::{BufWriter, Write},
+    io::{self, BufWriter, Write},
     path::{Path, PathBuf},
     str::FromStr,
     sync::Arc,
@@ -305,9 +305,14 @@ impl Storage {
 
                 match file {
                     File::InFilesystem(entry) => {
-                        fs::copy(&entry.path, &new_path).with_context(|| {
+                        let mut file = fs::File::open(&entry.path)
+                            .with_context(|| format!("could not open `{}`", entry.path))?;
+                        let mut new_file = PartialFile::create(&new_path)
+                            .with_context(|| format!("create `{}`", new_path.display()))?;
+                        io::copy(&mut file, &mut new_file).with_context(|| {
                             format!("copy `{}` to `{}`", entry.path, new_path.display())
                         })?;
+                        new_file.finish().context("finish writing to new file")?;
                     }
                     File::Inline(_, content) => {
                         let mut new_file = PartialFile::create(&new_path)
-- 
2.43.0


From ff02387e597b49af643a20529f0d92979a661607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 08/20] fix: do not use empty local files in place of remote
 ones

The index ignores empty files, but a build or patch known from the remote
was still taken from the empty local file instead of being fetched.
---
 src/index.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 645752d..8f0e56a 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -178,7 +178,10 @@ impl Index {
         let file = self.local.get_file(path).await.context("fetch local file");
 
         match file {
-            Ok(FileEntry::InFilesystem(local)) => Ok(local),
+            Ok(FileEntry::InFilesystem(local)) => {
+                ensure!(local.size > 0, "local file `{}` is empty", local.path);
+                Ok(local)
+            }
             Ok(_) => unreachable!("local storage always returns local files"),
             Err(e) => Err(e).context("get local build"),
         }
-- 
2.43.0


From 26a4ce89da73b74b7002a8901a71f7a12eca0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 09/20] fix: reject an empty build before copying it to the
 store

The empty file replaced an existing good build of the same version before
it was rejected.
---
 src/index.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 8f0e56a..f885de0 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -408,6 +408,16 @@ impl Index {
             FileEntry::Inline(entry, ..) => Path::new(&entry.path).to_path_buf(),
         };
 
+        let source = match file {
+            FileEntry::InFilesystem(entry) => entry,
+            FileEntry::Inline(entry, ..) => entry,
+        };
+        ensure!(
+            source.size > 0,
+            "Asked to add `{}` but it's empty (size 0). That's not gonna be useful.",
+            source.path
+        );
+
         let file_name = paths::file_name(&path)?;
         let version: Version = file_name.parse()?;
         let new_path = local.join(format!("{}.tar.zst", version.as_str()));
@@ -420,12 +430,6 @@ impl Index {
         let entry = Entry::from_path(&new_path, self.local.clone())
             .context("create entry for new build file")?;
 
-        ensure!(
-            entry.size > 0,
-            "Just added `{}` but it's empty (size 0). That's not gonna be useful.",
-            entry.path
-        );
-
         self.patch_graph
             .add_build(&version, entry.clone(), Location::Local)
             .with_context(|| format!("add build `{}`", path.display()))?;
-- 
2.43.0


From 14fc02bcd9256a2854eba4b7e5bf9b6bb1fdaaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 10/20] fix: reject patches between the same version everywhere

`add --calc-patch-from` with the version being added created a patch from
that version to itself, which `create-patch` refuses to.
---
 src/index.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/index.rs b/src/index.rs
index f885de0..91aed94 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -85,6 +85,13 @@ impl Index {
             size.file_size(options::BINARY).expect("never negative")
         }
 
+        ensure!(
+            from != to,
+            "Rejecting to create patch between same versions ({}->{})",
+            from,
+            to
+        );
+
         if self.get_patch(from.clone(), to.clone()).await.is_ok() {
             log::warn!(
                 "asked to calculate patch from `{:?}` to `{:?}` but it's already present",
-- 
2.43.0


From 342e024d04eeb6ede50ba424ad77ecc49a9037c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 11/20] fix: list only the S3 objects that can be fetched again

The listing also matched objects of sibling directories that share the
prefix (`root` and `root2/x`) and of sub-directories. They ended up in the
index, but fetching them looks for `root/x`.
---
 src/storage/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index ce08763..86a6e39 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -168,7 +168,10 @@ impl Storage {
                 let res = client
                     .list_objects_v2(ListObjectsV2Request {
                         bucket: bucket.bucket.to_owned(),
-                        prefix: Some(bucket.path.trim_start_matches('/').to_string()),
+                        // only what `key_for` gives: not siblings like `root2/x`,
+                        // and nothing in sub-directories
+                        prefix: Some(bucket.key_for("")),
+                        delimiter: Some("/".to_string()),
                         ..Default::default()
                     })
                     .await
-- 
2.43.0


From bcd764d4e3d1ccda46d58fb0ec34bdcef5b3c60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 12/20] fix: read all pages of an S3 file list

Only the first 1000 objects were indexed. Builds and patches after those
were reported as unknown, and uploaded again by every sync.
---
 src/storage/mod.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 86a6e39..a8fa7d7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -165,23 +165,32 @@ impl Storage {
 
                 let client: S3Client = bucket.try_into().context("build S3 client")?;
 
-                let res = client
-                    .list_objects_v2(ListObjectsV2Request {
-                        bucket: bucket.bucket.to_owned(),
-                        // only what `key_for` gives: not siblings like `root2/x`,
-                        // and nothing in sub-directories
-                        prefix: Some(bucket.key_for("")),
-                        delimiter: Some("/".to_string()),
-                        ..Default::default()
-                    })
-                    .await
-                    .context("list files in bucket")?;
-                if res.is_truncated.unwrap_or_default() {
-                    log::debug!("didn't get all the files -- pagination not implemented!");
+                let mut objects = Vec::new();
+                let mut continuation_token = None;
+                loop {
+                    let res = client
+                        .list_objects_v2(ListObjectsV2Request {
+                            bucket: bucket.bucket.to_owned(),
+                            // only what `key_for` gives: not siblings like `root2/x`,
+                            // and nothing in sub-directories
+                            prefix: Some(bucket.key_for("")),
+                            delimiter: Some("/".to_string()),
+                            continuation_token,
+                            ..Default::default()
+                        })
+                        .await
+                        .context("list files in bucket")?;
+                    objects.extend(res.contents.unwrap_or_default());
+                    if !res.is_truncated.unwrap_or_default() {
+                        break;
+                    }
+                    continuation_token = Some(
+                        res.next_continuation_token
+                            .context("got a truncated file list but no way to continue it")?,
+                    );
                 }
 
-                res.contents
-                    .unwrap_or_default()
+                objects
                     .iter()
                     .map(|obj| {
                         Ok(Entry {
-- 
2.43.0


From d877ade9ba7215a467c40f53d5c2a5f2ff3d93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 13/20] verification hook: S3 server override, only with --cfg
 artefacta_verif

---
 src/storage/s3.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/storage/s3.rs b/src/storage/s3.rs
index de24a1d..a2fdc7c 100644
--- a/src/storage/s3.rs
+++ b/src/storage/s3.rs
@@ -74,11 +74,27 @@ impl<'a> TryFrom<&'a Bucket> for S3Client {
             name: "custom-region".to_owned(),
             endpoint: bucket.endpoint.clone(),
         };
+        #[cfg(artefacta_verif)]
+        let region = verif_region(region);
 
         Ok(S3Client::new(region))
     }
 }
 
+/// Verification hook (only with `--cfg artefacta_verif`): talk to the server
+/// given by `ARTEFACTA_VERIF_S3` instead, with the endpoint as first part of
+/// the request path.
+#[cfg(artefacta_verif)]
+fn verif_region(region: Region) -> Region {
+    match (region, std::env::var("ARTEFACTA_VERIF_S3")) {
+        (Region::Custom { name, endpoint }, Ok(server)) => Region::Custom {
+            name,
+            endpoint: format!("{}/{}", server, endpoint),
+        },
+        (region, _) => region,
+    }
+}
+
 pub fn validate_checksum(key: &str, body: &[u8], received: &str) -> Result<()> {
     if received.contains('-') {
         log::warn!(
-- 
2.43.0


From a4b97733464a1d1118f3a8f667ebd24af57dbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 14/20] fix: decompress a patch completely before applying it

bipatch takes the end of its input between two instructions for the end of
the patch, so a patch truncated at a block boundary of its compressed stream
gave a truncated build instead of an error.
---
 src/apply_patch.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/apply_patch.rs b/src/apply_patch.rs
index 8571aed..71780a2 100644
--- a/src/apply_patch.rs
+++ b/src/apply_patch.rs
@@ -4,7 +4,6 @@ use std::{
     io::{BufReader, Cursor, Read},
     path::Path,
 };
-use zstd::stream::read::Decoder as ZstdDecoder;
 
 pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result<impl Read> {
     let archive = archive.as_ref();
@@ -12,7 +11,9 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
 
     let patch_file =
         File::open(patch).with_context(|| format!("open file `{}`", patch.display()))?;
-    let patch_decompressed = ZstdDecoder::new(patch_file)
+    // Decompress all of the patch before using any of it: the reader below takes
+    // a truncated file for a complete patch if it ends between two instructions
+    let patch_decompressed = zstd::stream::decode_all(BufReader::new(patch_file))
         .with_context(|| format!("read zstd compressed file `{}`", patch.display()))?;
 
     let archive_file =
@@ -20,8 +21,11 @@ pub fn apply_patch(archive: impl AsRef<Path>, patch: impl AsRef<Path>) -> Result
     let archive_decompressed = zstd::stream::decode_all(BufReader::new(archive_file))
         .with_context(|| format!("read zstd compressed file `{}`", archive.display()))?;
 
-    bipatch::Reader::new(patch_decompressed, Cursor::new(archive_decompressed))
-        .context("read patch")
+    bipatch::Reader::new(
+        Cursor::new(patch_decompressed),
+        Cursor::new(archive_decompressed),
+    )
+    .context("read patch")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8da08346716de54254e39bde5de2befde45c69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:19 +0000
Subject: [PATCH 15/20] fix: check the build even if `current` already points
 at its version

`current` could point at an empty file or at a build outside of the store,
and install reported success without looking at it.
---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb14e5b..5ea6394 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,14 +49,19 @@ pub async fn install(
             );
 
             if current_version == target_version {
+                // still check the build: `current` might point at an empty
+                // file, or at one that is not in this store
                 log::info!("version `{}` already installed", target_version);
-                return Ok(());
+                index
+                    .get_build(target_version.clone())
+                    .await
+                    .context("get build")?
+            } else {
+                index
+                    .upgrade_to_build(current_version, target_version.clone())
+                    .await
+                    .context("get build")?
             }
-
-            index
-                .upgrade_to_build(current_version, target_version.clone())
-                .await
-                .context("get build")?
         }
         res => {
             log::debug!("no usable `current` symlink: {:?}", res);
-- 
2.43.0


From 2468b6e39efc093a3cd97800dd0a789c119ed3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 16/20] fix: ignore files with names that are not UTF-8 in a
 store

They can not be builds or patches, but made opening the store fail.
---
 src/storage/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a8fa7d7..8146c53 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -147,7 +147,11 @@ impl Storage {
                 })
                 .collect::<Result<Vec<_>>>()?
                 .into_iter()
-                .filter(|(metadata, _)| metadata.file_type().is_file())
+                .filter(|(metadata, path)| {
+                    // names that are not UTF-8 are never those of builds or patches
+                    metadata.file_type().is_file()
+                        && path.file_name().and_then(|name| name.to_str()).is_some()
+                })
                 .map(|(metadata, path)| {
                     let path = path.canonicalize().with_context(|| {
                         format!("cannot canonicalize path `{}`", path.display())
-- 
2.43.0


From 3161a22ef38fb76a751373409d01d61952dfe8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:57 +0000
Subject: [PATCH 17/20] fix: compare numbers in tags by their value

human_sort compares `11` and `100` as `1` and `00` after their common first
digit, which is not even an order (99 < 100 < 11 < 99), so the tag picked
depended on the order of the tags. It also overflows on numbers from 2^32,
and such parts of a version were not counted down.
---
 src/git.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/git.rs b/src/git.rs
index 2a93967..5e688a0 100644
--- a/src/git.rs
+++ b/src/git.rs
@@ -1,5 +1,6 @@
 use erreur::{Context, Result};
 use smol_str::SmolStr;
+use std::cmp::Ordering;
 
 #[derive(Debug, Clone)]
 pub struct Tag {
@@ -36,17 +37,49 @@ pub fn tag_to_slice(tag: &str) -> Vec<SmolStr> {
         .collect()
 }
 
+/// Key for comparing tags in natural (human) order: one item per character, but
+/// only one for all the digits of a number
+fn natural_key(tag: &str) -> Vec<(char, usize, String)> {
+    let mut key = Vec::new();
+    // digits of the current number, without leading zeros
+    let mut number: Option<String> = None;
+    for c in tag.chars() {
+        if c.is_ascii_digit() {
+            let mut digits = number.take().unwrap_or_default();
+            if c != '0' || !digits.is_empty() {
+                digits.push(c);
+            }
+            number = Some(digits);
+        } else {
+            if let Some(digits) = number.take() {
+                key.push(('0', digits.len(), digits));
+            }
+            key.push((c, 0, String::new()));
+        }
+    }
+    if let Some(digits) = number {
+        key.push(('0', digits.len(), digits));
+    }
+    key
+}
+
+/// `human_sort::compare` is not enough: it compares `11` and `100` as `1` and
+/// `00`, and panics on numbers that do not fit an `u32`
+fn natural_cmp(a: &str, b: &str) -> Ordering {
+    natural_key(a).cmp(&natural_key(b)).then_with(|| a.cmp(b))
+}
+
 /// assume versions are in format `….c.b.a` (or `…-c-b-a`)
 pub fn find_tags_to_patch(current: &str, tags: &[String]) -> Result<Vec<String>> {
     fn dec(x: &SmolStr) -> Option<SmolStr> {
-        let num = x.parse::<u32>().ok()?;
+        let num = x.parse::<u64>().ok()?;
         let prev = num.checked_sub(1)?;
         Some(SmolStr::from(prev.to_string()))
     }
 
     let tags = {
         let mut tags = tags.to_vec();
-        tags.sort_by(|a, b| human_sort::compare(a, b));
+        tags.sort_by(|a, b| natural_cmp(a, b));
         tags
     };
     let parsed_tags = tags.iter().map(|tag| tag_to_slice(tag)).collect::<Vec<_>>();
-- 
2.43.0


From 8e940f55b576f4373515eeb6a6e447546c4d5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 18/20] fix: do not take a directory with a build's name for
 the build

---
 src/storage/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 8146c53..04927f9 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -216,7 +216,11 @@ impl Storage {
         match self.inner.as_ref() {
             InnerStorage::Filesystem(root) => {
                 let path = root.join(path);
-                ensure!(path.exists(), "Path `{}` does not exist", path.display());
+                ensure!(
+                    path.is_file(),
+                    "Path `{}` does not exist or is not a file",
+                    path.display()
+                );
                 let size = path
                     .metadata()
                     .with_context(|| format!("read metadata of `{}`", path.display()))?
-- 
2.43.0


From 6fb45e50b666c38dd1988585fb09f9397e4e7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 19/20] fix: install also if `current` points at something that
 is no known build

---
 src/index.rs | 5 -----
 src/lib.rs   | 7 +++----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/index.rs b/src/index.rs
index 91aed94..56b7bf4 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -227,11 +227,6 @@ impl Index {
     /// Upgrade from one version to the next
     pub async fn upgrade_to_build(&mut self, from: Version, to: Version) -> Result<Entry> {
         log::debug!("searching for upgrade path from `{}` to `{}`", from, to);
-        ensure!(
-            self.patch_graph.has_build(from.clone()),
-            "build `{:?}` unknown",
-            from
-        );
         ensure!(
             self.patch_graph.has_build(to.clone()),
             "build `{:?}` unknown",
diff --git a/src/lib.rs b/src/lib.rs
index 5ea6394..cc290e2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,13 +39,12 @@ pub async fn install(
     target_version: Version,
     current: &Path,
 ) -> Result<()> {
-    let target_build = match fs::read_link(&current) {
-        Ok(curent_path) if current.exists() => {
-            let current_version = paths::build_version_from_path(&curent_path)?;
+    let target_build = match fs::read_link(&current).map(paths::build_version_from_path) {
+        Ok(Ok(current_version)) if current.exists() => {
             log::debug!(
                 "identified version `{}` from path `{}`",
                 current_version,
-                curent_path.display()
+                current.display()
             );
 
             if current_version == target_version {
-- 
2.43.0


From 19dcd477098a408ef5cc5bd6559bdc42195f058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 20/20] fix: do not take symlinks for build or patch files when
 fetching

---
 src/storage/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 04927f9..9d04efc 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -216,15 +216,16 @@ impl Storage {
         match self.inner.as_ref() {
             InnerStorage::Filesystem(root) => {
                 let path = root.join(path);
+                // like in `list_files`: a symlink is none of our files
+                let metadata = path
+                    .symlink_metadata()
+                    .with_context(|| format!("read metadata of `{}`", path.display()))?;
                 ensure!(
-                    path.is_file(),
-                    "Path `{}` does not exist or is not a file",
+                    metadata.file_type().is_file(),
+                    "Path `{}` is not a file",
                     path.display()
                 );
-                let size = path
-                    .metadata()
-                    .with_context(|| format!("read metadata of `{}`", path.display()))?
-                    .len();
+                let size = metadata.len();
 
                 Ok(File::InFilesystem(Entry {
                     storage: self.clone(),
-- 
2.43.0

