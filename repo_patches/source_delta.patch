From ae44366a9b43c894ed7732bb604bafd4bf99cbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 01/54] fix: refuse tarball entries and cached index paths that
 escape the package directory

---
 crates/nassun/src/package.rs | 10 +++++++++-
 crates/nassun/src/tarball.rs | 37 ++++++++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index bffe46d..577b9bf 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -289,7 +289,15 @@ impl Package {
             };
             for (archived_path, (sri, mode)) in index.files.iter() {
                 let sri: Integrity = sri.parse()?;
-                let path = dir.join(&archived_path[..]);
+                let subpath = crate::tarball::contained_path(Path::new(&archived_path[..]))
+                    .map_err(|e| {
+                        NassunError::ExtractIoError(
+                            e,
+                            Some(dir.clone()),
+                            "checking path of cached package file.".into(),
+                        )
+                    })?;
+                let path = dir.join(subpath);
                 let parent = PathBuf::from(path.parent().expect("this will always have a parent"));
                 crate::tarball::mkdirp(&parent, &created)?;
 
diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 35472b0..3902bca 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 #[cfg(not(target_arch = "wasm32"))]
 use std::io::{Read, Seek};
 #[cfg(not(target_arch = "wasm32"))]
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 #[cfg(not(target_arch = "wasm32"))]
@@ -246,9 +246,15 @@ impl TempTarball {
             let entry_path = header.path().map_err(|e| {
                 NassunError::ExtractIoError(e, None, "reading path from entry header.".into())
             })?;
-            let entry_subpath = strip_one(&entry_path)
-                .unwrap_or_else(|| entry_path.as_ref())
-                .to_path_buf();
+            let entry_subpath =
+                contained_path(strip_one(&entry_path).unwrap_or_else(|| entry_path.as_ref()))
+                    .map_err(|e| {
+                        NassunError::ExtractIoError(
+                            e,
+                            Some(PathBuf::from(dir)),
+                            "checking path of tarball entry.".into(),
+                        )
+                    })?;
             let path = dir.join(&entry_subpath);
             if let tar::EntryType::Regular = header.entry_type() {
                 let parent = path.parent().unwrap();
@@ -424,6 +430,29 @@ fn strip_one(path: &Path) -> Option<&Path> {
     comps.next().map(|_| comps.as_path())
 }
 
+/// Rebuilds a relative path that came from package data, making sure it can
+/// only ever name something inside the directory it gets joined to.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn contained_path(path: &Path) -> std::io::Result<PathBuf> {
+    let mut contained = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(part) => contained.push(part),
+            Component::CurDir => {}
+            Component::Prefix(_) | Component::RootDir | Component::ParentDir => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::InvalidData,
+                    format!(
+                        "path would escape from the package directory: {}",
+                        path.display()
+                    ),
+                ));
+            }
+        }
+    }
+    Ok(contained)
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn tarball_key(integrity: &Integrity) -> String {
     format!("nassun::package::{integrity}")
-- 
2.43.0


From 8e023e867779a2083a332cb60e459ac8280e789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 02/54] fix: keep bin targets inside of their package

---
 crates/oro-common/src/build_manifest.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 27d0800..e8f9e43 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -133,16 +133,18 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            let bin_target = Path::new("/")
-                .join(bin.to_string_lossy().to_string())
-                .strip_prefix(
-                    #[cfg(windows)]
-                    "\\",
-                    #[cfg(not(windows))]
-                    "/",
-                )
-                .expect("We added this ourselves")
-                .to_path_buf();
+            // The target must stay inside of the package itself, so it gets
+            // resolved as if the package directory were the filesystem root.
+            let mut bin_target = PathBuf::new();
+            for component in bin.components() {
+                match component {
+                    Component::Normal(part) => bin_target.push(part),
+                    Component::ParentDir => {
+                        bin_target.pop();
+                    }
+                    Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
+                }
+            }
             if bin_target == Path::new("") {
                 continue;
             }
-- 
2.43.0


From fa473436afa1c7ae09172ae45b68d6d662991b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 03/54] fix: reject '.' and '..' as parts of package names

---
 crates/oro-package-spec/src/parsers/alias.rs |  4 ++--
 crates/oro-package-spec/src/parsers/npm.rs   |  4 ++--
 crates/oro-package-spec/src/parsers/util.rs  | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/alias.rs b/crates/oro-package-spec/src/parsers/alias.rs
index ba61508..d932737 100644
--- a/crates/oro-package-spec/src/parsers/alias.rs
+++ b/crates/oro-package-spec/src/parsers/alias.rs
@@ -16,7 +16,7 @@ pub(crate) fn alias_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseErr
         map(
             tuple((
                 opt(scope),
-                map_res(take_till1(|c| c == '@' || c == '/'), util::no_url_encode),
+                map_res(take_till1(|c| c == '@' || c == '/'), util::name_part),
                 tag("@"),
                 prefixed_package_spec,
             )),
@@ -55,7 +55,7 @@ fn scope(input: &str) -> IResult<&str, String, SpecParseError<&str>> {
         map(
             tuple((
                 opt(tag("@")),
-                map_res(take_till1(|c| c == '/'), util::no_url_encode),
+                map_res(take_till1(|c| c == '/'), util::name_part),
                 tag("/"),
             )),
             |(at, scope, _)| {
diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index f013beb..028deb9 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -20,10 +20,10 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
             tuple((
                 opt(delimited(
                     char('@'),
-                    map_res(take_till1(|c| c == '/'), util::no_url_encode),
+                    map_res(take_till1(|c| c == '/'), util::name_part),
                     char('/'),
                 )),
-                map_res(take_till1(|x| x == '@' || x == '/'), util::no_url_encode),
+                map_res(take_till1(|x| x == '@' || x == '/'), util::name_part),
                 opt(preceded(tag("@"), cut(version_req))),
             )),
             |(scope_opt, name, req)| {
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index d75374a..5c8f03c 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -26,3 +26,17 @@ pub(crate) fn no_url_encode(tag: &str) -> Result<&str, SpecParseError<&str>> {
         })
     }
 }
+
+/// Like [`no_url_encode`], but for strings that go on to be (part of) the
+/// name of a package, and thus of a directory in `node_modules/`.
+pub(crate) fn name_part(name: &str) -> Result<&str, SpecParseError<&str>> {
+    if name == "." || name == ".." {
+        Err(SpecParseError {
+            input: name,
+            context: None,
+            kind: Some(SpecErrorKind::InvalidCharacters(name.into())),
+        })
+    } else {
+        no_url_encode(name)
+    }
+}
-- 
2.43.0


From b4d91d34e802550a8f5bf81706c03ec86007d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 04/54] fix: read a package's shasum as the hex digest it is

---
 crates/nassun/src/resolver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 87ec99f..cf74aef 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -269,7 +269,9 @@ impl PackageResolver {
                             v.dist
                                 .shasum
                                 .as_ref()
-                                .map(|s| format!("sha1-{}", s).parse())
+                                // `shasum` is a hex digest, while integrity
+                                // strings hold base64 ones.
+                                .map(|s| Integrity::from_hex(s, ssri::Algorithm::Sha1))
                         })
                         .transpose()?,
                 })
-- 
2.43.0


From d2bd7d9ee98ee4b16989cc0d0b2daec88fb00a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 05/54] fix: drop unreadable cache entries instead of failing
 the install

---
 crates/nassun/src/package.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index 577b9bf..c66af70 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -329,15 +329,16 @@ impl fmt::Debug for Package {
 
 #[cfg(not(target_arch = "wasm32"))]
 fn clean_from_cache(cache: &Path, sri: &Integrity, entry: cacache::Metadata) -> Result<()> {
-    let index = rkyv::check_archived_root::<TarballIndex>(
-        entry
-            .raw_metadata
-            .as_ref()
-            .ok_or_else(|| NassunError::CacheMissingIndexError("".into()))?,
-    )
-    .map_err(|e| NassunError::DeserializeCacheError(e.to_string()))?;
-    for (sri, _) in index.files.values() {
-        let sri: Integrity = sri.as_str().parse()?;
+    // If the index itself is unreadable, there's no telling which files it
+    // listed, but the entry still has to go.
+    let index = entry
+        .raw_metadata
+        .as_ref()
+        .and_then(|raw| rkyv::check_archived_root::<TarballIndex>(raw).ok());
+    for (sri, _) in index.iter().flat_map(|index| index.files.values()) {
+        let Ok(sri) = sri.as_str().parse::<Integrity>() else {
+            continue;
+        };
         match cacache::remove_hash_sync(cache, &sri) {
             Ok(_) => {}
             // We don't care if the file doesn't exist.
-- 
2.43.0


From 034864b11429bc4350267ab451cfff00fdcd93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 06/54] fix: tolerate existing directories when extracting a
 package again

---
 crates/nassun/src/tarball.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 3902bca..a46735d 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -559,13 +559,23 @@ pub(crate) fn mkdirp(path: &Path, cache: &dashmap::DashSet<PathBuf>) -> Result<(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(path.parent().unwrap().into()),
-                    "creating parent directory for entry.".into(),
-                )
-            })?;
+            std::fs::create_dir(path)
+                .or_else(|e| {
+                    // It might be there already, for example when an earlier
+                    // extraction attempt into the same place failed halfway.
+                    if e.kind() == std::io::ErrorKind::AlreadyExists && path.is_dir() {
+                        Ok(())
+                    } else {
+                        Err(e)
+                    }
+                })
+                .map_err(|e| {
+                    NassunError::ExtractIoError(
+                        e,
+                        Some(path.parent().unwrap().into()),
+                        "creating parent directory for entry.".into(),
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).map_err(|e| {
-- 
2.43.0


From c8dd18eede39c8501463a6ea4771cf509dd0e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 07/54] fix: copy the package.json of packages with install
 scripts too

---
 crates/nassun/src/tarball.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index a46735d..d7926e4 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -281,10 +281,14 @@ impl TempTarball {
                     extract_from_cache(cache, &sri, &path, extract_mode, mode)?;
 
                     let entry_subpath = entry_subpath.to_string_lossy().to_string();
+                    tarball_index
+                        .files
+                        .insert(entry_subpath.clone(), (sri.to_string(), mode));
 
                     // We check whether the package has any install scripts.
-                    // If so, we need to re-extract all previous files as full
-                    // copies and mark the package as having scripts in it.
+                    // If so, we need to re-extract all files so far, including
+                    // this one, as full copies and mark the package as having
+                    // scripts in it.
                     if entry_subpath == "package.json" {
                         let manifest = BuildManifest::from_path(&path).io_context(|| {
                             format!(
@@ -309,9 +313,6 @@ impl TempTarball {
                         }
                         build_mani = Some(manifest);
                     }
-                    tarball_index
-                        .files
-                        .insert(entry_subpath, (sri.to_string(), mode));
                 } else {
                     let mut open_opts = std::fs::OpenOptions::new();
                     open_opts.write(true).create_new(true);
-- 
2.43.0


From f0fade36dda593613335f29067b3ac47e88c8a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 08/54] fix: tell registries on different ports apart when
 adding credentials

---
 crates/oro-client/src/auth_middleware.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index ea45336..158a2d5 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -33,7 +33,10 @@ impl Middleware for AuthMiddleware {
         // Don't add auth headers to requests to URLs outside the given
         // registry.
         let req_url = req.url().clone();
-        if reg.host_str() != req_url.host_str() || !req_url.path().starts_with(reg.path()) {
+        if reg.host_str() != req_url.host_str()
+            || reg.port_or_known_default() != req_url.port_or_known_default()
+            || !req_url.path().starts_with(reg.path())
+        {
             return next.run(req, extensions).await;
         }
 
@@ -87,5 +90,9 @@ where
 }
 
 pub fn nerf_dart(url: &Url) -> String {
-    format!("//{}{}", url.host_str().unwrap_or(""), url.path())
+    let port = url
+        .port()
+        .map(|port| format!(":{port}"))
+        .unwrap_or_default();
+    format!("//{}{port}{}", url.host_str().unwrap_or(""), url.path())
 }
-- 
2.43.0


From d3b09e4feb560c94b5abcda9b7e189b7d676d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 09/54] fix: send registry credentials with tarball downloads
 too

---
 crates/nassun/src/fetch/npm.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/npm.rs b/crates/nassun/src/fetch/npm.rs
index f51c7d3..fb296d3 100644
--- a/crates/nassun/src/fetch/npm.rs
+++ b/crates/nassun/src/fetch/npm.rs
@@ -156,7 +156,15 @@ impl PackageFetcher for NpmFetcher {
             PackageResolution::Npm { ref tarball, .. } => tarball,
             _ => panic!("How did a non-Npm resolution get here?"),
         };
-        Ok(self.client.stream_external(url).await?)
+        // The tarball belongs to the registry its package comes from, which is
+        // also the one whose credentials apply to it.
+        let client = match pkg.from().target() {
+            PackageSpec::Npm { ref scope, .. } => {
+                self.client.with_registry(self.pick_registry(scope))
+            }
+            _ => self.client.clone(),
+        };
+        Ok(client.stream_external(url).await?)
     }
 }
 
-- 
2.43.0


From 618b62fdef1f093a417cb2ea063b436f8e10ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 10/54] fix: notice when the registry refuses to revoke a token

---
 crates/oro-client/src/api/logout.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index 39d6051..0a66079 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -6,7 +6,8 @@ impl OroClient {
             .delete(self.registry.join(&format!("-/user/token/{token}"))?)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
-            .await?;
+            .await?
+            .error_for_status()?;
         Ok(())
     }
 }
-- 
2.43.0


From e0e6913164c89358f483fe90d71bcabdf46a0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 11/54] fix: read stored credentials back as what they were
 stored as

---
 crates/oro-npm-account/src/config.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 82b6753..11ea4aa 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -1,4 +1,3 @@
-use base64::{engine::general_purpose, Engine as _};
 use kdl::{KdlDocument, KdlEntry, KdlNode, KdlValue};
 use reqwest::header::HeaderValue;
 use url::Url;
@@ -113,21 +112,15 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             let username = credentials.get("username");
             let password = credentials.get("password");
 
-            match (token, legacy_auth, username, password) {
-                (_, Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
-                (.., Some(username), Some(password)) => {
-                    let username = username.as_string()?;
-                    let password = password.as_string()?;
-                    let password = general_purpose::STANDARD.decode(password).ok()?;
-                    let password = String::from_utf8_lossy(&password).to_string();
-
-                    Some(Credentials::LegacyAuth(
-                        general_purpose::STANDARD.encode(format!("{username}:{password}")),
-                    ))
-                }
-                (Some(legacy_auth), ..) => {
+            match (token, legacy_auth, username) {
+                (Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
+                (_, Some(legacy_auth), _) => {
                     Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
                 }
+                (.., Some(username)) => Some(Credentials::BasicAuth {
+                    username: username.as_string()?.into(),
+                    password: password.and_then(|p| p.as_string()).map(|p| p.into()),
+                }),
                 _ => None,
             }
         })
-- 
2.43.0


From 38c4057f94b64b2e87cfd0a854bc03478219f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 12/54] fix: keep unrelated entries when credentials are
 changed

---
 crates/oro-npm-account/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 11ea4aa..a67c1c6 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -150,7 +150,7 @@ pub fn clear_crendentials_by_uri(uri: &Url, config: &mut KdlDocument) {
 fn clean_auth_nodes(uri: &Url, nodes: &mut Vec<KdlNode>) {
     nodes.retain_mut(|node| {
         let Ok(node_url) = Url::parse(node.name().value()) else {
-            return false;
+            return true;
         };
         oro_client::nerf_dart(&node_url) != oro_client::nerf_dart(uri)
     });
-- 
2.43.0


From 97e20f7943c12e93f220ac1c3d316195589a24c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 13/54] fix: store credentials and scoped registries even if
 their section is empty

---
 crates/oro-npm-account/src/config.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index a67c1c6..a99e852 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -21,8 +21,8 @@ pub fn set_credentials_by_uri(uri: &Url, credentials: &Credentials, config: &mut
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("auth").is_none() {
                 children.nodes_mut().push(KdlNode::new("auth"));
-                children.get_mut("auth").unwrap().ensure_children();
             }
+            children.get_mut("auth").unwrap().ensure_children();
         }
     }
 
@@ -70,11 +70,11 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
-                children
-                    .get_mut("scoped-registries")
-                    .unwrap()
-                    .ensure_children();
             }
+            children
+                .get_mut("scoped-registries")
+                .unwrap()
+                .ensure_children();
         }
     }
 
-- 
2.43.0


From 6e1184a3fafb9d216a5657c082e351caf59cb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 14/54] fix: fail login and logout when there is no place to
 keep credentials

---
 src/commands/login.rs  | 2 ++
 src/commands/logout.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/commands/login.rs b/src/commands/login.rs
index 8246e29..d2b3597 100644
--- a/src/commands/login.rs
+++ b/src/commands/login.rs
@@ -112,6 +112,8 @@ impl OroCommand for LoginCmd {
             }
 
             std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+        } else {
+            miette::bail!("There is no place to store credentials: no home directory was found. Use --config to name a file.");
         }
         Ok(())
     }
diff --git a/src/commands/logout.rs b/src/commands/logout.rs
index dfd63a3..c39452b 100644
--- a/src/commands/logout.rs
+++ b/src/commands/logout.rs
@@ -45,6 +45,8 @@ impl OroCommand for LogoutCmd {
 
             config::clear_crendentials_by_uri(&self.registry, &mut config);
             std::fs::write(config_path, config.to_string()).into_diagnostic()?;
+        } else {
+            miette::bail!("There is no place credentials could be stored in: no home directory was found. Use --config to name a file.");
         }
         Ok(())
     }
-- 
2.43.0


From 9f1925262698ebca2d563f6d23b0abc6933a23f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 15/54] fix: keep the last path segment of a registry's address
 in requests to it

---
 crates/oro-client/src/auth_middleware.rs |  4 +++-
 crates/oro-client/src/client.rs          | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index 158a2d5..c9d9de6 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -94,5 +94,7 @@ pub fn nerf_dart(url: &Url) -> String {
         .port()
         .map(|port| format!(":{port}"))
         .unwrap_or_default();
-    format!("//{}{port}{}", url.host_str().unwrap_or(""), url.path())
+    let path = url.path();
+    let slash = if path.ends_with('/') { "" } else { "/" };
+    format!("//{}{port}{path}{slash}", url.host_str().unwrap_or(""))
 }
diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b721f9..70015e0 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -63,7 +63,7 @@ impl OroClientBuilder {
     }
 
     pub fn registry(mut self, registry: Url) -> Self {
-        self.registry = registry;
+        self.registry = with_trailing_slash(registry);
         self
     }
 
@@ -221,13 +221,23 @@ impl OroClient {
 
     pub fn with_registry(&self, registry: Url) -> Self {
         Self {
-            registry: Arc::new(registry),
+            registry: Arc::new(with_trailing_slash(registry)),
             client: self.client.clone(),
             client_uncached: self.client_uncached.clone(),
         }
     }
 }
 
+/// The requests to a registry are for addresses _below_ its own, so the last
+/// segment of that must not be taken for a file name when they're joined.
+fn with_trailing_slash(mut registry: Url) -> Url {
+    if !registry.path().ends_with('/') {
+        let path = format!("{}/", registry.path());
+        registry.set_path(&path);
+    }
+    registry
+}
+
 impl Default for OroClient {
     fn default() -> Self {
         OroClientBuilder::new()
-- 
2.43.0


From b556a3f6bccb45cfee88792c27d7c9852208d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 16/54] fix: let --locked succeed when the lockfile would not
 change

---
 crates/node-maintainer/src/resolver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 49cad17..70aa9df 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -260,7 +260,9 @@ impl<'a> Resolver<'a> {
 
         if self.locked {
             if let Some(lockfile) = lockfile {
-                if lockfile != self.graph.to_lockfile()? {
+                // Not everything in a freshly-resolved tree gets written to
+                // its lockfile, so we compare what would be read back.
+                if lockfile != Lockfile::from_kdl(self.graph.to_kdl()?)? {
                     return Err(NodeMaintainerError::LockfileMismatch);
                 }
             }
-- 
2.43.0


From 52208eb275582f850f78af5de496c23317f6801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 17/54] fix: fail with --locked if the existing lockfile cannot
 be read

---
 crates/node-maintainer/src/maintainer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index ad7f936..2b8928c 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -299,6 +299,7 @@ impl NodeMaintainerOptions {
                     .and_then(Lockfile::from_kdl)
                 {
                     Ok(lock) => return Ok(Some(lock)),
+                    Err(e) if self.locked => return Err(e),
                     Err(e) => tracing::debug!("Failed to parse existing package-lock.kdl: {}", e),
                 }
             }
@@ -310,6 +311,7 @@ impl NodeMaintainerOptions {
                     .and_then(Lockfile::from_npm)
                 {
                     Ok(lock) => return Ok(Some(lock)),
+                    Err(e) if self.locked => return Err(e),
                     Err(e) => tracing::debug!("Failed to parse existing package-lock.json: {}", e),
                 }
             }
@@ -321,6 +323,7 @@ impl NodeMaintainerOptions {
                     .and_then(Lockfile::from_npm)
                 {
                     Ok(lock) => return Ok(Some(lock)),
+                    Err(e) if self.locked => return Err(e),
                     Err(e) => {
                         tracing::debug!("Failed to parse existing npm-shrinkwrap.json: {}", e)
                     }
-- 
2.43.0


From ceec6902d98065fcf25d81d301982e58aa9ee5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 18/54] fix: keep the order of package.json's other entries
 when removing one

---
 src/commands/add.rs    | 3 ++-
 src/commands/remove.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 47c1030..7765966 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -152,7 +152,8 @@ impl AddCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // NOTE: `remove` would move the last entry to the removed one's place.
+                        obj.retain(|key, _| key != name);
                     }
                 }
             }
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index da4ab59..313c0e8 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -93,7 +93,8 @@ impl RemoveCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        // NOTE: `remove` would move the last entry to the removed one's place.
+                        obj.retain(|key, _| key != name);
                         count += 1;
                     }
                 }
-- 
2.43.0


From 3adf9beb2191e37778195d7161e881686a067b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 19/54] fix: don't wait forever for the install scripts of
 packages that depend on each other

---
 crates/node-maintainer/src/linkers/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e6b52b4..9a96c0d 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -156,15 +156,19 @@ impl Linker {
             .iter()
             .copied()
             .collect::<Vec<_>>();
+        // Packages that depend on each other have no order between them:
+        // having each wait for the other would make them wait forever.
+        let runs_after = |idx: NodeIndex, dep: NodeIndex| {
+            petgraph::algo::has_path_connecting(&graph.inner, idx, dep, None)
+                && !petgraph::algo::has_path_connecting(&graph.inner, dep, idx, None)
+        };
         // Map of package to the set of packages that need to run before it can run.
         let dependencies = pending
             .iter()
             .map(|idx| {
                 let mut deps = HashSet::new();
                 for dep in &pending {
-                    if dep != idx
-                        && petgraph::algo::has_path_connecting(&graph.inner, *idx, *dep, None)
-                    {
+                    if runs_after(*idx, *dep) {
                         deps.insert(*dep);
                     }
                 }
@@ -178,9 +182,7 @@ impl Linker {
                 .map(|idx| {
                     let mut deps = HashSet::new();
                     for dep in &pending {
-                        if dep != idx
-                            && petgraph::algo::has_path_connecting(&graph.inner, *dep, *idx, None)
-                        {
+                        if runs_after(*dep, *idx) {
                             deps.insert(*dep);
                         }
                     }
-- 
2.43.0


From ebca3a41df8c0af778350b25818098fa7f0924a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:38 +0000
Subject: [PATCH 20/54] fix: replace scoped and nested packages that no longer
 match the tree when applying hoisted

---
 crates/node-maintainer/src/linkers/hoisted.rs | 117 +++++++++---------
 1 file changed, 57 insertions(+), 60 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 619c21b..4784c19 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -1,6 +1,6 @@
 use std::collections::HashSet;
 use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc};
 
@@ -108,7 +108,22 @@ impl HoistedLinker {
         let bin_osstr = Some(std::ffi::OsStr::new(".bin"));
         let meta = prefix.join(META_FILE_NAME);
         let mut extraneous_packages = 0;
-        let extraneous = &mut extraneous_packages;
+        let is_scope = |path: &Path| {
+            path.file_name()
+                .map(|name| name.to_string_lossy().starts_with('@'))
+                .unwrap_or(false)
+        };
+        // Whether this is where a package goes: right inside a
+        // `node_modules`, or inside a scope's directory in there.
+        let is_package_path = |path: &Path| {
+            let parent = path.parent().expect("this must have a parent");
+            let dir = if is_scope(parent) {
+                parent.parent().expect("this must have a parent")
+            } else {
+                parent
+            };
+            dir.file_name() == nm_osstr
+        };
 
         for entry in WalkDir::new(&prefix)
             .into_iter()
@@ -131,71 +146,53 @@ impl HoistedLinker {
                     return false;
                 }
 
-                if file_name
-                    .expect("this should have a file name")
-                    .to_string_lossy()
-                    .starts_with('@')
-                {
-                    // Let scoped packages through.
-                    return true;
-                }
-
-                // See if we're looking at a package dir, presumably (or a straggler file).
-                if entry_path
-                    .parent()
-                    .expect("this must have a parent")
-                    .file_name()
-                    == nm_osstr
-                {
-                    let entry_subpath_path = entry_path
-                        .strip_prefix(&prefix)
-                        .expect("this should definitely be under the prefix");
-                    let entry_subpath =
-                        UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
-
-                    let actual = self
-                        .opts
-                        .actual_tree
-                        .as_ref()
-                        .and_then(|tree| tree.packages.get(&entry_subpath));
-                    let ideal = graph
-                        .node_at_path(entry_subpath_path)
-                        .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
-                    // If the package is not in the actual tree, or it doesn't
-                    // match up with what the ideal tree wants, it's
-                    // extraneous. We want to return true for those so we
-                    // delete them later.
-                    if ideal.is_some()
-                        && self
-                            .opts
-                            .actual_tree
-                            .as_ref()
-                            .map(|tree| tree.packages.contains_key(&entry_subpath))
-                            .unwrap_or(false)
-                        && actual == ideal.as_ref()
-                    {
-                        return false;
-                    } else {
-                        *extraneous += 1;
-                        return true;
-                    }
-                }
-
-                // We're not interested in any other files than the package dirs themselves.
-                false
+                // Let scopes through, and look at all package dirs,
+                // presumably (or straggler files). We're not interested in
+                // any other files.
+                is_scope(entry_path) || is_package_path(entry_path)
             })
         {
             let entry = entry?;
             let entry_path = entry.path();
             let file_name = entry_path.file_name();
-            if file_name == nm_osstr
-                || file_name == bin_osstr
-                || file_name
-                    .map(|s| s.to_string_lossy().starts_with('@'))
-                    .unwrap_or(false)
+            if file_name == nm_osstr || file_name == bin_osstr || is_scope(entry_path) {
+                continue;
+            }
+
+            let entry_subpath_path = entry_path
+                .strip_prefix(&prefix)
+                .expect("this should definitely be under the prefix");
+            let entry_subpath: UniCase<String> =
+                UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
+
+            let actual = self
+                .opts
+                .actual_tree
+                .as_ref()
+                .and_then(|tree| tree.packages.get(&entry_subpath));
+            let ideal = graph
+                .node_at_path(entry_subpath_path)
+                .filter(|node| UniCase::new(graph.node_path_string(node.idx)) == entry_subpath)
+                .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
+
+            // If the package is not in the actual tree, or it doesn't match
+            // up with what the ideal tree wants, it's extraneous.
+            if actual.is_some() && actual == ideal.as_ref() {
+                continue;
+            }
+
+            // Except that packages can bring along some of their own.
+            if actual.is_none()
+                && ideal.is_none()
+                && entry_path.ancestors().skip(1).any(|dir| {
+                    dir != prefix && dir.starts_with(&prefix) && dir.file_name() == nm_osstr
+                })
             {
                 continue;
-            } else if entry.file_type().is_dir() {
+            }
+
+            extraneous_packages += 1;
+            if entry.file_type().is_dir() {
                 if let Some(pb) = &self.opts.on_prune_progress {
                     pb(entry_path);
                 }
-- 
2.43.0


From 6214dafe3f47e6705c72fbea2dfdc55b8da3d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 21/54] fix: don't fail to link a package into a scope
 directory that already exists

---
 crates/node-maintainer/src/linkers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 9a96c0d..1282722 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -493,7 +493,9 @@ pub(crate) fn mkdirp(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).io_context(|| {
+            // Not `create_dir`: it might be there from an earlier run, or
+            // just have been created by another task.
+            std::fs::create_dir_all(path).io_context(|| {
                 format!(
                     "Failed to create directory {} while extracting.",
                     path.display()
-- 
2.43.0


From d4ed961431a72187dac1177101ea341e30868876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 22/54] fix: replace outdated links to scoped packages

---
 .../node-maintainer/src/linkers/isolated.rs   | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index c184769..b06dbee 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -518,20 +518,33 @@ impl IsolatedLinker {
                 .join("node_modules")
                 .join(dep_pkg.name());
             let dep_nm_entry = target_nm.join(dep_pkg.name());
-            if dep_nm_entry.exists() {
-                continue;
-            }
             let relative = pathdiff::diff_paths(
                 &dep_store_dir,
                 dep_nm_entry.parent().expect("must have a parent"),
             )
             .expect("this should never fail");
+            let existing = dep_nm_entry.read_link().ok();
+            if existing.as_ref() == Some(&relative) || (existing.is_none() && dep_nm_entry.exists())
+            {
+                continue;
+            }
             let mkdir_cache = self.mkdir_cache.clone();
             async_std::task::spawn_blocking(move || {
                 let path = dep_nm_entry.parent().expect("definitely has a parent");
                 super::mkdirp(path, &mkdir_cache)?;
+                if existing.is_some() {
+                    // prune() doesn't look inside of scopes, so there can
+                    // still be a link to something else.
+                    std::fs::remove_file(&dep_nm_entry)
+                        .or_else(|_| std::fs::remove_dir(&dep_nm_entry))
+                        .io_context(|| {
+                            format!(
+                                "Failed to delete outdated link at {} while linking dependency.",
+                                dep_nm_entry.display()
+                            )
+                        })?;
+                }
                 if dep_nm_entry.symlink_metadata().is_err() {
-                    // We don't check the link target here because we assume prune() has already been run and removed any incorrect links.
                     #[cfg(windows)]
                     std::os::windows::fs::symlink_dir(&relative, &dep_nm_entry)
                         .or_else(|_| junction::create(&dep_store_dir, &dep_nm_entry))
-- 
2.43.0


From 29f63fd7e09f52642f76193f4178f5c436de797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 23/54] fix: re-extract packages that changed in place when
 applying isolated

---
 crates/node-maintainer/src/linkers/isolated.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index b06dbee..bcdc16e 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -651,7 +651,14 @@ fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
 
     let mut name = node.name.to_string();
     name.push('@');
-    let (_, mut hex) = Integrity::from(subdir).to_hex();
+    // The store is shared between runs, so a package that's been replaced by
+    // another one at the same place in the tree needs a different name.
+    let resolved = node.package.resolved();
+    let integrity = resolved
+        .integrity()
+        .map(|integrity| integrity.to_string())
+        .unwrap_or_default();
+    let (_, mut hex) = Integrity::from(format!("{subdir}\n{resolved}\n{integrity}")).to_hex();
     hex.truncate(8);
     name.push_str(&hex);
     name
-- 
2.43.0


From 159327962b9d92b4b84288937d89a41714736333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 24/54] fix: don't trust what an interrupted apply left in
 node_modules

---
 crates/node-maintainer/src/linkers/hoisted.rs |  3 +++
 .../node-maintainer/src/linkers/isolated.rs   |  3 +++
 crates/node-maintainer/src/linkers/mod.rs     | 20 ++++++++++++++++++-
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 4784c19..cfc96e9 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -47,6 +47,8 @@ impl HoistedLinker {
             return Ok(0);
         }
 
+        super::remove_meta(&prefix)?;
+
         if self.opts.actual_tree.is_none()
             || async_std::path::Path::new(&prefix.join(STORE_DIR_NAME))
                 .exists()
@@ -249,6 +251,7 @@ impl HoistedLinker {
         let total_completed = Arc::new(AtomicUsize::new(0));
         let node_modules = root.join("node_modules");
         super::mkdirp(&node_modules, &self.mkdir_cache)?;
+        super::remove_meta(&node_modules)?;
         let extract_mode = if let Some(cache) = self.opts.cache.as_deref() {
             if super::supports_reflink(cache, &node_modules) {
                 ExtractMode::Reflink
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index bcdc16e..76f2438 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -48,6 +48,8 @@ impl IsolatedLinker {
             return Ok(0);
         }
 
+        super::remove_meta(&prefix)?;
+
         let store = prefix.join(STORE_DIR_NAME);
 
         if self.opts.actual_tree.is_none() || !async_std::path::Path::new(&store).exists().await {
@@ -351,6 +353,7 @@ impl IsolatedLinker {
         let total_completed = Arc::new(AtomicUsize::new(0));
         let node_modules = root.join("node_modules");
         super::mkdirp(&node_modules, &self.mkdir_cache)?;
+        super::remove_meta(&node_modules)?;
         let extract_mode = if let Some(cache) = self.opts.cache.as_deref() {
             if super::supports_reflink(cache, &node_modules) {
                 ExtractMode::Reflink
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 1282722..e91c4c8 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -24,7 +24,7 @@ use petgraph::stable_graph::NodeIndex;
 #[cfg(not(target_arch = "wasm32"))]
 use crate::{
     error::IoContext, graph::Graph, Lockfile, NodeMaintainerError, ProgressHandler, PruneProgress,
-    ScriptLineHandler, ScriptStartHandler,
+    ScriptLineHandler, ScriptStartHandler, META_FILE_NAME,
 };
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -481,6 +481,24 @@ pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError
     Ok(())
 }
 
+/// Forgets what's recorded about the contents of a `node_modules/`. This
+/// needs to happen before they're changed: if something goes wrong half way,
+/// the record doesn't tell what's there anymore.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn remove_meta(node_modules: &Path) -> Result<(), NodeMaintainerError> {
+    let meta = node_modules.join(META_FILE_NAME);
+    match std::fs::remove_file(&meta) {
+        Err(e) if e.kind() != std::io::ErrorKind::NotFound => Err(e),
+        _ => Ok(()),
+    }
+    .io_context(|| {
+        format!(
+            "Failed to remove Orogene meta file from node_modules, at {}.",
+            meta.display()
+        )
+    })
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn mkdirp(
     path: &Path,
-- 
2.43.0


From 66d9ae8c3c283155ba50868e57dbf1d5eb6adb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:08 +0000
Subject: [PATCH 25/54] fix: look for directories.bin inside of the package
 instead of the current directory

---
 crates/oro-common/src/build_manifest.rs | 57 +++++++++++++++----------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index e8f9e43..111b212 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -47,7 +47,7 @@ impl BuildManifest {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
         let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
-        Self::normalize(raw)
+        Self::normalize(raw, path.parent())
     }
 
     /// Create a new [`BuildManifest`] from an already fully loaded [`Manifest`],
@@ -61,10 +61,10 @@ impl BuildManifest {
             directories: manifest.directories.clone(),
             scripts: manifest.scripts.clone(),
         };
-        Self::normalize(raw)
+        Self::normalize(raw, None)
     }
 
-    fn normalize(raw: RawBuildManifest) -> std::io::Result<Self> {
+    fn normalize(raw: RawBuildManifest, package_dir: Option<&Path>) -> std::io::Result<Self> {
         let mut bin_map = HashMap::new();
         if let Some(Bin::Hash(bins)) = raw.bin {
             for (name, bin) in bins {
@@ -93,14 +93,20 @@ impl BuildManifest {
             bin: Some(bin_dir), ..
         }) = raw.directories
         {
-            for entry in WalkDir::new(bin_dir) {
-                let entry = entry?;
-                let path = entry.path();
-                if path.starts_with(".") {
-                    continue;
-                }
-                if let Some(file_name) = path.file_name() {
-                    bin_map.insert(file_name.to_string_lossy().to_string(), path.into());
+            let bin_dir = Self::within_package(&bin_dir);
+            // The directory might not be there, which only means that there's
+            // no bins in it.
+            let found = package_dir.map(|dir| dir.join(&bin_dir));
+            for dir in found.iter().filter(|dir| dir.is_dir()) {
+                for entry in WalkDir::new(dir) {
+                    let entry = entry?;
+                    let file_name = entry.file_name().to_string_lossy();
+                    if !entry.file_type().is_file() || file_name.starts_with('.') {
+                        continue;
+                    }
+                    if let Ok(path) = entry.path().strip_prefix(dir) {
+                        bin_map.insert(file_name.to_string(), bin_dir.join(path));
+                    }
                 }
             }
         };
@@ -133,18 +139,7 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            // The target must stay inside of the package itself, so it gets
-            // resolved as if the package directory were the filesystem root.
-            let mut bin_target = PathBuf::new();
-            for component in bin.components() {
-                match component {
-                    Component::Normal(part) => bin_target.push(part),
-                    Component::ParentDir => {
-                        bin_target.pop();
-                    }
-                    Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
-                }
-            }
+            let bin_target = Self::within_package(bin);
             if bin_target == Path::new("") {
                 continue;
             }
@@ -156,4 +151,20 @@ impl BuildManifest {
             scripts: raw.scripts,
         })
     }
+
+    /// A path that must stay inside of the package itself, resolved as if the
+    /// package directory were the filesystem root.
+    fn within_package(path: &Path) -> PathBuf {
+        let mut target = PathBuf::new();
+        for component in path.components() {
+            match component {
+                Component::Normal(part) => target.push(part),
+                Component::ParentDir => {
+                    target.pop();
+                }
+                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
+            }
+        }
+        target
+    }
 }
-- 
2.43.0


From 7e4fef1b66c6f66e51f9a6afa1460319b6264389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 26/54] fix: don't fail to install packages that list a bin
 they don't have

---
 crates/nassun/src/tarball.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index d7926e4..ed5adb3 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -512,7 +512,12 @@ pub(crate) fn extract_from_cache(
 #[cfg(unix)]
 pub(crate) fn set_bin_mode(path: &Path) -> Result<()> {
     use std::os::unix::fs::PermissionsExt;
-    let metadata = std::fs::metadata(path).map_err(|e| {
+    let metadata = match std::fs::metadata(path) {
+        // Packages can list bins that aren't in there. They don't get linked.
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(()),
+        metadata => metadata,
+    }
+    .map_err(|e| {
         NassunError::ExtractIoError(
             e,
             Some(path.to_path_buf()),
-- 
2.43.0


From 08d52abe0542ec8b15fc766355e7a131f0f76c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 27/54] fix: keep the bins of already installed packages when
 applying hoisted

---
 crates/node-maintainer/src/linkers/hoisted.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index cfc96e9..fcf3215 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -373,7 +373,9 @@ impl HoistedLinker {
                 async_std::fs::remove_dir_all(entry.path()).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", entry.path().display()))?;
             }
         }
-        futures::stream::iter(self.pending_rebuild.lock().await.iter().copied())
+        // Everything has been unlinked, so it's not just about the packages
+        // that were extracted just now.
+        futures::stream::iter(graph.inner.node_indices())
             .map(|idx| Ok((idx, linked.clone())))
             .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
                 if idx == graph.root {
-- 
2.43.0


From 635a0722cdcccb9f24b4825d25539f148d5975d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:29 +0000
Subject: [PATCH 28/54] fix: link all bins of all dependents when applying
 isolated

---
 .../node-maintainer/src/linkers/isolated.rs   | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 76f2438..0a60dc0 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -20,7 +20,6 @@ use super::LinkerOptions;
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
-    pub(crate) pending_bin_link: Arc<Mutex<BinaryHeap<NodeIndex>>>,
     pub(crate) mkdir_cache: Arc<DashSet<PathBuf>>,
     pub(crate) opts: LinkerOptions,
 }
@@ -29,7 +28,6 @@ impl IsolatedLinker {
     pub fn new(opts: LinkerOptions) -> Self {
         Self {
             pending_rebuild: Arc::new(Mutex::new(HashSet::new())),
-            pending_bin_link: Arc::new(Mutex::new(BinaryHeap::new())),
             mkdir_cache: Arc::new(DashSet::new()),
             opts,
         }
@@ -347,7 +345,6 @@ impl IsolatedLinker {
         let stream = futures::stream::iter(graph.inner.node_indices());
         let concurrent_count = Arc::new(AtomicUsize::new(0));
         let pending_rebuild = self.pending_rebuild.clone();
-        let pending_bin_link = self.pending_bin_link.clone();
         let actually_extracted = Arc::new(AtomicUsize::new(0));
         let total = graph.inner.node_count();
         let total_completed = Arc::new(AtomicUsize::new(0));
@@ -375,7 +372,6 @@ impl IsolatedLinker {
                     total_completed.clone(),
                     actually_extracted.clone(),
                     pending_rebuild.clone(),
-                    pending_bin_link.clone(),
                 ))
             })
             .try_for_each_concurrent(
@@ -386,7 +382,6 @@ impl IsolatedLinker {
                     total_completed,
                     actually_extracted,
                     pending_rebuild,
-                    pending_bin_link,
                 )| async move {
                     if child_idx == graph.root {
                         self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
@@ -430,9 +425,6 @@ impl IsolatedLinker {
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
-                        if !build_mani.bin.is_empty() {
-                            pending_bin_link.lock().await.push(child_idx);
-                        }
                     }
 
                     self.link_deps(
@@ -485,7 +477,8 @@ impl IsolatedLinker {
         let store_ref = &store;
         let mut linked = 0;
 
-        let mut pending = self.pending_bin_link.lock().await;
+        // Packages that were already there might have new dependents.
+        let mut pending = graph.inner.node_indices().collect::<BinaryHeap<_>>();
         while let Some(idx) = pending.pop() {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
@@ -588,7 +581,7 @@ impl IsolatedLinker {
         let node_path = store_ref
             .join(package_dir_name(graph, node))
             .join("node_modules")
-            .join(&graph[node].name.to_string());
+            .join(graph[node].package.name());
         let build_mani = BuildManifest::from_path(node_path.join("package.json")).map_err(|e| {
             NodeMaintainerError::BuildManifestReadError(node_path.join("package.json"), e)
         })?;
@@ -600,12 +593,15 @@ impl IsolatedLinker {
                 store_ref
                     .join(package_dir_name(graph, edge.source()))
                     .join("node_modules")
-                    .join(&dep_node.name.to_string())
+                    .join(dep_node.package.name())
             };
             let dep_bin_dir = dep_store_dir.join("node_modules").join(".bin");
             for (name, path) in &build_mani.bin {
                 let to = dep_bin_dir.join(name);
-                let from = dep_store_dir.join("node_modules").join(name).join(path);
+                let from = dep_store_dir
+                    .join("node_modules")
+                    .join(graph[node].package.name())
+                    .join(path);
                 let name = name.clone();
                 let mkdir_cache = self.mkdir_cache.clone();
                 async_std::task::spawn_blocking(move || {
-- 
2.43.0


From 239258f9e2d6a0256f07226a94b173b8c532f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 29/54] fix: remove links to packages that are not dependencies
 anymore from isolated node_modules

---
 .../node-maintainer/src/linkers/isolated.rs   | 53 +++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 0a60dc0..9b36ffb 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -222,6 +222,9 @@ impl IsolatedLinker {
                                         })?;
                                     }
                                 }
+                            } else {
+                                // This isn't a dependency (anymore).
+                                remove_links(&entry, &expected).await?;
                             }
                             Ok::<_, NodeMaintainerError>(())
                         })
@@ -644,6 +647,56 @@ impl IsolatedLinker {
     }
 }
 
+/// Removes links to packages that aren't expected, including those inside of
+/// a scope's directory. Anything else came along with the package.
+async fn remove_links(
+    entry: &async_std::fs::DirEntry,
+    expected: &HashMap<async_std::path::PathBuf, async_std::path::PathBuf>,
+) -> Result<(), NodeMaintainerError> {
+    let path = entry.path();
+    let ty = entry
+        .file_type()
+        .await
+        .io_context(|| format!("Failed to get file type from entry at {}.", path.display()))?;
+    if ty.is_symlink() {
+        remove_link(&path).await?;
+    } else if ty.is_dir() && entry.file_name().to_string_lossy().starts_with('@') {
+        let mut scoped = async_std::fs::read_dir(&path).await.io_context(|| {
+            format!(
+                "Failed to read contents of scope directory at {}.",
+                path.display()
+            )
+        })?;
+        while let Some(entry) = scoped.next().await {
+            let entry = entry.io_context(|| {
+                format!("Failed to read directory entry from {}.", path.display())
+            })?;
+            let ty = entry.file_type().await.io_context(|| {
+                format!(
+                    "Failed to get file type from entry at {}.",
+                    entry.path().display()
+                )
+            })?;
+            if ty.is_symlink() && !expected.contains_key(&entry.path()) {
+                remove_link(&entry.path()).await?;
+            }
+        }
+    }
+    Ok(())
+}
+
+async fn remove_link(path: &async_std::path::Path) -> Result<(), NodeMaintainerError> {
+    if async_std::fs::remove_file(path).await.is_err() {
+        async_std::fs::remove_dir_all(path).await.io_context(|| {
+            format!(
+                "Failed to delete {} while pruning node_modules.",
+                path.display()
+            )
+        })?;
+    }
+    Ok(())
+}
+
 fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
     let node = &graph[idx];
     let subdir = graph.node_path_string(idx);
-- 
2.43.0


From dbd07f010dc8a1993aabd927f1663648a018f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:33 +0000
Subject: [PATCH 30/54] fix: don't replace a configuration file that can't be
 read

First-time setup took any failure to read the configuration file for an
empty file and then wrote over it.
---
 src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2344076..0e04261 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -521,9 +521,11 @@ impl Orogene {
                 if !config_dir.exists() {
                     std::fs::create_dir_all(config_dir).unwrap();
                 }
-                let mut config: KdlDocument = std::fs::read_to_string(&config_path)
-                    .unwrap_or_default()
-                    .parse()?;
+                let mut config: KdlDocument = match std::fs::read_to_string(&config_path) {
+                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => String::new(),
+                    contents => contents.into_diagnostic()?,
+                }
+                .parse()?;
                 let telemetry_exists = config.query("options > telemetry")?.is_some();
                 if config.get("options").is_none() {
                     config.nodes_mut().push(KdlNode::new("options"));
-- 
2.43.0


From f91bcd6d3cef9634fe2ecab3abd6478de5798772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:32 +0000
Subject: [PATCH 31/54] fix: don't panic on hosted git dependencies without a
 committish

---
 crates/nassun/src/fetch/git.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index c63c939..ace9d7a 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -62,22 +62,20 @@ impl GitFetcher {
                     if let Some(requested) = requested {
                         self.fetch_clone(dir, requested, committish, semver, info)
                             .await?;
-                    } else if let (Some(tarball), Some(https), Some(ssh)) =
-                        (hosted.tarball(), hosted.https(), hosted.ssh())
-                    {
-                        match self.fetch_tarball(dir, &tarball).await {
+                    } else if let (Some(https), Some(ssh)) = (hosted.https(), hosted.ssh()) {
+                        // There's only a tarball for a specific committish.
+                        if let Some(tarball) = hosted.tarball() {
+                            if self.fetch_tarball(dir, &tarball).await.is_ok() {
+                                return Ok(());
+                            }
+                        }
+                        match self
+                            .fetch_clone(dir, https.to_string(), committish, semver, info)
+                            .await
+                        {
                             Ok(_) => {}
                             Err(_) => {
-                                match self
-                                    .fetch_clone(dir, https.to_string(), committish, semver, info)
-                                    .await
-                                {
-                                    Ok(_) => {}
-                                    Err(_) => {
-                                        self.fetch_clone(dir, ssh, committish, semver, info)
-                                            .await?;
-                                    }
-                                }
+                                self.fetch_clone(dir, ssh, committish, semver, info).await?;
                             }
                         }
                     } else {
-- 
2.43.0


From a1573aad0103f59c6a620ecd5c236d26cc1777d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:55 +0000
Subject: [PATCH 32/54] fix: put tarballs of hosted git dependencies where
 they're read from

---
 crates/nassun/src/fetch/git.rs         | 6 +++++-
 crates/oro-package-spec/src/gitinfo.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index ace9d7a..3fe7d25 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -90,9 +90,13 @@ impl GitFetcher {
 
     async fn fetch_tarball(&self, dir: &Path, tarball: &Url) -> Result<()> {
         let tarball = self.client.stream_external(tarball).await?;
+        let extracted = dir.join("tarball");
         Tarball::new_unchecked(tarball)
-            .extract_from_tarball_data(dir, None, crate::ExtractMode::AutoHardlink)
+            .extract_from_tarball_data(&extracted, None, crate::ExtractMode::AutoHardlink)
             .await?;
+        async_std::fs::rename(&extracted, dir.join("package"))
+            .await
+            .map_err(NassunError::GitIoError)?;
         Ok(())
     }
 
diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 9746d40..781e934 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -151,7 +151,7 @@ impl GitInfo {
             } => committish
                 .as_ref()
                 .map(|commit| match host {
-                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tag.gz/{commit}"),
+                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tar.gz/{commit}"),
                     Gist => format!("https://codeload.github.com/gist/{repo}/tar.gz/{commit}"),
                     GitLab => format!(
                         "https://gitlab.com/{owner}/{repo}/repository/archive.tar.gz?ref={commit}"
-- 
2.43.0


From 221f35a06a352080ef2b29e4f166d616256507cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 33/54] fix: check out the tag a semver range of a git
 dependency is resolved to

---
 crates/nassun/src/fetch/git.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index 3fe7d25..f7fed6e 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -140,28 +140,28 @@ impl GitFetcher {
                 .output()
                 .await
                 .map_err(NassunError::GitIoError)?;
-            let versions: Vec<Version> = String::from_utf8(refs_output.stdout)
+            let tags: Vec<(Version, String)> = String::from_utf8(refs_output.stdout)
                 .map_err(|e| {
                     NassunError::MiscError(format!("Could not decode git output as UTF-8. {}", e))
                 })?
                 .lines()
                 .filter_map(|line| {
-                    line.split('/')
-                        .last()
-                        .and_then(|tag| Version::parse(tag).ok())
+                    let (_, tag) = line.split_once(' ')?;
+                    let version = tag.split('/').last()?.parse().ok()?;
+                    Some((version, tag.to_string()))
                 })
                 .collect();
             Some(
-                versions
-                    .iter()
-                    .filter(|v| range.satisfies(v))
+                tags.iter()
+                    .filter(|(v, _)| range.satisfies(v))
                     .max()
                     .ok_or_else(|| NassunError::NoVersion {
                         name: repo.to_string(),
                         spec: PackageSpec::Git(info.clone()),
-                        versions: versions.iter().map(|v| v.to_string()).collect(),
+                        versions: tags.iter().map(|(v, _)| v.to_string()).collect(),
                     })?
-                    .to_string(),
+                    .1
+                    .clone(),
             )
         } else {
             committish.clone()
-- 
2.43.0


From a4ce2dc9e60207f16a1b933b5abd74ace8ea1f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 34/54] fix: don't let git take repositories and committishes
 for options or files

---
 crates/nassun/src/fetch/git.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index f7fed6e..e413ee0 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -114,6 +114,7 @@ impl GitFetcher {
             .get_or_try_init(|| which::which("git").map_err(NassunError::WhichGit))?;
         Command::new(git)
             .arg("clone")
+            .arg("--")
             .arg(repo)
             .arg("package")
             .current_dir(dir)
@@ -167,9 +168,17 @@ impl GitFetcher {
             committish.clone()
         };
         if let Some(checkout_ref) = checkout_ref {
+            // Git would take this for an option, and can't be told otherwise.
+            if checkout_ref.starts_with('-') {
+                return Err(NassunError::GitCheckoutError(
+                    String::from(repo),
+                    checkout_ref,
+                ));
+            }
             Command::new(git)
                 .arg("checkout")
                 .arg(&checkout_ref)
+                .arg("--")
                 .current_dir(dir.join("package"))
                 .stdin(Stdio::null())
                 .stdout(Stdio::null())
-- 
2.43.0


From cb56fa7c29653f2e4fdccf5c47ec07887300f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 35/54] fix: keep credentials out of the warning about invalid
 auth options

---
 src/client_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client_args.rs b/src/client_args.rs
index 5d80a31..40d039a 100644
--- a/src/client_args.rs
+++ b/src/client_args.rs
@@ -85,7 +85,7 @@ impl TryFrom<ClientArgs> for OroClientBuilder {
                 builder = builder.legacy_auth(url, val.into());
             } else if key == "password" {
             } else {
-                tracing::warn!("Invalid authentication configuration for {reg}: {key} {val}");
+                tracing::warn!("Invalid authentication configuration for {reg}: {key}");
             }
         }
         Ok(builder)
-- 
2.43.0


From b52baae63c2d8afb888035f27e26352d11d559f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 36/54] fix: keep the token out of the errors of logging out

---
 crates/oro-client/src/api/logout.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/api/logout.rs b/crates/oro-client/src/api/logout.rs
index 0a66079..de39547 100644
--- a/crates/oro-client/src/api/logout.rs
+++ b/crates/oro-client/src/api/logout.rs
@@ -2,12 +2,23 @@ use crate::{OroClient, OroClientError};
 
 impl OroClient {
     pub async fn delete_token(&self, token: &String) -> Result<(), OroClientError> {
-        self.client
+        self.client_uncached
             .delete(self.registry.join(&format!("-/user/token/{token}"))?)
             .header("X-Oro-Registry", self.registry.to_string())
             .send()
-            .await?
-            .error_for_status()?;
+            .await
+            .map_err(without_url)?
+            .error_for_status()
+            .map_err(|e| e.without_url())?;
         Ok(())
     }
 }
+
+/// The URL of the request includes the token. Errors get printed and logged,
+/// so they shouldn't include the URL.
+fn without_url(err: reqwest_middleware::Error) -> reqwest_middleware::Error {
+    match err {
+        reqwest_middleware::Error::Reqwest(e) => e.without_url().into(),
+        err => err,
+    }
+}
-- 
2.43.0


From 9f20119d94c511bac635737e7a4e6dd7c1fb5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 37/54] fix: keep credentials out of the logged command line

---
 src/lib.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0e04261..fe1bba7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -784,15 +784,31 @@ fn clean_old_logs(logs_dir: &Path) -> Result<()> {
     Ok(())
 }
 
+/// Options whose values are credentials, which should never end up in a log.
+const SECRET_OPTIONS: &[&str] = &["--auth", "--token", "--password", "--legacy-token"];
+
 fn log_command_line() {
     let mut args = std::env::args();
     let mut cmd = String::new();
     if let Some(arg) = args.next() {
         cmd.push_str(&arg);
     }
+    let mut secret = false;
     for arg in args {
         cmd.push(' ');
-        cmd.push_str(&arg);
+        let name = arg.split('=').next().unwrap_or(&arg);
+        if secret {
+            cmd.push_str("***");
+            secret = false;
+        } else if !SECRET_OPTIONS.contains(&name) {
+            cmd.push_str(&arg);
+        } else if name != arg {
+            cmd.push_str(name);
+            cmd.push_str("=***");
+        } else {
+            cmd.push_str(name);
+            secret = true;
+        }
     }
     tracing::debug!("Running command: {cmd}");
 }
-- 
2.43.0


From d252379f92938e298d0f5a40468522cb2c6298d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:52 +0000
Subject: [PATCH 38/54] fix: use the given Nassun instance when resolving a
 spec

resolve_spec built a Nassun of its own from the other options, so one
configured with the nassun option (registries, credentials, cache, proxy)
was not used.
---
 crates/node-maintainer/src/maintainer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index 2b8928c..ef923f5 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -396,7 +396,7 @@ impl NodeMaintainerOptions {
         root_spec: impl AsRef<str>,
     ) -> Result<NodeMaintainer, NodeMaintainerError> {
         let lockfile = self.get_lockfile().await?;
-        let nassun = self.nassun_opts.build();
+        let nassun = self.nassun.unwrap_or_else(|| self.nassun_opts.build());
         let root_pkg = nassun.resolve(root_spec).await?;
         let proj_root = self.root.unwrap_or_else(|| PathBuf::from("."));
         let mut resolver = Resolver {
-- 
2.43.0


From 6007596b3e5a5564833f49caf01386e07be7a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 39/54] fix: telemetry is off unless it was asked for

The SetFalse flag behind --no-telemetry is true when the flag isn't given,
so without any configuration errors were reported, though telemetry is
documented as opt-in.
---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe1bba7..7ae493e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -693,8 +693,12 @@ impl Orogene {
         let config = oro.build_config()?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
         Self::layer_command_args(&command, &mut args, &config)?;
-        let mut oro =
-            Orogene::from_arg_matches(&command.get_matches_from(&args)).into_diagnostic()?;
+        let matches = command.get_matches_from(&args);
+        let mut oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
+        // The `--no-telemetry` flag makes this true unless it's given, but
+        // telemetry is opt-in: there has to be a `--telemetry`, whether from
+        // the command line or the configuration.
+        oro.telemetry &= matches.get_flag("no-no-telemetry");
         let log_file = oro
             .cache
             .clone()
-- 
2.43.0


From bfae52a607773723ee10139b19932f9539f876ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:29 +0000
Subject: [PATCH 40/54] fix: options with a number for a value can be set in
 oro.kdl

Numbers (and strings like "on") can be read as booleans, so they were
passed on as flags, without their value, and every command failed.
---
 crates/oro-config/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index a23439c..3bd7d5c 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -1,6 +1,6 @@
 //! Configuration loader for Orogene config files.
 
-use std::{collections::HashSet, ffi::OsString, path::PathBuf};
+use std::{ffi::OsString, path::PathBuf};
 
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
@@ -52,17 +52,18 @@ impl OroConfigLayerExt for Command {
     }
 
     fn layered_args(&self, args: &mut Vec<OsString>, config: &OroConfig) -> Result<()> {
-        let mut long_opts = HashSet::new();
-        for opt in self.get_arguments() {
-            if opt.get_long().is_some() {
-                long_opts.insert(opt.get_id().to_string());
-            }
-        }
         let matches = self
             .clone()
             .ignore_errors(true)
             .get_matches_from(&args.clone());
-        for opt in long_opts {
+        for arg in self.get_arguments() {
+            if arg.get_long().is_none() {
+                continue;
+            }
+            let opt = arg.get_id().to_string();
+            // Numbers and strings like "on" can be had as booleans, too, but
+            // they're only that for options that don't take a value.
+            let is_flag = !arg.get_action().takes_values();
             // TODO: _prepend_ args unconditionally if they're coming from
             // config, so multi-args get parsed right. Right now, if you have
             // something in your config, it'll get completely overridden by
@@ -70,7 +71,7 @@ impl OroConfigLayerExt for Command {
             if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
                 let opt = opt.replace('_', "-");
                 if !args.contains(&OsString::from(format!("--no-{opt}"))) {
-                    if let Ok(bool) = config.get_bool(&opt) {
+                    if let (true, Ok(bool)) = (is_flag, config.get_bool(&opt)) {
                         if bool {
                             args.push(OsString::from(format!("--{}", opt)));
                         } else {
-- 
2.43.0


From b5bc7e4e96a9babd9200d7991add121c5ef2dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:15 +0000
Subject: [PATCH 41/54] fix: what's on the command line is what counts

An option of a subcommand (or a flag) that was in the configuration as
well as on the command line was passed twice, and refused for that; a flag
that's on unless negated couldn't be turned on again.
---
 crates/oro-config/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index 3bd7d5c..e423b03 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -2,6 +2,7 @@
 
 use std::{ffi::OsString, path::PathBuf};
 
+use clap::Arg;
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
 use config::{builder::DefaultState, ConfigBuilder, Environment, File, ValueKind};
@@ -70,7 +71,7 @@ impl OroConfigLayerExt for Command {
             // the command line.
             if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
                 let opt = opt.replace('_', "-");
-                if !args.contains(&OsString::from(format!("--no-{opt}"))) {
+                if !is_given(arg, args) {
                     if let (true, Ok(bool)) = (is_flag, config.get_bool(&opt)) {
                         if bool {
                             args.push(OsString::from(format!("--{}", opt)));
@@ -111,6 +112,26 @@ impl OroConfigLayerExt for Command {
     }
 }
 
+/// Whether the option, or its negation, is on the command line. What's parsed
+/// can't tell: a subcommand alone doesn't understand the whole command line,
+/// and negations override the options they're for.
+fn is_given(opt: &Arg, args: &[OsString]) -> bool {
+    let names = opt.get_long_and_visible_aliases().unwrap_or_default();
+    args.iter()
+        .take_while(|arg| *arg != "--")
+        .map(|arg| arg.to_string_lossy())
+        .filter_map(|arg| {
+            let name = arg.strip_prefix("--")?;
+            let name = name.split_once('=').map_or(name, |(name, _)| name);
+            Some(name.strip_prefix("no-").unwrap_or(name).to_string())
+        })
+        .any(|given| {
+            names
+                .iter()
+                .any(|name| name.strip_prefix("no-").unwrap_or(name) == given)
+        })
+}
+
 #[derive(Debug, Clone)]
 pub struct OroConfigOptions {
     builder: ConfigBuilder<DefaultState>,
-- 
2.43.0


From bebfd4e349dce989ec2d7653c4567ad842c80e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:35 +0000
Subject: [PATCH 42/54] fix: options of more than one word can be set by the
 environment

The names of environment variables can't have dashes, and those with
underscores weren't recognized as the options'.
---
 crates/oro-config/src/lib.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index e423b03..bddb6c6 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -5,7 +5,10 @@ use std::{ffi::OsString, path::PathBuf};
 use clap::Arg;
 pub use clap::{ArgMatches, Command};
 pub use config::Config as OroConfig;
-use config::{builder::DefaultState, ConfigBuilder, Environment, File, ValueKind};
+use config::{
+    builder::DefaultState, ConfigBuilder, ConfigError, Environment, File, Map, Source, Value,
+    ValueKind,
+};
 use kdl_source::KdlFormat;
 use miette::Result;
 
@@ -112,6 +115,25 @@ impl OroConfigLayerExt for Command {
     }
 }
 
+/// Options from the environment, where the dashes in their names are
+/// underscores.
+#[derive(Debug, Clone)]
+struct EnvSource(Environment);
+
+impl Source for EnvSource {
+    fn clone_into_box(&self) -> Box<dyn Source + Send + Sync> {
+        Box::new(self.clone())
+    }
+
+    fn collect(&self) -> std::result::Result<Map<String, Value>, ConfigError> {
+        let vars = self.0.collect()?;
+        Ok(vars
+            .into_iter()
+            .map(|(name, value)| (name.replace('_', "-"), value))
+            .collect())
+    }
+}
+
 /// Whether the option, or its negation, is on the command line. What's parsed
 /// can't tell: a subcommand alone doesn't understand the whole command line,
 /// and negations override the options they're for.
@@ -192,7 +214,7 @@ impl OroConfigOptions {
             }
         }
         if self.env {
-            builder = builder.add_source(Environment::with_prefix("oro_config"));
+            builder = builder.add_source(EnvSource(Environment::with_prefix("oro_config")));
         }
         if let Some(root) = self.pkg_root {
             builder = builder.add_source(
-- 
2.43.0


From f7abbaddb2793573e2f91f0e843ad04120d13727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:52 +0000
Subject: [PATCH 43/54] fix: configured options don't become arguments after --

They were put at the end of the command line, so with a -- in that they
were taken for the names of packages.
---
 crates/oro-config/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index bddb6c6..c6ed721 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -60,6 +60,11 @@ impl OroConfigLayerExt for Command {
             .clone()
             .ignore_errors(true)
             .get_matches_from(&args.clone());
+        // After `--`, there are no options.
+        let positional = match args.iter().position(|arg| arg == "--") {
+            Some(idx) => args.split_off(idx),
+            None => Vec::new(),
+        };
         for arg in self.get_arguments() {
             if arg.get_long().is_none() {
                 continue;
@@ -111,6 +116,7 @@ impl OroConfigLayerExt for Command {
                 }
             }
         }
+        args.extend(positional);
         Ok(())
     }
 }
@@ -140,7 +146,6 @@ impl Source for EnvSource {
 fn is_given(opt: &Arg, args: &[OsString]) -> bool {
     let names = opt.get_long_and_visible_aliases().unwrap_or_default();
     args.iter()
-        .take_while(|arg| *arg != "--")
         .map(|arg| arg.to_string_lossy())
         .filter_map(|arg| {
             let name = arg.strip_prefix("--")?;
-- 
2.43.0


From 335c16edb7b8f761d0767cbfb3eae88aad328cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:22 +0000
Subject: [PATCH 44/54] fix: use the project's oro.kdl below its root, too

The project is found from any directory in it, but its configuration was
only read from the current directory.
---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7ae493e..23d6dfe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -96,7 +96,10 @@ use std::{
 };
 
 use async_trait::async_trait;
-use clap::{Args, Command, CommandFactory, FromArgMatches as _, Parser, Subcommand};
+use clap::{
+    parser::ValueSource, ArgMatches, Args, Command, CommandFactory, FromArgMatches as _, Parser,
+    Subcommand,
+};
 use dialoguer::{theme::ColorfulTheme, Confirm};
 use directories::ProjectDirs;
 use is_terminal::IsTerminal;
@@ -425,7 +428,7 @@ impl Orogene {
         }
     }
 
-    fn build_config(&self) -> Result<OroConfig> {
+    fn build_config(&self, matches: &ArgMatches) -> Result<OroConfig> {
         let dirs = ProjectDirs::from("", "", "orogene");
         let cwd = std::env::current_dir().into_diagnostic()?;
         let root = if let Some(root) = pkg_root(&cwd) {
@@ -446,7 +449,10 @@ impl Orogene {
         } else {
             cfg_builder
                 .global_config_file(dirs.map(|d| d.config_dir().to_owned().join("oro.kdl")))
-                .pkg_root(Some(self.root.clone()))
+                .pkg_root(Some(match matches.value_source("root") {
+                    Some(ValueSource::CommandLine) => self.root.clone(),
+                    _ => root.to_owned(),
+                }))
                 .load()?
         };
 
@@ -690,7 +696,7 @@ impl Orogene {
         let command = Self::current_command();
         let matches = command.clone().get_matches();
         let oro = Orogene::from_arg_matches(&matches).into_diagnostic()?;
-        let config = oro.build_config()?;
+        let config = oro.build_config(&matches)?;
         let mut args = std::env::args_os().collect::<Vec<_>>();
         Self::layer_command_args(&command, &mut args, &config)?;
         let matches = command.get_matches_from(&args);
-- 
2.43.0


From 09c6779ef1a4295161efa60880dea250912271fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:19 +0000
Subject: [PATCH 45/54] fix: flags configured with something other than a
 boolean are an error

A flag whose configured value isn't a boolean was added to the command
line along with the value, which then counted as an argument: with
`dev "maybe"` in oro.kdl, `oro add foo` added a package called maybe.
---
 crates/oro-config/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/oro-config/src/lib.rs b/crates/oro-config/src/lib.rs
index c6ed721..7b9c52a 100644
--- a/crates/oro-config/src/lib.rs
+++ b/crates/oro-config/src/lib.rs
@@ -80,11 +80,12 @@ impl OroConfigLayerExt for Command {
             if matches.value_source(&opt) != Some(clap::parser::ValueSource::CommandLine) {
                 let opt = opt.replace('_', "-");
                 if !is_given(arg, args) {
-                    if let (true, Ok(bool)) = (is_flag, config.get_bool(&opt)) {
-                        if bool {
-                            args.push(OsString::from(format!("--{}", opt)));
-                        } else {
-                            args.push(OsString::from(format!("--no-{}", opt)));
+                    if is_flag {
+                        match config.get::<Option<bool>>(&opt) {
+                            Ok(Some(true)) => args.push(OsString::from(format!("--{}", opt))),
+                            Ok(Some(false)) => args.push(OsString::from(format!("--no-{}", opt))),
+                            Ok(None) | Err(ConfigError::NotFound(_)) => (),
+                            Err(e) => return Err(OroConfigError::ConfigError(e).into()),
                         }
                     } else if let Ok(value) = config.get_string(&opt) {
                         args.push(OsString::from(format!("--{}", opt)));
-- 
2.43.0


From 90848f88866f69fe3a9b922880aab586786fa4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:20 +0000
Subject: [PATCH 46/54] fix: output of scripts need not be UTF-8

A lifecycle script that printed anything else failed the whole apply.
---
 crates/node-maintainer/src/linkers/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e91c4c8..22d70cf 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -312,15 +312,17 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stdout_span.enter();
                     if let Some(stdout) = stdout {
-                        for line in BufReader::new(stdout).lines() {
+                        for line in BufReader::new(stdout).split(b'\n') {
                             let line = line.io_context(|| {
                                 format!(
                                     "Failed to read line from stdout while executing script for {stdout_resolved}",
                                 )
                             })?;
+                            let line = String::from_utf8_lossy(&line);
+                            let line = line.strip_suffix('\r').unwrap_or(&line);
                             tracing::debug!("stdout::{stdout_name}::{event}: {line}");
                             if let Some(on_script_line) = &stdout_on_line {
-                                on_script_line(&line);
+                                on_script_line(line);
                             }
                         }
                     }
@@ -329,15 +331,17 @@ impl Linker {
                 async_std::task::spawn_blocking(move || {
                     let _enter = stderr_span.enter();
                     if let Some(stderr) = stderr {
-                        for line in BufReader::new(stderr).lines() {
+                        for line in BufReader::new(stderr).split(b'\n') {
                             let line = line.io_context(|| {
                                 format!(
                                     "Failed to read line from stdout while executing script for {stderr_resolved}",
                                 )
                             })?;
+                            let line = String::from_utf8_lossy(&line);
+                            let line = line.strip_suffix('\r').unwrap_or(&line);
                             tracing::debug!("stderr::{stderr_name}::{event_clone}: {line}");
                             if let Some(on_script_line) = &stderr_on_line {
-                                on_script_line(&line);
+                                on_script_line(line);
                             }
                         }
                     }
-- 
2.43.0


From 47f923dcb943c511bd4e90a5213bf03b9e57c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:56 +0000
Subject: [PATCH 47/54] fix: a concurrency of 0 doesn't panic

---
 crates/node-maintainer/src/maintainer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/node-maintainer/src/maintainer.rs b/crates/node-maintainer/src/maintainer.rs
index ef923f5..d6c6e23 100644
--- a/crates/node-maintainer/src/maintainer.rs
+++ b/crates/node-maintainer/src/maintainer.rs
@@ -85,9 +85,9 @@ impl NodeMaintainerOptions {
 
     /// Controls number of concurrent operations during various apply steps
     /// (resolution fetches, extractions, etc). Tuning this might help reduce
-    /// memory usage.
+    /// memory usage. There's always at least one.
     pub fn concurrency(mut self, concurrency: usize) -> Self {
-        self.concurrency = concurrency;
+        self.concurrency = concurrency.max(1);
         self
     }
 
-- 
2.43.0


From 9840f435a8ffb1899a2ad3b67672b131974e8236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 48/54] fix: dependencies on directories don't make oro panic

---
 crates/nassun/src/fetch/dir.rs | 8 +++++---
 crates/nassun/src/fetch/git.rs | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 3c2e48b..8e7e5c7 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -125,7 +125,7 @@ impl PackageFetcher for DirFetcher {
     }
 
     async fn packument(&self, spec: &PackageSpec, base_dir: &Path) -> Result<Arc<Packument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
@@ -137,7 +137,7 @@ impl PackageFetcher for DirFetcher {
         spec: &PackageSpec,
         base_dir: &Path,
     ) -> Result<Arc<CorgiPackument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
@@ -146,7 +146,9 @@ impl PackageFetcher for DirFetcher {
 
     async fn tarball(&self, _pkg: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>> {
         // TODO: need to implement pack before this can be implemented :(
-        unimplemented!()
+        Err(NassunError::MiscError(
+            "Directories can't be used as tarballs yet.".into(),
+        ))
     }
 }
 
diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index e413ee0..410868f 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -279,7 +279,9 @@ impl PackageFetcher for GitFetcher {
     }
 
     async fn tarball(&self, _pkg: &crate::Package) -> Result<crate::TarballStream> {
-        todo!()
+        Err(NassunError::MiscError(
+            "Git repositories can't be used as tarballs yet.".into(),
+        ))
     }
 }
 
-- 
2.43.0


From 2f2bfd41291bb47bb4c92d01931c6e759baa0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 49/54] fix: a git url without a path doesn't make oro panic

---
 crates/oro-package-spec/src/parsers/git.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index f98f659..07ec33c 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -85,7 +85,10 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
         | Some(host @ "gitlab.com")
         | Some(host @ "gist.github.com")
         | Some(host @ "bitbucket.org") => {
-            let path = (url.path()[1..])
+            let path = url
+                .path()
+                .strip_prefix('/')
+                .unwrap_or_default()
                 .split('/')
                 .map(String::from)
                 .collect::<Vec<String>>();
-- 
2.43.0


From bb4091268d0a74e17f4df55faee8ea9d64d643ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 50/54] fix: bad json with non-ascii text doesn't make oro
 panic

---
 crates/oro-client/src/error.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index 45373c0..364153f 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -93,9 +93,15 @@ impl OroClientError {
         // translate the spans accordingly.
         let err_offset = SourceOffset::from_location(&json, err.line(), err.column());
         let json_len = json.len();
-        let local_offset = err_offset.offset().saturating_sub(40);
-        let local_len = std::cmp::min(40, json_len - err_offset.offset());
-        let snipped_json = json[local_offset..err_offset.offset() + local_len].to_string();
+        let mut local_offset = err_offset.offset().saturating_sub(40);
+        while !json.is_char_boundary(local_offset) {
+            local_offset -= 1;
+        }
+        let mut local_end = std::cmp::min(json_len, err_offset.offset() + 40);
+        while !json.is_char_boundary(local_end) {
+            local_end += 1;
+        }
+        let snipped_json = json[local_offset..local_end].to_string();
         Self::BadJson {
             source: err,
             url: url.clone(),
-- 
2.43.0


From dbaa9e772e9c435fcfd6e12a7bc6cc39abb68a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 51/54] fix: bad headers in login answers don't make oro panic

---
 crates/oro-client/src/api/login.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 3258ab8..1f6542e 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -150,7 +150,7 @@ impl OroClient {
                     .headers()
                     .get(WWW_AUTHENTICATE)
                     .map_or(String::default(), |header| {
-                        header.to_str().unwrap().to_lowercase()
+                        header.to_str().unwrap_or_default().to_lowercase()
                     });
 
                 let text = response.text().await?;
@@ -218,11 +218,11 @@ impl OroClient {
                 ))
             }
             StatusCode::ACCEPTED => {
-                if let Some(retry_after) = response.headers().get("retry-after") {
-                    let retry_after = retry_after.to_str()
-                        .expect("The \"retry-after\" header that's included in the response should be string.")
-                        .parse::<u64>()
-                        .expect("The \"retry-after\" header that's included in the response should be able to parse to number.");
+                let retry_after = response
+                    .headers()
+                    .get("retry-after")
+                    .and_then(|retry_after| retry_after.to_str().ok()?.parse::<u64>().ok());
+                if let Some(retry_after) = retry_after {
                     Ok(DoneURLResponse::Duration(Duration::from_secs(retry_after)))
                 } else {
                     Err(OroClientError::ResponseError(
-- 
2.43.0


From ace579dea7102932897a41ad51124a7fbe339e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 52/54] fix: a deprecated package without a name doesn't make
 oro panic

---
 crates/node-maintainer/src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 70aa9df..1a037fa 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -208,7 +208,7 @@ impl<'a> Resolver<'a> {
                             tracing::warn!(
                                 "{} {}@{}: {}",
                                 "deprecated".on_magenta(),
-                                manifest.name.as_ref().unwrap(),
+                                package.name(),
                                 manifest
                                     .version
                                     .as_ref()
-- 
2.43.0


From b22c5c9d5778971f9ccd561361bbb0214951b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 53/54] fix: malformed --auth values don't make oro panic

---
 src/lib.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23d6dfe..64aa26b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -850,21 +850,17 @@ where
     V: std::str::FromStr,
     V::Err: std::error::Error + Send + Sync + 'static,
 {
-    let open_pos = s.find('{').ok_or_else(|| {
+    let (_, rest) = s.split_once('{').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `{{` found in `{s}`",)
     })?;
-    let close_pos = s.find('}').ok_or_else(|| {
+    let (top, rest) = rest.split_once('}').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
     })?;
-    let eq_pos = s.find('=').ok_or_else(|| {
+    let (nested, value) = rest.split_once('=').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
     })?;
 
-    Ok((
-        s[open_pos + 1..close_pos].parse()?,
-        s[close_pos + 1..eq_pos].parse()?,
-        s[eq_pos + 1..].parse()?,
-    ))
+    Ok((top.parse()?, nested.parse()?, value.parse()?))
 }
 
 #[derive(Debug, Subcommand)]
-- 
2.43.0


From 3f332c35643d71818d23050c5a36ba0018372e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 54/54] fix: oro add reports dependencies it can't add to

---
 src/commands/add.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 7765966..5be9b5c 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -1,6 +1,6 @@
 use async_trait::async_trait;
 use clap::Args;
-use miette::{IntoDiagnostic, Result};
+use miette::{miette, IntoDiagnostic, Result};
 use nassun::PackageResolution;
 use oro_common::CorgiManifest;
 use oro_package_spec::{PackageSpec, VersionSpec};
@@ -91,7 +91,7 @@ impl OroCommand for AddCmd {
                 if self.apply.emoji { "🔍 " } else { "" }
             );
             self.remove_from_manifest(&mut manifest, name);
-            self.add_to_manifest(&mut manifest, name, &resolved_spec);
+            self.add_to_manifest(&mut manifest, name, &resolved_spec)?;
             count += 1;
         }
 
@@ -131,11 +131,18 @@ impl OroCommand for AddCmd {
 }
 
 impl AddCmd {
-    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) {
+    fn add_to_manifest(&self, mani: &mut Formatted, name: &str, spec: &str) -> Result<()> {
         let deps = self.dep_kind_str();
+        if !mani.value.is_object() || !(mani.value[deps].is_object() || mani.value[deps].is_null())
+        {
+            return Err(miette!(
+                "Can't add to {deps}: package.json isn't an object, or its {deps} isn't one."
+            ));
+        }
         tracing::debug!("Adding {name}@{spec} to {deps}.");
         mani.value[deps][name] =
             serde_json::to_value(spec).expect("Value is always a valid string");
+        Ok(())
     }
 
     fn remove_from_manifest(&self, mani: &mut Formatted, name: &str) {
-- 
2.43.0

