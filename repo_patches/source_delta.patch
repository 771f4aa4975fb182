From 4be4ba65cef7a38c951d51dab33d8f8487300c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:46 +0000
Subject: [PATCH 01/23] fix: accept the null resolve that cargo metadata
 --no-deps prints

---
 src/cm/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..cec0986 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,7 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From f609071d04a8e9aad1b9fea817c11a9186907ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 02/23] fix: accept a rust-version with a single component

---
 src/cm/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cec0986..62bc4ad 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -419,11 +419,11 @@ impl<'de> Deserialize<'de> for Source {
 
 /// As per the Cargo Book the [`rust-version` field](https://doc.rust-lang.org/cargo/reference/manifest.html#the-rust-version-field) must:
 ///
-/// > be a bare version number with two or three components;
+/// > be a bare version number with at least one component;
 /// > it cannot include semver operators or pre-release identifiers.
 ///
 /// [`semver::Version`] however requires three components. This function takes
-/// care of appending `.0` if the provided version number only has two components
+/// care of appending `.0` if the provided version number has less components
 /// and ensuring that it does not contain a pre-release version or build metadata.
 fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version, E> {
     for c in buf.chars() {
@@ -436,8 +436,8 @@ fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version
         }
     }
 
-    if buf.matches('.').count() == 1 {
-        // e.g. 1.0 -> 1.0.0
+    // e.g. 1 -> 1.0.0, 1.0 -> 1.0.0
+    for _ in buf.matches('.').count()..2 {
         buf.push_str(".0");
     }
 
-- 
2.43.0


From 5e973109ba62e79e2067dc1d41dc5473feb8d4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 03/23] fix: serialize a target's required-features under the
 key cargo uses, and doctest only once

---
 src/cm/ser.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..0cc37bc 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -145,20 +145,9 @@ map!(Dependency, map, self, {
 });
 
 map!(Target, map, self, {
-    entries!(
-        map,
-        self,
-        name,
-        kind,
-        crate_types,
-        required_features,
-        src_path,
-        edition,
-        doctest,
-        doctest,
-        test,
-        doc
-    );
+    entries!(map, self, name, kind, crate_types);
+    entry!(map, self, required_features, "required-features");
+    entries!(map, self, src_path, edition, doctest, test, doc);
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From c0a13931fe13fdb567ef211963210895d24cfa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 04/23] fix: hash the components of a Kid that its equality
 compares

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..a1903a3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,10 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        // Must agree with `Eq`, which only considers the components
+        self.name().hash(state);
+        self.version().hash(state);
+        self.source().hash(state);
     }
 }
 
-- 
2.43.0


From a158dd35152df86f202c8d9d30b6be38e0fd5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 05/23] fix: decode the query of every stable git package id,
 whatever is encoded in it

---
 src/lib.rs | 134 +++++++++++++++--------------------------------------
 1 file changed, 37 insertions(+), 97 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1903a3..35b5e6e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,110 +106,29 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
+
+                if repr.starts_with("git+") {
+                    // Unfortunately the stable format percent encodes the source url in the metadata, and since
+                    // git branches/tags can contain various special characters, notably '/', we need to decode them
+                    // to be able to match against the non-encoded url used...everywhere else
+                    if let Some(query) = repr[..vmn].find('?') {
+                        let decoded = percent_decode(&repr[query..vmn]);
+                        repr.replace_range(query..vmn, &decoded);
+
+                        // move the version string back to account for the now shorter decoded repr
+                        vmn = query + decoded.len();
+                    }
+                }
+
                 let (name, version) = if let Some(split) = repr[vmn..].find('@') {
                     ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
                 } else {
-                    let begin = repr.rfind('/')? + 1;
                     let end = if repr.starts_with("git+") {
-                        // Unfortunately the stable format percent encodes the source url in the metadata, and since
-                        // git branches/tags can contain various special characters, notably '/', we need to decode them
-                        // to be able to match against the non-encoded url used...everywhere else
-                        let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);
-
-                        if repr[end..].contains('%') {
-                            let mut decoded = String::new();
-                            let mut encoded = &repr[end..];
-                            let before = encoded.len();
-
-                            loop {
-                                let Some(pi) = encoded.find('%') else {
-                                    decoded.push_str(encoded);
-                                    break;
-                                };
-
-                                decoded.push_str(&encoded[..pi]);
-
-                                let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
-                                    // This _should_ never happen, but just in case
-                                    panic!(
-                                        "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
-                                        &repr[end..],
-                                        &encoded[pi..]
-                                    );
-                                };
-
-                                // https://en.wikipedia.org/wiki/Percent-encoding
-                                // Reserved characters after percent-encoding
-                                //
-                                // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
-                                // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
-                                //
-                                // Common characters after percent-encoding (ASCII or UTF-8 based)
-                                //
-                                // -   .   <   >   \   ^   _   `   {   |   }   ~
-                                // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
-                                //
-                                // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
-                                // I don't feel like supporting it until someone actually complains
-
-                                let c = match encoding {
-                                    // By far the most likely one
-                                    "2F" | "2f" => '/',
-                                    "21" => '!',
-                                    "22" => '"',
-                                    "23" => '#',
-                                    "24" => '$',
-                                    "25" => '%',
-                                    "26" => '&',
-                                    "27" => '\'',
-                                    "28" => '(',
-                                    "29" => ')',
-                                    "2A" | "2a" => '*',
-                                    "2B" | "2b" => '+',
-                                    "2C" | "2c" => ',',
-                                    "2D" | "2d" => '-',
-                                    "2E" | "2e" => '.',
-                                    "3B" | "3b" => ';',
-                                    "3C" | "3c" => '<',
-                                    "3D" | "3d" => '=',
-                                    "3E" | "3e" => '>',
-                                    "40" => '@',
-                                    "5D" | "5d" => ']',
-                                    "5F" | "5f" => '_',
-                                    "60" => '`',
-                                    "7B" | "7b" => '{',
-                                    "7C" | "7c" => '|',
-                                    "7D" | "7d" => '}',
-                                    // These are invalid in branches/tags, but meh
-                                    // https://git-scm.com/docs/git-check-ref-format
-                                    "20" => ' ',
-                                    "3A" | "3a" => ':',
-                                    "3F" | "3f" => '?',
-                                    "5B" | "5b" => '[',
-                                    "5C" | "5c" => '\\',
-                                    "5E" | "5e" => '^',
-                                    "7E" | "7e" => '~',
-                                    _ => panic!(
-                                        "unknown percent encoding '%{encoding}' in '{}'",
-                                        &repr[end..]
-                                    ),
-                                };
-
-                                decoded.push(c);
-                                encoded = &encoded[pi + 3..];
-                            }
-
-                            repr.truncate(end);
-                            repr.push_str(&decoded);
-
-                            // move the version string back to account for the now shorter decoded repr
-                            vmn -= before - decoded.len();
-                        }
-
-                        end
+                        repr[..vmn].find('?').unwrap_or(vmn)
                     } else {
                         vmn
                     };
+                    let begin = repr[..end].rfind('/')? + 1;
 
                     ((begin, end), (vmn + 1, repr.len()))
                 };
@@ -228,6 +147,27 @@ impl From<PackageId> for Kid {
     }
 }
 
+/// Decodes a [percent encoded](https://en.wikipedia.org/wiki/Percent-encoding)
+/// string, leaving anything that is not a valid encoding as it is
+pub(crate) fn percent_decode(encoded: &str) -> String {
+    let mut decoded = Vec::with_capacity(encoded.len());
+    let mut bytes = encoded.as_bytes();
+
+    while let [byte, rest @ ..] = bytes {
+        let hex = |i: usize| rest.get(i).and_then(|b| (*b as char).to_digit(16));
+
+        if let (b'%', Some(hi), Some(lo)) = (byte, hex(0), hex(1)) {
+            decoded.push((hi << 4 | lo) as u8);
+            bytes = &rest[2..];
+        } else {
+            decoded.push(*byte);
+            bytes = rest;
+        }
+    }
+
+    String::from_utf8(decoded).unwrap_or_else(|_err| encoded.to_owned())
+}
+
 impl fmt::Debug for Kid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut ds = f.debug_struct("Kid");
-- 
2.43.0


From 136a20765967096c68aca187dffeca07eed8ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 06/23] fix: compare the decoded path of a package id with the
 path of a dependency

---
 src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..02c8872 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1834,10 +1834,13 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
         return false;
     };
 
+    // Unlike the path of the dependency, the url is percent encoded
+    let rpath = crate::percent_decode(rpath);
+
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-        rpath == dpath
+        rpath == dpath.as_str()
     } else {
         // Skip the leading /
         let mut rcomp = camino::Utf8Path::new(&rpath[1..]).components();
-- 
2.43.0


From 40ebac1b12e177ca457f8d3b2df15ce7566db143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 07/23] fix: report that there are no root crates instead of
 panicking on a workspace without members

---
 src/builder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 02c8872..ab76b6b 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -830,7 +830,10 @@ impl Builder {
 
         // We need to establish if the package ids are in the opaque or stable format as
         // it changes how git sources are compared
-        let is_opaque = resolved.nodes[0].id.repr.splitn(3, ' ').count() == 3;
+        let is_opaque = resolved
+            .nodes
+            .first()
+            .is_some_and(|node| node.id.repr.splitn(3, ' ').count() == 3);
 
         let mut nodes: Vec<_> = resolved
             .nodes
@@ -1840,7 +1843,7 @@ fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-        rpath == dpath.as_str()
+        rpath.as_str() == dpath
     } else {
         // Skip the leading /
         let mut rcomp = camino::Utf8Path::new(&rpath[1..]).components();
-- 
2.43.0


From 7a08e7bae8ba74364a27de0931c8320b5bf79c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 08/23] fix: take into account the lib target names of every
 kind of library

---
 src/builder.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index ab76b6b..50ba41c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -631,11 +631,19 @@ impl Builder {
         impl<'p> Renames<'p> {
             #[inline]
             fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
-                else {
+                let Some(targ) = pkg.targets.iter().find(|tar| {
+                    tar.kind.iter().any(|kind| {
+                        matches!(
+                            kind,
+                            cm::TargetKind::Lib
+                                | cm::TargetKind::RLib
+                                | cm::TargetKind::DyLib
+                                | cm::TargetKind::CDyLib
+                                | cm::TargetKind::StaticLib
+                                | cm::TargetKind::ProcMacro
+                        )
+                    })
+                }) else {
                     return;
                 };
 
-- 
2.43.0


From ed940ac8315817a281848ab9947862364ecb57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 09/23] fix: match a resolved dependency with the declaration
 of that package under that name

---
 src/builder.rs | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 50ba41c..784d72e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -658,6 +658,39 @@ impl Builder {
                 }
             }
 
+            /// Determines if the dependency declared in a manifest can be the resolved one
+            ///
+            /// The package must be the one declared, but as the same package can be declared multiple times
+            /// with different names, the resolved name must also either be the name the declaration gives to the
+            /// package, or otherwise the name of its lib target
+            #[inline]
+            fn declares(&self, dep: &cm::Dependency, rdep: &NodeDep) -> bool {
+                if dep.name != rdep.pkg.name() {
+                    return false;
+                }
+
+                if let Some(rename) = &dep.rename {
+                    pkg_name_equals(&rdep.name, rename) || rdep.name.is_empty()
+                } else {
+                    pkg_name_equals(&rdep.name, &dep.name) || self.is_lib_name(rdep)
+                }
+            }
+
+            #[inline]
+            fn is_lib_name(&self, rdep: &NodeDep) -> bool {
+                // Artifact dependencies don't have a lib target
+                if rdep.name.is_empty() {
+                    return true;
+                }
+
+                self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
+                    let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version)) else {
+                        return false;
+                    };
+                    renames[i].1 == rdep.name
+                })
+            }
+
             #[inline]
             fn resolve_feature<'n>(
                 &self,
@@ -673,13 +706,7 @@ impl Builder {
                         return false;
                     }
 
-                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
-                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
-                        else {
-                            return false;
-                        };
-                        renames[i].1 == rdep.name
-                    })
+                    self.is_lib_name(rdep)
                 })
             }
         }
@@ -1283,7 +1310,6 @@ impl Builder {
                     uses_default_features: bool,
                 }
 
-                let maybe_real_name = pkg.name();
                 let strong = features.is_some();
 
                 // If there are multiple versions of the same package we use the
@@ -1321,8 +1347,7 @@ impl Builder {
                             }
 
                             // Crates can rename the dependency package themselves
-                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
+                            if !renames.declares(dep, rdep) {
                                 return false;
                             }
 
@@ -1348,8 +1373,7 @@ impl Builder {
 
 
                                 // Crates can rename the dependency package themselves
-                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
+                                if !renames.declares(dep, rdep) {
                                     return false;
                                 }
 
-- 
2.43.0


From 6152969d51a06bb7c6403e92e0f8ee8387d00a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 10/23] fix: apply a dependency feature to every dependency
 that has the name

---
 src/builder.rs | 80 +++++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 784d72e..8b34ceb 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -691,23 +691,25 @@ impl Builder {
                 })
             }
 
+            /// Gets every resolved dependency the manifest uses the name for, which can be more than one, eg
+            /// when a dev-dependency and a regular dependency are for different versions of the same package
             #[inline]
             fn resolve_feature<'n>(
                 &self,
                 feature_krate_name: &str,
+                krate: &crate::Package,
                 rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
-                    if pkg_name_equals(&rdep.name, feature_krate_name) {
-                        return true;
-                    }
-
-                    if feature_krate_name != rdep.pkg.name() {
-                        return false;
-                    }
-
-                    self.is_lib_name(rdep)
-                })
+            ) -> Vec<&'n NodeDep> {
+                rnode
+                    .deps
+                    .iter()
+                    .filter(|rdep| {
+                        krate.dependencies.iter().any(|dep| {
+                            dep.rename.as_deref().unwrap_or(&dep.name) == feature_krate_name
+                                && self.declares(dep, rdep)
+                        })
+                    })
+                    .collect()
             }
         }
 
@@ -1250,41 +1252,39 @@ impl Builder {
                     // can also rename their `lib` target, which will mean that the resolved nodes use that name,
                     // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
                     // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
+                    for ndep in renames.resolve_feature(krate_name, krate, rnode) {
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+
+                        if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                            let feature = rdep_node.feature_index(feature.unwrap());
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
+                            continue;
+                        }
 
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
+                        }
 
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
-                        let feature = rdep_node.feature_index(feature.unwrap());
-                        krate_features
-                            .pending_weak
+                        let feats = deps
                             .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
-                        continue;
-                    }
-
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
+                            .unwrap();
 
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
-
-                    if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        if let Some(feature) = feature {
+                            feats.insert(rdep_node.feature_index(feature));
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 9c3453612a3eea33a3af3c78a91ef3e3e4060552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 11/23] fix: never enable an optional dependency through a weak
 feature

---
 src/builder.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8b34ceb..6b43a3d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1256,13 +1256,21 @@ impl Builder {
                         let rdep_node = get_rnode(&ndep.pkg);
                         let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
-                        if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                        if is_weak {
                             let feature = rdep_node.feature_index(feature.unwrap());
-                            krate_features
-                                .pending_weak
-                                .entry(&ndep.pkg)
-                                .or_default()
-                                .insert(feature);
+
+                            // A weak feature never enables the dependency, even if it is already
+                            // present, as it can also be declared as optional for another kind or target
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                                dep.features.insert(feature);
+                            } else {
+                                krate_features
+                                    .pending_weak
+                                    .entry(&ndep.pkg)
+                                    .or_default()
+                                    .insert(feature);
+                            }
                             continue;
                         }
 
-- 
2.43.0


From 2874656eceaa306115f872f2feb22a962b3e2922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 12/23] fix: don't enable the names of dependencies and their
 features as features of the crate itself

---
 src/builder.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 6b43a3d..217c920 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1840,21 +1840,13 @@ impl Builder {
                     } else {
                         let feat_name = feat_name.unwrap_or_else(|| sub_feat.kid.name().to_owned());
 
-                        let target_id = graph.add_node(crate::Node::Feature {
+                        // Note this doesn't mean the crate has a feature with that name enabled, as
+                        // it can also be the name of a dependency, or one of its features. All the
+                        // features that are enabled by other features of the crate are already known
+                        graph.add_node(crate::Node::Feature {
                             krate_index: kind,
-                            name: feat_name.clone(),
-                        });
-
-                        // Ensure that all of the subfeatures enabled by the parent feature are added to the
-                        // flat list of enabled features for the crate
-                        if let crate::Node::Krate { features, .. } = &mut graph[kind] {
-                            if !features.contains(&feat_name) {
-                                features.insert(feat_name.clone());
-                                feature_stack.push(feat_name);
-                            }
-                        }
-
-                        target_id
+                            name: feat_name,
+                        })
                     };
 
                     graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));
-- 
2.43.0


From 5e6a4e126a8244dfde57f7348ad61b0ed2e8dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 13/23] fix: tell apart the lib target names of packages with
 the same name and version

---
 src/builder.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 217c920..8059b3e 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -616,7 +616,7 @@ impl Builder {
         // case is super rare, but we need to handle it to prevent crates being pruned from the graph due to not matching
         // a <actual-crate-name>/feature to the resolve node
         struct Renames<'p> {
-            inner: BTreeMap<&'p str, Vec<(&'p semver::Version, &'p str)>>,
+            inner: BTreeMap<&'p Kid, &'p str>,
         }
 
         #[inline]
@@ -630,7 +630,7 @@ impl Builder {
 
         impl<'p> Renames<'p> {
             #[inline]
-            fn maybe_insert(&mut self, pkg: &'p crate::Package) {
+            fn maybe_insert(&mut self, id: &'p Kid, pkg: &'p crate::Package) {
                 let Some(targ) = pkg.targets.iter().find(|tar| {
                     tar.kind.iter().any(|kind| {
                         matches!(
@@ -651,11 +651,7 @@ impl Builder {
                     return;
                 }
 
-                let v = self.inner.entry(&pkg.name).or_default();
-
-                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
-                    v.insert(i, (&pkg.version, &targ.name));
-                }
+                self.inner.insert(id, &targ.name);
             }
 
             /// Determines if the dependency declared in a manifest can be the resolved one
@@ -683,12 +679,9 @@ impl Builder {
                     return true;
                 }
 
-                self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
-                    let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version)) else {
-                        return false;
-                    };
-                    renames[i].1 == rdep.name
-                })
+                self.inner
+                    .get(&rdep.pkg)
+                    .is_some_and(|rename| *rename == rdep.name)
             }
 
             /// Gets every resolved dependency the manifest uses the name for, which can be more than one, eg
@@ -737,8 +730,8 @@ impl Builder {
             }
         }
 
-        for (_, pkg) in &packages {
-            renames.maybe_insert(pkg);
+        for (id, pkg) in &packages {
+            renames.maybe_insert(id, pkg);
         }
 
         let mut workspace_members: Vec<_> =
-- 
2.43.0


From a8b307829877ff92f0941f0107ac326436c72189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 14/23] fix: compare an include path with the canonical path of
 the workspace

---
 src/builder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 8059b3e..9869027 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -762,10 +762,16 @@ impl Builder {
                     roots.extend(workspace_members.iter());
                 }
             } else {
+                // The filters are canonicalized if possible, so the paths in the
+                // metadata need to be as well to be able to compare them
+                let ws_root = md.workspace_root.as_std_path();
+                let canonical_root = ws_root.canonicalize();
+                let ws_root = canonical_root.as_deref().unwrap_or(ws_root);
+
                 // If the filters only contain 1 path, and it is the path to a
                 // workspace toml, then we disregard the filters
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && Some(ws_root) == self.workspace_filters[0].parent()
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From 9f51b4c5d663ef3ac3414bc4a20f2bc07918d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:18 +0000
Subject: [PATCH 15/23] fix: attribute the feature node of a dependency's
 feature to the dependency

---
 src/builder.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 9869027..5787724 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1826,26 +1826,21 @@ impl Builder {
                         continue;
                     }
 
-                    let feat_name = match sub_feat.name {
-                        FeatureEdgeName::Feature(feat) => Some(feat),
-                        FeatureEdgeName::Rename(kname) => Some(kname),
-                        FeatureEdgeName::Krate => None,
-                    };
-
-                    let target_id = if let Some(target_id) =
-                        get(&graph, sub_feat.kid, feat_name.as_deref())
-                    {
-                        target_id
-                    } else {
-                        let feat_name = feat_name.unwrap_or_else(|| sub_feat.kid.name().to_owned());
-
-                        // Note this doesn't mean the crate has a feature with that name enabled, as
-                        // it can also be the name of a dependency, or one of its features. All the
-                        // features that are enabled by other features of the crate are already known
-                        graph.add_node(crate::Node::Feature {
-                            krate_index: kind,
-                            name: feat_name,
-                        })
+                    let target_id = match sub_feat.name {
+                        // Note this doesn't mean that the feature is enabled on the crate if
+                        // it is a dependency, as the dependency could have been pruned
+                        FeatureEdgeName::Feature(feat) => {
+                            get_or_insert(&mut graph, sub_feat.kid, &feat)
+                        }
+                        FeatureEdgeName::Rename(kname) => {
+                            get(&graph, sub_feat.kid, Some(&kname)).unwrap_or_else(|| {
+                                graph.add_node(crate::Node::Feature {
+                                    krate_index: kind,
+                                    name: kname,
+                                })
+                            })
+                        }
+                        FeatureEdgeName::Krate => get(&graph, sub_feat.kid, None).unwrap(),
                     };
 
                     graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));
-- 
2.43.0


From 429aa35823f3c9953277343bf28fab0f6a297385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 16/23] fix: tell a package that is renamed to the name of its
 lib target from another of that package's name

---
 src/builder.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 5787724..34adf82 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -658,17 +658,28 @@ impl Builder {
             ///
             /// The package must be the one declared, but as the same package can be declared multiple times
             /// with different names, the resolved name must also either be the name the declaration gives to the
-            /// package, or otherwise the name of its lib target
+            /// package, or otherwise the name of its lib target, if no other declaration renames the package to just that
             #[inline]
-            fn declares(&self, dep: &cm::Dependency, rdep: &NodeDep) -> bool {
+            fn declares(
+                &self,
+                krate: &crate::Package,
+                dep: &cm::Dependency,
+                rdep: &NodeDep,
+            ) -> bool {
                 if dep.name != rdep.pkg.name() {
                     return false;
                 }
 
+                let renamed = |rename: &String| pkg_name_equals(&rdep.name, rename);
+
                 if let Some(rename) = &dep.rename {
-                    pkg_name_equals(&rdep.name, rename) || rdep.name.is_empty()
+                    renamed(rename) || rdep.name.is_empty()
                 } else {
-                    pkg_name_equals(&rdep.name, &dep.name) || self.is_lib_name(rdep)
+                    pkg_name_equals(&rdep.name, &dep.name)
+                        || self.is_lib_name(rdep)
+                            && !krate.dependencies.iter().any(|other| {
+                                other.name == dep.name && other.rename.as_ref().is_some_and(renamed)
+                            })
                 }
             }
 
@@ -699,7 +710,7 @@ impl Builder {
                     .filter(|rdep| {
                         krate.dependencies.iter().any(|dep| {
                             dep.rename.as_deref().unwrap_or(&dep.name) == feature_krate_name
-                                && self.declares(dep, rdep)
+                                && self.declares(krate, dep, rdep)
                         })
                     })
                     .collect()
@@ -1354,7 +1365,7 @@ impl Builder {
                             }
 
                             // Crates can rename the dependency package themselves
-                            if !renames.declares(dep, rdep) {
+                            if !renames.declares(krate, dep, rdep) {
                                 return false;
                             }
 
@@ -1380,7 +1391,7 @@ impl Builder {
 
 
                                 // Crates can rename the dependency package themselves
-                                if !renames.declares(dep, rdep) {
+                                if !renames.declares(krate, dep, rdep) {
                                     return false;
                                 }
 
-- 
2.43.0


From 71b678869bb0fa61758e89917a0272cba660adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 17/23] fix: match a target triple that is written another way
 than it is shown

---
 src/builder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 34adf82..1965314 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -264,8 +264,11 @@ impl TargetFilter {
             Target::Builtin(bi) => bi.triple.as_str() == triple,
             #[cfg(feature = "targets")]
             Target::Triple(trip) => {
-                let as_triple = format!("{}", trip);
-                as_triple == triple
+                // The same triple can be written in more than one way, eg. without
+                // an unknown vendor, so the text isn't what needs to be the same
+                triple
+                    .parse::<cfg_expr::target_lexicon::Triple>()
+                    .is_ok_and(|other| other == *trip)
             }
             Target::Unknown(unknown) => unknown == triple,
         }
-- 
2.43.0


From 486b99c32f5cd15f56b0ed4edbb7e86b0c0255e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 18/23] fix: find the dev-dependency of a package on itself
 when it is renamed

---
 src/builder.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 1965314..460b9a9 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -666,6 +666,7 @@ impl Builder {
             fn declares(
                 &self,
                 krate: &crate::Package,
+                rnode: &Node,
                 dep: &cm::Dependency,
                 rdep: &NodeDep,
             ) -> bool {
@@ -673,6 +674,17 @@ impl Builder {
                     return false;
                 }
 
+                // A package that has itself as a dev-dependency is always resolved with the name of
+                // its own lib target, even if the dependency is renamed
+                if rdep.pkg == rnode.id {
+                    return dep.kind == cm::DependencyKind::Development
+                        && if let Some(path) = &dep.path {
+                            compare_paths(path, rdep.pkg.source())
+                        } else {
+                            dep.req.matches(&rdep.version)
+                        };
+                }
+
                 let renamed = |rename: &String| pkg_name_equals(&rdep.name, rename);
 
                 if let Some(rename) = &dep.rename {
@@ -713,7 +725,7 @@ impl Builder {
                     .filter(|rdep| {
                         krate.dependencies.iter().any(|dep| {
                             dep.rename.as_deref().unwrap_or(&dep.name) == feature_krate_name
-                                && self.declares(krate, dep, rdep)
+                                && self.declares(krate, rnode, dep, rdep)
                         })
                     })
                     .collect()
@@ -1368,7 +1380,7 @@ impl Builder {
                             }
 
                             // Crates can rename the dependency package themselves
-                            if !renames.declares(krate, dep, rdep) {
+                            if !renames.declares(krate, rnode, dep, rdep) {
                                 return false;
                             }
 
@@ -1394,7 +1406,7 @@ impl Builder {
 
 
                                 // Crates can rename the dependency package themselves
-                                if !renames.declares(krate, dep, rdep) {
+                                if !renames.declares(krate, rnode, dep, rdep) {
                                     return false;
                                 }
 
-- 
2.43.0


From 3193aa2924ce01a8490f5e84deeb1014f9cd9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 19/23] fix: tell a dev-dependency of a package on itself from
 one on another package of its name

---
 src/builder.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 460b9a9..a73945d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -677,12 +677,23 @@ impl Builder {
                 // A package that has itself as a dev-dependency is always resolved with the name of
                 // its own lib target, even if the dependency is renamed
                 if rdep.pkg == rnode.id {
-                    return dep.kind == cm::DependencyKind::Development
-                        && if let Some(path) = &dep.path {
-                            compare_paths(path, rdep.pkg.source())
-                        } else {
-                            dep.req.matches(&rdep.version)
-                        };
+                    let is_own = |dep: &cm::Dependency| {
+                        dep.kind == cm::DependencyKind::Development
+                            && dep
+                                .path
+                                .as_ref()
+                                .is_some_and(|path| compare_paths(path, rdep.pkg.source()))
+                    };
+
+                    // The package can also be a patch for the one it depends on
+                    return is_own(dep)
+                        || dep.kind == cm::DependencyKind::Development
+                            && dep.path.is_none()
+                            && dep.req.matches(&rdep.version)
+                            && !krate.dependencies.iter().any(is_own)
+                            && !rnode.deps.iter().any(|other| {
+                                other.pkg != rdep.pkg && self.declares(krate, rnode, dep, other)
+                            });
                 }
 
                 let renamed = |rename: &String| pkg_name_equals(&rdep.name, rename);
-- 
2.43.0


From d49e3d7d64b9a7203e74ac4b1ea08b53188e7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 20/23] fix: refuse a package spec with an empty name

---
 src/pkgspec.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 9488370..8594cf5 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -46,7 +46,9 @@ impl std::str::FromStr for PkgSpec {
                                    url: Option<&str>|
          -> Result<(String, Option<Version>), Self::Err> {
             let validate_name = |n: &str| -> Result<String, Self::Err> {
-                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
+                if n.is_empty() {
+                    Err(Error::InvalidPkgSpec("package name cannot be empty"))
+                } else if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                     .is_some()
                 {
                     Err(Error::InvalidPkgSpec(
-- 
2.43.0


From 09890e6e7a8ca4e16e3909d65000400f17fadd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 21/23] fix: don't match a local package with the url of
 another source

---
 src/builder.rs |  2 +-
 src/pkgspec.rs | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index a73945d..02d42b6 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1895,7 +1895,7 @@ impl Builder {
 }
 
 #[inline]
-fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
+pub(crate) fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
     let Some(rpath) = src.strip_prefix("path+file://") else {
         return false;
     };
diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 8594cf5..26b8b56 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -23,14 +23,18 @@ impl PkgSpec {
             }
         }
 
-        let Some((url, src)) = self
-            .url
-            .as_ref()
-            .zip(krate.source.as_ref().map(|s| s.repr.as_str()))
-        else {
+        let Some(url) = &self.url else {
             return true;
         };
 
+        let Some(src) = krate.source.as_ref().map(|s| s.repr.as_str()) else {
+            // The source of a local package is the directory it is in
+            return krate
+                .manifest_path
+                .parent()
+                .is_some_and(|dir| crate::builder::compare_paths(dir, &format!("path+{url}")));
+        };
+
         let begin = src.find('+').map_or(0, |i| i + 1);
         let end = src.find('?').or_else(|| src.find('#')).unwrap_or(src.len());
 
@@ -48,7 +52,8 @@ impl std::str::FromStr for PkgSpec {
             let validate_name = |n: &str| -> Result<String, Self::Err> {
                 if n.is_empty() {
                     Err(Error::InvalidPkgSpec("package name cannot be empty"))
-                } else if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
+                } else if n
+                    .find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
                     .is_some()
                 {
                     Err(Error::InvalidPkgSpec(
-- 
2.43.0


From 63adc421c938606bea294f7f0abc0bfef93fc78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 22/23] fix: ignore a feature of a dev-dependency that cargo
 didn't resolve

---
 src/builder.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 02d42b6..b441155 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -882,11 +882,18 @@ impl Builder {
         }
 
         impl Node {
+            #[inline]
+            fn find_feature(&self, feat: &str) -> Option<usize> {
+                self.features
+                    .binary_search_by(|f| f.as_str().cmp(feat))
+                    .ok()
+            }
+
             #[inline]
             fn feature_index(&self, feat: &str) -> usize {
-                match self.features.binary_search_by(|f| f.as_str().cmp(feat)) {
-                    Ok(i) => i,
-                    Err(_i) => {
+                match self.find_feature(feat) {
+                    Some(i) => i,
+                    None => {
                         unreachable!(
                             "unable to locate {feat} for crate {} features({:?})",
                             self.id, self.features
@@ -1292,8 +1299,15 @@ impl Builder {
                         let rdep_node = get_rnode(&ndep.pkg);
                         let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
+                        // The feature is not resolved if the dependency is a dev-dependency of a
+                        // workspace member and it was another crate that enabled the member's feature,
+                        // as cargo only takes dev-dependencies into account for the member itself
+                        let feature = feature.and_then(|feature| rdep_node.find_feature(feature));
+
                         if is_weak {
-                            let feature = rdep_node.feature_index(feature.unwrap());
+                            let Some(feature) = feature else {
+                                continue;
+                            };
 
                             // A weak feature never enables the dependency, even if it is already
                             // present, as it can also be declared as optional for another kind or target
@@ -1327,7 +1341,7 @@ impl Builder {
                             .unwrap();
 
                         if let Some(feature) = feature {
-                            feats.insert(rdep_node.feature_index(feature));
+                            feats.insert(feature);
                         }
                     }
                 }
-- 
2.43.0


From 4b5bedb3b93a65c9f552a46e5b82d72be7b3c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 23/23] fix: tell apart packages of the same name that a crate
 gives one extern name

---
 src/builder.rs | 104 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 35 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index b441155..eea6a0a 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -620,6 +620,7 @@ impl Builder {
         // a <actual-crate-name>/feature to the resolve node
         struct Renames<'p> {
             inner: BTreeMap<&'p Kid, &'p str>,
+            is_opaque: bool,
         }
 
         #[inline]
@@ -661,7 +662,7 @@ impl Builder {
             ///
             /// The package must be the one declared, but as the same package can be declared multiple times
             /// with different names, the resolved name must also either be the name the declaration gives to the
-            /// package, or otherwise the name of its lib target, if no other declaration renames the package to just that
+            /// package, or otherwise the name of its lib target, if no other declaration fits better
             #[inline]
             fn declares(
                 &self,
@@ -696,16 +697,67 @@ impl Builder {
                             });
                 }
 
-                let renamed = |rename: &String| pkg_name_equals(&rdep.name, rename);
+                if !self.names(dep, rdep) {
+                    return false;
+                }
+
+                fn manifest_name(dep: &cm::Dependency) -> &str {
+                    dep.rename.as_deref().unwrap_or(&dep.name)
+                }
+
+                // Multiple declarations can give the same name to packages that only differ in their
+                // version or source
+                let fit = |dep: &cm::Dependency| (self.requires(dep, rdep), dep.rename.is_some());
 
+                !krate.dependencies.iter().any(|other| {
+                    other.name == dep.name
+                        && manifest_name(other) != manifest_name(dep)
+                        && self.names(other, rdep)
+                        && fit(other) > fit(dep)
+                })
+            }
+
+            /// Determines if the name of the resolved dependency can be the one the declaration gives it
+            #[inline]
+            fn names(&self, dep: &cm::Dependency, rdep: &NodeDep) -> bool {
                 if let Some(rename) = &dep.rename {
-                    renamed(rename) || rdep.name.is_empty()
+                    pkg_name_equals(&rdep.name, rename) || rdep.name.is_empty()
                 } else {
-                    pkg_name_equals(&rdep.name, &dep.name)
-                        || self.is_lib_name(rdep)
-                            && !krate.dependencies.iter().any(|other| {
-                                other.name == dep.name && other.rename.as_ref().is_some_and(renamed)
-                            })
+                    pkg_name_equals(&rdep.name, &dep.name) || self.is_lib_name(rdep)
+                }
+            }
+
+            /// Determines if the resolved dependency has a version and the source that are declared
+            #[inline]
+            fn requires(&self, dep: &cm::Dependency, rdep: &NodeDep) -> bool {
+                ((!rdep.version.pre.is_empty() && dep.req.comparators.is_empty())
+                    || dep.req.matches(&rdep.version))
+                    && self.same_source(dep, rdep)
+            }
+
+            #[inline]
+            fn same_source(&self, dep: &cm::Dependency, rdep: &NodeDep) -> bool {
+                if let Some(dsrc) = &dep.source {
+                    let psrc = rdep.pkg.source();
+                    let Some((dgit, pgit)) =
+                        dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+"))
+                    else {
+                        return dsrc == psrc;
+                    };
+
+                    // The opaque git sources can have the full revision spec at the end, which is not part of
+                    // source declaration
+                    let dgit = if self.is_opaque {
+                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
+                    } else {
+                        dgit
+                    };
+
+                    dgit == pgit
+                } else if let Some(dpath) = &dep.path {
+                    compare_paths(dpath, rdep.pkg.source())
+                } else {
+                    false
                 }
             }
 
@@ -743,8 +795,16 @@ impl Builder {
             }
         }
 
+        // We need to establish if the package ids are in the opaque or stable format as
+        // it changes how git sources are compared
+        let is_opaque = resolved
+            .nodes
+            .first()
+            .is_some_and(|node| node.id.repr.splitn(3, ' ').count() == 3);
+
         let mut renames = Renames {
             inner: Default::default(),
+            is_opaque,
         };
 
         let mut packages: Vec<_> = md
@@ -908,13 +968,6 @@ impl Builder {
             }
         }
 
-        // We need to establish if the package ids are in the opaque or stable format as
-        // it changes how git sources are compared
-        let is_opaque = resolved
-            .nodes
-            .first()
-            .is_some_and(|node| node.id.repr.splitn(3, ' ').count() == 3);
-
         let mut nodes: Vec<_> = resolved
             .nodes
             .into_iter()
@@ -1459,26 +1512,7 @@ impl Builder {
                                 // encountered it in testing (eg. the `md-5` crate names its lib target `md5`, and you
                                 // can have a dependency on the `md5` crate, they both get resolved to the same name, but
                                 // then rustc can't compile `md5::compute` because there are two libs that satisfy that name)
-                                if let Some(dsrc) = &dep.source {
-                                    let psrc = rdep.pkg.source();
-                                    let Some((dgit, pgit)) = dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) else {
-                                        return dsrc == psrc;
-                                    };
-
-                                    // The opaque git sources can have the full revision spec at the end, which is not part of
-                                    // source declaration
-                                    let dgit = if is_opaque {
-                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
-                                    } else {
-                                        dgit
-                                    };
-
-                                    dgit == pgit
-                                } else if let Some(dpath) = &dep.path {
-                                    compare_paths(dpath, rdep.pkg.source())
-                                } else {
-                                    false
-                                }
+                                renames.same_source(dep, rdep)
                             }) else {
                                 unreachable!("cargo metadata resolved a dependency for a dependency not specified by the crate: {rdep:?}");
                             };
-- 
2.43.0

