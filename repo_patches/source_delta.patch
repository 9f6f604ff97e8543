From 1471a251880eeedfd1907513b73a8fff2f18ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 01/21] fix: don't panic on features of dev dependencies that
 were not resolved

---
 src/builder.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 46cc0e4..c3b1f01 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -809,11 +809,18 @@ impl Builder {
         }
 
         impl Node {
+            #[inline]
+            fn find_feature(&self, feat: &str) -> Option<usize> {
+                self.features
+                    .binary_search_by(|f| f.as_str().cmp(feat))
+                    .ok()
+            }
+
             #[inline]
             fn feature_index(&self, feat: &str) -> usize {
-                match self.features.binary_search_by(|f| f.as_str().cmp(feat)) {
-                    Ok(i) => i,
-                    Err(_i) => {
+                match self.find_feature(feat) {
+                    Some(i) => i,
+                    None => {
                         unreachable!(
                             "unable to locate {feat} for crate {} features({:?})",
                             self.id, self.features
@@ -1219,8 +1226,17 @@ impl Builder {
                     let rdep_node = get_rnode(&ndep.pkg);
                     let is_weak = matches!(pf.feat(), Feature::Weak { .. });
 
+                    // Features enabled by a dependent don't apply to the crate's dev dependencies, but the list of
+                    // resolved features doesn't say who enabled them, so the feature might not actually have been
+                    // resolved on the dependency
+                    let feature = match feature.map(|f| rdep_node.find_feature(f)) {
+                        Some(None) => continue,
+                        Some(found) => found,
+                        None => None,
+                    };
+
                     if is_weak && !pn.deps.contains_key(&ndep.pkg) {
-                        let feature = rdep_node.feature_index(feature.unwrap());
+                        let feature = feature.unwrap();
                         krate_features
                             .pending_weak
                             .entry(&ndep.pkg)
@@ -1246,7 +1262,7 @@ impl Builder {
                         .unwrap();
 
                     if let Some(feature) = feature {
-                        feats.insert(rdep_node.feature_index(feature));
+                        feats.insert(feature);
                     }
                 }
             } else {
-- 
2.43.0


From aa8231c6d6754849038c333238d18b6d4a0c8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 02/21] fix: don't follow features across filtered dependencies
 in krates_filtered

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 67e6751..0923f1b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -733,7 +733,15 @@ where
                             continue;
                         }
                     }
-                    Edge::Feature => {}
+                    // Features can reference crates which are only present via the filtered kind, but every
+                    // crate has at least one edge from each crate that depends on it, so the only feature
+                    // edges that matter are the ones from a feature to its own crate
+                    Edge::Feature => {
+                        if !matches!(&graph[nid], Node::Feature { krate_index, .. } if *krate_index == edge.target())
+                        {
+                            continue;
+                        }
+                    }
                 };
 
                 match &graph[edge.target()] {
-- 
2.43.0


From 52948ab3a7408f598bb7db433478eef7156aca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 03/21] fix: accept metadata without a resolve graph, as output
 by --no-deps

---
 src/cm/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cd72f44..cec0986 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -91,7 +91,7 @@ map!(Metadata, map, {
             "packages" => packages = Some(tri!(map.next_value())),
             "workspace_members" => workspace_members = Some(tri!(map.next_value())),
             "workspace_default_members" => workspace_default_members = Some(tri!(map.next_value())),
-            "resolve" => resolve = Some(tri!(map.next_value())),
+            "resolve" => resolve = tri!(map.next_value()),
             "workspace_root" => workspace_root = Some(tri!(map.next_value())),
             "target_directory" => target_directory = Some(tri!(map.next_value())),
             "metadata" => workspace_metadata = tri!(map.next_value()),
-- 
2.43.0


From 91a045364b50dd6a3d7a5248351093342edcb65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 04/21] fix: accept rust-version with a single component

---
 src/cm/de.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cm/de.rs b/src/cm/de.rs
index cec0986..8c359e4 100644
--- a/src/cm/de.rs
+++ b/src/cm/de.rs
@@ -423,7 +423,8 @@ impl<'de> Deserialize<'de> for Source {
 /// > it cannot include semver operators or pre-release identifiers.
 ///
 /// [`semver::Version`] however requires three components. This function takes
-/// care of appending `.0` if the provided version number only has two components
+/// care of appending `.0` for each component missing from the provided version number,
+/// note that cargo accepts a lone major version as well,
 /// and ensuring that it does not contain a pre-release version or build metadata.
 fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version, E> {
     for c in buf.chars() {
@@ -436,8 +437,8 @@ fn deserialize_rust_version<E: Error>(mut buf: String) -> Result<semver::Version
         }
     }
 
-    if buf.matches('.').count() == 1 {
-        // e.g. 1.0 -> 1.0.0
+    // e.g. 1 -> 1.0.0 or 1.0 -> 1.0.0
+    for _ in buf.matches('.').count()..2 {
         buf.push_str(".0");
     }
 
-- 
2.43.0


From 941ae41f14261411385e06b41e260013617e66df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 05/21] fix: serialize targets with the keys cargo metadata
 uses

---
 src/cm/ser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cm/ser.rs b/src/cm/ser.rs
index 48b8cc9..9dfac40 100644
--- a/src/cm/ser.rs
+++ b/src/cm/ser.rs
@@ -151,14 +151,13 @@ map!(Target, map, self, {
         name,
         kind,
         crate_types,
-        required_features,
         src_path,
         edition,
         doctest,
-        doctest,
         test,
         doc
     );
+    entry!(map, self, required_features, "required-features");
 });
 
 impl Serialize for Edition {
-- 
2.43.0


From c4f5347096c74ba4ca606389695486ef685cb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 06/21] fix: match resolved dependencies to the declaration
 that actually names them

A declaration with the same name as the package, or the rename, of another
dependency with overlapping requirements could be chosen instead, giving the
edges of the wrong declaration, or a panic if none had the expected source, eg
when patched, or when it has characters that are percent encoded in the id
---
 src/builder.rs | 210 +++++++++++++++++++++++++------------------------
 1 file changed, 107 insertions(+), 103 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index c3b1f01..f569085 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -800,6 +800,110 @@ impl Builder {
             false
         }
 
+        /// Determines if the dependency is the declaration of the resolved dependency
+        #[inline]
+        fn is_declared_by(
+            krate: &crate::Package,
+            dep: &cm::Dependency,
+            rdep: &NodeDep,
+            dk: &DepKindInfo,
+        ) -> bool {
+            // The dependency always uses the actual name of the package, regardless of if it, or its lib
+            // target, are renamed
+            if dk.kind != dep.kind || dep.name != rdep.pkg.name() {
+                return false;
+            }
+
+            // Crates can rename the dependency package themselves. Note that the rename doesn't apply if a crate
+            // has a dev dependency on itself
+            if let Some(rename) = &dep.rename
+                && !pkg_name_equals(&rdep.name, rename)
+                && rdep.pkg.repr != krate.id.repr
+            {
+                return false;
+            }
+
+            // If there are multiple versions of the same package we use the
+            // version to disambiguate references to them, unfortunately,
+            // though (it should be) extremely rare to do this, we always
+            // check that versions match once a crate is found, as nodes can
+            // not be resolved due to features, but will still be listed as
+            // a dependency
+            //
+            // Note that cargo _should_ fail to resolve nodes if the same
+            // package is referenced with two `^` (compatible) semvers, ie,
+            // you can't reference both ">= 0.2.12" and "=0.2.7" of a package
+            // even if they could never point to the same package, this _may_
+            // mean there could be a situation where a single crate _could_
+            // be referenced with 0.0.x versions, but...I'll fix that if
+            // someone reports an issue
+            //
+            // Handle case where a dependency may not have a version requirement, which
+            // typically happens in the case of non-registry dependencies that use a pre-release
+            // semver, if the version _is_ a prelease it will never match the empty
+            // requirement. Note this will pass through eg. path dependencies that don't specify a
+            // version, but those should be rejected during source comparison if matching against eg. a registry crate
+            let has_prelease = !rdep.version.pre.is_empty();
+            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(&rdep.version))
+            {
+                return false;
+            }
+
+            crate::targets_eq(&dk.cfg, &dep.target)
+        }
+
+        /// Finds the declaration of the resolved dependency
+        fn find_declaration<'krate>(
+            krate: &'krate crate::Package,
+            rdep: &NodeDep,
+            dk: &DepKindInfo,
+            is_opaque: bool,
+        ) -> Option<(usize, &'krate cm::Dependency)> {
+            // Even if the name matches and the version matches, the source for the package might
+            // be different if there are multiple git dependencies at different revisions :(, or if
+            // There is also an _extreme_ edge case where a package's lib target can be the same
+            // name as another package. This actually would mean that the code won't compile, but I
+            // encountered it in testing (eg. the `md-5` crate names its lib target `md5`, and you
+            // can have a dependency on the `md5` crate, they both get resolved to the same name, but
+            // then rustc can't compile `md5::compute` because there are two libs that satisfy that name)
+            let same_source = |dep: &cm::Dependency| -> bool {
+                if let Some(dsrc) = &dep.source {
+                    let psrc = rdep.pkg.source();
+                    let Some((dgit, pgit)) =
+                        dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+"))
+                    else {
+                        return dsrc == psrc;
+                    };
+
+                    // The opaque git sources can have the full revision spec at the end, which is not part of
+                    // source declaration
+                    let dgit = if is_opaque {
+                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
+                    } else {
+                        dgit
+                    };
+
+                    dgit == pgit
+                } else if let Some(dpath) = &dep.path {
+                    compare_paths(dpath, rdep.pkg.source())
+                } else {
+                    false
+                }
+            };
+
+            // A crate can depend on the same package with both its own name and a rename, if the resolved
+            // name is a rename then that is the one we want.
+            //
+            // Note that the source is only a preference, as the package can come from a source other than
+            // the one that is declared, eg. if it has been patched
+            krate
+                .dependencies
+                .iter()
+                .enumerate()
+                .filter(|(_, dep)| is_declared_by(krate, dep, rdep, dk))
+                .min_by_key(|(_, dep)| (dep.rename.is_none(), !same_source(dep)))
+        }
+
         #[derive(Debug)]
         struct Node {
             id: Kid,
@@ -1288,26 +1392,8 @@ impl Builder {
                     uses_default_features: bool,
                 }
 
-                let maybe_real_name = pkg.name();
                 let strong = features.is_some();
 
-                // If there are multiple versions of the same package we use the
-                // version to disambiguate references to them, unfortunately,
-                // though (it should be) extremely rare to do this, we always
-                // check that versions match once a crate is found, as nodes can
-                // not be resolved due to features, but will still be listed as
-                // a dependency
-                //
-                // Note that cargo _should_ fail to resolve nodes if the same
-                // package is referenced with two `^` (compatible) semvers, ie,
-                // you can't reference both ">= 0.2.12" and "=0.2.7" of a package
-                // even if they could never point to the same package, this _may_
-                // mean there could be a situation where a single crate _could_
-                // be referenced with 0.0.x versions, but...I'll fix that if
-                // someone reports an issue
-                let rdep_version = &rdep.version;
-                let has_prelease = !rdep_version.pre.is_empty();
-
                 let edges = rdep.dep_kinds.iter().filter_map(|dk| {
                         let mask = match dk.kind {
                             DepKind::Normal => 0x1,
@@ -1320,91 +1406,9 @@ impl Builder {
                             return None;
                         }
 
-                        let multiple_candidates = krate.dependencies.iter().filter(|dep| {
-                            if dk.kind != dep.kind {
-                                return false;
-                            }
-
-                            // Crates can rename the dependency package themselves
-                            let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                            if maybe_real_name != dname && !dep_names_match(dname, rdep) {
-                                return false;
-                            }
-
-                            // Handle case where a dependency may not have a version requirement, which
-                            // typically happens in the case of non-registry dependencies that use a pre-release
-                            // semver, if the version _is_ a prelease it will never match the empty
-                            // requirement
-                            if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                return false;
-                            }
-
-                            crate::targets_eq(&dk.cfg, &dep.target)
-                        }).count() > 1;
-
-                        let Some((dep_index, dep)) = krate
-                            .dependencies
-                            .iter()
-                            .enumerate()
-                            .find(|(_, dep)| {
-                                if dk.kind != dep.kind {
-                                    return false;
-                                }
-
-
-                                // Crates can rename the dependency package themselves
-                                let dname = dep.rename.as_deref().unwrap_or(&dep.name);
-                                if maybe_real_name != dname && !dep_names_match(dname, rdep) {
-                                    return false;
-                                }
-
-                                // Handle case where a dependency may not have a version requirement, which
-                                // typically happens in the case of non-registry dependencies that use a pre-release
-                                // semver, if the version _is_ a prelease it will never match the empty
-                                // requirement. Note this will pass through eg. path dependencies that don't specify a
-                                // version, but those should be rejected during source comparison if matching against eg. a registry crate
-                                if !((has_prelease && dep.req.comparators.is_empty()) || dep.req.matches(rdep_version)) {
-                                    return false;
-                                }
-
-                                if !crate::targets_eq(&dk.cfg, &dep.target) {
-                                    return false;
-                                }
-
-                                if !multiple_candidates {
-                                    return true;
-                                }
-
-                                // Finally, even if the name matches and the version matches, the source for the package might
-                                // be different if there are multiple git dependencies at different revisions :(, or if
-                                // There is also an _extreme_ edge case where a package's lib target can be the same
-                                // name as another package. This actually would mean that the code won't compile, but I
-                                // encountered it in testing (eg. the `md-5` crate names its lib target `md5`, and you
-                                // can have a dependency on the `md5` crate, they both get resolved to the same name, but
-                                // then rustc can't compile `md5::compute` because there are two libs that satisfy that name)
-                                if let Some(dsrc) = &dep.source {
-                                    let psrc = rdep.pkg.source();
-                                    let Some((dgit, pgit)) = dsrc.strip_prefix("git+").zip(psrc.strip_prefix("git+")) else {
-                                        return dsrc == psrc;
-                                    };
-
-                                    // The opaque git sources can have the full revision spec at the end, which is not part of
-                                    // source declaration
-                                    let dgit = if is_opaque {
-                                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
-                                    } else {
-                                        dgit
-                                    };
-
-                                    dgit == pgit
-                                } else if let Some(dpath) = &dep.path {
-                                    compare_paths(dpath, rdep.pkg.source())
-                                } else {
-                                    false
-                                }
-                            }) else {
-                                unreachable!("cargo metadata resolved a dependency for a dependency not specified by the crate: {rdep:?}");
-                            };
+                        let Some((dep_index, dep)) = find_declaration(krate, rdep, dk, is_opaque) else {
+                            unreachable!("cargo metadata resolved a dependency for a dependency not specified by the crate: {rdep:?}");
+                        };
 
                         if dep.optional && !strong {
                             return None;
-- 
2.43.0


From 6ac397ddec31ac994863ad5f34fa4b46774775b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 07/21] fix: enable features on every dependency declared with
 the name used by a feature

Only the first resolved dependency with a matching name was considered, even if
the name refers to different versions depending on the kind or target, and
renamed lib targets were only found if they were of the kind lib, not eg rlib or
proc-macro
---
 src/builder.rs | 171 ++++++++++++++++++-------------------------------
 1 file changed, 61 insertions(+), 110 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index f569085..09819e7 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -609,16 +609,6 @@ impl Builder {
     {
         let mut resolved = md.resolve.ok_or(Error::NoResolveGraph)?;
 
-        // Crates can rename their lib target via
-        // [lib]
-        // name = "ihateyou"
-        // which will be the name that appears in the resolved node graph unless the dependent also renames it. This
-        // case is super rare, but we need to handle it to prevent crates being pruned from the graph due to not matching
-        // a <actual-crate-name>/feature to the resolve node
-        struct Renames<'p> {
-            inner: BTreeMap<&'p str, Vec<(&'p semver::Version, &'p str)>>,
-        }
-
         #[inline]
         fn pkg_name_equals(krate: &str, human: &str) -> bool {
             krate.len() == human.len()
@@ -628,58 +618,6 @@ impl Builder {
                     .all(|(a, b)| a == b || a == '_' && b == '-')
         }
 
-        impl<'p> Renames<'p> {
-            #[inline]
-            fn maybe_insert(&mut self, pkg: &'p crate::Package) {
-                let Some(targ) = pkg
-                    .targets
-                    .iter()
-                    .find(|tar| tar.kind.contains(&cm::TargetKind::Lib))
-                else {
-                    return;
-                };
-
-                if pkg_name_equals(&targ.name, &pkg.name) {
-                    return;
-                }
-
-                let v = self.inner.entry(&pkg.name).or_default();
-
-                if let Err(i) = v.binary_search_by(|(vs, _n)| vs.cmp(&&pkg.version)) {
-                    v.insert(i, (&pkg.version, &targ.name));
-                }
-            }
-
-            #[inline]
-            fn resolve_feature<'n>(
-                &self,
-                feature_krate_name: &str,
-                rnode: &'n Node,
-            ) -> Option<&'n NodeDep> {
-                rnode.deps.iter().find(|rdep| {
-                    if pkg_name_equals(&rdep.name, feature_krate_name) {
-                        return true;
-                    }
-
-                    if feature_krate_name != rdep.pkg.name() {
-                        return false;
-                    }
-
-                    self.inner.get(rdep.pkg.name()).is_some_and(|renames| {
-                        let Ok(i) = renames.binary_search_by(|(vs, _n)| vs.cmp(&&rdep.version))
-                        else {
-                            return false;
-                        };
-                        renames[i].1 == rdep.name
-                    })
-                })
-            }
-        }
-
-        let mut renames = Renames {
-            inner: Default::default(),
-        };
-
         let mut packages: Vec<_> = md
             .packages
             .into_iter()
@@ -700,10 +638,6 @@ impl Builder {
             }
         }
 
-        for (_, pkg) in &packages {
-            renames.maybe_insert(pkg);
-        }
-
         let mut workspace_members: Vec<_> =
             md.workspace_members.into_iter().map(Kid::from).collect();
         workspace_members.sort();
@@ -904,6 +838,33 @@ impl Builder {
                 .min_by_key(|(_, dep)| (dep.rename.is_none(), !same_source(dep)))
         }
 
+        /// Finds the resolved dependencies declared with the specified name
+        ///
+        /// Features always reference dependencies by the name they are declared with in the manifest, which can differ
+        /// from both the name of the package, if the dependency is renamed, as well as from the resolved name, which can
+        /// have `-` replaced with `_`, or be the name of the package's lib target if that has been renamed via
+        ///
+        /// ```toml
+        /// [lib]
+        /// name = "ihateyou"
+        /// ```
+        ///
+        /// It's also possible for a name to reference multiple versions of a crate if it is declared for different
+        /// dependency kinds or targets
+        fn find_named<'rdep>(
+            krate: &crate::Package,
+            rdeps: &'rdep [NodeDep],
+            name: &str,
+            is_opaque: bool,
+        ) -> impl Iterator<Item = &'rdep NodeDep> {
+            rdeps.iter().filter(move |rdep| {
+                rdep.dep_kinds.iter().any(|dk| {
+                    find_declaration(krate, rdep, dk, is_opaque)
+                        .is_some_and(|(_, dep)| dep.rename.as_deref().unwrap_or(&dep.name) == name)
+                })
+            })
+        }
+
         #[derive(Debug)]
         struct Node {
             id: Kid,
@@ -1315,58 +1276,48 @@ impl Builder {
                         }
                     };
 
-                    // Note that we don't care about the package name here, as cargo resolves feature by the manifest
-                    // name for the package only, since it's possible to have multiple versions of the same crate that
-                    // each need a unique name
-                    //
-                    // ...except we do have to care! While the above is the **overwhelming** majority of cases, packages
-                    // can also rename their `lib` target, which will mean that the resolved nodes use that name,
-                    // unless they are _also_ renamed in the dependent, but the package name is used in the crate's
-                    // dependencies.
-                    let Some(ndep) = renames.resolve_feature(krate_name, rnode) else {
-                        continue;
-                    };
+                    for ndep in find_named(krate, &rnode.deps, krate_name, is_opaque) {
+                        let rdep_node = get_rnode(&ndep.pkg);
+                        let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+
+                        // Features enabled by a dependent don't apply to the crate's dev dependencies, but the list of
+                        // resolved features doesn't say who enabled them, so the feature might not actually have been
+                        // resolved on the dependency
+                        let feature = match feature.map(|f| rdep_node.find_feature(f)) {
+                            Some(None) => continue,
+                            Some(found) => found,
+                            None => None,
+                        };
 
-                    let rdep_node = get_rnode(&ndep.pkg);
-                    let is_weak = matches!(pf.feat(), Feature::Weak { .. });
+                        if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                            let feature = feature.unwrap();
+                            krate_features
+                                .pending_weak
+                                .entry(&ndep.pkg)
+                                .or_default()
+                                .insert(feature);
+                            continue;
+                        }
 
-                    // Features enabled by a dependent don't apply to the crate's dev dependencies, but the list of
-                    // resolved features doesn't say who enabled them, so the feature might not actually have been
-                    // resolved on the dependency
-                    let feature = match feature.map(|f| rdep_node.find_feature(f)) {
-                        Some(None) => continue,
-                        Some(found) => found,
-                        None => None,
-                    };
+                        if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
+                            deps.entry(&ndep.pkg)
+                                .or_insert_with(|| (ndep, Some(BTreeSet::new())))
+                                .1
+                                .as_mut()
+                                .unwrap()
+                                .append(&mut pending);
+                        }
 
-                    if is_weak && !pn.deps.contains_key(&ndep.pkg) {
-                        let feature = feature.unwrap();
-                        krate_features
-                            .pending_weak
+                        let feats = deps
                             .entry(&ndep.pkg)
-                            .or_default()
-                            .insert(feature);
-                        continue;
-                    }
-
-                    if let Some(mut pending) = krate_features.pending_weak.remove(&ndep.pkg) {
-                        deps.entry(&ndep.pkg)
                             .or_insert_with(|| (ndep, Some(BTreeSet::new())))
                             .1
                             .as_mut()
-                            .unwrap()
-                            .append(&mut pending);
-                    }
-
-                    let feats = deps
-                        .entry(&ndep.pkg)
-                        .or_insert_with(|| (ndep, Some(BTreeSet::new())))
-                        .1
-                        .as_mut()
-                        .unwrap();
+                            .unwrap();
 
-                    if let Some(feature) = feature {
-                        feats.insert(feature);
+                        if let Some(feature) = feature {
+                            feats.insert(feature);
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From 2b698bb65867ef67efd7c6cdd61b3ab289f17637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 08/21] fix: don't activate optional dependencies via weak
 features

---
 src/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 09819e7..a544c7d 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1289,8 +1289,17 @@ impl Builder {
                             None => None,
                         };
 
-                        if is_weak && !pn.deps.contains_key(&ndep.pkg) {
+                        if is_weak {
                             let feature = feature.unwrap();
+
+                            // If the dependency is already activated only the feature is needed, a weak feature must
+                            // never activate other optional edges to the same crate
+                            if let Some(dep) = pn.deps.get_mut(&ndep.pkg) {
+                                visit_stack.push_with_feature(&ndep.pkg, feature);
+                                dep.features.insert(feature);
+                                continue;
+                            }
+
                             krate_features
                                 .pending_weak
                                 .entry(&ndep.pkg)
-- 
2.43.0


From 5146a731182fc0e174b6dc9f12d4c8a71b8d5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 09/21] fix: don't list features of dependencies as features of
 the dependent

---
 src/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index a544c7d..bd66249 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1784,7 +1784,9 @@ impl Builder {
 
                         // Ensure that all of the subfeatures enabled by the parent feature are added to the
                         // flat list of enabled features for the crate
-                        if let crate::Node::Krate { features, .. } = &mut graph[kind] {
+                        if sub_feat.kid == pid
+                            && let crate::Node::Krate { features, .. } = &mut graph[kind]
+                        {
                             if !features.contains(&feat_name) {
                                 features.insert(feat_name.clone());
                                 feature_stack.push(feat_name);
-- 
2.43.0


From 0aef24806520ba9bd485edd58fcaa7240879768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:36 +0000
Subject: [PATCH 10/21] fix: decode the source in git package ids that contain
 the package name

---
 src/lib.rs | 203 +++++++++++++++++++++++++++--------------------------
 1 file changed, 102 insertions(+), 101 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0923f1b..6691f7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,110 +106,111 @@ impl From<PackageId> for Kid {
                 [name, version, source]
             } else {
                 let mut vmn = repr.rfind('#')?;
-                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
-                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
-                } else {
-                    let begin = repr.rfind('/')? + 1;
-                    let end = if repr.starts_with("git+") {
-                        // Unfortunately the stable format percent encodes the source url in the metadata, and since
-                        // git branches/tags can contain various special characters, notably '/', we need to decode them
-                        // to be able to match against the non-encoded url used...everywhere else
-                        let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);
-
-                        if repr[end..].contains('%') {
-                            let mut decoded = String::new();
-                            let mut encoded = &repr[end..];
-                            let before = encoded.len();
-
-                            loop {
-                                let Some(pi) = encoded.find('%') else {
-                                    decoded.push_str(encoded);
-                                    break;
-                                };
-
-                                decoded.push_str(&encoded[..pi]);
-
-                                let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
-                                    // This _should_ never happen, but just in case
-                                    panic!(
-                                        "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
-                                        &repr[end..],
-                                        &encoded[pi..]
-                                    );
-                                };
-
-                                // https://en.wikipedia.org/wiki/Percent-encoding
-                                // Reserved characters after percent-encoding
-                                //
-                                // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
-                                // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
-                                //
-                                // Common characters after percent-encoding (ASCII or UTF-8 based)
-                                //
-                                // -   .   <   >   \   ^   _   `   {   |   }   ~
-                                // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
-                                //
-                                // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
-                                // I don't feel like supporting it until someone actually complains
-
-                                let c = match encoding {
-                                    // By far the most likely one
-                                    "2F" | "2f" => '/',
-                                    "21" => '!',
-                                    "22" => '"',
-                                    "23" => '#',
-                                    "24" => '$',
-                                    "25" => '%',
-                                    "26" => '&',
-                                    "27" => '\'',
-                                    "28" => '(',
-                                    "29" => ')',
-                                    "2A" | "2a" => '*',
-                                    "2B" | "2b" => '+',
-                                    "2C" | "2c" => ',',
-                                    "2D" | "2d" => '-',
-                                    "2E" | "2e" => '.',
-                                    "3B" | "3b" => ';',
-                                    "3C" | "3c" => '<',
-                                    "3D" | "3d" => '=',
-                                    "3E" | "3e" => '>',
-                                    "40" => '@',
-                                    "5D" | "5d" => ']',
-                                    "5F" | "5f" => '_',
-                                    "60" => '`',
-                                    "7B" | "7b" => '{',
-                                    "7C" | "7c" => '|',
-                                    "7D" | "7d" => '}',
-                                    // These are invalid in branches/tags, but meh
-                                    // https://git-scm.com/docs/git-check-ref-format
-                                    "20" => ' ',
-                                    "3A" | "3a" => ':',
-                                    "3F" | "3f" => '?',
-                                    "5B" | "5b" => '[',
-                                    "5C" | "5c" => '\\',
-                                    "5E" | "5e" => '^',
-                                    "7E" | "7e" => '~',
-                                    _ => panic!(
-                                        "unknown percent encoding '%{encoding}' in '{}'",
-                                        &repr[end..]
-                                    ),
-                                };
-
-                                decoded.push(c);
-                                encoded = &encoded[pi + 3..];
-                            }
+                let end = if repr.starts_with("git+") {
+                    // Unfortunately the stable format percent encodes the source url in the metadata, and since
+                    // git branches/tags can contain various special characters, notably '/', we need to decode them
+                    // to be able to match against the non-encoded url used...everywhere else
+                    let end = repr[..vmn].rfind('?').unwrap_or(vmn);
+
+                    if repr[end..].contains('%') {
+                        let mut decoded = String::new();
+                        let mut encoded = &repr[end..];
+                        let before = encoded.len();
+
+                        loop {
+                            let Some(pi) = encoded.find('%') else {
+                                decoded.push_str(encoded);
+                                break;
+                            };
+
+                            decoded.push_str(&encoded[..pi]);
+
+                            let Some(encoding) = encoded.get(pi + 1..pi + 3) else {
+                                // This _should_ never happen, but just in case
+                                panic!(
+                                    "invalid percent encoding in '{}', '{}' should be exactly 3 digits long",
+                                    &repr[end..],
+                                    &encoded[pi..]
+                                );
+                            };
+
+                            // https://en.wikipedia.org/wiki/Percent-encoding
+                            // Reserved characters after percent-encoding
+                            //
+                            // ␣   !   "   #   $   %   &   '   (   )   *   +   ,   /   :   ;   =   ?   @   [   ]
+                            // %20 %21 %22 %23 %24 %25 %26 %27 %28 %29 %2A %2B %2C %2F %3A %3B %3D %3F %40 %5B %5D
+                            //
+                            // Common characters after percent-encoding (ASCII or UTF-8 based)
+                            //
+                            // -   .   <   >   \   ^   _   `   {   |   }   ~
+                            // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
+                            //
+                            // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
+                            // I don't feel like supporting it until someone actually complains
+
+                            let c = match encoding {
+                                // By far the most likely one
+                                "2F" | "2f" => '/',
+                                "21" => '!',
+                                "22" => '"',
+                                "23" => '#',
+                                "24" => '$',
+                                "25" => '%',
+                                "26" => '&',
+                                "27" => '\'',
+                                "28" => '(',
+                                "29" => ')',
+                                "2A" | "2a" => '*',
+                                "2B" | "2b" => '+',
+                                "2C" | "2c" => ',',
+                                "2D" | "2d" => '-',
+                                "2E" | "2e" => '.',
+                                "3B" | "3b" => ';',
+                                "3C" | "3c" => '<',
+                                "3D" | "3d" => '=',
+                                "3E" | "3e" => '>',
+                                "40" => '@',
+                                "5D" | "5d" => ']',
+                                "5F" | "5f" => '_',
+                                "60" => '`',
+                                "7B" | "7b" => '{',
+                                "7C" | "7c" => '|',
+                                "7D" | "7d" => '}',
+                                // These are invalid in branches/tags, but meh
+                                // https://git-scm.com/docs/git-check-ref-format
+                                "20" => ' ',
+                                "3A" | "3a" => ':',
+                                "3F" | "3f" => '?',
+                                "5B" | "5b" => '[',
+                                "5C" | "5c" => '\\',
+                                "5E" | "5e" => '^',
+                                "7E" | "7e" => '~',
+                                _ => panic!(
+                                    "unknown percent encoding '%{encoding}' in '{}'",
+                                    &repr[end..]
+                                ),
+                            };
+
+                            decoded.push(c);
+                            encoded = &encoded[pi + 3..];
+                        }
 
-                            repr.truncate(end);
-                            repr.push_str(&decoded);
+                        repr.truncate(end);
+                        repr.push_str(&decoded);
 
-                            // move the version string back to account for the now shorter decoded repr
-                            vmn -= before - decoded.len();
-                        }
+                        // move the version string back to account for the now shorter decoded repr
+                        vmn -= before - decoded.len();
+                    }
 
-                        end
-                    } else {
-                        vmn
-                    };
+                    end
+                } else {
+                    vmn
+                };
+
+                let (name, version) = if let Some(split) = repr[vmn..].find('@') {
+                    ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))
+                } else {
+                    let begin = repr[..end].rfind('/')? + 1;
 
                     ((begin, end), (vmn + 1, repr.len()))
                 };
-- 
2.43.0


From c9a1399bdc46c7fd8b00e79180c923dec7b974df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 11/21] fix: evaluate the cfg literals true and false

---
 src/builder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index bd66249..72b8c4c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -253,6 +253,8 @@ impl TargetFilter {
                 // is being filtered
                 self.features.iter().any(|f| f == feat)
             }
+            // Cargo allows the literals `true` and `false`, anything else is never set by rustc
+            cfg_expr::expr::Predicate::Flag(flag) => *flag == "true",
             // We *could* warn here about an invalid expression, but
             // presumably cargo will be responsible for that, so don't bother
             _ => false,
@@ -1404,7 +1406,15 @@ impl Builder {
 
                                 // We can't just do an eval and always return true, as that then would cause any
                                 // not() expressions to evaluate to false
-                                if expr.predicates().count() == 0 && !expr.eval(|_| true) {
+                                let is_literal = |pred: &cfg_expr::Predicate<'_>| {
+                                    matches!(pred, cfg_expr::Predicate::Flag("true" | "false"))
+                                };
+
+                                if expr.predicates().all(|pred| is_literal(&pred))
+                                    && !expr.eval(|pred| {
+                                        matches!(pred, cfg_expr::Predicate::Flag("true"))
+                                    })
+                                {
                                     return None;
                                 }
                             }
-- 
2.43.0


From d2f15b4181cd2ae2783debe62d206cb93419c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:22 +0000
Subject: [PATCH 12/21] fix: don't enable features of a same-named dependency
 on the crate itself

---
 src/builder.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 72b8c4c..0029c29 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1787,23 +1787,10 @@ impl Builder {
                     } else {
                         let feat_name = feat_name.unwrap_or_else(|| sub_feat.kid.name().to_owned());
 
-                        let target_id = graph.add_node(crate::Node::Feature {
+                        graph.add_node(crate::Node::Feature {
                             krate_index: kind,
-                            name: feat_name.clone(),
-                        });
-
-                        // Ensure that all of the subfeatures enabled by the parent feature are added to the
-                        // flat list of enabled features for the crate
-                        if sub_feat.kid == pid
-                            && let crate::Node::Krate { features, .. } = &mut graph[kind]
-                        {
-                            if !features.contains(&feat_name) {
-                                features.insert(feat_name.clone());
-                                feature_stack.push(feat_name);
-                            }
-                        }
-
-                        target_id
+                            name: feat_name,
+                        })
                     };
 
                     graph.add_edge(src_id, target_id, E::from(crate::Edge::Feature));
-- 
2.43.0


From 240d31f0c5855b7ce6b06ed44b7cf215d34504d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 13/21] fix: hash the same parts of a Kid that are compared

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6691f7e..397fc47 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -253,7 +253,9 @@ impl fmt::Display for Kid {
 
 impl std::hash::Hash for Kid {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        state.write(self.repr.as_bytes());
+        self.name().hash(state);
+        self.version().hash(state);
+        self.source().hash(state);
     }
 }
 
-- 
2.43.0


From 8e13aa0957bda8fa8c1d2a0201f68fb293137bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 14/21] fix: don't confuse a dev dependency of a crate on
 itself with a renamed one of the same name

---
 src/builder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 0029c29..32b42b2 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -829,7 +829,12 @@ impl Builder {
 
             // A crate can depend on the same package with both its own name and a rename, if the resolved
             // name is a rename then that is the one we want.
-            //
+            let is_renamed = |dep: &cm::Dependency| -> bool {
+                dep.rename
+                    .as_ref()
+                    .is_some_and(|rename| pkg_name_equals(&rdep.name, rename))
+            };
+
             // Note that the source is only a preference, as the package can come from a source other than
             // the one that is declared, eg. if it has been patched
             krate
@@ -837,7 +842,7 @@ impl Builder {
                 .iter()
                 .enumerate()
                 .filter(|(_, dep)| is_declared_by(krate, dep, rdep, dk))
-                .min_by_key(|(_, dep)| (dep.rename.is_none(), !same_source(dep)))
+                .min_by_key(|(_, dep)| (!same_source(dep), !is_renamed(dep)))
         }
 
         /// Finds the resolved dependencies declared with the specified name
-- 
2.43.0


From f952bb7a46726a3081e39f76fb174e9bd3639499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 15/21] fix: don't add the edge to a feature once for each time
 a manifest lists it

Listing default in addition to not disabling it, or repeating a feature, gave several identical edges.
---
 src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 32b42b2..4d91876 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1499,6 +1499,13 @@ impl Builder {
                         .chain(edge.uses_default_features.then_some("default"))
                     {
                         let feat_index = rdep_node.feature_index(feat);
+
+                        // Manifests can list the same feature multiple times, most commonly by listing
+                        // default in addition to not disabling it, but each one only gets a single edge
+                        if features.contains(&feat_index) {
+                            continue;
+                        }
+
                         visit_stack.push_with_feature(pkg, feat_index);
                         features.push(feat_index);
                     }
-- 
2.43.0


From 6c733e33cc8432e09876e9cc4c4e0babd7a92cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 16/21] fix: decode non-ASCII characters in the references of
 git package ids

They are percent encoded one byte at a time, which was a panic.
---
 src/lib.rs | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 397fc47..4715d51 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -86,6 +86,26 @@ impl Kid {
     }
 }
 
+/// Decodes the percent encoded non-ASCII character at the beginning of the string, returning it and the length of
+/// its encoding
+fn decode_utf8(encoded: &str) -> Option<(char, usize)> {
+    let byte = |i: usize| {
+        let digits = encoded.get(i * 3..i * 3 + 3)?.strip_prefix('%')?;
+        u8::from_str_radix(digits, 16).ok()
+    };
+
+    let count = match byte(0)? {
+        0xc2..=0xdf => 2,
+        0xe0..=0xef => 3,
+        0xf0..=0xf4 => 4,
+        _ => return None,
+    };
+
+    let bytes = (0..count).map(byte).collect::<Option<Vec<_>>>()?;
+    let c = std::str::from_utf8(&bytes).ok()?.chars().next()?;
+    Some((c, count * 3))
+}
+
 #[allow(clippy::fallible_impl_from)]
 impl From<PackageId> for Kid {
     fn from(pid: PackageId) -> Self {
@@ -145,8 +165,8 @@ impl From<PackageId> for Kid {
                             // -   .   <   >   \   ^   _   `   {   |   }   ~
                             // %2D %2E %3C %3E %5C %5E %5F %60 %7B %7C %7D %7E
                             //
-                            // Note that `£` and `€` can also be percent encoded, but are _completely_ different and
-                            // I don't feel like supporting it until someone actually complains
+                            // Characters outside of ASCII, eg. `£` and `€`, are instead encoded as multiple triplets, one
+                            // for each byte of their UTF-8 encoding
 
                             let c = match encoding {
                                 // By far the most likely one
@@ -185,10 +205,18 @@ impl From<PackageId> for Kid {
                                 "5C" | "5c" => '\\',
                                 "5E" | "5e" => '^',
                                 "7E" | "7e" => '~',
-                                _ => panic!(
-                                    "unknown percent encoding '%{encoding}' in '{}'",
-                                    &repr[end..]
-                                ),
+                                _ => {
+                                    let Some((c, len)) = decode_utf8(&encoded[pi..]) else {
+                                        panic!(
+                                            "unknown percent encoding '%{encoding}' in '{}'",
+                                            &repr[end..]
+                                        );
+                                    };
+
+                                    decoded.push(c);
+                                    encoded = &encoded[pi + len..];
+                                    continue;
+                                }
                             };
 
                             decoded.push(c);
-- 
2.43.0


From 3370466f67f7b8d945efa7625fd2377d8d960f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 17/21] fix: accept the non-ASCII package names that cargo
 accepts in package specs

---
 src/pkgspec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkgspec.rs b/src/pkgspec.rs
index 9488370..bf3c8f1 100644
--- a/src/pkgspec.rs
+++ b/src/pkgspec.rs
@@ -46,7 +46,7 @@ impl std::str::FromStr for PkgSpec {
                                    url: Option<&str>|
          -> Result<(String, Option<Version>), Self::Err> {
             let validate_name = |n: &str| -> Result<String, Self::Err> {
-                if n.find(|c: char| c != '-' && c != '_' && !c.is_ascii_alphanumeric())
+                if n.find(|c: char| c != '-' && c != '_' && !c.is_alphanumeric())
                     .is_some()
                 {
                     Err(Error::InvalidPkgSpec(
-- 
2.43.0


From 2bc6bad9bd067426cd133b5e8ae852272a51d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 18/21] fix: compare the path of a dependency with the decoded
 source of the package

The source is a url, so eg. spaces in it are percent encoded.
---
 src/builder.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 4d91876..43a49ee 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -1819,16 +1819,31 @@ impl Builder {
     }
 }
 
+/// Decodes the bytes that are percent encoded in a url, which paths, unlike the source of a path dependency, are not
+fn percent_decode(url: &str) -> Option<String> {
+    let mut decoded = Vec::with_capacity(url.len());
+    let mut rest = url;
+
+    while let Some((literal, encoded)) = rest.split_once('%') {
+        decoded.extend_from_slice(literal.as_bytes());
+        decoded.push(u8::from_str_radix(encoded.get(..2)?, 16).ok()?);
+        rest = &encoded[2..];
+    }
+
+    decoded.extend_from_slice(rest.as_bytes());
+    String::from_utf8(decoded).ok()
+}
+
 #[inline]
 fn compare_paths(dpath: &camino::Utf8Path, src: &str) -> bool {
-    let Some(rpath) = src.strip_prefix("path+file://") else {
+    let Some(rpath) = src.strip_prefix("path+file://").and_then(percent_decode) else {
         return false;
     };
 
     // Due to the various terrible ways Windows can do paths, we only try to handle the
     // common case
     if dpath.starts_with("/") {
-        rpath == dpath
+        rpath.as_str() == dpath
     } else {
         // Skip the leading /
         let mut rcomp = camino::Utf8Path::new(&rpath[1..]).components();
-- 
2.43.0


From f67ca75cf05ec5f8e39869f923a0cedfd4030136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 19/21] fix: canonicalize the workspace root before comparing
 it with include_workspace_crates paths

---
 src/builder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/builder.rs b/src/builder.rs
index 43a49ee..93cbd7c 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -668,10 +668,15 @@ impl Builder {
                     roots.extend(workspace_members.iter());
                 }
             } else {
+                // The filters have been canonicalized, if possible, but the paths in the metadata might contain eg. symlinks
+                let root = md.workspace_root.as_std_path();
+                let workspace_root = root.canonicalize();
+                let workspace_root = workspace_root.as_deref().unwrap_or(root);
+
                 // If the filters only contain 1 path, and it is the path to a
                 // workspace toml, then we disregard the filters
                 if self.workspace_filters.len() == 1
-                    && Some(md.workspace_root.as_ref()) == self.workspace_filters[0].parent()
+                    && Some(workspace_root) == self.workspace_filters[0].parent()
                 {
                     roots.extend(workspace_members.iter());
                 } else {
-- 
2.43.0


From 556d7c4ae000e5a7f9545e622c0eef0549c33b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 20/21] fix: cfg(debug_assertions) holds for every target, as
 it does for cargo

---
 src/builder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.rs b/src/builder.rs
index 93cbd7c..32f57dc 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -255,6 +255,8 @@ impl TargetFilter {
             }
             // Cargo allows the literals `true` and `false`, anything else is never set by rustc
             cfg_expr::expr::Predicate::Flag(flag) => *flag == "true",
+            // This is set by rustc, and thus cargo, for every target, regardless of the profile
+            cfg_expr::expr::Predicate::DebugAssertions => true,
             // We *could* warn here about an invalid expression, but
             // presumably cargo will be responsible for that, so don't bother
             _ => false,
-- 
2.43.0


From d4f17c54359c222b322d7160ed135164ee4a7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 21/21] fix: recognise the git source of dependencies in the
 same repository, which ends in the commit

---
 src/builder.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 32f57dc..024b3b0 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -818,13 +818,16 @@ impl Builder {
                         return dsrc == psrc;
                     };
 
-                    // The opaque git sources can have the full revision spec at the end, which is not part of
+                    // The opaque git sources can have the full revision spec at the end, as can the sources of dependencies
+                    // that are in the same repository as the crate that depends on them, which is not part of
                     // source declaration
-                    let dgit = if is_opaque {
-                        dgit.rfind('#').map_or(dgit, |end| &dgit[..end])
-                    } else {
-                        dgit
+                    let is_commit = |rev: &str| {
+                        matches!(rev.len(), 40 | 64) && rev.bytes().all(|b| b.is_ascii_hexdigit())
                     };
+                    let dgit = dgit
+                        .rsplit_once('#')
+                        .filter(|(_, rev)| is_opaque || is_commit(rev))
+                        .map_or(dgit, |(decl, _)| decl);
 
                     dgit == pgit
                 } else if let Some(dpath) = &dep.path {
-- 
2.43.0

