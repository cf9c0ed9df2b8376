From 835057ed46818af0af845c5030231989cf22c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 01/15] fix: close every branch unified with the one being
 closed

The union of a branch with an implicitly opened child may make the child's
key the root, and the parent's key was compared with roots without being
looked up: nothing was closed and the whole body failed with `More than
one collection open`, e.g. for `continue` or `break` inside a loop.
---
 crates/aquascope/src/analysis/stepper/segmented_mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 05d01da..5e65d3f 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -687,7 +687,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
   /// Contrary to previous implementations, the function does not implicitly
   /// add a new segment for all split steps.
   pub fn close_branch(&mut self, bid: BranchId) -> Result<()> {
-    let table_root = self.branches[bid].table_id;
+    let table_root = self.branch_roots.find(self.branches[bid].table_id);
 
     let branches_to_close = self
       .branches
-- 
2.43.0


From bcd3ebc4852de8655c47512b8871d8db09d207ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 02/15] fix: do not panic when an implicitly opened branch has
 an implicit child

Only user-initiated branches had a span mapping, so nested patterns such as
`Some(Some(1 | 2))` indexed a missing entry and the analysis panicked.
---
 .../src/analysis/stepper/segmented_mir.rs     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/aquascope/src/analysis/stepper/segmented_mir.rs b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
index 5e65d3f..a74c1e3 100644
--- a/crates/aquascope/src/analysis/stepper/segmented_mir.rs
+++ b/crates/aquascope/src/analysis/stepper/segmented_mir.rs
@@ -72,6 +72,8 @@
 //! feel free to start at the [`SegmentedMirBuilder::insert`] function and explore
 //! from there.
 
+use std::rc::Rc;
+
 use anyhow::{anyhow, bail, ensure, Result};
 use rustc_data_structures::{
   frozen::Frozen,
@@ -213,7 +215,7 @@ enum FindResult {
 struct OpenCollections(Vec<CollectionBuilder>);
 
 type BranchSpannerMap<'a> =
-  HashMap<BranchId, Box<dyn Fn(&mut Location) -> Span + 'a>>;
+  HashMap<BranchId, Rc<dyn Fn(&mut Location) -> Span + 'a>>;
 
 pub(super) struct SegmentedMirBuilder<'a, 'tcx: 'a> {
   mapper: &'a IRMapper<'tcx>,
@@ -352,7 +354,7 @@ impl SegmentedMir {
 
 enum GetSpanner<'a> {
   GetFrom(BranchId),
-  InsertNew(Box<dyn Fn(&mut Location) -> Span + 'a>),
+  InsertNew(Rc<dyn Fn(&mut Location) -> Span + 'a>),
 }
 
 impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
@@ -588,14 +590,13 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
         .push(BranchData::new(tid, switch_location, phi_opt));
     let branch = &mut self.branches[bid];
 
-    // Save the Location -> Span mappings under this root BranchId.
+    // Save the Location -> Span mappings under this BranchId. Implicit
+    // children share the mapping of their parent, they could have children too.
     let get_span = match get_span {
-      GetSpanner::InsertNew(b) => {
-        self.root_mappings.insert(bid, b);
-        &self.root_mappings[&bid]
-      }
-      GetSpanner::GetFrom(bid) => &self.root_mappings[&bid],
+      GetSpanner::InsertNew(b) => b,
+      GetSpanner::GetFrom(parent) => Rc::clone(&self.root_mappings[&parent]),
     };
+    self.root_mappings.insert(bid, Rc::clone(&get_span));
 
     // Push the new Branch as a control flow kind on
     // the current collection's data set.
@@ -662,7 +663,7 @@ impl<'a, 'tcx: 'a> SegmentedMirBuilder<'a, 'tcx> {
     log::debug!("opening user initiated branch at {location:?}");
     log::debug!("open branches BEFORE {:#?}", self.processing);
 
-    let r = self.mk_branch(location, GetSpanner::InsertNew(Box::new(get_span)));
+    let r = self.mk_branch(location, GetSpanner::InsertNew(Rc::new(get_span)));
 
     log::debug!("open branches AFTER {:#?}", self.processing);
     r
-- 
2.43.0


From 615443d53b9105b0f905c8575aca5bcbc704cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 03/15] fix: keep the tables already at a location when
 inserting a branch

Extending the map replaced whatever steps had been recorded at a location
that also ends a segment inside the branch.
---
 crates/aquascope/src/analysis/stepper/table_builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index b88b4c7..8688d24 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -185,7 +185,9 @@ impl<'a, 'tcx: 'a> TableBuilder<'a, 'tcx> {
 
     // Flatten all tables to the unique `PermissionsDataDiff`s
     // that exist within them.
-    result.extend(temp_middle);
+    for (location, tables) in temp_middle {
+      result.entry(location).or_default().extend(tables);
+    }
 
     // Attach filtered locals
     result.entry(reach.to).or_default().push(Table {
-- 
2.43.0


From c4e89431a44f4a69676bc8feb99fdadb5d2fcfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 04/15] fix: describe the moves that are visible rather than
 those that are not

`is_span_visible` was inverted: no move had a point or a region, so the key
of a move in permission data referred to nothing.
---
 crates/aquascope/src/analysis/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope/src/analysis/mod.rs b/crates/aquascope/src/analysis/mod.rs
index 3b2ded7..caeb633 100644
--- a/crates/aquascope/src/analysis/mod.rs
+++ b/crates/aquascope/src/analysis/mod.rs
@@ -320,8 +320,8 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
   }
 
   pub fn is_span_visible(&self, span: Span) -> bool {
-    // let source_map = self.permissions.tcx.sess.source_map();
-    span.is_dummy() || span.is_empty() // || !span.is_visible(source_map)
+    let body_span = self.permissions.body_with_facts.body.span;
+    !span.is_dummy() && !span.is_empty() && body_span.contains(span)
   }
 
   pub fn span_to_range(&self, span: Span) -> CharRange {
@@ -459,7 +459,7 @@ impl<'tcx> AquascopeAnalysis<'tcx> {
               .filter(|point| ctxt.is_point_operational(*point)),
           )
           .into_iter()
-          .filter(|span| lo <= span.lo())
+          .filter(|span| lo <= span.lo() && self.is_span_visible(*span))
           .collect::<Vec<_>>();
         let smoothed = smooth_elements(points);
         let refined_ranges = smoothed
-- 
2.43.0


From 427109aab745a0d40abcc725147ec8b1daa43165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 05/15] fix: report unknown options of inline permissions
 instead of panicking

---
 crates/mdbook-aquascope/src/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/permissions.rs b/crates/mdbook-aquascope/src/permissions.rs
index 487a9b8..b0e96a7 100644
--- a/crates/mdbook-aquascope/src/permissions.rs
+++ b/crates/mdbook-aquascope/src/permissions.rs
@@ -33,7 +33,7 @@ pub fn parse_perms(
             r#"<span class="perm-diff-sub-container"><div class="perm-diff-sub"></div>{perm_html}</span>"#
           ),
           "[missing]" => format!(r#"<span class="perm missing {perm}">{letter}</span>"#),
-          _ => unimplemented!(),
+          options => bail!("Invalid permission options: {options}"),
         },
         None => perm_html,
       };
-- 
2.43.0


From d85e61f32fcb44125196d76eb7215984f0ba3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 06/15] fix: count characters, not bytes, in the position of
 state markers

---
 crates/mdbook-aquascope/src/annotations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mdbook-aquascope/src/annotations.rs b/crates/mdbook-aquascope/src/annotations.rs
index 200ef3b..86f6dd4 100644
--- a/crates/mdbook-aquascope/src/annotations.rs
+++ b/crates/mdbook-aquascope/src/annotations.rs
@@ -90,7 +90,7 @@ pub fn parse_annotations(code: &str) -> Result<(String, AquascopeAnnotations)> {
     macro_rules! add_fragment {
       ($s:expr) => {
         fragments.push($s);
-        idx += $s.len();
+        idx += $s.chars().count();
       };
     }
     if let Some(suffix) = line.strip_prefix('#') {
-- 
2.43.0


From 3fff1244eafab392fd65e3d840e9c8db3b740aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 07/15] fix: kill a command of the server when it exceeds the
 time limit

Dropping the future of `output` leaves the child running by default.
---
 crates/aquascope_serve/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index 56bb89f..c3a0138 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -84,7 +84,7 @@ impl Container {
     cmd: &mut Command,
   ) -> Result<(String, String)> {
     let timeout = COMMAND_TIMEOUT;
-    let cmd = cmd.current_dir(self.cwd());
+    let cmd = cmd.current_dir(self.cwd()).kill_on_drop(true);
     let timed_out = match time::timeout(timeout, cmd.output()).await {
       Ok(Ok(output)) => Ok(output),
       // failure
-- 
2.43.0


From de1e4b020bc168d95be042bbba1dd1ce7684fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 08/15] fix: answer with an error when `cargo new` fails or
 output is not UTF-8

The handler panicked and the connection was closed without a response.
---
 crates/aquascope_serve/src/container.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/aquascope_serve/src/container.rs b/crates/aquascope_serve/src/container.rs
index c3a0138..4cfdc04 100644
--- a/crates/aquascope_serve/src/container.rs
+++ b/crates/aquascope_serve/src/container.rs
@@ -2,6 +2,7 @@ use std::{
   fs, io, os::unix::fs::PermissionsExt, path::PathBuf, str, time::Duration,
 };
 
+use anyhow::anyhow;
 use aquascope_workspace_utils::miri_sysroot;
 use snafu::prelude::*;
 use tempfile::{tempdir, TempDir};
@@ -97,8 +98,8 @@ impl Container {
 
     let output = timed_out.context(CommandExecTimedOutSnafu { timeout })?;
 
-    let stdout = String::from_utf8(output.stdout).unwrap();
-    let stderr = String::from_utf8(output.stderr).unwrap();
+    let stdout = String::from_utf8(output.stdout).map_err(anyhow::Error::from)?;
+    let stderr = String::from_utf8(output.stderr).map_err(anyhow::Error::from)?;
     log::info!("{}", stderr);
 
     Ok((stdout, stderr))
@@ -119,7 +120,7 @@ impl Container {
 
     if !stderr.trim().is_empty() {
       log::error!("{}", stderr);
-      panic!("`cargo new` failed {stderr}");
+      return Err(anyhow!("`cargo new` failed {stderr}").into());
     }
 
     log::debug!("Cargo output {}", output_s);
-- 
2.43.0


From 0abbab342b8bac0005f0d1fd8b0b09253b9a50bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 09/15] fix: report a failing tool whose error output is not
 UTF-8

---
 crates/aquascope_workspace_utils/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aquascope_workspace_utils/src/lib.rs b/crates/aquascope_workspace_utils/src/lib.rs
index 9021d55..a629ebb 100644
--- a/crates/aquascope_workspace_utils/src/lib.rs
+++ b/crates/aquascope_workspace_utils/src/lib.rs
@@ -9,7 +9,7 @@ pub fn run_and_get_output(cmd: &mut Command) -> Result<String> {
   if !output.status.success() {
     bail!(
       "Command failed with stderr:\n{}",
-      String::from_utf8(output.stderr).unwrap()
+      String::from_utf8_lossy(&output.stderr)
     );
   }
   let stdout = String::from_utf8(output.stdout)?;
-- 
2.43.0


From 39159dac67f6de81bcfb53fc6bf8ac07cecc74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 10/15] fix: drain the pipes of an analysis while waiting for
 it

An analysis printing more than a pipe holds blocked on its output and was
reported as timed out.
---
 crates/mdbook-aquascope/src/preprocessor.rs | 27 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/mdbook-aquascope/src/preprocessor.rs b/crates/mdbook-aquascope/src/preprocessor.rs
index 7665a6e..b7b8116 100644
--- a/crates/mdbook-aquascope/src/preprocessor.rs
+++ b/crates/mdbook-aquascope/src/preprocessor.rs
@@ -3,9 +3,11 @@
 use std::{
   collections::HashMap,
   fs,
+  io::{self, Read},
   path::PathBuf,
-  process::{Command, Stdio},
+  process::{Command, Output, Stdio},
   sync::RwLock,
+  thread::{self, JoinHandle},
   time::Duration,
 };
 
@@ -24,6 +26,17 @@ pub struct AquascopePreprocessor {
   cache: RwLock<Cache<AquascopeBlock, String>>,
 }
 
+/// Reads a pipe to its end in the background.
+fn drain(
+  mut pipe: impl Read + Send + 'static,
+) -> JoinHandle<io::Result<Vec<u8>>> {
+  thread::spawn(move || {
+    let mut bytes = Vec::new();
+    pipe.read_to_end(&mut bytes)?;
+    Ok(bytes)
+  })
+}
+
 impl AquascopePreprocessor {
   pub fn new() -> Result<Self> {
     let miri_sysroot = miri_sysroot()?;
@@ -85,12 +98,20 @@ impl AquascopePreprocessor {
 
       let mut child =
         cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
-      if child.wait_timeout(Duration::from_secs(10))?.is_none() {
+      // A child that fills one of its pipes blocks until it is read,
+      // so they have to be drained while waiting.
+      let stdout = drain(child.stdout.take().unwrap());
+      let stderr = drain(child.stderr.take().unwrap());
+      let Some(status) = child.wait_timeout(Duration::from_secs(10))? else {
         child.kill()?;
         bail!("Aquascope timed out on program:\n{}", block.code)
       };
 
-      let output = child.wait_with_output()?;
+      let output = Output {
+        status,
+        stdout: stdout.join().unwrap()?,
+        stderr: stderr.join().unwrap()?,
+      };
 
       if !output.status.success() {
         let error = String::from_utf8(output.stderr)?;
-- 
2.43.0


From 1043482fe1bf3aeaf974ae08a8e8396a7d6669eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 11/15] fix: contents of a Box behind a mutable reference are
 writeable

The mutability of the local was consulted for every Box dereference, so
**x was never writeable for an immutable binding x: &mut Box<T>; raw
pointers were judged by their local instead of their own mutability.
---
 .../src/analysis/permissions/output.rs        | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index 18e86ef..d7c12a4 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -17,8 +17,8 @@ use rustc_data_structures::fx::{FxHashMap as HashMap, FxHashSet as HashSet};
 use rustc_hir::{BodyId, Mutability};
 use rustc_index::IndexVec;
 use rustc_middle::{
-  mir::{Place, ProjectionElem},
-  ty::{TyCtxt, TypingEnv},
+  mir::ProjectionElem,
+  ty::{self, TyCtxt, TypingEnv},
 };
 use rustc_mir_dataflow::move_paths::MoveData;
 use rustc_utils::{BodyExt, PlaceExt};
@@ -360,29 +360,23 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
 
   let is_never_write = |path: Path| {
     let place = &ctxt.path_to_place(path);
-    (!place.is_indirect() && ctxt.is_declared_readonly(place)) || {
-      // Iff there exists an immutable prefix it is also `never_write`
-      place
-        .iter_projections()
-        .filter_map(|(prefix, elem)| {
-          matches!(elem, ProjectionElem::Deref).then_some(prefix)
-        })
-        .any(|prefix| {
-          // For a given path `*x` we could be looking at the prefix of
-          // `x`. This could be a reference, in which case we simply check
-          // the mutability of the type.
-          let ty = prefix.ty(&body.local_decls, tcx).ty;
-          if let Some(mutability) = ty.ref_mutability() {
-            return mutability == Mutability::Not;
-          }
-
-          // In the above example of `*x`, example `x` could also be a
-          // `Box`, or for a different base path an array. These cases
-          // would require us to check the mutability binding of the local.
-          let local_place = Place::from_local(prefix.local, tcx);
-          ctxt.is_declared_readonly(&local_place)
-        })
+    let mut is_borrowed = false;
+    for (prefix, elem) in place.iter_projections().rev() {
+      if !matches!(elem, ProjectionElem::Deref) {
+        continue;
+      }
+      match prefix.ty(&body.local_decls, tcx).ty.kind() {
+        // An immutable pointer on the way makes the path `never_write`.
+        ty::Ref(_, _, Mutability::Not) => return true,
+        // The referent of a mutable reference does not belong to whatever
+        // holds the reference, so the local's mutability is irrelevant.
+        ty::Ref(_, _, Mutability::Mut) => is_borrowed = true,
+        ty::RawPtr(_, mutability) => return *mutability == Mutability::Not,
+        // The contents of a `Box` are as mutable as the `Box` is.
+        _ => {}
+      }
     }
+    !is_borrowed && ctxt.is_declared_readonly(place)
   };
 
   // .decl loan_conflicts_with(Loan, Path)
-- 
2.43.0


From 6596c58505b36e05fddf4d3322e2046d05bf96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:36 +0000
Subject: [PATCH 12/15] fix: contents of boxes and arrays can be moved out

is_path_drop_enabled treated a Box like a reference and arrays like
slices, so *b and elements bound by array patterns were never droppable.
---
 .../src/analysis/permissions/context.rs       | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 4ed2366..816039c 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -245,15 +245,20 @@ impl<'tcx> PermissionsCtxt<'tcx> {
   /// <https://doc.rust-lang.org/nightly/nightly-rustc/src/rustc_mir_dataflow/move_paths/builder.rs.html#100>
   pub fn is_path_drop_enabled(&self, path: Path) -> bool {
     let place = self.path_to_place(path);
-    let is_indirect = place.is_indirect();
-    let contains_array_index = place.iter_projections().any(|(_, elem)| {
-      matches!(
-        elem,
-        ProjectionElem::Index(_)
-          | ProjectionElem::ConstantIndex { .. }
-          | ProjectionElem::Subslice { .. }
-      )
-    });
+    let body = &self.body_with_facts.body;
+    let is_behind_pointer_or_index =
+      place.iter_projections().any(|(prefix, elem)| {
+        let ty = prefix.ty(&body.local_decls, self.tcx).ty;
+        match elem {
+          // The contents of a `Box` are owned, those of other pointers aren't.
+          ProjectionElem::Deref => !ty.is_box(),
+          ProjectionElem::Index(_) => true,
+          // Patterns can take elements out of an array, but not out of a slice.
+          ProjectionElem::ConstantIndex { .. }
+          | ProjectionElem::Subslice { .. } => !ty.is_array(),
+          _ => false,
+        }
+      });
 
     // Rust maintains invariant that all `Drop`
     // ADT's remain fully-initialized so that user-defined destructor
@@ -264,7 +269,6 @@ impl<'tcx> PermissionsCtxt<'tcx> {
     let has_adt_prefix_with_dtor = || {
       place.projection.iter().enumerate().any(|(i, _)| {
         let proj_base = &place.projection[.. i];
-        let body = &self.body_with_facts.body;
         let tcx = self.tcx;
         let place_ty = Place::ty_from(place.local, proj_base, body, tcx).ty;
         matches!(place_ty.kind(),
@@ -272,7 +276,7 @@ impl<'tcx> PermissionsCtxt<'tcx> {
       })
     };
 
-    !is_indirect && !contains_array_index && !has_adt_prefix_with_dtor()
+    !is_behind_pointer_or_index && !has_adt_prefix_with_dtor()
   }
 
   // Permission utilities
-- 
2.43.0


From 1df2446e1589f969e9d91dd2a4dfa46ff26f22fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 13/15] fix: moving part of a recursive type out crashed the
 analysis

The interior of the moved place can lie deeper than the places analysed
for its local, e.g. below `n.next` of a linked list.
---
 .../src/analysis/permissions/context.rs       | 24 +++++++++++--------
 .../src/analysis/permissions/output.rs        |  7 +++---
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/aquascope/src/analysis/permissions/context.rs b/crates/aquascope/src/analysis/permissions/context.rs
index 816039c..3b895b3 100644
--- a/crates/aquascope/src/analysis/permissions/context.rs
+++ b/crates/aquascope/src/analysis/permissions/context.rs
@@ -83,19 +83,23 @@ impl<'tcx> PermissionsCtxt<'tcx> {
 
   /// Convert and normalize a rustc [`Place`] into a [`Path`] understood by Aquascope.
   pub fn place_to_path(&self, p: &Place<'tcx>) -> Path {
+    self.find_path(p).unwrap_or_else(|| {
+      panic!(
+        "Could not find path for place {p:?}\n Acceptable places are: {:#?}",
+        self.place_data.iter().collect::<Vec<_>>()
+      )
+    })
+  }
+
+  /// The [`Path`] of a [`Place`], if the place is one of those analysed.
+  pub fn find_path(&self, p: &Place<'tcx>) -> Option<Path> {
     let p = p.normalize(self.tcx, self.def_id);
-    *self
+    self
       .rev_lookup
-      .get(&p.local)
-      .unwrap()
+      .get(&p.local)?
       .iter()
-      .find(|path| self.path_to_place(**path) == p)
-      .unwrap_or_else(|| {
-        panic!(
-          "Could not find path for place {p:?}\n Acceptable places are: {:#?}",
-          self.place_data.iter().collect::<Vec<_>>()
-        )
-      })
+      .copied()
+      .find(|path| self.path_to_place(*path) == p)
   }
 
   pub fn path_to_place(&self, p: Path) -> Place<'tcx> {
diff --git a/crates/aquascope/src/analysis/permissions/output.rs b/crates/aquascope/src/analysis/permissions/output.rs
index d7c12a4..e3bcdc6 100644
--- a/crates/aquascope/src/analysis/permissions/output.rs
+++ b/crates/aquascope/src/analysis/permissions/output.rs
@@ -237,9 +237,10 @@ pub fn derive_permission_facts(ctxt: &mut PermissionsCtxt) {
         place
           .interior_paths(tcx, body, def_id.to_def_id())
           .into_iter()
-          .map(move |place| {
-            let path = ictxt.place_to_path(&place);
-            (move_idx, path)
+          // Within a recursive type there are more of them than are analysed.
+          .filter_map(move |place| {
+            let path = ictxt.find_path(&place)?;
+            Some((move_idx, path))
           })
           // Moving a path makes its parent *moveable* paths partially initialized.
           .chain(move_path.parents(&ictxt.move_data.move_paths).map(
-- 
2.43.0


From 1d9987587bafc736412a14df2fd6384b3279624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 14/15] fix: a branch without alternatives crashed the step
 table

E.g. a loop that returns the reference it walks along: the implicit
branch opened after it starts in a block without successors.
---
 crates/aquascope/src/analysis/stepper/table_builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/aquascope/src/analysis/stepper/table_builder.rs b/crates/aquascope/src/analysis/stepper/table_builder.rs
index 8688d24..b034817 100644
--- a/crates/aquascope/src/analysis/stepper/table_builder.rs
+++ b/crates/aquascope/src/analysis/stepper/table_builder.rs
@@ -149,6 +149,11 @@ impl<'a, 'tcx: 'a> TableBuilder<'a, 'tcx> {
       ..
     } = self.mir.get_branch(bid);
 
+    // Where control flow ends there are no alternatives to step into.
+    if splits.is_empty() {
+      return;
+    }
+
     let mut entire_diff = reach.into_diff(self.ctxt);
 
     log::debug!(
-- 
2.43.0


From 7f7e2f81ea4764aa586a8fbe0c0219b9e05610e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:30 +0000
Subject: [PATCH 15/15] fix: a field or element is used the way its own
 expression is

The demand of `v[0]` or `(*n).x` was derived from the type of the base
path, so copying an element or a field behind a reference showed a
violation, as did returning a reborrowed field.
---
 .../src/analysis/boundaries/path_visitor.rs   | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/crates/aquascope/src/analysis/boundaries/path_visitor.rs b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
index fe83386..1f5998d 100644
--- a/crates/aquascope/src/analysis/boundaries/path_visitor.rs
+++ b/crates/aquascope/src/analysis/boundaries/path_visitor.rs
@@ -5,7 +5,7 @@ use fluid_let::{fluid_let, fluid_set};
 use rustc_hir::{
   def::Res,
   intravisit::{self, Visitor},
-  Block, Body, Expr, ExprKind, HirId, Path, QPath, Stmt, UnOp,
+  Block, Body, Expr, ExprKind, HirId, Node, Path, QPath, Stmt, UnOp,
 };
 use rustc_middle::{
   hir::nested_filter::OnlyBodies,
@@ -31,8 +31,33 @@ struct HirExprScraper<'tcx> {
   unsupported_feature: Option<(Span, String)>,
 }
 
-impl HirExprScraper<'_> {
-  fn get_adjusted_permissions(&self, expr: &Expr) -> ExpectedPermissions {
+impl<'tcx> HirExprScraper<'tcx> {
+  /// The place expression, with `path` at its base, that is used: fields and
+  /// elements are moved, copied or borrowed on their own.
+  fn used_place(&self, path: &'tcx Expr<'tcx>) -> &'tcx Expr<'tcx> {
+    let is_builtin = |e: &Expr| {
+      !self.typeck_res.is_method_call(e)
+        && self.typeck_res.expr_adjustments(e).iter().all(|adj| {
+          matches!(adj.kind, Adjust::Deref(None))
+        })
+    };
+    let mut used = path;
+    while let Node::Expr(parent) = self.tcx.parent_hir_node(used.hir_id) {
+      match parent.kind {
+        ExprKind::Field(base, _) | ExprKind::Index(base, _, _)
+          if base.hir_id == used.hir_id
+            && is_builtin(used)
+            && !self.typeck_res.is_method_call(parent) =>
+        {
+          used = parent;
+        }
+        _ => break,
+      }
+    }
+    used
+  }
+
+  fn get_adjusted_permissions(&self, expr: &Expr<'_>) -> ExpectedPermissions {
     let ty_adj = self.typeck_res.expr_ty_adjusted(expr);
     let adjs = self.typeck_res.expr_adjustments(expr);
 
@@ -225,7 +250,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           is_lhs: false,
           // We want the boundary to appear to the left of the deref.
           location: expr.span.shrink_to_lo(),
-          expected: self.get_adjusted_permissions(expr),
+          expected: self.get_adjusted_permissions(self.used_place(expr)),
         };
         self.data.push(pb);
       }
@@ -244,7 +269,7 @@ impl<'tcx> Visitor<'tcx> for HirExprScraper<'tcx> {
           flow_context,
           is_lhs: false,
           location: span.shrink_to_lo(),
-          expected: self.get_adjusted_permissions(expr),
+          expected: self.get_adjusted_permissions(self.used_place(expr)),
         };
         self.data.push(pb);
       }
-- 
2.43.0

