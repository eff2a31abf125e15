From 6867baabd228e81ad3421b67932b855e03de4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 01/10] fix: by_kind on a partially consumed child iterator
 repeated the last element

---
 src/cursor.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..8ef6498 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1370,13 +1370,8 @@ impl SyntaxNodeChildren {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
         } else {
             SyntaxNodeChildrenByKind {
-                next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
-                        Some(node)
-                    } else {
-                        node.next_sibling_by_kind(&matcher)
-                    }
-                }),
+                // `self.next` was already yielded
+                next: self.next.and_then(|node| node.next_sibling_by_kind(&matcher)),
                 matcher,
             }
         }
@@ -1432,13 +1427,8 @@ impl SyntaxElementChildren {
             }
         } else {
             SyntaxElementChildrenByKind {
-                next: self.next.and_then(|node| {
-                    if matcher(node.kind()) {
-                        Some(node)
-                    } else {
-                        node.next_sibling_or_token_by_kind(&matcher)
-                    }
-                }),
+                // `self.next` was already yielded
+                next: self.next.and_then(|node| node.next_sibling_or_token_by_kind(&matcher)),
                 matcher,
             }
         }
-- 
2.43.0


From 3efe1253816676dd0544b4b6f77dff9e733307b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 02/10] fix: child iterators of a mutable tree stopped when the
 yielded element was detached

This also made splice_children delete only the first child of the given range.
---
 src/cursor.rs | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 8ef6498..62497d6 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1370,8 +1370,15 @@ impl SyntaxNodeChildren {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
         } else {
             SyntaxNodeChildrenByKind {
-                // `self.next` was already yielded
-                next: self.next.and_then(|node| node.next_sibling_by_kind(&matcher)),
+                next: self.next.and_then(|node| {
+                    // `self.next` is yet to be yielded in a mutable tree, and was already
+                    // yielded in an immutable one.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
+                        Some(node)
+                    } else {
+                        node.next_sibling_by_kind(&matcher)
+                    }
+                }),
                 matcher,
             }
         }
@@ -1381,6 +1388,14 @@ impl SyntaxNodeChildren {
 impl Iterator for SyntaxNodeChildren {
     type Item = SyntaxNode;
     fn next(&mut self) -> Option<SyntaxNode> {
+        if self.parent.is_mutable() {
+            // The yielded element might get detached, so step past it beforehand.
+            let next =
+                if self.next_initialized { self.next.take() } else { self.parent.first_child() };
+            self.next_initialized = true;
+            self.next = next.as_ref().and_then(|next| next.next_sibling());
+            return next;
+        }
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
@@ -1427,8 +1442,15 @@ impl SyntaxElementChildren {
             }
         } else {
             SyntaxElementChildrenByKind {
-                // `self.next` was already yielded
-                next: self.next.and_then(|node| node.next_sibling_or_token_by_kind(&matcher)),
+                next: self.next.and_then(|node| {
+                    // `self.next` is yet to be yielded in a mutable tree, and was already
+                    // yielded in an immutable one.
+                    if self.parent.is_mutable() && matcher(node.kind()) {
+                        Some(node)
+                    } else {
+                        node.next_sibling_or_token_by_kind(&matcher)
+                    }
+                }),
                 matcher,
             }
         }
@@ -1438,6 +1460,17 @@ impl SyntaxElementChildren {
 impl Iterator for SyntaxElementChildren {
     type Item = SyntaxElement;
     fn next(&mut self) -> Option<SyntaxElement> {
+        if self.parent.is_mutable() {
+            // The yielded element might get detached, so step past it beforehand.
+            let next = if self.next_initialized {
+                self.next.take()
+            } else {
+                self.parent.first_child_or_token()
+            };
+            self.next_initialized = true;
+            self.next = next.as_ref().and_then(|next| next.next_sibling_or_token());
+            return next;
+        }
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-- 
2.43.0


From 53dab6cb5d7e5813c33f31f50af1d6f01f08fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 03/10] fix: token navigation gave up at a node without tokens

---
 src/cursor.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 62497d6..99da431 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -824,10 +824,11 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        self.children_with_tokens().find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        iter::successors(self.last_child_or_token(), SyntaxElement::prev_sibling_or_token)
+            .find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1086,21 +1087,27 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
+        let mut element = SyntaxElement::from(self.clone());
+        loop {
+            element = match element.next_sibling_or_token() {
+                Some(sibling) => match sibling.first_token() {
+                    Some(token) => return Some(token),
+                    None => sibling,
+                },
+                None => element.parent()?.into(),
+            };
         }
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
+        let mut element = SyntaxElement::from(self.clone());
+        loop {
+            element = match element.prev_sibling_or_token() {
+                Some(sibling) => match sibling.last_token() {
+                    Some(token) => return Some(token),
+                    None => sibling,
+                },
+                None => element.parent()?.into(),
+            };
         }
     }
 
-- 
2.43.0


From 9eca5fa427890738b464d7924539326f1ebfd13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 04/10] fix: advancing an unshared root to its next sibling
 leaked it

---
 src/cursor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 99da431..5f29bf2 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -766,11 +766,11 @@ impl SyntaxNode {
             return self.next_sibling();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
         assert!(data.rc.get() == 1);
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
@@ -1213,10 +1213,10 @@ impl SyntaxElement {
             return self.next_sibling_or_token();
         }
 
+        let parent = self.parent()?;
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
-- 
2.43.0


From 1a0fca7ca4501ab94f38f8743028fcd7f4b74e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 05/10] fix: splice_children outside the children corrupted the
 tree before panicking

---
 src/cursor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5f29bf2..e45f355 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,8 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        // Check this beforehand: the tree must not be left half-way linked.
+        assert!(index <= self.green().into_node().unwrap().children().len(), "index out of bounds");
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From 1fcf2627c97d224e7b9ddbab1f18976fe0de2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 06/10] fix: attaching a node below itself looped forever

---
 src/cursor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index e45f355..3f37eca 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -493,6 +493,10 @@ impl NodeData {
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
         // Check this beforehand: the tree must not be left half-way linked.
         assert!(index <= self.green().into_node().unwrap().children().len(), "index out of bounds");
+        assert!(
+            iter::successors(Some(self), |it| it.parent()).all(|it| !ptr::eq(it, child)),
+            "cannot attach a node below itself"
+        );
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0


From 8857507df7874b6322df7cd01f9843dfc2b35fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 07/10] fix: pointers to childless nodes next to other
 childless nodes did not resolve

---
 src/ast.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 292dba9..7a2ca39 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -20,7 +20,7 @@ use std::{
     marker::PhantomData,
 };
 
-use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange};
+use crate::{Language, SyntaxNode, SyntaxNodeChildren, TextRange, WalkEvent};
 
 /// The main trait to go from untyped [`SyntaxNode`] to a typed AST. The
 /// conversion itself has zero runtime cost: AST and syntax nodes have exactly
@@ -100,6 +100,22 @@ impl<L: Language> SyntaxNodePtr<L> {
         if root.parent().is_some() {
             return None;
         }
+        if self.range.is_empty() {
+            // Any number of adjacent children contains an empty range, and the node can be below
+            // each of them.
+            let mut preorder = root.preorder();
+            while let Some(event) = preorder.next() {
+                if let WalkEvent::Enter(node) = event {
+                    if node.text_range() == self.range && node.kind() == self.kind {
+                        return Some(node);
+                    }
+                    if !node.text_range().contains_range(self.range) {
+                        preorder.skip_subtree();
+                    }
+                }
+            }
+            return None;
+        }
         successors(Some(root.clone()), |node| node.child_or_token_at_range(self.range)?.into_node())
             .find(|it| it.text_range() == self.range && it.kind() == self.kind)
     }
-- 
2.43.0


From 7f527261c6adfe2ef90f250b1aa83f9328ea0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 08/10] fix: nodes containing a childless node of kind zero
 were never shared

---
 src/green/node_cache.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/green/node_cache.rs b/src/green/node_cache.rs
index 89740bf..ee384b4 100644
--- a/src/green/node_cache.rs
+++ b/src/green/node_cache.rs
@@ -33,6 +33,9 @@ struct NoHash<T>(T);
 //
 // To fix that, we additionally wrap the data in `NoHash` wrapper, to make sure
 // we don't accidentally use the wrong hash!
+//
+// A zero in place of a hash stands for "not interned", so a real hash is never zero (that of a
+// childless node of kind zero would be).
 #[derive(Default, Debug)]
 pub struct NodeCache {
     nodes: HashMap<NoHash<GreenNode>, ()>,
@@ -43,7 +46,7 @@ fn token_hash(token: &GreenTokenData) -> u64 {
     let mut h = FxHasher::default();
     token.kind().hash(&mut h);
     token.text().hash(&mut h);
-    h.finish()
+    h.finish().max(1)
 }
 
 fn node_hash(node: &GreenNodeData) -> u64 {
@@ -56,7 +59,7 @@ fn node_hash(node: &GreenNodeData) -> u64 {
         }
         .hash(&mut h)
     }
-    h.finish()
+    h.finish().max(1)
 }
 
 fn element_id(elem: GreenElementRef<'_>) -> *const () {
@@ -93,7 +96,7 @@ impl NodeCache {
                 }
                 hash.hash(&mut h);
             }
-            h.finish()
+            h.finish().max(1)
         };
 
         // Green nodes are fully immutable, so it's ok to deduplicate them.
@@ -135,7 +138,7 @@ impl NodeCache {
             let mut h = FxHasher::default();
             kind.hash(&mut h);
             text.hash(&mut h);
-            h.finish()
+            h.finish().max(1)
         };
 
         let entry = self
-- 
2.43.0


From 2df6bf41c56c6ab359abf30b2edda3b499babdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:49 +0000
Subject: [PATCH 09/10] Optional observation of the atomics behind reference
 counts (cfg rowan_sched_hooks)

---
 src/arc.rs         |  10 ++--
 src/lib.rs         |   4 ++
 src/sched_hooks.rs | 135 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 145 insertions(+), 4 deletions(-)
 create mode 100644 src/sched_hooks.rs

diff --git a/src/arc.rs b/src/arc.rs
index fa3774f..9ba697e 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -7,12 +7,14 @@ use std::{
     mem::{self, ManuallyDrop, offset_of},
     ops::Deref,
     ptr,
-    sync::atomic::{
-        self,
-        Ordering::{Acquire, Relaxed, Release},
-    },
+    sync::atomic::Ordering::{Acquire, Relaxed, Release},
 };
 
+#[cfg(rowan_sched_hooks)]
+use crate::sched_hooks as atomic;
+#[cfg(not(rowan_sched_hooks))]
+use std::sync::atomic;
+
 /// A soft limit on the amount of references that may be made to an `Arc`.
 ///
 /// Going above this limit will abort your program (although not
diff --git a/src/lib.rs b/src/lib.rs
index bb8f30d..0e679a6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,8 @@
     // missing_docs,
 )]
 #![deny(unsafe_code)]
+// `rowan_sched_hooks` is set by hand only
+#![allow(unexpected_cfgs)]
 
 #[allow(unsafe_code)]
 mod green;
@@ -22,6 +24,8 @@ mod cow_mut;
 mod sll;
 #[allow(unsafe_code)]
 mod arc;
+#[cfg(rowan_sched_hooks)]
+pub mod sched_hooks;
 #[cfg(feature = "serde1")]
 mod serde_impls;
 pub mod ast;
diff --git a/src/sched_hooks.rs b/src/sched_hooks.rs
new file mode 100644
index 0000000..56cad1b
--- /dev/null
+++ b/src/sched_hooks.rs
@@ -0,0 +1,135 @@
+//! Stand-ins for the atomics of the standard library which report what they
+//! do to an observer. Only present with `--cfg rowan_sched_hooks`, for
+//! external verification of the reference counts.
+use std::sync::{OnceLock, atomic as real};
+
+pub use std::sync::atomic::Ordering;
+
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Access {
+    Load,
+    Store,
+    /// Read-modify-write.
+    Update,
+    Fence,
+}
+
+pub trait Observer: Send + Sync {
+    /// The current thread is about to perform an operation.
+    fn before(&self, at: *const ());
+    /// It has just performed it.
+    fn after(&self, at: *const (), access: Access, order: Ordering);
+}
+
+static OBSERVER: OnceLock<&'static dyn Observer> = OnceLock::new();
+
+/// Sets the observer, once and for all.
+pub fn observe(observer: &'static dyn Observer) -> bool {
+    OBSERVER.set(observer).is_ok()
+}
+
+fn report<T>(at: *const (), access: Access, order: Ordering, f: impl FnOnce() -> T) -> T {
+    let observer = OBSERVER.get();
+    if let Some(it) = observer {
+        it.before(at);
+    }
+    let res = f();
+    if let Some(it) = observer {
+        it.after(at, access, order);
+    }
+    res
+}
+
+pub fn fence(order: Ordering) {
+    report(std::ptr::null(), Access::Fence, order, || real::fence(order))
+}
+
+#[derive(Debug, Default)]
+#[repr(transparent)]
+pub struct AtomicUsize(real::AtomicUsize);
+
+macro_rules! updates {
+    ($($name:ident),*) => {$(
+        pub fn $name(&self, value: usize, order: Ordering) -> usize {
+            report(self.at(), Access::Update, order, || self.0.$name(value, order))
+        }
+    )*};
+}
+
+impl AtomicUsize {
+    pub const fn new(value: usize) -> AtomicUsize {
+        AtomicUsize(real::AtomicUsize::new(value))
+    }
+
+    fn at(&self) -> *const () {
+        self as *const AtomicUsize as *const ()
+    }
+
+    pub fn load(&self, order: Ordering) -> usize {
+        report(self.at(), Access::Load, order, || self.0.load(order))
+    }
+
+    pub fn store(&self, value: usize, order: Ordering) {
+        report(self.at(), Access::Store, order, || self.0.store(value, order))
+    }
+
+    updates!(
+        swap, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max,
+        fetch_min
+    );
+
+    pub fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        let observer = OBSERVER.get();
+        if let Some(it) = observer {
+            it.before(self.at());
+        }
+        let res = self.0.compare_exchange(current, new, success, failure);
+        if let Some(it) = observer {
+            match res {
+                Ok(_) => it.after(self.at(), Access::Update, success),
+                Err(_) => it.after(self.at(), Access::Load, failure),
+            }
+        }
+        res
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        self.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn fetch_update(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: impl FnMut(usize) -> Option<usize>,
+    ) -> Result<usize, usize> {
+        let mut prev = self.load(fetch_order);
+        while let Some(next) = f(prev) {
+            match self.compare_exchange(prev, next, set_order, fetch_order) {
+                Ok(it) => return Ok(it),
+                Err(it) => prev = it,
+            }
+        }
+        Err(prev)
+    }
+
+    pub fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+}
-- 
2.43.0


From 40cc5d7368413d5cdc4fccbfdf6973007dfb00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 10/10] fix: kind filters that edit the tree they are asked
 about read freed green nodes

---
 src/cursor.rs | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 3f37eca..1f36386 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -221,6 +221,23 @@ unsafe fn free(mut data: ptr::NonNull<NodeData>) {
     }
 }
 
+/// Finds the children from `start` on whose kind `matcher` accepts.
+///
+/// `matcher` might edit the tree and so free the green nodes it consists of: look `children` up
+/// anew after each call.
+fn find_by_kind<'a>(
+    start: usize,
+    matcher: &impl Fn(SyntaxKind) -> bool,
+    children: impl Fn() -> slice::Iter<'a, GreenChild>,
+) -> impl Iterator<Item = (usize, &'a GreenChild)> {
+    (start..)
+        .map_while(move |index| {
+            let kind = children().nth(index)?.as_ref().kind();
+            Some((index, if matcher(kind) { children().nth(index) } else { None }))
+        })
+        .filter_map(|(index, child)| Some((index, child?)))
+}
+
 impl NodeData {
     #[inline]
     fn new(
@@ -387,13 +404,9 @@ impl NodeData {
     }
 
     fn next_sibling_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
+        find_by_kind(index + 1, matcher, || self.green_siblings()).find_map(|(index, child)| {
             child.as_ref().into_node().and_then(|green| {
                 let parent = self.parent_node()?;
                 let offset = parent.offset() + child.rel_offset();
@@ -430,13 +443,9 @@ impl NodeData {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        let siblings = self.green_siblings().enumerate();
         let index = self.index() as usize;
 
-        siblings.skip(index + 1).find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
+        find_by_kind(index + 1, matcher, || self.green_siblings()).find_map(|(index, child)| {
             let parent = self.parent_node()?;
             let offset = parent.offset() + child.rel_offset();
             Some(SyntaxElement::new(child.as_ref(), parent, index as u32, offset))
@@ -702,10 +711,7 @@ impl SyntaxNode {
     }
 
     pub fn first_child_by_kind(&self, matcher: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
+        find_by_kind(0, matcher, || self.green_ref().children().raw).find_map(|(index, child)| {
             child.as_ref().into_node().map(|green| {
                 SyntaxNode::new_child(
                     green,
@@ -740,16 +746,13 @@ impl SyntaxNode {
         &self,
         matcher: &impl Fn(SyntaxKind) -> bool,
     ) -> Option<SyntaxElement> {
-        self.green_ref().children().raw.enumerate().find_map(|(index, child)| {
-            if !matcher(child.as_ref().kind()) {
-                return None;
-            }
-            Some(SyntaxElement::new(
+        find_by_kind(0, matcher, || self.green_ref().children().raw).next().map(|(index, child)| {
+            SyntaxElement::new(
                 child.as_ref(),
                 self.clone(),
                 index as u32,
                 self.offset() + child.rel_offset(),
-            ))
+            )
         })
     }
 
-- 
2.43.0

