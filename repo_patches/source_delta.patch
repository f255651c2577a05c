From f9b04e5a523873e8176d466928842552d8d35164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:12 +0000
Subject: [PATCH 01/19] Let verification builds replace atomics and hash maps

Under the dumpster_mc cfg, the collectors take their atomics and hash maps from
a patched parking_lot. Normal builds are unchanged.
---
 dumpster/src/lib.rs            | 2 ++
 dumpster/src/sync/collect.rs   | 9 ++++++++-
 dumpster/src/sync/mod.rs       | 6 +++++-
 dumpster/src/unsync/collect.rs | 7 ++++++-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/dumpster/src/lib.rs b/dumpster/src/lib.rs
index 205f92d..2edce89 100644
--- a/dumpster/src/lib.rs
+++ b/dumpster/src/lib.rs
@@ -165,6 +165,8 @@ let gc1: Gc<[u8]> = Gc::new([1, 2, 3]);
 //! For more details, refer to
 //! [LICENSE.md](https://github.com/claytonwramsey/dumpster/blob/master/LICENSE.md).
 
+// `dumpster_mc` is only set by verification builds, which replace the synchronization primitives.
+#![allow(unexpected_cfgs)]
 #![warn(clippy::pedantic)]
 #![warn(clippy::cargo)]
 #![warn(missing_docs)]
diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index b1affde..0703222 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -11,9 +11,16 @@
 use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
-    collections::{hash_map::Entry, HashMap},
+    collections::hash_map::Entry,
     mem::{replace, swap, take, transmute},
     ptr::{drop_in_place, NonNull},
+};
+
+#[cfg(dumpster_mc)]
+use parking_lot::mc::{AtomicPtr, AtomicUsize, HashMap, Ordering};
+#[cfg(not(dumpster_mc))]
+use std::{
+    collections::HashMap,
     sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
 };
 
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 30c61dd..d5f69ff 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -38,9 +38,13 @@ use std::{
     fmt::Debug,
     ops::Deref,
     ptr::{addr_of, addr_of_mut, drop_in_place, NonNull},
-    sync::atomic::{fence, AtomicUsize, Ordering},
 };
 
+#[cfg(dumpster_mc)]
+use parking_lot::mc::{fence, AtomicUsize, Ordering};
+#[cfg(not(dumpster_mc))]
+use std::sync::atomic::{fence, AtomicUsize, Ordering};
+
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4a969ff..346dd77 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -11,11 +11,16 @@
 use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
-    collections::{hash_map::Entry, HashMap, HashSet},
+    collections::hash_map::Entry,
     num::NonZeroUsize,
     ptr::{drop_in_place, NonNull},
 };
 
+#[cfg(dumpster_mc)]
+use parking_lot::mc::{HashMap, HashSet};
+#[cfg(not(dumpster_mc))]
+use std::collections::{HashMap, HashSet};
+
 use crate::{
     ptr::Erased,
     unsync::{default_collect_condition, CollectInfo, Gc},
-- 
2.43.0


From a78dca3f7f4256a5e0048cccf18315c530e96b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:15 +0000
Subject: [PATCH 02/19] Import replaced names by glob in verification builds

A change of the names imported from the standard library then needs no
matching change of the dumpster_mc imports.
---
 dumpster/src/sync/collect.rs   | 2 +-
 dumpster/src/sync/mod.rs       | 2 +-
 dumpster/src/unsync/collect.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 0703222..2dd3a29 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -17,7 +17,7 @@ use std::{
 };
 
 #[cfg(dumpster_mc)]
-use parking_lot::mc::{AtomicPtr, AtomicUsize, HashMap, Ordering};
+use parking_lot::mc::std_names::*;
 #[cfg(not(dumpster_mc))]
 use std::{
     collections::HashMap,
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index d5f69ff..66e0438 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -41,7 +41,7 @@ use std::{
 };
 
 #[cfg(dumpster_mc)]
-use parking_lot::mc::{fence, AtomicUsize, Ordering};
+use parking_lot::mc::std_names::*;
 #[cfg(not(dumpster_mc))]
 use std::sync::atomic::{fence, AtomicUsize, Ordering};
 
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 346dd77..dae9ae8 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -17,7 +17,7 @@ use std::{
 };
 
 #[cfg(dumpster_mc)]
-use parking_lot::mc::{HashMap, HashSet};
+use parking_lot::mc::std_names::*;
 #[cfg(not(dumpster_mc))]
 use std::collections::{HashMap, HashSet};
 
-- 
2.43.0


From 44b2705a0fb72e29ecaacdedd5ba1512cbc5f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:45 +0000
Subject: [PATCH 03/19] fix: free sync allocations whose last two Gcs are
 dropped concurrently

The weak count did not tell whether a strong reference was left. When one
thread was still dropping a non-last Gc while another dropped the last one,
neither freed the allocation. The collector also read the strong count after
giving up its weak reference, when the allocation could already be freed.

All Gcs to an allocation now share one weak reference. Whoever takes the weak
count to zero frees the allocation.
---
 dumpster/src/sync/collect.rs | 11 +++++++----
 dumpster/src/sync/mod.rs     | 28 +++++++++++++++-------------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 2dd3a29..1ea5968 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -297,7 +297,12 @@ impl GarbageTruck {
             .filter_map(|(&k, v)| match v.reachability {
                 Reachability::Reachable => Some(k),
                 Reachability::Unknown { n_unaccounted, .. } => (n_unaccounted > 0
-                    || unsafe { k.0.as_ref().weak.load(Ordering::Acquire) > 1 })
+                    || unsafe {
+                        // one weak reference is ours and, while there are `Gc`s, one is theirs
+                        let n_weak = k.0.as_ref().weak.load(Ordering::Acquire);
+                        n_weak > 2
+                            || n_weak == 2 && k.0.as_ref().strong.load(Ordering::Acquire) == 0
+                    })
                 .then_some(k),
             })
             .collect::<Vec<_>>();
@@ -315,9 +320,7 @@ impl GarbageTruck {
                     destroy_fn(node.ptr, &ref_graph);
                 },
                 Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::Release) == 1
-                        && header_ref.strong.load(Ordering::Acquire) == 0
-                    {
+                    if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
                         // we are the last reference to the allocation.
                         // mark to be cleaned up later
                         // no real synchronization loss to storing the guard because we had the last
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 66e0438..7bbaab3 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -109,7 +109,7 @@ where
     /// allocation itself must still be valid.
     strong: AtomicUsize,
     /// The "weak" count, which is the number of references to this allocation stored in to-collect
-    /// buffers by the collection algorithm.
+    /// buffers by the collection algorithm, plus one which is shared by all extant `Gc`s.
     /// If the weak count is zero, the allocation may be destroyed.
     weak: AtomicUsize,
     /// The current generation number of the allocation.
@@ -236,7 +236,7 @@ where
         Gc {
             ptr: UnsafeCell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 strong: AtomicUsize::new(1),
-                weak: AtomicUsize::new(0),
+                weak: AtomicUsize::new(1),
                 generation: AtomicUsize::new(CURRENT_TAG.load(Ordering::Acquire)),
                 value,
             }))))),
@@ -469,25 +469,27 @@ where
         box_ref
             .generation
             .store(CURRENT_TAG.load(Ordering::Relaxed), Ordering::Release);
-        match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
+        let n_weak_dropped = match box_ref.strong.fetch_sub(1, Ordering::AcqRel) {
             0 => unreachable!("strong cannot reach zero while a Gc to it exists"),
             1 => {
                 mark_clean(box_ref);
-                if box_ref.weak.fetch_sub(1, Ordering::Release) == 1 {
-                    // destroyed the last weak reference! we can safely deallocate this
-                    let layout = Layout::for_value(box_ref);
-                    fence(Ordering::Acquire);
-                    unsafe {
-                        drop_in_place(ptr.as_mut());
-                        dealloc(ptr.as_ptr().cast(), layout);
-                    }
-                }
+                // our own weak reference, and the one shared by all `Gc`s
+                2
             }
             _ => {
                 if contains_gcs(&box_ref.value).unwrap_or(true) {
                     mark_dirty(ptr);
                 }
-                box_ref.weak.fetch_sub(1, Ordering::Release);
+                1
+            }
+        };
+        if box_ref.weak.fetch_sub(n_weak_dropped, Ordering::Release) == n_weak_dropped {
+            // destroyed the last weak reference! we can safely deallocate this
+            let layout = Layout::for_value(box_ref);
+            fence(Ordering::Acquire);
+            unsafe {
+                drop_in_place(ptr.as_mut());
+                dealloc(ptr.as_ptr().cast(), layout);
             }
         }
         notify_dropped_gc();
-- 
2.43.0


From 246d15bf9afb39c9eb2b60c04b804a9b6f7a03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:44 +0000
Subject: [PATCH 04/19] Let verification builds replace thread locals

---
 dumpster/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dumpster/src/lib.rs b/dumpster/src/lib.rs
index 2edce89..69a9da1 100644
--- a/dumpster/src/lib.rs
+++ b/dumpster/src/lib.rs
@@ -176,6 +176,10 @@ let gc1: Gc<[u8]> = Gc::new([1, 2, 3]);
 #![cfg_attr(feature = "coerce-unsized", feature(unsize))]
 #![cfg_attr(feature = "coerce-unsized", feature(strict_provenance))]
 
+#[cfg(dumpster_mc)]
+#[macro_use]
+extern crate parking_lot;
+
 mod impls;
 
 mod ptr;
-- 
2.43.0


From 59254d88630ee0b48136873e6281a988425dadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:06 +0000
Subject: [PATCH 05/19] fix: let sync destructors run by a collection use Gcs
 as usual

While a collection ran destructors, every Gc dropped on that thread was
ignored. Allocations such a destructor held the last Gc to were leaked.
Counts of reachable allocations were decremented ahead of their owner's
destructor, so a Gc moved out of it could outlive its allocation. A
destructor which started another collection deadlocked.

Gcs to reachable allocations are now dropped along with their owner, and only
Gcs to other unreachable allocations are killed beforehand. Collections asked
for by a destructor are left to the next one.
---
 dumpster/src/sync/collect.rs | 21 +++++++++++++--------
 dumpster/src/sync/mod.rs     |  7 ++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 1ea5968..9fb912a 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -138,6 +138,10 @@ thread_local! {
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
     DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    if currently_cleaning() {
+        // called by a destructor during a collection on this thread, which we can't wait for
+        return;
+    }
     GARBAGE_TRUCK.collect_all();
     drop(GARBAGE_TRUCK.collecting_lock.read());
 }
@@ -157,6 +161,10 @@ pub fn notify_dropped_gc() {
         }
     });
 
+    if currently_cleaning() {
+        // dropped by a destructor during a collection, which is no time to start another
+        return;
+    }
     if (unsafe {
         transmute::<_, CollectCondition>(GARBAGE_TRUCK.collect_condition.load(Ordering::Relaxed))
     })(&CollectInfo { _private: () })
@@ -239,7 +247,7 @@ pub fn set_collect_condition(f: CollectCondition) {
 }
 
 /// Determine whether this thread is currently cleaning.
-pub fn currently_cleaning() -> bool {
+fn currently_cleaning() -> bool {
     CLEANING.with(Cell::get)
 }
 
@@ -330,10 +338,10 @@ impl GarbageTruck {
                 }
             };
         }
-        CLEANING.with(|c| c.set(false));
         for (drop_fn, ptr) in weak_destroys {
             unsafe { drop_fn(ptr) };
         }
+        CLEANING.with(|c| c.set(false));
         drop(collecting_guard);
     }
 }
@@ -505,7 +513,8 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
     ptr: Erased,
     graph: &HashMap<AllocationId, AllocationInfo>,
 ) {
-    /// A visitor for decrementing the reference count of pointees.
+    /// A visitor for killing the `Gc`s to other unreachable allocations.
+    /// Any others will be dropped as usual along with their owner.
     struct PrepareForDestruction<'a> {
         /// The reference graph.
         /// Must have been populated with reachability already.
@@ -518,11 +527,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
             T: Collectable + Send + Sync + ?Sized,
         {
             let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
-            if matches!(self.graph[&id].reachability, Reachability::Reachable) {
-                unsafe {
-                    id.0.as_ref().strong.fetch_sub(1, Ordering::Release);
-                }
-            } else {
+            if matches!(self.graph[&id].reachability, Reachability::Unknown { .. }) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
diff --git a/dumpster/src/sync/mod.rs b/dumpster/src/sync/mod.rs
index 7bbaab3..eb835d2 100644
--- a/dumpster/src/sync/mod.rs
+++ b/dumpster/src/sync/mod.rs
@@ -48,8 +48,8 @@ use std::sync::atomic::{fence, AtomicUsize, Ordering};
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
 use self::collect::{
-    collect_all_await, currently_cleaning, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing,
-    notify_created_gc, notify_dropped_gc,
+    collect_all_await, mark_clean, mark_dirty, n_gcs_dropped, n_gcs_existing, notify_created_gc,
+    notify_dropped_gc,
 };
 
 /// A thread-safe garbage-collected pointer.
@@ -457,9 +457,6 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     fn drop(&mut self) {
-        if currently_cleaning() {
-            return;
-        }
         let Some(mut ptr) = unsafe { *self.ptr.get() }.as_option() else {
             return;
         };
-- 
2.43.0


From 14325013b1e299ddf972ecb355bb89af2a4ebe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:07 +0000
Subject: [PATCH 06/19] fix: let Gcs be used after the thread's dumpster was
 destroyed

A Gc owned by a thread-local value could be dropped after the thread-local
bookkeeping of the collector. Accessing that bookkeeping then aborted the
process. A temporary dumpster now takes its place.
---
 dumpster/src/sync/collect.rs   | 32 +++++++++++++++++++++--------
 dumpster/src/unsync/collect.rs | 37 +++++++++++++++++++++++-----------
 dumpster/src/unsync/mod.rs     | 16 +++++++--------
 3 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 9fb912a..96c6f15 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -121,10 +121,7 @@ thread_local! {
     /// The dumpster for this thread.
     /// Allocations which are "dirty" will be transferred to this dumpster before being moved into
     /// the garbage truck for final collection.
-    static DUMPSTER: Dumpster = Dumpster {
-        contents: RefCell::new(HashMap::new()),
-        n_drops: Cell::new(0),
-    };
+    static DUMPSTER: Dumpster = Dumpster::new();
 
     /// Whether the currently-running thread is doing a cleanup.
     /// This cannot be stored in `DUMPSTER` because otherwise it would cause weird use-after-drop
@@ -132,12 +129,23 @@ thread_local! {
     static CLEANING: Cell<bool> = const { Cell::new(false) };
 }
 
+/// Call a function with the dumpster of the current thread.
+///
+/// If the dumpster has already been destroyed because the thread is exiting, a temporary dumpster
+/// takes its place, which delivers to the garbage truck as soon as `f` is done.
+fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
+    let mut f = Some(f);
+    DUMPSTER
+        .try_with(|d| f.take().unwrap()(d))
+        .unwrap_or_else(|_| f.take().unwrap()(&Dumpster::new()))
+}
+
 #[allow(clippy::module_name_repetitions)]
 /// Collect all allocations in the garbage truck (but not necessarily the dumpster), then await
 /// completion of the collection.
 /// Ensures that all allocations dropped on the calling thread are cleaned up
 pub fn collect_all_await() {
-    DUMPSTER.with(|d| d.deliver_to(&GARBAGE_TRUCK));
+    with_dumpster(|d| d.deliver_to(&GARBAGE_TRUCK));
     if currently_cleaning() {
         // called by a destructor during a collection on this thread, which we can't wait for
         return;
@@ -154,7 +162,7 @@ pub fn collect_all_await() {
 pub fn notify_dropped_gc() {
     GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
     GARBAGE_TRUCK.n_gcs_dropped.fetch_add(1, Ordering::Relaxed);
-    DUMPSTER.with(|dumpster| {
+    with_dumpster(|dumpster| {
         dumpster.n_drops.set(dumpster.n_drops.get() + 1);
         if dumpster.is_full() {
             dumpster.deliver_to(&GARBAGE_TRUCK);
@@ -185,7 +193,7 @@ where
     T: Collectable + Send + Sync + ?Sized,
 {
     let box_ref = unsafe { allocation.as_ref() };
-    DUMPSTER.with(|dumpster| {
+    with_dumpster(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
@@ -209,7 +217,7 @@ pub(super) fn mark_clean<T>(allocation: &GcBox<T>)
 where
     T: Collectable + Send + Sync + ?Sized,
 {
-    DUMPSTER.with(|dumpster| {
+    with_dumpster(|dumpster| {
         if dumpster
             .contents
             .borrow_mut()
@@ -262,6 +270,14 @@ pub fn n_gcs_existing() -> usize {
 }
 
 impl Dumpster {
+    /// Construct a new dumpster which contains nothing.
+    fn new() -> Dumpster {
+        Dumpster {
+            contents: RefCell::new(HashMap::new()),
+            n_drops: Cell::new(0),
+        }
+    }
+
     /// Deliver all [`TrashCans`] contained by this dumpster to the garbage collect, removing them
     /// from the local dumpster storage and adding them to the global truck.
     fn deliver_to(&self, garbage_truck: &GarbageTruck) {
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index dae9ae8..bb7f1f1 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -33,12 +33,7 @@ thread_local! {
     /// Whether the current thread is running a cleanup process.
     pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
-    pub(super) static DUMPSTER: Dumpster = Dumpster {
-        to_collect: RefCell::new(HashMap::new()),
-        n_ref_drops: Cell::new(0),
-        n_refs_living: Cell::new(0),
-        collect_condition: Cell::new(default_collect_condition),
-    };
+    static DUMPSTER: Dumpster = Dumpster::new();
 }
 
 /// A dumpster is a collection of all the garbage that may or may not need to be cleaned up.
@@ -108,7 +103,28 @@ unsafe fn apply_visitor<T: Collectable + ?Sized, V: Visitor>(ptr: Erased, visito
     let _ = specified.as_ref().value.accept(visitor);
 }
 
+/// Call a function with the dumpster of the current thread.
+///
+/// If the dumpster has already been destroyed because the thread is exiting, a temporary dumpster
+/// takes its place, which collects whatever it is responsible for as soon as `f` is done.
+pub(super) fn with_dumpster<R>(f: impl FnOnce(&Dumpster) -> R) -> R {
+    let mut f = Some(f);
+    DUMPSTER
+        .try_with(|d| f.take().unwrap()(d))
+        .unwrap_or_else(|_| f.take().unwrap()(&Dumpster::new()))
+}
+
 impl Dumpster {
+    /// Construct a new dumpster which is responsible for no allocations.
+    fn new() -> Dumpster {
+        Dumpster {
+            to_collect: RefCell::new(HashMap::new()),
+            n_ref_drops: Cell::new(0),
+            n_refs_living: Cell::new(0),
+            collect_condition: Cell::new(default_collect_condition),
+        }
+    }
+
     /// Collect all unreachable allocations that this dumpster is responsible for.
     pub fn collect_all(&self) {
         self.n_ref_drops.set(0);
@@ -189,12 +205,9 @@ impl Dumpster {
     /// This may trigger a cleanup of the heap, but is guaranteed to be amortized to _O(1)_.
     pub fn notify_dropped_gc(&self) {
         self.n_ref_drops.set(self.n_ref_drops.get() + 1);
-        let old_refs_living = self.n_refs_living.get();
-        assert_ne!(
-            old_refs_living, 0,
-            "underflow on unsync::Gc number of living Gcs"
-        );
-        self.n_refs_living.set(old_refs_living - 1);
+        // a temporary dumpster does not know how many `Gc`s there are
+        self.n_refs_living
+            .set(self.n_refs_living.get().saturating_sub(1));
 
         // check if it's been a long time since the last time we collected all
         // the garbage.
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index d6b49df..c1b21ce 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{Dumpster, COLLECTING, DUMPSTER};
+use self::collect::{with_dumpster, Dumpster, COLLECTING};
 
 mod collect;
 #[cfg(test)]
@@ -116,7 +116,7 @@ pub struct Gc<T: Collectable + ?Sized + 'static> {
 /// # }
 /// ```
 pub fn collect() {
-    DUMPSTER.with(Dumpster::collect_all);
+    with_dumpster(Dumpster::collect_all);
 }
 
 /// Information passed to a [`CollectCondition`] used to determine whether the garbage collector
@@ -185,7 +185,7 @@ pub fn default_collect_condition(info: &CollectInfo) -> bool {
 /// set_collect_condition(never_collect);
 /// ```
 pub fn set_collect_condition(f: CollectCondition) {
-    DUMPSTER.with(|d| d.collect_condition.set(f));
+    with_dumpster(|d| d.collect_condition.set(f));
 }
 
 #[repr(C)]
@@ -213,7 +213,7 @@ impl<T: Collectable + ?Sized> Gc<T> {
     where
         T: Sized,
     {
-        DUMPSTER.with(Dumpster::notify_created_gc);
+        with_dumpster(Dumpster::notify_created_gc);
         Gc {
             ptr: Cell::new(Nullable::new(NonNull::from(Box::leak(Box::new(GcBox {
                 ref_count: Cell::new(NonZeroUsize::MIN),
@@ -472,7 +472,7 @@ impl<T: Collectable + ?Sized> Clone for Gc<T> {
                 .ref_count
                 .set(box_ref.ref_count.get().saturating_add(1));
         }
-        DUMPSTER.with(|d| {
+        with_dumpster(|d| {
             d.notify_created_gc();
             // d.mark_cleaned(self.ptr);
         });
@@ -494,7 +494,7 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-        DUMPSTER.with(|d| {
+        with_dumpster(|d| {
             let box_ref = unsafe { ptr.as_ref() };
             match box_ref.ref_count.get() {
                 NonZeroUsize::MIN => {
@@ -581,7 +581,7 @@ impl CollectInfo {
     /// set_collect_condition(have_many_gcs_dropped);
     /// ```
     pub fn n_gcs_dropped_since_last_collect(&self) -> usize {
-        DUMPSTER.with(|d| d.n_ref_drops.get())
+        with_dumpster(|d| d.n_ref_drops.get())
     }
 
     #[must_use]
@@ -600,7 +600,7 @@ impl CollectInfo {
     /// set_collect_condition(do_many_gcs_exist);
     /// ```
     pub fn n_gcs_existing(&self) -> usize {
-        DUMPSTER.with(|d| d.n_refs_living.get())
+        with_dumpster(|d| d.n_refs_living.get())
     }
 }
 
-- 
2.43.0


From 53ec91199bf26ecbdbac57e34ee6b00f52328b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:12 +0000
Subject: [PATCH 07/19] fix: let unsync destructors run by a collection use Gcs
 as usual

While a collection ran destructors, every Gc dropped on that thread was
ignored, dereferencing a live Gc panicked, and counts of reachable
allocations were decremented ahead of their owner's destructor. So values
were leaked, and a Gc moved out of a destroyed value could outlive its
allocation. A destructor which created garbage or called collect panicked.

All Gcs to unreachable allocations are now killed before the first destructor
runs. From then on the destructors are free to do anything.
---
 dumpster/src/unsync/collect.rs | 83 ++++++++++++++--------------------
 dumpster/src/unsync/mod.rs     |  9 +---
 2 files changed, 36 insertions(+), 56 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index bb7f1f1..4fe7fe1 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -30,8 +30,6 @@ use crate::{
 use super::{CollectCondition, GcBox};
 
 thread_local! {
-    /// Whether the current thread is running a cleanup process.
-    pub(super) static COLLECTING: Cell<bool> = const { Cell::new(false) };
     /// The global collection of allocation information for this thread.
     static DUMPSTER: Dumpster = Dumpster::new();
 }
@@ -75,7 +73,7 @@ struct Cleanup {
     dfs_fn: unsafe fn(Erased, &mut Dfs),
     /// The function which is called to mark descendants of this allocation as reachable.
     mark_fn: unsafe fn(Erased, &mut Mark),
-    /// A function used for dropping the allocation.
+    /// A function used for finding all allocations which must be dropped with this allocation.
     drop_fn: unsafe fn(Erased, &mut DropAlloc<'_>),
     /// An erased pointer to the allocation.
     ptr: Erased,
@@ -130,12 +128,15 @@ impl Dumpster {
         self.n_ref_drops.set(0);
 
         unsafe {
+            // destructors which we call may drop, create, and even collect other allocations, so
+            // only deal with what was there to begin with
+            let to_collect = self.to_collect.take();
             let mut dfs = Dfs {
-                visited: HashSet::with_capacity(self.to_collect.borrow().len()),
-                ref_graph: HashMap::with_capacity(self.to_collect.borrow().len()),
+                visited: HashSet::with_capacity(to_collect.len()),
+                ref_graph: HashMap::with_capacity(to_collect.len()),
             };
 
-            for (k, v) in &*self.to_collect.borrow() {
+            for (k, v) in &to_collect {
                 if dfs.visited.insert(*k) {
                     (v.dfs_fn)(v.ptr, &mut dfs);
                 }
@@ -154,9 +155,7 @@ impl Dumpster {
             }
 
             // any allocations which we didn't find must also be roots
-            for (id, cleanup) in self
-                .to_collect
-                .borrow()
+            for (id, cleanup) in to_collect
                 .iter()
                 .filter(|(id, _)| !dfs.ref_graph.contains_key(id))
             {
@@ -168,18 +167,18 @@ impl Dumpster {
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
                 reachable: &mark.visited,
+                unreachable: Vec::new(),
             };
 
-            COLLECTING.with(|c| c.set(true));
-            for cleanup in self
-                .to_collect
-                .borrow_mut()
-                .drain()
+            for cleanup in to_collect
+                .into_iter()
                 .filter_map(|(id, cleanup)| (!mark.visited.contains(&id)).then_some(cleanup))
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
-            COLLECTING.with(|c| c.set(false));
+            for (dealloc_fn, ptr) in decrementer.unreachable {
+                dealloc_fn(ptr);
+            }
         }
     }
 
@@ -309,12 +308,14 @@ impl Visitor for Mark {
     }
 }
 
-/// A visitor for dropping allocations.
+/// A visitor for finding the allocations to be dropped, and for killing the `Gc`s to them.
 struct DropAlloc<'a> {
     /// The set of unreachable allocations we've already visited.
     visited: HashSet<AllocationId>,
-    /// The set of unreachable allocations.
+    /// The set of reachable allocations.
     reachable: &'a HashSet<AllocationId>,
+    /// The unreachable allocations we've found, each with the function used to drop it.
+    unreachable: Vec<(unsafe fn(Erased), Erased)>,
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -330,43 +331,29 @@ impl Visitor for DropAlloc<'_> {
         T: Collectable + ?Sized,
     {
         let ptr = gc.ptr.get().unwrap();
-        let id = AllocationId::from(ptr);
-        if self.reachable.contains(&id) {
-            unsafe {
-                let cell_ref = &ptr.as_ref().ref_count;
-                cell_ref.set(NonZeroUsize::new(cell_ref.get().get() - 1).unwrap());
-            }
+        if self.reachable.contains(&AllocationId::from(ptr)) {
+            // will be dropped as usual along with its owner
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
-        if self.visited.insert(id) {
-            unsafe {
-                ptr.as_ref().value.accept(self).unwrap();
-                let layout = Layout::for_value(ptr.as_ref());
-                drop_in_place(ptr.as_ptr());
-                dealloc(ptr.as_ptr().cast(), layout);
-            }
-        }
+        unsafe { drop_assist::<T>(Erased::new(ptr), self) };
     }
 }
 
-/// Decrement the outbound reference counts for any reachable allocations which this allocation can
-/// find.
-/// Also, drop the allocation when done.
+/// Kill the `Gc`s to unreachable allocations which this allocation can find.
+/// Also, schedule the allocation to be dropped.
 unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAlloc<'_>) {
-    if visitor
-        .visited
-        .insert(AllocationId::from(ptr.specify::<GcBox<T>>()))
-    {
-        ptr.specify::<GcBox<T>>()
-            .as_ref()
-            .value
-            .accept(visitor)
-            .unwrap();
-
-        let mut_spec = ptr.specify::<GcBox<T>>().as_mut();
-        let layout = Layout::for_value(mut_spec);
-        drop_in_place(mut_spec);
-        dealloc(std::ptr::from_mut::<GcBox<T>>(mut_spec).cast(), layout);
+    let box_ptr = ptr.specify::<GcBox<T>>();
+    if visitor.visited.insert(AllocationId::from(box_ptr)) {
+        box_ptr.as_ref().value.accept(visitor).unwrap();
+        visitor.unreachable.push((drop_erased::<T>, ptr));
     }
 }
+
+/// Drop an allocation.
+unsafe fn drop_erased<T: Collectable + ?Sized>(ptr: Erased) {
+    let mut_spec = ptr.specify::<GcBox<T>>().as_mut();
+    let layout = Layout::for_value(mut_spec);
+    drop_in_place(mut_spec);
+    dealloc(std::ptr::from_mut::<GcBox<T>>(mut_spec).cast(), layout);
+}
diff --git a/dumpster/src/unsync/mod.rs b/dumpster/src/unsync/mod.rs
index c1b21ce..790da44 100644
--- a/dumpster/src/unsync/mod.rs
+++ b/dumpster/src/unsync/mod.rs
@@ -43,7 +43,7 @@ use std::{
 
 use crate::{contains_gcs, ptr::Nullable, Collectable, Visitor};
 
-use self::collect::{with_dumpster, Dumpster, COLLECTING};
+use self::collect::{with_dumpster, Dumpster};
 
 mod collect;
 #[cfg(test)]
@@ -407,10 +407,6 @@ impl<T: Collectable + ?Sized> Deref for Gc<T> {
     /// });
     /// ```
     fn deref(&self) -> &Self::Target {
-        assert!(
-            !COLLECTING.with(Cell::get),
-            "dereferencing GC to already-collected object"
-        );
         unsafe {
             &self.ptr.get().expect("dereferencing Gc to already-collected object. \
             This means a Gc escaped from a Drop implementation, likely implying a bug in your code.").as_ref().value
@@ -488,9 +484,6 @@ impl<T: Collectable + ?Sized> Drop for Gc<T> {
     /// If this is the last reference which can reach the pointed-to data, the allocation that it
     /// points to will be destroyed.
     fn drop(&mut self) {
-        if COLLECTING.with(Cell::get) {
-            return;
-        }
         let Some(mut ptr) = self.ptr.get().as_option() else {
             return;
         };
-- 
2.43.0


From 34a9dfe5593126483ed7a3e9e022acbf94ab98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:37 +0000
Subject: [PATCH 08/19] fix: count Gcs killed by a collection as no longer
 existing

Gcs owned by collected garbage were never subtracted from the number of
existing Gcs. The number grew with every cycle collected, and the default
collect condition triggered less and less often.
---
 dumpster/src/sync/collect.rs   | 1 +
 dumpster/src/unsync/collect.rs | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 96c6f15..54ef9a8 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -547,6 +547,7 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
                 }
+                GARBAGE_TRUCK.n_gcs_existing.fetch_sub(1, Ordering::Relaxed);
             }
         }
 
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 4fe7fe1..a6b87ef 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -168,6 +168,7 @@ impl Dumpster {
                 visited: dfs.visited,
                 reachable: &mark.visited,
                 unreachable: Vec::new(),
+                n_killed: 0,
             };
 
             for cleanup in to_collect
@@ -176,6 +177,11 @@ impl Dumpster {
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
+            self.n_refs_living.set(
+                self.n_refs_living
+                    .get()
+                    .saturating_sub(decrementer.n_killed),
+            );
             for (dealloc_fn, ptr) in decrementer.unreachable {
                 dealloc_fn(ptr);
             }
@@ -316,6 +322,8 @@ struct DropAlloc<'a> {
     reachable: &'a HashSet<AllocationId>,
     /// The unreachable allocations we've found, each with the function used to drop it.
     unreachable: Vec<(unsafe fn(Erased), Erased)>,
+    /// The number of `Gc`s killed.
+    n_killed: usize,
 }
 
 impl Visitor for DropAlloc<'_> {
@@ -336,6 +344,7 @@ impl Visitor for DropAlloc<'_> {
             return;
         }
         gc.ptr.set(gc.ptr.get().as_null());
+        self.n_killed += 1;
         unsafe { drop_assist::<T>(Erased::new(ptr), self) };
     }
 }
-- 
2.43.0


From e0b098ca3aa4949f6e2edd3b0d177dfb65450a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:42 +0000
Subject: [PATCH 09/19] fix: ignore dead Gcs when tracing

A destructor run by a collection may move a dead Gc to a place that outlives
it. Every later collection which found that Gc panicked.
---
 dumpster/src/sync/collect.rs   |  9 +++++++--
 dumpster/src/unsync/collect.rs | 12 +++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 54ef9a8..0ccfc43 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -431,7 +431,9 @@ impl<'a> Visitor for Dfs<'a> {
     where
         T: Collectable + Send + Sync + ?Sized,
     {
-        let ptr = unsafe { (*gc.ptr.get()).unwrap() };
+        let Some(ptr) = unsafe { *gc.ptr.get() }.as_option() else {
+            return; // dead `Gc`s, which a destructor left somewhere, own nothing
+        };
         let box_ref = unsafe { ptr.as_ref() };
         let current_tag = CURRENT_TAG.load(Ordering::Relaxed);
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
@@ -542,7 +544,10 @@ unsafe fn destroy_erased<T: Collectable + Send + Sync + ?Sized>(
         where
             T: Collectable + Send + Sync + ?Sized,
         {
-            let id = AllocationId::from(unsafe { (*gc.ptr.get()).unwrap() });
+            let Some(ptr) = unsafe { *gc.ptr.get() }.as_option() else {
+                return;
+            };
+            let id = AllocationId::from(ptr);
             if matches!(self.graph[&id].reachability, Reachability::Unknown { .. }) {
                 unsafe {
                     gc.ptr.get().write((*gc.ptr.get()).as_null());
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index a6b87ef..740c63c 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -268,7 +268,9 @@ impl Visitor for Dfs {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return; // dead `Gc`s, which a destructor left somewhere, own nothing
+        };
         let next_id = AllocationId::from(ptr);
         match self.ref_graph.entry(next_id) {
             Entry::Occupied(ref mut o) => {
@@ -307,7 +309,9 @@ impl Visitor for Mark {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return; // dead `Gc`s, which a destructor left somewhere, own nothing
+        };
         if self.visited.insert(AllocationId::from(ptr)) {
             let _ = unsafe { ptr.as_ref().value.accept(self) };
         }
@@ -338,7 +342,9 @@ impl Visitor for DropAlloc<'_> {
     where
         T: Collectable + ?Sized,
     {
-        let ptr = gc.ptr.get().unwrap();
+        let Some(ptr) = gc.ptr.get().as_option() else {
+            return; // dead `Gc`s, which a destructor left somewhere, own nothing
+        };
         if self.reachable.contains(&AllocationId::from(ptr)) {
             // will be dropped as usual along with its owner
             return;
-- 
2.43.0


From a2b6057f903e0e7386e2ae46bd9863b24bb05b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:02 +0000
Subject: [PATCH 10/19] fix: keep unreachable unsync allocations which can't be
 traced

When the contents of an unreachable allocation were inaccessible, for example
because a RefMut had been leaked, collecting it panicked and lost all other
garbage. Such allocations now count as reachable, as they do in sync.
---
 dumpster/src/unsync/collect.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 740c63c..8b8e122 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -83,7 +83,7 @@ impl Cleanup {
     /// Construct a new cleanup for an allocation.
     fn new<T: Collectable + ?Sized>(box_ptr: NonNull<GcBox<T>>) -> Cleanup {
         Cleanup {
-            dfs_fn: apply_visitor::<T, Dfs>,
+            dfs_fn: dfs::<T>,
             mark_fn: apply_visitor::<T, Mark>,
             drop_fn: drop_assist::<T>,
             ptr: Erased::new(box_ptr),
@@ -134,6 +134,7 @@ impl Dumpster {
             let mut dfs = Dfs {
                 visited: HashSet::with_capacity(to_collect.len()),
                 ref_graph: HashMap::with_capacity(to_collect.len()),
+                inaccessible: HashSet::new(),
             };
 
             for (k, v) in &to_collect {
@@ -145,11 +146,9 @@ impl Dumpster {
             let mut mark = Mark {
                 visited: HashSet::with_capacity(dfs.visited.len()),
             };
-            for (id, reachability) in dfs
-                .ref_graph
-                .iter()
-                .filter(|(_, reachability)| reachability.n_unaccounted != 0)
-            {
+            for (id, reachability) in dfs.ref_graph.iter().filter(|(id, reachability)| {
+                reachability.n_unaccounted != 0 || dfs.inaccessible.contains(id)
+            }) {
                 mark.visited.insert(*id);
                 (reachability.mark_fn)(reachability.ptr, &mut mark);
             }
@@ -241,6 +240,20 @@ struct Dfs {
     visited: HashSet<AllocationId>,
     /// A map from allocation identifiers to information about their reachability.
     ref_graph: HashMap<AllocationId, Reachability>,
+    /// The set of allocations which could not be fully visited, and so must not be dropped.
+    inaccessible: HashSet<AllocationId>,
+}
+
+/// Build out the reference graph from some erased pointer.
+///
+/// # Safety
+///
+/// `T` must be the same type that `ptr` was created with via [`ErasedPtr::new`].
+unsafe fn dfs<T: Collectable + ?Sized>(ptr: Erased, dfs: &mut Dfs) {
+    let box_ptr = ptr.specify::<GcBox<T>>();
+    if box_ptr.as_ref().value.accept(dfs).is_err() {
+        dfs.inaccessible.insert(AllocationId::from(box_ptr));
+    }
 }
 
 #[derive(Debug)]
@@ -285,7 +298,7 @@ impl Visitor for Dfs {
             }
         }
         if self.visited.insert(next_id) {
-            let _ = unsafe { ptr.as_ref() }.value.accept(self);
+            unsafe { dfs::<T>(Erased::new(ptr), self) };
         }
     }
 }
-- 
2.43.0


From 632971f551b69b162558fde4d7f8310bbab455b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:27 +0000
Subject: [PATCH 11/19] fix: trace the contents of poisoned locks

Tracing a poisoned Mutex or RwLock panicked, so once a lock inside a managed
value was poisoned, dropping a Gc to that value or collecting anything that
could reach it panicked too.
---
 dumpster/src/impls.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/dumpster/src/impls.rs b/dumpster/src/impls.rs
index 080c339..21cbbc6 100644
--- a/dumpster/src/impls.rs
+++ b/dumpster/src/impls.rs
@@ -90,26 +90,24 @@ unsafe impl<T: Collectable + ?Sized> Collectable for RefCell<T> {
 unsafe impl<T: Collectable + ?Sized> Collectable for Mutex<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_lock()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_lock() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // the contents are still there, even if whoever changed them last has panicked
+            Err(TryLockError::Poisoned(e)) => e.into_inner().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
 unsafe impl<T: Collectable + ?Sized> Collectable for RwLock<T> {
     #[inline]
     fn accept<V: Visitor>(&self, visitor: &mut V) -> Result<(), ()> {
-        self.try_read()
-            .map_err(|e| match e {
-                TryLockError::Poisoned(_) => panic!(),
-                TryLockError::WouldBlock => (),
-            })?
-            .deref()
-            .accept(visitor)
+        match self.try_read() {
+            Ok(guard) => guard.deref().accept(visitor),
+            // the contents are still there, even if whoever changed them last has panicked
+            Err(TryLockError::Poisoned(e)) => e.into_inner().deref().accept(visitor),
+            Err(TryLockError::WouldBlock) => Err(()),
+        }
     }
 }
 
-- 
2.43.0


From fb2ff889002f78305bca4673d39346d30c9bec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:28 +0000
Subject: [PATCH 12/19] fix: collect the remaining garbage when a destructor
 panics

A panic in a destructor run by a collection left all other garbage found by
that collection allocated forever. In sync, it also kept the thread from ever
collecting again.
---
 dumpster/src/sync/collect.rs   | 75 ++++++++++++++++++++++++----------
 dumpster/src/unsync/collect.rs | 29 ++++++++++---
 2 files changed, 76 insertions(+), 28 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 0ccfc43..4f75683 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -334,34 +334,65 @@ impl GarbageTruck {
             mark(root_id, &mut ref_graph);
         }
 
-        CLEANING.with(|c| c.set(true));
-        // set of allocations which must be destroyed because we were the last weak pointer to it
-        let mut weak_destroys = Vec::new();
+        // allocations which must be destroyed, either because they are unreachable or because we
+        // were the last weak pointer to them
+        let mut to_destroy = Vec::new();
         for (id, node) in &ref_graph {
-            let header_ref = unsafe { id.0.as_ref() };
-            match node.reachability {
-                Reachability::Unknown { destroy_fn, .. } => unsafe {
-                    destroy_fn(node.ptr, &ref_graph);
-                },
-                Reachability::Reachable => {
-                    if header_ref.weak.fetch_sub(1, Ordering::AcqRel) == 1 {
-                        // we are the last reference to the allocation.
-                        // mark to be cleaned up later
-                        // no real synchronization loss to storing the guard because we had the last
-                        // reference anyway
-                        weak_destroys.push((node.weak_drop_fn, node.ptr));
-                    }
-                }
-            };
-        }
-        for (drop_fn, ptr) in weak_destroys {
-            unsafe { drop_fn(ptr) };
+            if matches!(node.reachability, Reachability::Unknown { .. })
+                || unsafe { id.0.as_ref() }.weak.fetch_sub(1, Ordering::AcqRel) == 1
+            {
+                to_destroy.push(Destroy {
+                    node,
+                    graph: &ref_graph,
+                });
+            }
         }
-        CLEANING.with(|c| c.set(false));
+        let cleaning_guard = CleaningGuard::new();
+        // if one of the destructors panics, this will still destroy all others
+        drop(to_destroy);
+        drop(cleaning_guard);
         drop(collecting_guard);
     }
 }
 
+/// Marks the current thread as cleaning until dropped.
+struct CleaningGuard;
+
+impl CleaningGuard {
+    /// Mark the current thread as cleaning.
+    fn new() -> CleaningGuard {
+        CLEANING.with(|c| c.set(true));
+        CleaningGuard
+    }
+}
+
+impl Drop for CleaningGuard {
+    fn drop(&mut self) {
+        CLEANING.with(|c| c.set(false));
+    }
+}
+
+/// An allocation about to be destroyed.
+/// Dropping this destroys it.
+struct Destroy<'a> {
+    /// The allocation to be destroyed.
+    node: &'a AllocationInfo,
+    /// The reference graph.
+    graph: &'a HashMap<AllocationId, AllocationInfo>,
+}
+
+impl Drop for Destroy<'_> {
+    fn drop(&mut self) {
+        match self.node.reachability {
+            Reachability::Unknown { destroy_fn, .. } => unsafe {
+                destroy_fn(self.node.ptr, self.graph);
+            },
+            // there are no references to it left
+            Reachability::Reachable => unsafe { (self.node.weak_drop_fn)(self.node.ptr) },
+        }
+    }
+}
+
 /// Build out a part of the reference graph, making note of all allocations which are reachable from
 /// the one described in `ptr`.
 ///
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 8b8e122..3a99e33 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -181,9 +181,8 @@ impl Dumpster {
                     .get()
                     .saturating_sub(decrementer.n_killed),
             );
-            for (dealloc_fn, ptr) in decrementer.unreachable {
-                dealloc_fn(ptr);
-            }
+            // if one of the destructors panics, this will still drop all others
+            drop(decrementer.unreachable);
         }
     }
 
@@ -337,12 +336,27 @@ struct DropAlloc<'a> {
     visited: HashSet<AllocationId>,
     /// The set of reachable allocations.
     reachable: &'a HashSet<AllocationId>,
-    /// The unreachable allocations we've found, each with the function used to drop it.
-    unreachable: Vec<(unsafe fn(Erased), Erased)>,
+    /// The unreachable allocations we've found.
+    unreachable: Vec<Unreachable>,
     /// The number of `Gc`s killed.
     n_killed: usize,
 }
 
+/// An unreachable allocation, to which no living `Gc`s exist any more.
+/// Dropping this drops the allocation.
+struct Unreachable {
+    /// The function used to drop the allocation.
+    drop_fn: unsafe fn(Erased),
+    /// An erased pointer to the allocation.
+    ptr: Erased,
+}
+
+impl Drop for Unreachable {
+    fn drop(&mut self) {
+        unsafe { (self.drop_fn)(self.ptr) };
+    }
+}
+
 impl Visitor for DropAlloc<'_> {
     fn visit_sync<T>(&mut self, _: &crate::sync::Gc<T>)
     where
@@ -374,7 +388,10 @@ unsafe fn drop_assist<T: Collectable + ?Sized>(ptr: Erased, visitor: &mut DropAl
     let box_ptr = ptr.specify::<GcBox<T>>();
     if visitor.visited.insert(AllocationId::from(box_ptr)) {
         box_ptr.as_ref().value.accept(visitor).unwrap();
-        visitor.unreachable.push((drop_erased::<T>, ptr));
+        visitor.unreachable.push(Unreachable {
+            drop_fn: drop_erased::<T>,
+            ptr,
+        });
     }
 }
 
-- 
2.43.0


From 34fb224718c45673e7f19c13e856bf5a047e3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:40 +0000
Subject: [PATCH 13/19] fix: look again at garbage whose tracing was disturbed
 by another thread

When another thread used an allocation while the collector traced the owner
of a Gc to it, the owner was taken to be reachable and never looked at again.
If the owner was garbage, it was leaked. It is now left in the garbage truck
for the next collection.
---
 dumpster/src/sync/collect.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 4f75683..c552b1e 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -83,6 +83,12 @@ struct AllocationInfo {
     /// Function for dropping the allocation when its weak and strong count hits zero.
     /// Should have the same behavior as dropping a Gc normally to a reference count of zero.
     weak_drop_fn: unsafe fn(Erased),
+    /// The function which can be used to build a reference graph from this allocation.
+    dfs_fn: unsafe fn(Erased, &mut HashMap<AllocationId, AllocationInfo>),
+    /// Whether this allocation was only found to be reachable because another thread was using
+    /// something it owns.
+    /// If so, it may still be garbage and must be looked at again.
+    disturbed: bool,
     /// Information about this allocation's reachability.
     reachability: Reachability,
 }
@@ -338,6 +344,16 @@ impl GarbageTruck {
         // were the last weak pointer to them
         let mut to_destroy = Vec::new();
         for (id, node) in &ref_graph {
+            if node.disturbed {
+                let can = TrashCan {
+                    ptr: node.ptr,
+                    dfs_fn: node.dfs_fn,
+                };
+                if self.contents.lock().insert(*id, can).is_none() {
+                    // our weak reference now belongs to the truck
+                    continue;
+                }
+            }
             if matches!(node.reachability, Reachability::Unknown { .. })
                 || unsafe { id.0.as_ref() }.weak.fetch_sub(1, Ordering::AcqRel) == 1
             {
@@ -424,6 +440,8 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
+        dfs_fn: dfs::<T>,
+        disturbed: false,
         reachability: Reachability::Unknown {
             children: Vec::new(),
             n_unaccounted: strong_count,
@@ -470,7 +488,9 @@ impl<'a> Visitor for Dfs<'a> {
         if gc.tag.swap(current_tag, Ordering::Relaxed) >= current_tag
             || box_ref.generation.load(Ordering::Acquire) >= current_tag
         {
-            // This pointer was already tagged by this sweep, so it must have been moved by
+            // This pointer was already tagged by this sweep, so it must have been moved by another
+            // thread, or another thread is using the allocation it points to
+            self.ref_graph.get_mut(&self.current_id).unwrap().disturbed = true;
             mark(self.current_id, self.ref_graph);
             return;
         }
@@ -508,6 +528,8 @@ impl<'a> Visitor for Dfs<'a> {
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
                     weak_drop_fn: drop_weak_zero::<T>,
+                    dfs_fn: dfs::<T>,
+                    disturbed: false,
                     reachability: Reachability::Unknown {
                         children: Vec::new(),
                         n_unaccounted: strong_count - 1,
-- 
2.43.0


From 0a6e505fb72d91f89e645deb7a1acc34ea7875d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:45 +0000
Subject: [PATCH 14/19] fix: derive Collectable for generic types

The derived implementation required type parameters to implement a trait of
an unrelated crate, so that deriving it for a generic type did not compile.
---
 dumpster_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 917b1d1..2ea9643 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -47,7 +47,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
 fn add_trait_bounds(mut generics: Generics) -> Generics {
     for param in &mut generics.params {
         if let GenericParam::Type(ref mut type_param) = *param {
-            type_param.bounds.push(parse_quote!(heapsize::HeapSize));
+            type_param.bounds.push(parse_quote!(dumpster::Collectable));
         }
     }
     generics
-- 
2.43.0


From a44cd04fe7b772fe930b37e5a81ff70450bcf3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:50 +0000
Subject: [PATCH 15/19] fix: derive Collectable for empty enums and for
 parameters named V

The derived method had a type parameter V of its own, which clashed with a
parameter of that name of the type. Matching on a reference to an enum
without variants did not compile.
---
 dumpster_derive/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index 2ea9643..f378c76 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -34,7 +34,7 @@ pub fn derive_collectable(input: proc_macro::TokenStream) -> proc_macro::TokenSt
     let generated = quote! {
         unsafe impl #impl_generics dumpster::Collectable for #name #ty_generics #where_clause {
             #[inline]
-            fn accept<V: dumpster::Visitor>(&self, visitor: &mut V) -> std::result::Result<(), ()> {
+            fn accept<__V: dumpster::Visitor>(&self, visitor: &mut __V) -> std::result::Result<(), ()> {
                 #do_visitor
             }
         }
@@ -166,7 +166,12 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
                 }
             }
 
-            quote! {match self {#delegate_visit}}
+            if e.variants.is_empty() {
+                // there are no references to match on
+                quote! {match *self {}}
+            } else {
+                quote! {match self {#delegate_visit}}
+            }
         }
         Data::Union(u) => {
             quote_spanned! {
-- 
2.43.0


From 2350ea83b495e5f560d3a452ce573fef9e042236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:39 +0000
Subject: [PATCH 16/19] fix: hand over what destructors left behind when a
 collection ends

A collection run by one thread may drop the last outside reference to a
cycle whose owner is waiting in collect(). The cycle then stayed in the
collecting thread's own dumpster, so the waiting thread did not collect
it. Deliver the dumpster before the collection lock is released.
---
 dumpster/src/sync/collect.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index c552b1e..ae0f49a 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -384,6 +384,8 @@ impl CleaningGuard {
 
 impl Drop for CleaningGuard {
     fn drop(&mut self) {
+        // other threads may be waiting for us to collect what our destructors left behind
+        with_dumpster(|d| d.deliver_to(&GARBAGE_TRUCK));
         CLEANING.with(|c| c.set(false));
     }
 }
-- 
2.43.0


From 272f4abcd304c7b3efd53c8e3cf159b132405be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:29 +0000
Subject: [PATCH 17/19] fix: read the newest strong count while collecting

The collector compared a plain load of the strong count with the pointers
it found. On weakly ordered hardware such a load may miss a clone made by
another thread just before the collection began, and the collector then
destroyed an allocation still in use. Read it with a read-modify-write,
which always sees the newest value.
---
 dumpster/src/sync/collect.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index ae0f49a..39d72cb 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -438,7 +438,8 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
         box_ref.weak.fetch_sub(1, Ordering::Release);
         return;
     };
-    let strong_count = box_ref.strong.load(Ordering::Acquire);
+    // read-modify-write, since a plain load could miss `Gc`s which other threads just made
+    let strong_count = box_ref.strong.fetch_add(0, Ordering::AcqRel);
     v.insert(AllocationInfo {
         ptr,
         weak_drop_fn: drop_weak_zero::<T>,
@@ -525,7 +526,7 @@ impl<'a> Visitor for Dfs<'a> {
             },
             Entry::Vacant(v) => {
                 // This allocation has never been visited by the reference graph builder
-                let strong_count = box_ref.strong.load(Ordering::Acquire);
+                let strong_count = box_ref.strong.fetch_add(0, Ordering::AcqRel);
                 box_ref.weak.fetch_add(1, Ordering::Acquire);
                 v.insert(AllocationInfo {
                     ptr: Erased::new(ptr),
-- 
2.43.0


From cc5e73aba874ed8f71b0413b6ace0dd27aa28448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:52 +0000
Subject: [PATCH 18/19] fix: let the derive macro work on structs that other
 macros write

The generated calls used the span of each field, so that self and visitor
were looked up where the field was written. If a macro passes on a field
name or type from its caller, they were not found and the derive did not
compile. Keep the location for error messages, but resolve names at the
call site.
---
 dumpster_derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dumpster_derive/src/lib.rs b/dumpster_derive/src/lib.rs
index f378c76..379737a 100644
--- a/dumpster_derive/src/lib.rs
+++ b/dumpster_derive/src/lib.rs
@@ -11,7 +11,7 @@
 #![warn(clippy::cargo)]
 #![allow(clippy::multiple_crate_versions)]
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
 use syn::{
     parse_macro_input, parse_quote, spanned::Spanned, Data, DeriveInput, Fields, GenericParam,
@@ -61,7 +61,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             Fields::Named(ref f) => {
                 let delegate_visit = f.named.iter().map(|f| {
                     let name = &f.ident;
-                    quote_spanned! {f.span() =>
+                    quote_spanned! {f.span().resolved_at(Span::call_site()) =>
                         dumpster::Collectable::accept(
                             &self.#name,
                             visitor
@@ -74,7 +74,7 @@ fn delegate_methods(name: &Ident, data: &Data) -> TokenStream {
             Fields::Unnamed(ref f) => {
                 let delegate_visit = f.unnamed.iter().enumerate().map(|(i, f)| {
                     let index = Index::from(i);
-                    quote_spanned! {f.span() =>
+                    quote_spanned! {f.span().resolved_at(Span::call_site()) =>
                         dumpster::Collectable::accept(
                             &self.#index,
                             visitor
-- 
2.43.0


From 006b4ff3a1990da45f267f750be6ed11e2285a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:42:33 +0000
Subject: [PATCH 19/19] fix: do not overflow the stack when collecting long
 chains

Collections followed pointers by recursion, one or more stack frames per
allocation. A garbage linked list of some ten thousand nodes therefore
aborted the process. Keep the allocations still to be visited in a vector
instead, in both collectors.
---
 dumpster/src/sync/collect.rs   | 63 ++++++++++++++++++----------------
 dumpster/src/unsync/collect.rs | 26 ++++++++++++--
 2 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/dumpster/src/sync/collect.rs b/dumpster/src/sync/collect.rs
index 39d72cb..05fa0a2 100644
--- a/dumpster/src/sync/collect.rs
+++ b/dumpster/src/sync/collect.rs
@@ -12,7 +12,7 @@ use std::{
     alloc::{dealloc, Layout},
     cell::{Cell, RefCell},
     collections::hash_map::Entry,
-    mem::{replace, swap, take, transmute},
+    mem::{replace, take, transmute},
     ptr::{drop_in_place, NonNull},
 };
 
@@ -452,18 +452,30 @@ unsafe fn dfs<T: Collectable + Send + Sync + ?Sized>(
         },
     });
 
-    if box_ref
-        .value
-        .accept(&mut Dfs {
-            ref_graph,
-            current_id: starting_id,
-        })
-        .is_err()
+    let mut dfs = Dfs {
+        ref_graph,
+        current_id: starting_id,
+        todo: vec![(ptr, visit_children::<T>)],
+    };
+    while let Some((ptr, visit_fn)) = dfs.todo.pop() {
+        visit_fn(ptr, &mut dfs);
+    }
+}
+
+/// Make note of the allocations which are directly accessible from the one described in `ptr`.
+///
+/// # Safety
+///
+/// `ptr` must have been created as a pointer to a `GcBox<T>`.
+unsafe fn visit_children<T: Collectable + Send + Sync + ?Sized>(ptr: Erased, dfs: &mut Dfs<'_>) {
+    let box_ref = unsafe { ptr.specify::<GcBox<T>>().as_ref() };
+    dfs.current_id = AllocationId::from(box_ref);
+    if box_ref.value.accept(dfs).is_err()
         || box_ref.generation.load(Ordering::Acquire) >= CURRENT_TAG.load(Ordering::Relaxed)
     {
         // box_ref.value was accessed while we worked
         // mark this allocation as reachable
-        mark(starting_id, ref_graph);
+        mark(dfs.current_id, dfs.ref_graph);
     }
 }
 
@@ -476,6 +488,9 @@ struct Dfs<'a> {
     /// The allocation ID currently being visited.
     /// Used for knowing which node is the parent of another.
     current_id: AllocationId,
+    /// The allocations which have been found, but not visited yet.
+    /// (There can be more of them in a row than fit on the stack.)
+    todo: Vec<(Erased, unsafe fn(Erased, &mut Dfs<'a>))>,
 }
 
 impl<'a> Visitor for Dfs<'a> {
@@ -498,7 +513,7 @@ impl<'a> Visitor for Dfs<'a> {
             return;
         }
 
-        let mut new_id = AllocationId::from(box_ref);
+        let new_id = AllocationId::from(box_ref);
 
         let Reachability::Unknown {
             ref mut children, ..
@@ -539,20 +554,7 @@ impl<'a> Visitor for Dfs<'a> {
                         destroy_fn: destroy_erased::<T>,
                     },
                 });
-
-                // Save the previously visited ID, then carry on to the next one
-                swap(&mut new_id, &mut self.current_id);
-
-                if box_ref.value.accept(self).is_err()
-                    || box_ref.generation.load(Ordering::Acquire) >= current_tag
-                {
-                    // On failure, this means `**gc` is accessible, and should be marked
-                    // as such
-                    mark(self.current_id, self.ref_graph);
-                }
-
-                // Restore current_id and carry on
-                swap(&mut new_id, &mut self.current_id);
+                self.todo.push((Erased::new(ptr), visit_children::<T>));
             }
         };
     }
@@ -568,12 +570,13 @@ impl<'a> Visitor for Dfs<'a> {
 /// Traverse the reference graph, marking `root` and any allocations reachable from `root` as
 /// reachable.
 fn mark(root: AllocationId, graph: &mut HashMap<AllocationId, AllocationInfo>) {
-    let node = graph.get_mut(&root).unwrap();
-    if let Reachability::Unknown { children, .. } =
-        replace(&mut node.reachability, Reachability::Reachable)
-    {
-        for child in children {
-            mark(child, graph);
+    let mut todo = vec![root];
+    while let Some(id) = todo.pop() {
+        let node = graph.get_mut(&id).unwrap();
+        if let Reachability::Unknown { children, .. } =
+            replace(&mut node.reachability, Reachability::Reachable)
+        {
+            todo.extend(children);
         }
     }
 }
diff --git a/dumpster/src/unsync/collect.rs b/dumpster/src/unsync/collect.rs
index 3a99e33..f878873 100644
--- a/dumpster/src/unsync/collect.rs
+++ b/dumpster/src/unsync/collect.rs
@@ -135,16 +135,21 @@ impl Dumpster {
                 visited: HashSet::with_capacity(to_collect.len()),
                 ref_graph: HashMap::with_capacity(to_collect.len()),
                 inaccessible: HashSet::new(),
+                todo: Vec::new(),
             };
 
             for (k, v) in &to_collect {
                 if dfs.visited.insert(*k) {
                     (v.dfs_fn)(v.ptr, &mut dfs);
+                    while let Some((ptr, dfs_fn)) = dfs.todo.pop() {
+                        dfs_fn(ptr, &mut dfs);
+                    }
                 }
             }
 
             let mut mark = Mark {
                 visited: HashSet::with_capacity(dfs.visited.len()),
+                todo: Vec::new(),
             };
             for (id, reachability) in dfs.ref_graph.iter().filter(|(id, reachability)| {
                 reachability.n_unaccounted != 0 || dfs.inaccessible.contains(id)
@@ -162,12 +167,17 @@ impl Dumpster {
                 (cleanup.mark_fn)(cleanup.ptr, &mut mark);
             }
 
+            while let Some((ptr, mark_fn)) = mark.todo.pop() {
+                mark_fn(ptr, &mut mark);
+            }
+
             dfs.visited.clear();
             let mut decrementer = DropAlloc {
                 visited: dfs.visited,
                 reachable: &mark.visited,
                 unreachable: Vec::new(),
                 n_killed: 0,
+                todo: Vec::new(),
             };
 
             for cleanup in to_collect
@@ -176,6 +186,9 @@ impl Dumpster {
             {
                 (cleanup.drop_fn)(cleanup.ptr, &mut decrementer);
             }
+            while let Some((ptr, drop_fn)) = decrementer.todo.pop() {
+                drop_fn(ptr, &mut decrementer);
+            }
             self.n_refs_living.set(
                 self.n_refs_living
                     .get()
@@ -241,6 +254,9 @@ struct Dfs {
     ref_graph: HashMap<AllocationId, Reachability>,
     /// The set of allocations which could not be fully visited, and so must not be dropped.
     inaccessible: HashSet<AllocationId>,
+    /// The allocations which have been found, but not looked into yet.
+    /// (There can be more of them in a row than fit on the stack.)
+    todo: Vec<(Erased, unsafe fn(Erased, &mut Dfs))>,
 }
 
 /// Build out the reference graph from some erased pointer.
@@ -297,7 +313,7 @@ impl Visitor for Dfs {
             }
         }
         if self.visited.insert(next_id) {
-            unsafe { dfs::<T>(Erased::new(ptr), self) };
+            self.todo.push((Erased::new(ptr), dfs::<T>));
         }
     }
 }
@@ -306,6 +322,8 @@ impl Visitor for Dfs {
 struct Mark {
     /// The set of allocations which have been marked as reachable.
     visited: HashSet<AllocationId>,
+    /// The allocations which have been marked, but whose descendants have not.
+    todo: Vec<(Erased, unsafe fn(Erased, &mut Mark))>,
 }
 
 impl Visitor for Mark {
@@ -325,7 +343,7 @@ impl Visitor for Mark {
             return; // dead `Gc`s, which a destructor left somewhere, own nothing
         };
         if self.visited.insert(AllocationId::from(ptr)) {
-            let _ = unsafe { ptr.as_ref().value.accept(self) };
+            self.todo.push((Erased::new(ptr), apply_visitor::<T, Mark>));
         }
     }
 }
@@ -340,6 +358,8 @@ struct DropAlloc<'a> {
     unreachable: Vec<Unreachable>,
     /// The number of `Gc`s killed.
     n_killed: usize,
+    /// The unreachable allocations whose `Gc`s have not been killed yet.
+    todo: Vec<(Erased, unsafe fn(Erased, &mut DropAlloc<'a>))>,
 }
 
 /// An unreachable allocation, to which no living `Gc`s exist any more.
@@ -378,7 +398,7 @@ impl Visitor for DropAlloc<'_> {
         }
         gc.ptr.set(gc.ptr.get().as_null());
         self.n_killed += 1;
-        unsafe { drop_assist::<T>(Erased::new(ptr), self) };
+        self.todo.push((Erased::new(ptr), drop_assist::<T>));
     }
 }
 
-- 
2.43.0

