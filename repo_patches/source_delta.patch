From 8b8121b5d3e0adae1538a7110c75585aae6aadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/40] verif hook: scheduler-aware sync shim for monomap under
 cfg(goko_verif)

---
 goko/src/lib.rs                |   3 +
 goko/src/monomap/mod.rs        |   8 +-
 goko/src/monomap/read.rs       |  10 +-
 goko/src/monomap/verif_sync.rs | 327 +++++++++++++++++++++++++++++++++
 goko/src/monomap/write.rs      |  11 +-
 5 files changed, 352 insertions(+), 7 deletions(-)
 create mode 100644 goko/src/monomap/verif_sync.rs

diff --git a/goko/src/lib.rs b/goko/src/lib.rs
index de63f6f..cbdff4d 100644
--- a/goko/src/lib.rs
+++ b/goko/src/lib.rs
@@ -63,7 +63,10 @@ use pointcloud::*;
 pub mod errors;
 pub use errors::GokoResult;
 
+#[cfg(not(goko_verif))]
 pub(crate) mod monomap;
+#[cfg(goko_verif)]
+pub mod monomap;
 
 mod covertree;
 pub use covertree::*;
diff --git a/goko/src/monomap/mod.rs b/goko/src/monomap/mod.rs
index 23acc51..6c9bdd7 100644
--- a/goko/src/monomap/mod.rs
+++ b/goko/src/monomap/mod.rs
@@ -25,7 +25,13 @@
 //! concurrency with updates rather than memory efficency. Ideally if your type has any large vectors you'd partner
 //! this with a multimap to store the vector, and keep the complex logic on this structure.
 
-use std::sync::{atomic, Arc, Mutex};
+#[cfg(not(goko_verif))]
+use std::sync;
+#[cfg(goko_verif)]
+pub mod verif_sync;
+use sync::{atomic, Arc, Mutex};
+#[cfg(goko_verif)]
+use verif_sync as sync;
 
 mod inner;
 
diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index 33c5fc5..f1614f9 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -8,9 +8,13 @@ use std::hash::{BuildHasher, Hash};
 use std::iter::{self, FromIterator};
 use std::marker::PhantomData;
 use std::mem;
-use std::sync::atomic;
-use std::sync::atomic::AtomicPtr;
-use std::sync::{self, Arc};
+#[cfg(not(goko_verif))]
+use std::sync;
+
+#[cfg(goko_verif)]
+use super::verif_sync as sync;
+use sync::atomic::{self, AtomicPtr};
+use sync::Arc;
 
 /// A handle that may be used to read from the eventually consistent map.
 ///
diff --git a/goko/src/monomap/verif_sync.rs b/goko/src/monomap/verif_sync.rs
new file mode 100644
index 0000000..30d81e1
--- /dev/null
+++ b/goko/src/monomap/verif_sync.rs
@@ -0,0 +1,327 @@
+//! Verification-only stand-ins for the synchronisation primitives the map is built on. This module only
+//! exists when the crate is compiled with `--cfg goko_verif`; the normal build uses `std` directly.
+//!
+//! Every primitive first offers control to an installed scheduler, so that a test driver can explore
+//! interleavings of the real code. Without a scheduler they behave exactly like their `std` counterparts.
+//! Plain (non sequentially consistent) stores made by a scheduled thread may sit in that thread's store
+//! buffer until a fence, a read-modify-write, a lock operation or the scheduler flushes it.
+
+pub use std::sync::Arc;
+use std::cell::RefCell;
+use std::sync::atomic::AtomicUsize as RawUsize;
+use std::sync::atomic::Ordering as RawOrdering;
+
+/// What a scheduled thread is about to do.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Point {
+    /// An atomic load
+    Load,
+    /// An atomic store
+    Store,
+    /// An atomic read-modify-write
+    Rmw,
+    /// A memory fence
+    Fence,
+    /// Taking, or failing to take, a mutex
+    Lock,
+    /// A voluntary yield
+    Yield,
+    /// A point placed by the test driver
+    User,
+}
+
+/// Called before each primitive operation. A return value of true flushes the calling thread's store buffer.
+pub type SchedulerHook = fn(Point) -> bool;
+/// Called before a buffered store: true if the store should stay in the store buffer for now.
+pub type BufferHook = fn() -> bool;
+
+static SCHEDULER: RawUsize = RawUsize::new(0);
+static BUFFERER: RawUsize = RawUsize::new(0);
+
+type Pending = (usize, usize, unsafe fn(usize, usize));
+
+thread_local! {
+    static BUFFER: RefCell<Vec<Pending>> = RefCell::new(Vec::new());
+}
+
+/// Installs (or with `None` removes) the hooks.
+pub fn install(hooks: Option<(SchedulerHook, BufferHook)>) {
+    match hooks {
+        Some((s, b)) => {
+            BUFFERER.store(b as usize, RawOrdering::SeqCst);
+            SCHEDULER.store(s as usize, RawOrdering::SeqCst);
+        }
+        None => {
+            SCHEDULER.store(0, RawOrdering::SeqCst);
+            BUFFERER.store(0, RawOrdering::SeqCst);
+        }
+    }
+}
+
+/// Offers control to the scheduler.
+#[inline]
+pub fn point(p: Point) {
+    let s = SCHEDULER.load(RawOrdering::SeqCst);
+    if s != 0 {
+        let hook: SchedulerHook = unsafe { std::mem::transmute(s) };
+        if hook(p) {
+            flush();
+        }
+    }
+}
+
+/// Makes all buffered stores of this thread visible, oldest first.
+pub fn flush() {
+    let _ = BUFFER.try_with(|b| {
+        for (addr, val, write) in b.borrow_mut().drain(..) {
+            unsafe { write(addr, val) }
+        }
+    });
+}
+
+fn wants_buffer() -> bool {
+    let s = BUFFERER.load(RawOrdering::SeqCst);
+    if s == 0 {
+        return false;
+    }
+    let hook: BufferHook = unsafe { std::mem::transmute(s) };
+    hook()
+}
+
+fn buffered(addr: usize) -> Option<usize> {
+    BUFFER
+        .try_with(|b| {
+            b.borrow()
+                .iter()
+                .rev()
+                .find(|(a, _, _)| *a == addr)
+                .map(|(_, v, _)| *v)
+        })
+        .unwrap_or(None)
+}
+
+/// Atomics
+pub mod atomic {
+    use super::{buffered, flush, point, wants_buffer, Point, BUFFER};
+    pub use std::sync::atomic::Ordering;
+    use std::sync::atomic as raw;
+
+    unsafe fn write_word(addr: usize, val: usize) {
+        (*(addr as *const raw::AtomicUsize)).store(val, Ordering::SeqCst)
+    }
+
+    fn store_word(cell: &raw::AtomicUsize, val: usize, order: Ordering) {
+        point(Point::Store);
+        if order != Ordering::SeqCst && wants_buffer() {
+            BUFFER.with(|b| {
+                b.borrow_mut()
+                    .push((cell as *const _ as usize, val, write_word))
+            });
+        } else {
+            flush();
+            cell.store(val, order);
+        }
+    }
+
+    fn load_word(cell: &raw::AtomicUsize, order: Ordering) -> usize {
+        point(Point::Load);
+        match buffered(cell as *const _ as usize) {
+            Some(v) => v,
+            None => cell.load(order),
+        }
+    }
+
+    fn rmw() {
+        point(Point::Rmw);
+        flush();
+    }
+
+    /// See `std::sync::atomic::fence`
+    pub fn fence(order: Ordering) {
+        point(Point::Fence);
+        if order == Ordering::SeqCst {
+            flush();
+        }
+        raw::fence(order);
+    }
+
+    /// See `std::sync::atomic::AtomicUsize`
+    #[derive(Debug, Default)]
+    pub struct AtomicUsize(raw::AtomicUsize);
+
+    impl AtomicUsize {
+        /// See std
+        pub const fn new(v: usize) -> Self {
+            AtomicUsize(raw::AtomicUsize::new(v))
+        }
+        /// See std
+        pub fn load(&self, order: Ordering) -> usize {
+            load_word(&self.0, order)
+        }
+        /// See std
+        pub fn store(&self, val: usize, order: Ordering) {
+            store_word(&self.0, val, order)
+        }
+        /// See std
+        pub fn swap(&self, val: usize, order: Ordering) -> usize {
+            rmw();
+            self.0.swap(val, order)
+        }
+        /// See std
+        pub fn fetch_add(&self, val: usize, order: Ordering) -> usize {
+            rmw_weak(order);
+            self.0.fetch_add(val, order)
+        }
+        /// See std
+        pub fn fetch_sub(&self, val: usize, order: Ordering) -> usize {
+            rmw_weak(order);
+            self.0.fetch_sub(val, order)
+        }
+        /// See std
+        pub fn fetch_or(&self, val: usize, order: Ordering) -> usize {
+            rmw();
+            self.0.fetch_or(val, order)
+        }
+        /// See std
+        pub fn fetch_and(&self, val: usize, order: Ordering) -> usize {
+            rmw();
+            self.0.fetch_and(val, order)
+        }
+        /// See std
+        pub fn compare_exchange(
+            &self,
+            current: usize,
+            new: usize,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<usize, usize> {
+            rmw();
+            self.0.compare_exchange(current, new, success, failure)
+        }
+        /// See std
+        pub fn get_mut(&mut self) -> &mut usize {
+            self.0.get_mut()
+        }
+        /// See std
+        pub fn into_inner(self) -> usize {
+            self.0.into_inner()
+        }
+    }
+
+    // Counters private to one thread are bumped with relaxed read-modify-writes; they order nothing.
+    fn rmw_weak(order: Ordering) {
+        point(Point::Rmw);
+        if order != Ordering::Relaxed {
+            flush();
+        }
+    }
+
+    /// See `std::sync::atomic::AtomicPtr`
+    #[derive(Debug)]
+    pub struct AtomicPtr<T>(raw::AtomicPtr<T>);
+
+    impl<T> AtomicPtr<T> {
+        /// See std
+        pub const fn new(p: *mut T) -> Self {
+            AtomicPtr(raw::AtomicPtr::new(p))
+        }
+        fn word(&self) -> &raw::AtomicUsize {
+            // the two atomics have the same in-memory representation as a word
+            unsafe { &*(&self.0 as *const raw::AtomicPtr<T> as *const raw::AtomicUsize) }
+        }
+        /// See std
+        pub fn load(&self, order: Ordering) -> *mut T {
+            load_word(self.word(), order) as *mut T
+        }
+        /// See std
+        pub fn store(&self, p: *mut T, order: Ordering) {
+            store_word(self.word(), p as usize, order)
+        }
+        /// See std
+        pub fn swap(&self, p: *mut T, order: Ordering) -> *mut T {
+            rmw();
+            self.0.swap(p, order)
+        }
+        /// See std
+        pub fn compare_exchange(
+            &self,
+            current: *mut T,
+            new: *mut T,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<*mut T, *mut T> {
+            rmw();
+            self.0.compare_exchange(current, new, success, failure)
+        }
+        /// See std
+        pub fn get_mut(&mut self) -> &mut *mut T {
+            self.0.get_mut()
+        }
+    }
+}
+
+/// A mutex that spins on the scheduler instead of blocking the thread.
+#[derive(Debug, Default)]
+pub struct Mutex<T: ?Sized>(std::sync::Mutex<T>);
+
+/// See `std::sync::MutexGuard`
+#[derive(Debug)]
+pub struct MutexGuard<'a, T: ?Sized>(std::sync::MutexGuard<'a, T>);
+
+impl<T> Mutex<T> {
+    /// See std
+    pub const fn new(t: T) -> Self {
+        Mutex(std::sync::Mutex::new(t))
+    }
+
+    /// See std
+    pub fn lock(&self) -> std::sync::LockResult<MutexGuard<'_, T>> {
+        point(Point::Lock);
+        if SCHEDULER.load(RawOrdering::SeqCst) == 0 {
+            return match self.0.lock() {
+                Ok(g) => Ok(MutexGuard(g)),
+                Err(e) => Err(std::sync::PoisonError::new(MutexGuard(e.into_inner()))),
+            };
+        }
+        loop {
+            match self.0.try_lock() {
+                Ok(g) => return Ok(MutexGuard(g)),
+                Err(std::sync::TryLockError::Poisoned(e)) => {
+                    return Err(std::sync::PoisonError::new(MutexGuard(e.into_inner())))
+                }
+                Err(std::sync::TryLockError::WouldBlock) => {
+                    point(Point::Yield);
+                    std::thread::yield_now();
+                }
+            }
+        }
+    }
+}
+
+impl<'a, T: ?Sized> std::ops::Deref for MutexGuard<'a, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        &self.0
+    }
+}
+
+impl<'a, T: ?Sized> std::ops::DerefMut for MutexGuard<'a, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        &mut self.0
+    }
+}
+
+impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
+    fn drop(&mut self) {
+        flush();
+    }
+}
+
+/// The part of `std::thread` the map uses
+pub mod thread {
+    /// See std
+    pub fn yield_now() {
+        super::point(super::Point::Yield);
+        std::thread::yield_now();
+    }
+}
diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index b67abac..0ba542b 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -4,9 +4,14 @@ use crate::monomap::read::MonoReadHandle;
 
 use fxhash::FxBuildHasher;
 use std::hash::{BuildHasher, Hash};
-use std::sync::atomic;
-use std::sync::{Arc, MutexGuard};
-use std::{mem, thread};
+use std::mem;
+#[cfg(not(goko_verif))]
+use std::{sync, thread};
+
+#[cfg(goko_verif)]
+use super::verif_sync::{self as sync, thread};
+use sync::atomic;
+use sync::{Arc, MutexGuard};
 
 pub struct MonoWriteHandle<K, V, M = (), S = FxBuildHasher>
 where
-- 
2.43.0


From 7edba7335178e0a82f52d2d84cdd858ccf6c69cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:55 +0000
Subject: [PATCH 02/40] fix: keep the root's scale index at or above
 min_res_index

Building a tree over identical points, or over a cloud whose diameter is below
base^min_res_index, computed a root scale below the lowest layer and panicked.
---
 goko/src/covertree/builders.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 5dd3945..2afed80 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -58,7 +58,12 @@ impl BuilderNode {
                 CoveredData::FirstCoveredData(FirstCoveredData::new::<D>(&parameters.point_cloud)?)
             }
         };
-        let scale_index = (covered.max_distance()).log(parameters.scale_base).ceil() as i32;
+        // Degenerate clouds (a single point, identical points, or a diameter below the resolution) have no
+        // meaningful scale, the root still has to live on one of the tree's layers.
+        let scale_index = max(
+            (covered.max_distance()).log(parameters.scale_base).ceil() as i32,
+            parameters.min_res_index,
+        );
         Ok(BuilderNode {
             parent_address: None,
             scale_index,
-- 
2.43.0


From 68f2fa4141d1985092a3c364b3ff856749fc7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:34 +0000
Subject: [PATCH 03/40] fix: routing_knn no longer stops when the nearest
 unvisited node is a leaf

---
 goko/src/covertree/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 582709c..644a18f 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -326,6 +326,7 @@ impl<D: PointCloud> CoverTreeReader<D> {
         while let Some((dist, nearest_address)) =
             query_heap.closest_unvisited_child_covering_address()
         {
+            did_something = true;
             if self
                 .get_node_and(nearest_address, |n| n.is_leaf())
                 .unwrap_or(true)
@@ -336,7 +337,6 @@ impl<D: PointCloud> CoverTreeReader<D> {
                     n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
                 });
             }
-            did_something = true;
         }
         did_something
     }
-- 
2.43.0


From 34a791fd01e16cf454057ca0be610ca2bda4c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:34 +0000
Subject: [PATCH 04/40] fix: a knn query for more neighbours than fit in memory
 no longer aborts

---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index c579692..2d8486c 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -195,7 +195,7 @@ impl KnnQueryHeap {
 
     /// Unpacks the distance heap. This consumes the query heap.
     pub fn unpack(mut self) -> Vec<(f32, usize)> {
-        let mut result = Vec::with_capacity(self.k);
+        let mut result = Vec::with_capacity(self.dist_heap.len());
         while let Some(el) = self.dist_heap.pop() {
             result.push((el.dist, el.index));
         }
-- 
2.43.0


From 6bc5843e2f4c52c072e886e218df5bc1f9071188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:35 +0000
Subject: [PATCH 05/40] fix: dropping the map's writer waits for readers that
 came after the last refresh

---
 goko/src/monomap/write.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index 0ba542b..251d98b 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -82,14 +82,19 @@ where
             .inner
             .swap(ptr::null_mut(), atomic::Ordering::Release);
 
-        // now, wait for all readers to depart
+        // ensure that the subsequent epoch reads aren't re-ordered to before the swap
+        atomic::fence(atomic::Ordering::SeqCst);
+
+        // now, wait for all readers to depart. the epochs recorded at the last refresh say nothing
+        // about readers that have arrived since, so we have to look again.
         let epochs = Arc::clone(&self.epochs);
         let mut epochs = epochs.lock().unwrap();
+        self.last_epochs.resize(epochs.len(), 0);
+        for (i, epoch) in epochs.iter().enumerate() {
+            self.last_epochs[i] = epoch.load(atomic::Ordering::Acquire);
+        }
         self.wait(&mut epochs);
 
-        // ensure that the subsequent epoch reads aren't re-ordered to before the swap
-        atomic::fence(atomic::Ordering::SeqCst);
-
         let w_handle = &mut self.w_handle.as_mut().unwrap().data;
 
         #[cfg(not(feature = "indexed"))]
-- 
2.43.0


From 1e08d468ad3b66cedaaffd9829b9b3f7b9033f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:35 +0000
Subject: [PATCH 06/40] fix: a read inside another read on one handle no longer
 ends the outer one

---
 goko/src/monomap/read.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/goko/src/monomap/read.rs b/goko/src/monomap/read.rs
index f1614f9..b468453 100644
--- a/goko/src/monomap/read.rs
+++ b/goko/src/monomap/read.rs
@@ -31,6 +31,9 @@ where
     epoch: sync::Arc<sync::atomic::AtomicUsize>,
     my_epoch: sync::atomic::AtomicUsize,
 
+    // The number of reads through this handle that are in progress, one inside the other.
+    depth: cell::Cell<usize>,
+
     // Since a `MonoReadHandle` keeps track of its own epoch, it is not safe for multiple threads to
     // call `with_handle` at the same time. We *could* keep it `Sync` and make `with_handle`
     // require `&mut self`, but that seems overly excessive. It would also mean that all other
@@ -121,6 +124,7 @@ where
             epochs,
             epoch,
             my_epoch: atomic::AtomicUsize::new(0),
+            depth: cell::Cell::new(0),
             inner,
             _not_sync_no_feature: PhantomData,
         }
@@ -173,9 +177,17 @@ where
         //
         // in all cases, using a pointer we read *after* updating our epoch is safe.
 
-        // so, update our epoch tracker.
-        let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
-        self.epoch.store(epoch + 1, atomic::Ordering::Release);
+        // so, update our epoch tracker. a read inside another one on this handle is already covered
+        // by the outer one, and must leave the epoch alone until that one is finished.
+        let depth = self.depth.get();
+        let epoch = if depth == 0 {
+            let epoch = self.my_epoch.fetch_add(1, atomic::Ordering::Relaxed);
+            self.epoch.store(epoch + 1, atomic::Ordering::Release);
+            epoch
+        } else {
+            self.my_epoch.load(atomic::Ordering::Relaxed) - 1
+        };
+        self.depth.set(depth + 1);
 
         // ensure that the pointer read happens strictly after updating the epoch
         atomic::fence(atomic::Ordering::SeqCst);
@@ -184,16 +196,23 @@ where
         let r_handle = self.inner.load(atomic::Ordering::Acquire);
 
         // add a guard to ensure we restore read parity even if we panic
-        struct RestoreParity<'a>(&'a sync::Arc<sync::atomic::AtomicUsize>, usize);
+        struct RestoreParity<'a>(
+            &'a sync::Arc<sync::atomic::AtomicUsize>,
+            usize,
+            &'a cell::Cell<usize>,
+        );
         impl<'a> Drop for RestoreParity<'a> {
             fn drop(&mut self) {
-                self.0.store(
-                    (self.1 + 1) | 1usize << (mem::size_of::<usize>() * 8 - 1),
-                    atomic::Ordering::Release,
-                );
+                self.2.set(self.2.get() - 1);
+                if self.2.get() == 0 {
+                    self.0.store(
+                        (self.1 + 1) | 1usize << (mem::size_of::<usize>() * 8 - 1),
+                        atomic::Ordering::Release,
+                    );
+                }
             }
         }
-        let _guard = RestoreParity(&self.epoch, epoch);
+        let _guard = RestoreParity(&self.epoch, epoch, &self.depth);
 
         // and finally, call the provided handler function
         unsafe { r_handle.as_ref().map(f) }
-- 
2.43.0


From 95c51f774e554cc5a73cfe4fbc04e52657b4d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:35 +0000
Subject: [PATCH 07/40] fix: flush publishes operations made before the first
 refresh

---
 goko/src/monomap/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/goko/src/monomap/write.rs b/goko/src/monomap/write.rs
index 251d98b..9e2098f 100644
--- a/goko/src/monomap/write.rs
+++ b/goko/src/monomap/write.rs
@@ -274,7 +274,8 @@ where
     /// `MonoWriteHandle::refresh` will *always* wait for old readers to depart and swap the maps.
     /// This method will only do so if there are pending operations.
     pub fn flush(&mut self) -> &mut Self {
-        if !self.pending().is_empty() {
+        // before the first refresh operations are applied directly and never show up as pending
+        if self.first || !self.pending().is_empty() {
             self.refresh();
         }
 
-- 
2.43.0


From f44f4d876d02139cc6f85dafd3d2d39fd94585d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:53 +0000
Subject: [PATCH 08/40] fix: a build over a cloud that fails to deliver a point
 returns the error

---
 goko/src/covertree/builders.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 2afed80..6b0be04 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -87,12 +87,16 @@ impl BuilderNode {
             let (si, pi) = self.address();
             match self.split(&parameters) {
                 Ok((new_node, mut new_nodes)) => {
-                    node_sender.send(Ok((si, pi, new_node))).unwrap();
-                    while let Some(node) = new_nodes.pop() {
-                        node.split_parallel(&parameters, &node_sender);
+                    // The receiver is gone if the build was given up because of an earlier error.
+                    if node_sender.send(Ok((si, pi, new_node))).is_ok() {
+                        while let Some(node) = new_nodes.pop() {
+                            node.split_parallel(&parameters, &node_sender);
+                        }
                     }
                 }
-                Err(e) => node_sender.send(Err(e)).unwrap(),
+                Err(e) => {
+                    let _ = node_sender.send(Err(e));
+                }
             };
         });
     }
@@ -435,7 +439,7 @@ impl CoverTreeBuilder {
         let now = Instant::now();
         loop {
             if let Ok(res) = node_receiver.recv() {
-                let (scale_index, point_index, new_node) = res.unwrap();
+                let (scale_index, point_index, new_node) = res?;
                 for singleton in new_node.singletons() {
                     cover_tree
                         .final_addresses
-- 
2.43.0


From 6f526bc1aec62fc120121a7aa4cb878787a70dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:10 +0000
Subject: [PATCH 09/40] fix: builder YAML files may give an integer scale_base
 and the rng_seed is read from its own key

---
 goko/src/covertree/builders.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/goko/src/covertree/builders.rs b/goko/src/covertree/builders.rs
index 6b0be04..9318f8e 100644
--- a/goko/src/covertree/builders.rs
+++ b/goko/src/covertree/builders.rs
@@ -348,13 +348,16 @@ impl CoverTreeBuilder {
             PartitionType::Nearest
         };
         CoverTreeBuilder {
-            scale_base: params["scale_base"].as_f64().unwrap_or(2.0) as f32,
+            scale_base: params["scale_base"]
+                .as_f64()
+                .or_else(|| params["scale_base"].as_i64().map(|i| i as f64))
+                .unwrap_or(2.0) as f32,
             leaf_cutoff: params["leaf_cutoff"].as_i64().unwrap_or(1) as usize,
             min_res_index: params["min_res_index"].as_i64().unwrap_or(-10) as i32,
             use_singletons: params["use_singletons"].as_bool().unwrap_or(true),
             partition_type,
             verbosity: params["verbosity"].as_i64().unwrap_or(2) as u32,
-            rng_seed: params["verbosity"].as_i64().map(|i| i as u64),
+            rng_seed: params["rng_seed"].as_i64().map(|i| i as u64),
         }
     }
 
-- 
2.43.0


From 1d10286d5775197bf30cf23bbdd27ea983bf4e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:21 +0000
Subject: [PATCH 10/40] fix: knn, routing_knn and known_path return the error
 of a cloud that cannot deliver a point

---
 goko/src/covertree/tree.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/goko/src/covertree/tree.rs b/goko/src/covertree/tree.rs
index 644a18f..c3fa23e 100644
--- a/goko/src/covertree/tree.rs
+++ b/goko/src/covertree/tree.rs
@@ -287,14 +287,15 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
+        self.try_greedy_knn_nodes(point, &mut query_heap)?;
 
         while let Some((_dist, address)) = query_heap.closest_unvisited_singleton_covering_address()
         {
             self.get_node_and(address, |n| {
                 n.singleton_knn(point, &self.parameters.point_cloud, &mut query_heap)
-            });
-            self.greedy_knn_nodes(point, &mut query_heap);
+            })
+            .unwrap_or(Ok(()))?;
+            self.try_greedy_knn_nodes(point, &mut query_heap)?;
         }
 
         Ok(query_heap.unpack())
@@ -311,17 +312,26 @@ impl<D: PointCloud> CoverTreeReader<D> {
         let root_center = self.parameters.point_cloud.point(self.root_address.1)?;
         let dist_to_root = D::Metric::dist(&root_center, &point);
         query_heap.push_nodes(&[self.root_address], &[dist_to_root], None);
-        self.greedy_knn_nodes(point, &mut query_heap);
+        self.try_greedy_knn_nodes(point, &mut query_heap)?;
 
-        while self.greedy_knn_nodes(point, &mut query_heap) {}
+        while self.try_greedy_knn_nodes(point, &mut query_heap)? {}
         Ok(query_heap.unpack())
     }
 
+    #[cfg(test)]
     fn greedy_knn_nodes<P: Deref<Target = D::Point> + Send + Sync>(
         &self,
         point: &P,
         query_heap: &mut KnnQueryHeap,
     ) -> bool {
+        self.try_greedy_knn_nodes(point, query_heap).unwrap()
+    }
+
+    fn try_greedy_knn_nodes<P: Deref<Target = D::Point> + Send + Sync>(
+        &self,
+        point: &P,
+        query_heap: &mut KnnQueryHeap,
+    ) -> GokoResult<bool> {
         let mut did_something = false;
         while let Some((dist, nearest_address)) =
             query_heap.closest_unvisited_child_covering_address()
@@ -335,10 +345,11 @@ impl<D: PointCloud> CoverTreeReader<D> {
             } else {
                 self.get_node_and(nearest_address, |n| {
                     n.child_knn(Some(dist), point, &self.parameters.point_cloud, query_heap)
-                });
+                })
+                .unwrap_or(Ok(()))?;
             }
         }
-        did_something
+        Ok(did_something)
     }
 
     /// # Dry Insert Query
@@ -392,11 +403,10 @@ impl<D: PointCloud> CoverTreeReader<D> {
                 let dists = self
                     .parameters
                     .point_cloud
-                    .distances_to_point_index(point_index, &point_indexes[..])
-                    .unwrap();
-                dists.iter().zip(path).map(|(d, a)| (*d, a)).collect()
+                    .distances_to_point_index(point_index, &point_indexes[..])?;
+                Ok(dists.iter().zip(path).map(|(d, a)| (*d, a)).collect())
             })
-            .ok_or(GokoError::IndexNotInTree(point_index))
+            .unwrap_or(Err(GokoError::IndexNotInTree(point_index)))
     }
 
     ///Computes the fractal dimension of a node
-- 
2.43.0


From a12fbbfaf0269d170704772e736a739591836e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:31 +0000
Subject: [PATCH 11/40] fix: bulk queries accept no inputs and arrays of any
 memory layout

---
 goko/src/query_interface/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/goko/src/query_interface/mod.rs b/goko/src/query_interface/mod.rs
index af6cd66..e7a5792 100644
--- a/goko/src/query_interface/mod.rs
+++ b/goko/src/query_interface/mod.rs
@@ -35,7 +35,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Applies the passed in fn to the passed in indexes and collects the result in a vector. Core function for this struct.
@@ -60,7 +60,7 @@ impl<D: PointCloud> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 
     /// Bulk known path
@@ -111,6 +111,8 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
         F: Fn(&CoverTreeReader<D>, &&[f32]) -> T + Send + Sync,
         T: Send + Sync,
     {
+        // The rows are handed out as slices, this copies only if they aren't contiguous.
+        let points = points.as_standard_layout();
         let indexes: Vec<usize> = (0..points.nrows()).collect();
         let point_iter = indexes.par_chunks(100);
         let reader_copies = point_iter.len();
@@ -130,7 +132,7 @@ impl<D: PointCloud<Point = [f32]>> BulkInterface<D> {
                 a.extend(x.drain(..));
                 a
             })
-            .unwrap()
+            .unwrap_or_default()
     }
 }
 
-- 
2.43.0


From a4a9034205b9280cc84e8e2d5007f1bea84ea6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:45 +0000
Subject: [PATCH 12/40] fix: merging label sets keeps every label when only one
 of them has a mask

---
 pointcloud/src/label_sources/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index e0b28e1..1d11eab 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -69,15 +69,15 @@ impl SmallIntLabels {
         match (self.mask.as_mut(), other.mask.as_ref()) {
             (Some(s_mask), Some(o_mask)) => s_mask.extend(o_mask),
             (Some(s_mask), None) => {
-                s_mask.extend(std::iter::repeat(false).take(other.labels.len()))
+                s_mask.extend(std::iter::repeat(true).take(other.labels.len()))
             }
             (None, Some(_)) => replace_mask = true,
             (None, None) => {}
         }
 
         if replace_mask {
-            let mut mask = std::iter::repeat(false)
-                .take(self.labels.len())
+            let mut mask = std::iter::repeat(true)
+                .take(self.labels.len() - other.labels.len())
                 .collect::<Vec<bool>>();
             mask.extend(other.mask.as_ref().unwrap().iter());
             self.mask = Some(mask)
-- 
2.43.0


From a649379ff1592b30d85bdcb958bd4f84da54c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:45 +0000
Subject: [PATCH 13/40] fix: the length of vector labels is their number of
 rows, so one hot labels convert

---
 pointcloud/src/label_sources/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/label_sources/mod.rs b/pointcloud/src/label_sources/mod.rs
index 1d11eab..d79c4a3 100644
--- a/pointcloud/src/label_sources/mod.rs
+++ b/pointcloud/src/label_sources/mod.rs
@@ -171,7 +171,7 @@ impl LabelSet for VecLabels {
     type LabelSummary = VecSummary;
 
     fn len(&self) -> usize {
-        self.labels.len()
+        self.labels.len() / self.label_dim
     }
     fn is_empty(&self) -> bool {
         self.labels.is_empty()
-- 
2.43.0


From 431a9b00e9120e3f24a29f9192f87e5d6fea8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:45 +0000
Subject: [PATCH 14/40] fix: vector summaries count their first label and
 combine into an empty summary

---
 pointcloud/src/summaries/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/summaries/mod.rs b/pointcloud/src/summaries/mod.rs
index 0f6c110..4669add 100644
--- a/pointcloud/src/summaries/mod.rs
+++ b/pointcloud/src/summaries/mod.rs
@@ -94,10 +94,15 @@ impl Summary for VecSummary {
             }
         } else {
             self.moment1.extend(val);
-            self.moment2.extend(val.iter().map(|x| x * x))
+            self.moment2.extend(val.iter().map(|x| x * x));
+            self.count += 1;
         }
     }
     fn combine(&mut self, other: &VecSummary) {
+        if self.moment1.is_empty() {
+            self.moment1.resize(other.moment1.len(), 0.0);
+            self.moment2.resize(other.moment2.len(), 0.0);
+        }
         self.moment1
             .iter_mut()
             .zip(&other.moment1)
-- 
2.43.0


From 480add6bb79b97ef9d91bc8abe93b53f5ae61b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 15/40] fix: a glued cloud maps names to its own indexes, and
 is empty without sources

---
 pointcloud/src/glued_data_cloud.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pointcloud/src/glued_data_cloud.rs b/pointcloud/src/glued_data_cloud.rs
index 28ef578..e420254 100644
--- a/pointcloud/src/glued_data_cloud.rs
+++ b/pointcloud/src/glued_data_cloud.rs
@@ -99,11 +99,7 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
 
     /// Total number of points in the point cloud
     fn is_empty(&self) -> bool {
-        if self.data_sources.is_empty() {
-            false
-        } else {
-            self.data_sources.iter().all(|m| m.is_empty())
-        }
+        self.data_sources.iter().all(|m| m.is_empty())
     }
 
     /// The names of the data are currently a shallow wrapper around a usize.
@@ -133,10 +129,11 @@ impl<D: PointCloud> PointCloud for HashGluedCloud<D> {
         self.data_sources[i].name(j)
     }
     fn index(&self, pn: &str) -> PointCloudResult<usize> {
-        for data_source in &self.data_sources {
-            let index = data_source.index(pn);
-            if index.is_ok() {
-                return index;
+        for (i, data_source) in self.data_sources.iter().enumerate() {
+            if let Ok(j) = data_source.index(pn) {
+                if let Some((pi, _)) = self.addresses.iter().find(|(_, a)| **a == (i, j)) {
+                    return Ok(*pi);
+                }
             }
         }
         Err(PointCloudError::UnknownName)
-- 
2.43.0


From 27c6046b7d953b9090f46d843ef4b0adf0bc3c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 16/40] fix: the CSV label 0 is a label, only negative ones are
 masked

---
 pointcloud/src/loaders/csv_loaders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index 26e31e2..c1a0a2a 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -49,7 +49,7 @@ fn read_csv<P: AsRef<Path> + std::fmt::Debug, R: Read>(
                         key: format!("Unable to read u64 from {:?}", record),
                     })
                 })?;
-                if 0 < val {
+                if 0 <= val {
                     mask.push(true);
                 } else {
                     mask.push(false);
-- 
2.43.0


From c96425be2c0a751fa54ef605d3be16339971feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 17/40] fix: the dense iterator of a sparse point goes on to
 its dimension after the last stored value

---
 pointcloud/src/points/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/points/mod.rs b/pointcloud/src/points/mod.rs
index 0a78ed1..a0a8166 100644
--- a/pointcloud/src/points/mod.rs
+++ b/pointcloud/src/points/mod.rs
@@ -65,7 +65,10 @@ where
     type Item = f32;
     fn next(&mut self) -> Option<Self::Item> {
         let dim = self.raw.dim();
-        if self.index < dim && self.sparse_index < self.raw.len {
+        if self.index < dim && self.sparse_index >= self.raw.len {
+            self.index += 1;
+            Some(0.0)
+        } else if self.index < dim {
             let raw_si = unsafe { *self.raw.indexes_ptr.add(self.sparse_index) };
 
             let si: usize = match raw_si.try_into() {
-- 
2.43.0


From bddbac025ffdc3848b25d3e13e16f79759626102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 18/40] fix: the L1 distance is the sum of absolute
 differences, not its square root

---
 pointcloud/src/metrics/l1_f32.rs  | 8 ++++----
 pointcloud/src/metrics/l1_misc.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pointcloud/src/metrics/l1_f32.rs b/pointcloud/src/metrics/l1_f32.rs
index f082650..18127f7 100644
--- a/pointcloud/src/metrics/l1_f32.rs
+++ b/pointcloud/src/metrics/l1_f32.rs
@@ -8,25 +8,25 @@ use std::ops::Deref;
 
 impl Metric<[f32]> for L1 {
     fn dist(x: &[f32], y: &[f32]) -> f32 {
-        l1_dense_f32(x.deref(), y.deref()).sqrt()
+        l1_dense_f32(x.deref(), y.deref())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u32>> for L1 {
     fn dist(x: &RawSparse<f32, u32>, y: &RawSparse<f32, u32>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u16>> for L1 {
     fn dist(x: &RawSparse<f32, u16>, y: &RawSparse<f32, u16>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
 impl<'a> Metric<RawSparse<f32, u8>> for L1 {
     fn dist(x: &RawSparse<f32, u8>, y: &RawSparse<f32, u8>) -> f32 {
-        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+        l1_sparse_f32_f32(x.indexes(), x.values(), y.indexes(), y.values())
     }
 }
 
diff --git a/pointcloud/src/metrics/l1_misc.rs b/pointcloud/src/metrics/l1_misc.rs
index f8325c8..27ebaeb 100644
--- a/pointcloud/src/metrics/l1_misc.rs
+++ b/pointcloud/src/metrics/l1_misc.rs
@@ -118,25 +118,25 @@ macro_rules! make_l1_distance {
         }
         impl Metric<[$base]> for L1 {
             fn dist(x: &[$base], y: &[$base]) -> f32 {
-                $dist_base(x.deref(), y.deref()).sqrt()
+                $dist_base(x.deref(), y.deref())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u32>> for L1 {
             fn dist(x: &RawSparse<$base, u32>, y: &RawSparse<$base, u32>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u16>> for L1 {
             fn dist(x: &RawSparse<$base, u16>, y: &RawSparse<$base, u16>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
 
         impl<'a> Metric<RawSparse<$base, u8>> for L1 {
             fn dist(x: &RawSparse<$base, u8>, y: &RawSparse<$base, u8>) -> f32 {
-                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values()).sqrt()
+                $sparse_base(x.indexes(), x.values(), y.indexes(), y.values())
             }
         }
     };
-- 
2.43.0


From 7ce288eea073454e90c6eb48a98ce408aa13e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:46 +0000
Subject: [PATCH 19/40] fix: distances over points of more than 300000
 dimensions no longer panic

---
 pointcloud/src/base_traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/base_traits.rs b/pointcloud/src/base_traits.rs
index 8ee6c1f..d64b1dc 100644
--- a/pointcloud/src/base_traits.rs
+++ b/pointcloud/src/base_traits.rs
@@ -1,7 +1,7 @@
 use std::sync::Mutex;
 
 use rayon::prelude::*;
-use std::cmp::min;
+use std::cmp::{max, min};
 use std::fmt::Debug;
 
 use std::ops::Deref;
@@ -39,7 +39,7 @@ use ndarray::{Array1, Array2};
 
 #[inline]
 fn chunk(data_dim: usize) -> usize {
-    min(300000 / data_dim, 100)
+    max(1, min(300000 / data_dim, 100))
 }
 
 /// Base trait for a point cloud
-- 
2.43.0


From e781ae063efec98426bac361c6467b883ab10726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:02 +0000
Subject: [PATCH 20/40] fix: dropping a memory map unmaps all of it, and maps
 under 4 bytes do not panic

---
 pointcloud/src/data_sources/memmapf32/unix.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointcloud/src/data_sources/memmapf32/unix.rs b/pointcloud/src/data_sources/memmapf32/unix.rs
index 0f9cb38..3a2b7dc 100644
--- a/pointcloud/src/data_sources/memmapf32/unix.rs
+++ b/pointcloud/src/data_sources/memmapf32/unix.rs
@@ -40,6 +40,7 @@ const MAP_STACK: libc::c_int = 0;
 pub struct MmapInner {
     ptr: *mut libc::c_void,
     len: usize,
+    byte_len: usize,
 }
 
 impl MmapInner {
@@ -80,6 +81,7 @@ impl MmapInner {
                 Ok(MmapInner {
                     ptr: ptr.offset(alignment as isize),
                     len: len / 4,
+                    byte_len: len,
                 })
             }
         }
@@ -216,7 +218,7 @@ impl Drop for MmapInner {
             assert!(
                 libc::munmap(
                     self.ptr.offset(-(alignment as isize)),
-                    (self.len + alignment) as libc::size_t
+                    (self.byte_len + alignment) as libc::size_t
                 ) == 0,
                 "unable to unmap mmap: {}",
                 io::Error::last_os_error()
-- 
2.43.0


From a9aaa4bd2f89c4350e28b7cc73c59b8a32afb614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:08 +0000
Subject: [PATCH 21/40] fix: a data file that does not hold whole points is
 refused instead of shifting the points that follow

---
 pointcloud/src/data_sources/memmap_ram.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pointcloud/src/data_sources/memmap_ram.rs b/pointcloud/src/data_sources/memmap_ram.rs
index 9cf6579..3b3e68a 100644
--- a/pointcloud/src/data_sources/memmap_ram.rs
+++ b/pointcloud/src/data_sources/memmap_ram.rs
@@ -63,6 +63,12 @@ impl<M> DataMemmap<M> {
             }
         };
         let data = unsafe { Mmapf32::map(&file).map_err(PointCloudError::from) }?;
+        if file.metadata()?.len() % (4 * dim as u64) != 0 {
+            return Err(ParsingError::RegularParsingError(
+                "The data file does not hold a whole number of points of the given dimension",
+            )
+            .into());
+        }
         Ok(DataMemmap {
             name,
             data,
-- 
2.43.0


From bb7a49b237b79c9fca5d8264df4cf93fc78a5041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:08 +0000
Subject: [PATCH 22/40] fix: removing a point from a diagonal Gaussian lowers
 its count

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index e7ef561..c6fa7ba 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -134,7 +134,7 @@ impl DiagGaussian {
                 .iter_mut()
                 .zip(point.dense_iter())
                 .for_each(|(m, p)| *m -= p * p);
-            self.count += 1;
+            self.count -= 1;
         }
     }
 
-- 
2.43.0


From be91781b70fae223b0a1d7326b570da028785883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:08 +0000
Subject: [PATCH 23/40] fix: nodes that no path in the window visits any more
 leave a tracker's evidence

---
 goko/src/plugins/discrete/tracker.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 3927259..de3e39a 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -96,14 +96,19 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         let mut child_address_iter = trace.iter().map(|(_, ca)| ca);
         child_address_iter.next();
         for (parent, child) in parent_address_iter.zip(child_address_iter) {
-            let parent_evidence = self.running_evidence.get_mut(parent).unwrap();
-            parent_evidence.remove_child_pop(Some(*child), 1.0);
+            self.remove_evidence(parent, Some(*child));
         }
         let last = trace.last().unwrap().1;
-        self.running_evidence
-            .get_mut(&last)
-            .unwrap()
-            .remove_child_pop(None, 1.0);
+        self.remove_evidence(&last, None);
+    }
+
+    /// Takes a single observation back, nodes without any left are not part of the evidence.
+    fn remove_evidence(&mut self, address: &NodeAddress, child: Option<NodeAddress>) {
+        let evidence = self.running_evidence.get_mut(address).unwrap();
+        evidence.remove_child_pop(child, 1.0);
+        if evidence.total() <= 0.0 {
+            self.running_evidence.remove(address);
+        }
     }
 
     /// Gives the probability vector for this
-- 
2.43.0


From 62353863a937fe2daf404f5ecf831758d14583d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:08 +0000
Subject: [PATCH 24/40] fix: appending a tracker keeps to the window and counts
 the paths once

---
 goko/src/plugins/discrete/tracker.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index de3e39a..049c0eb 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -56,9 +56,12 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
                 .and_modify(|e| e.merge(v))
                 .or_insert_with(|| v.clone());
         }
-        self.sequence_queue
-            .extend(other.sequence_queue.iter().cloned());
-        self.sequence_count += other.sequence_count;
+        self.sequence_count += other.sequence_len();
+        if self.window_size != 0 {
+            self.sequence_queue
+                .extend(other.sequence_queue.iter().cloned());
+            self.trim_to_window();
+        }
         self
     }
 
@@ -138,11 +141,15 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         self.sequence_count += 1;
         if self.window_size != 0 {
             self.sequence_queue.push_back(trace);
+            self.trim_to_window();
+        }
+    }
 
-            if self.sequence_queue.len() > self.window_size {
-                let oldest = self.sequence_queue.pop_front().unwrap();
-                self.remove_trace_from_pdfs(&oldest);
-            }
+    /// Drops the oldest paths, until the window holds the rest
+    fn trim_to_window(&mut self) {
+        while self.sequence_queue.len() > self.window_size {
+            let oldest = self.sequence_queue.pop_front().unwrap();
+            self.remove_trace_from_pdfs(&oldest);
         }
     }
 
-- 
2.43.0


From 0ea4a34f13be82d1afe0d32628e4ac7956dbd1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:45 +0000
Subject: [PATCH 25/40] fix: a baseline with a single sample answers for longer
 sequences instead of panicking

---
 goko/src/plugins/discrete/baseline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/goko/src/plugins/discrete/baseline.rs b/goko/src/plugins/discrete/baseline.rs
index b8fac9f..2a542b3 100644
--- a/goko/src/plugins/discrete/baseline.rs
+++ b/goko/src/plugins/discrete/baseline.rs
@@ -195,6 +195,9 @@ impl KLDivergenceBaseline {
             Err(index) => {
                 if index == 0 {
                     KLDivergenceBaselineStats::default()
+                } else if self.sequence_len.len() == 1 {
+                    // nothing to interpolate with
+                    self.stats[0].to_mean_var(self.num_sequences as f64)
                 } else if index == self.sequence_len.len() {
                     let stats1 = self.stats[index - 2].to_mean_var(self.num_sequences as f64);
                     let stats2 = self.stats[index - 1].to_mean_var(self.num_sequences as f64);
-- 
2.43.0


From 51e1a2adb531506d731391540a36ce5d3c537715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:03 +0000
Subject: [PATCH 26/40] fix: the divergence of categorical distributions
 compares matching children and is absent outside the support

---
 goko/src/plugins/discrete/categorical.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/goko/src/plugins/discrete/categorical.rs b/goko/src/plugins/discrete/categorical.rs
index 6761d0f..b84bf4f 100644
--- a/goko/src/plugins/discrete/categorical.rs
+++ b/goko/src/plugins/discrete/categorical.rs
@@ -134,14 +134,21 @@ impl Categorical {
         } else {
             let ln_total = my_total.ln() - other_total.ln();
             let mut sum: f64 = 0.0;
-            if self.singleton_count > 0.0 && other.singleton_count > 0.0 {
+            if self.singleton_count > 0.0 {
+                if other.singleton_count <= 0.0 {
+                    return None;
+                }
                 sum += (self.singleton_count / my_total)
                     * (self.singleton_count.ln() - other.singleton_count.ln() - ln_total);
             }
-            for ((ca, ca_count), (other_ca, other_ca_count)) in
-                self.child_counts.iter().zip(other.child_counts.iter())
-            {
-                assert_eq!(ca, other_ca);
+            for (ca, ca_count) in self.child_counts.iter().filter(|(_, c)| *c > 0.0) {
+                let other_ca_count = match other
+                    .child_counts
+                    .binary_search_by_key(ca, |&(a, _)| a)
+                {
+                    Ok(index) if other.child_counts[index].1 > 0.0 => other.child_counts[index].1,
+                    _ => return None,
+                };
                 sum += (ca_count / my_total) * (ca_count.ln() - other_ca_count.ln() - ln_total);
             }
             Some(sum)
-- 
2.43.0


From 8c3cc959ded003da91247c351b60fa29e736ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:13 +0000
Subject: [PATCH 27/40] fix: log probabilities of a Dirichlet distribution are
 given for small totals too

---
 goko/src/plugins/discrete/dirichlet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/goko/src/plugins/discrete/dirichlet.rs b/goko/src/plugins/discrete/dirichlet.rs
index 73e72be..65d4042 100644
--- a/goko/src/plugins/discrete/dirichlet.rs
+++ b/goko/src/plugins/discrete/dirichlet.rs
@@ -69,8 +69,9 @@ impl Dirichlet {
 
     /// Gives the probability vector for this
     pub fn ln_prob_vector(&self) -> Option<(Vec<(NodeAddress, f64)>, f64)> {
-        let total_ln = self.total().ln();
-        if total_ln > 1.0 {
+        let total = self.total();
+        if total > 0.0 {
+            let total_ln = total.ln();
             let v: Vec<(NodeAddress, f64)> = self
                 .child_counts
                 .iter()
-- 
2.43.0


From 505dacf2a642e086b7d556c83d28050187336f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 28/40] fix: a request body of unknown length ends when there
 is no more data instead of being polled forever

---
 serve_goko/src/parsers/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serve_goko/src/parsers/mod.rs b/serve_goko/src/parsers/mod.rs
index 86b0e28..82b39c9 100644
--- a/serve_goko/src/parsers/mod.rs
+++ b/serve_goko/src/parsers/mod.rs
@@ -53,6 +53,8 @@ impl<P: PointParser> PointBuffer<P> {
                 Poll::Ready(data) => data,
                 Poll::Pending => return Poll::Pending,
             };
+            // A body whose length isn't known up front only ends when there's no more data.
+            let ended = new_bytes.is_none();
             if let Some(new_bytes) = new_bytes {
                 match new_bytes {
                     Ok(new_bytes) => {
@@ -72,7 +74,7 @@ impl<P: PointParser> PointBuffer<P> {
                 }
             }
 
-            if body.is_end_stream() {
+            if ended || body.is_end_stream() {
                 let point_res = P::parse(this.body_buffer, this.point_buffer, this.request);
                 this.body_buffer.clear();
                 this.point_buffer.clear();
-- 
2.43.0


From f061fa6ad3eeef2554a89a133e5d1d85b8bd29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 29/40] fix: a content type that is not ASCII is refused
 instead of panicking the connection

---
 serve_goko/src/parsers/msgpack_dense.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/serve_goko/src/parsers/msgpack_dense.rs b/serve_goko/src/parsers/msgpack_dense.rs
index 6697971..67a2f2f 100644
--- a/serve_goko/src/parsers/msgpack_dense.rs
+++ b/serve_goko/src/parsers/msgpack_dense.rs
@@ -45,12 +45,11 @@ impl PointParser for MsgPackDense {
         scratch_buffer.clear();
         let mut reader = match request.headers().get(CONTENT_TYPE) {
             Some(typestr) => {
-                let token = typestr.to_str().unwrap();
-                match token {
-                    "zlib" => {
+                match typestr.as_bytes() {
+                    b"zlib" => {
                         Readers::Zlib(DeflateDecoder::new(body_buffer))
                     }
-                    "gzip" => {
+                    b"gzip" => {
                         Readers::Gzip(ZlibDecoder::new(body_buffer))
                     }
                     _ => {
-- 
2.43.0


From 4dc69a90b1a622a7d186da4637ae9c125939e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 30/40] fix: only the parameter named k sets k, and a k that is
 too large is refused instead of panicking the connection

---
 serve_goko/src/http/service.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index aff8dce..bf7d35a 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -37,14 +37,14 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 }
 
 
-fn parse_knn_query(uri: &Uri) -> usize {
+fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
     lazy_static! {
-        static ref RE: Regex = Regex::new(r"k=(?P<k>\d+)").unwrap();
+        static ref RE: Regex = Regex::new(r"(?:^|&)k=(?P<k>\d+)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
-        Some(caps) => caps["k"].parse::<usize>().unwrap(),
-        None => 10,
+        Some(caps) => caps["k"].parse::<usize>().map_err(|_| GokoClientError::MalformedQuery("Unable to parse k.")),
+        None => Ok(10),
     }
 }
 
@@ -73,12 +73,12 @@ pub(crate) async fn parse_http<P: PointParser>(request: Request<Body>, parser: &
         // Serve some instructions at /
         (&Method::GET, "/") => Ok(GokoRequest::Parameters(ParametersRequest)),
         (&Method::GET, "/knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::Knn(KnnRequest { point, k }))
         }
         (&Method::GET, "/routing_knn") => {
-            let k = parse_knn_query(request.uri());
+            let k = parse_knn_query(request.uri())?;
             let point = parser.point(request).await?;
             Ok(GokoRequest::RoutingKnn(RoutingKnnRequest { point, k }))
 
-- 
2.43.0


From 74b17e53d98e5ca89486f39c37fe12c6643baa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 31/40] fix: tracker names are taken whole, and parameters only
 by their full name

---
 serve_goko/src/http/service.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index bf7d35a..80d9004 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -50,10 +50,10 @@ fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
 
 fn parse_tracker_query(uri: &Uri) -> (Option<String>, Option<usize>) {
     lazy_static! {
-        static ref RE_TRACKER: Regex = Regex::new(r"tracker_name=(?P<tracker_name>\w+)").unwrap();
+        static ref RE_TRACKER: Regex = Regex::new(r"(?:^|&)tracker_name=(?P<tracker_name>[^&]+)").unwrap();
     }
     lazy_static! {
-        static ref RE_WINDOW: Regex = Regex::new(r"window_size=(?P<window_size>\d+)").unwrap();
+        static ref RE_WINDOW: Regex = Regex::new(r"(?:^|&)window_size=(?P<window_size>\d+)").unwrap();
     }
 
     let tracker_name = match uri.query().map(|s| RE_TRACKER.captures(s)).flatten() {
-- 
2.43.0


From 473eb972a0bc19c8a89b523c603c101f2241153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:32 +0000
Subject: [PATCH 32/40] fix: a request counts as in flight until it is answered
 or given up, however often its response is polled

---
 serve_goko/src/core/internal_service.rs | 28 ++++++++++++++++++++-----
 serve_goko/src/http/message.rs          | 10 ++++++---
 serve_goko/src/http/service.rs          |  6 +++---
 3 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index 3c62082..dd1cb4d 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -46,11 +46,27 @@ impl<T: Send, S: Send> Message<T, S> {
     }
 }
 
+/// Counts a request as in flight until its response is delivered, or given up on.
+pub(crate) struct InFlight(Arc<atomic::AtomicU32>);
+
+impl InFlight {
+    pub(crate) fn new(counter: &Arc<atomic::AtomicU32>) -> InFlight {
+        counter.fetch_add(1, atomic::Ordering::SeqCst);
+        InFlight(Arc::clone(counter))
+    }
+}
+
+impl Drop for InFlight {
+    fn drop(&mut self) {
+        self.0.fetch_sub(1, atomic::Ordering::SeqCst);
+    }
+}
+
 #[pin_project]
 pub struct ResponseFuture<T> {
     #[pin]
     pub(crate) response: oneshot::Receiver<Result<T,InternalServiceError>>,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) in_flight: Option<InFlight>,
     pub(crate) error: Option<InternalServiceError>,
 }
 
@@ -59,6 +75,7 @@ impl<T> Future for ResponseFuture<T> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.in_flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -68,7 +85,9 @@ impl<T> Future for ResponseFuture<T> {
                     Err(e) => Err(e.into())
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.in_flight.take();
+            }
             res
         }
     }
@@ -111,8 +130,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
 
 
     pub(crate) fn message(&self, request: T) -> ResponseFuture<S> {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let in_flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (CoreResponseSender<S>, CoreResponseReciever<S>) = oneshot::channel();
         
         let msg = Message {
@@ -124,7 +142,7 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         let error = self.request_snd.send(msg).err().map(|_e| InternalServiceError::FailedSend); 
         ResponseFuture {
             response,
-            flight_counter,
+            in_flight,
             error,
         }
     }
diff --git a/serve_goko/src/http/message.rs b/serve_goko/src/http/message.rs
index 8fa94da..377a992 100644
--- a/serve_goko/src/http/message.rs
+++ b/serve_goko/src/http/message.rs
@@ -9,8 +9,9 @@ use std::future::Future;
 use std::pin::Pin;
 use std::task::Poll;
 
-use std::sync::{atomic, Arc, Mutex};
+use std::sync::{Arc, Mutex};
 
+use crate::core::internal_service::InFlight;
 use crate::errors::{GokoClientError, InternalServiceError};
 
 pub(crate) type HttpResponseSender = oneshot::Sender<Result<Response<Body>, GokoClientError>>;
@@ -52,7 +53,7 @@ impl HttpMessage {
 pub struct ResponseFuture {
     #[pin]
     pub(crate) response: HttpResponseReciever,
-    pub(crate) flight_counter: Arc<atomic::AtomicU32>,
+    pub(crate) in_flight: Option<InFlight>,
     pub(crate) error: Option<GokoClientError>,
 }
 
@@ -61,6 +62,7 @@ impl Future for ResponseFuture {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
         if let Some(err) = this.error.take() {
+            this.in_flight.take();
             return core::task::Poll::Ready(Err(err));
         }
         else {
@@ -70,7 +72,9 @@ impl Future for ResponseFuture {
                     Err(e) => Err(GokoClientError::from(e))
                 }
             });
-            this.flight_counter.fetch_sub(1, atomic::Ordering::SeqCst);
+            if res.is_ready() {
+                this.in_flight.take();
+            }
             res
         }
     }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index 80d9004..1440710 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -20,6 +20,7 @@ use std::ops::Deref;
 use regex::Regex;
 use lazy_static::lazy_static;
 use super::message::*;
+use crate::core::internal_service::InFlight;
 use crate::errors::InternalServiceError;
 use crate::PointParser;
 use crate::parsers::PointBuffer;
@@ -202,8 +203,7 @@ where
     }
 
     pub(crate) fn message(&self, request: Request<Body>) -> ResponseFuture {
-        let flight_counter = Arc::clone(&self.in_flight);
-        self.in_flight.fetch_add(1, atomic::Ordering::SeqCst);
+        let in_flight = Some(InFlight::new(&self.in_flight));
         let (reply, response): (HttpResponseSender, HttpResponseReciever) = oneshot::channel();
         
         let msg = HttpMessage {
@@ -215,7 +215,7 @@ where
         let error = self.request_snd.send(msg).err().map(|_e| GokoClientError::Underlying(InternalServiceError::FailedSend)); 
         ResponseFuture {
             response,
-            flight_counter,
+            in_flight,
             error,
         }
     }
-- 
2.43.0


From 58fb675392a60d5bc1810876f6d20a805983cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:34 +0000
Subject: [PATCH 33/40] fix: a request that panics fails alone instead of
 ending the tracker or connection that serves it

---
 serve_goko/src/core/internal_service.rs | 8 ++++++--
 serve_goko/src/http/service.rs          | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/serve_goko/src/core/internal_service.rs b/serve_goko/src/core/internal_service.rs
index dd1cb4d..9330b35 100644
--- a/serve_goko/src/core/internal_service.rs
+++ b/serve_goko/src/core/internal_service.rs
@@ -3,6 +3,7 @@ use pin_project::pin_project;
 use goko::errors::GokoError;
 use core::task::Context;
 use std::future::Future;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::pin::Pin;
 use std::task::Poll;
 
@@ -112,8 +113,11 @@ impl<T: Send + 'static, S: Send + 'static> InternalServiceOperator<T, S> {
         tokio::spawn(async move {
             while let Some(mut msg) = request_rcv.recv().await {
                 if let Some(request) = msg.request() {
-                    let response = server.process(request);
-                    msg.respond(response);
+                    // A request that panics must not take the worker, and everyone else's trackers, with it.
+                    // Dropping the message tells the client that it failed.
+                    if let Ok(response) = catch_unwind(AssertUnwindSafe(|| server.process(request))) {
+                        msg.respond(response);
+                    }
                 } else {
                     msg.error(InternalServiceError::DoubleRead)
                 }
diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index 1440710..e68944c 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -17,6 +17,8 @@ use std::sync::{atomic, Arc, Mutex};
 
 use std::marker::PhantomData;
 use std::ops::Deref;
+use std::panic::AssertUnwindSafe;
+use futures::FutureExt;
 use regex::Regex;
 use lazy_static::lazy_static;
 use super::message::*;
@@ -173,7 +175,11 @@ where
                 if let Some(hyper_request) = msg.request() {
                     let goko_request = parse_http(hyper_request, &mut parser).await;
                     let response = match goko_request {
-                        Ok(r) => reader.process(r).await.map_err(|e| e.into()),
+                        // A request that panics must not take the requests queued behind it with it.
+                        Ok(r) => match AssertUnwindSafe(reader.process(r)).catch_unwind().await {
+                            Ok(response) => response.map_err(|e| e.into()),
+                            Err(_) => Err(GokoClientError::Underlying(InternalServiceError::FailedRecv)),
+                        },
                         Err(e) => {
                             if let GokoClientError::MalformedQuery(s) = e {
                                 Ok(GokoResponse::Unknown(s.to_string(), 404))
-- 
2.43.0


From 763df5d89979236b280c31a06f2df551c3b5ee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:56 +0000
Subject: [PATCH 34/40] fix: the diagonal Gaussian's log density and divergence
 follow their formulas, and an undefined divergence is none

---
 goko/src/plugins/gaussians/diag_gaussian.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/goko/src/plugins/gaussians/diag_gaussian.rs b/goko/src/plugins/gaussians/diag_gaussian.rs
index c6fa7ba..906dcd4 100644
--- a/goko/src/plugins/gaussians/diag_gaussian.rs
+++ b/goko/src/plugins/gaussians/diag_gaussian.rs
@@ -45,13 +45,13 @@ impl ContinousDistribution for DiagGaussian {
             self.count
         ));
 
-        let (exponent, det) = point
+        let (exponent, ln_det) = point
             .dense_iter()
             .zip(mean_vars)
-            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi))
-            .fold((0.0, 1.0), |(a, v), (x, u)| (a + x, v * u));
+            .map(|(xi, (ui, vi))| ((xi - ui) * (xi - ui) / vi, vi.ln()))
+            .fold((0.0, 0.0), |(a, v), (x, u)| (a + x, v + u));
 
-        Some((exponent - det + (self.dim() as f32) * (2.0 * PI).ln()) as f64)
+        Some((-(exponent + ln_det + (self.dim() as f32) * (2.0 * PI).ln()) / 2.0) as f64)
     }
 
     fn sample<R: Rng>(&self, rng: &mut R) -> Vec<f32> {
@@ -82,7 +82,7 @@ impl ContinousDistribution for DiagGaussian {
         let (trace, mah_dist, ln_det) = mean_vars
             .zip(other_mean_vars)
             .map(|((xi, yi), (ui, vi))| {
-                let trace = yi / ui;
+                let trace = yi / vi;
                 let mah_dist = (ui - xi) * (ui - xi) / vi;
                 let ln_det = vi.ln() - yi.ln();
                 (trace, mah_dist, ln_det)
@@ -91,7 +91,13 @@ impl ContinousDistribution for DiagGaussian {
                 (a + x, b + y, c + z)
             });
 
-        Some(((trace + mah_dist - (self.moment1.len() as f32) + ln_det) / 2.0) as f64)
+        let kld = (trace + mah_dist - (self.moment1.len() as f32) + ln_det) / 2.0;
+        // without any spread, or any points, there's no density to compare
+        if kld.is_finite() {
+            Some(kld as f64)
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 1df6f5041da3a7cf040fab640372888b769b257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:56 +0000
Subject: [PATCH 35/40] fix: the whole tree's divergence counts the center of a
 leaf as one of its points, as the prior's total does

---
 goko/src/plugins/discrete/tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goko/src/plugins/discrete/tracker.rs b/goko/src/plugins/discrete/tracker.rs
index 049c0eb..6ad1355 100644
--- a/goko/src/plugins/discrete/tracker.rs
+++ b/goko/src/plugins/discrete/tracker.rs
@@ -228,7 +228,9 @@ impl<D: PointCloud> BayesCategoricalTracker<D> {
         for (addr, evidence) in self.running_evidence.iter() {
             if evidence.singleton_count > 0.0 {
                 self.reader.get_node_and(*addr, |n| {
-                    let prior = n.singletons_len() as f64 + 1.0;
+                    // leaves also hold their center
+                    let held = n.singletons_len() + if n.is_leaf() { 1 } else { 0 };
+                    let prior = held as f64 + 1.0;
                     prior_total_lng += ln_gamma(prior);
                     posterior_total_lng += ln_gamma(evidence.singleton_count + prior);
                     digamma_portion += evidence.singleton_count
-- 
2.43.0


From 778e28e0a446516a86324e3dfe0808a01212b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:02 +0000
Subject: [PATCH 36/40] fix: a path tracked where there is no tracker is not
 reported as a success

---
 serve_goko/src/api/tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serve_goko/src/api/tracker.rs b/serve_goko/src/api/tracker.rs
index 0133ebb..7f1de0e 100644
--- a/serve_goko/src/api/tracker.rs
+++ b/serve_goko/src/api/tracker.rs
@@ -92,7 +92,7 @@ impl<D: PointCloud, T: Deref<Target = D::Point> + Send + Sync> InternalService<T
                     tracker.add_path(req.path.clone());
                 }
                 Ok(TrackingResponse::TrackPath(TrackPathResponse {
-                    success: true,
+                    success: !self.trackers.is_empty(),
                 }))
             }
             AddTracker(req) => {
-- 
2.43.0


From 9589838370aa08b6845d4541b0416f8c8b0af19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:02 +0000
Subject: [PATCH 37/40] fix: compressed CSVs of several gzip members are read
 to the end

---
 pointcloud/src/loaders/csv_loaders.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointcloud/src/loaders/csv_loaders.rs b/pointcloud/src/loaders/csv_loaders.rs
index c1a0a2a..1537ddd 100644
--- a/pointcloud/src/loaders/csv_loaders.rs
+++ b/pointcloud/src/loaders/csv_loaders.rs
@@ -1,6 +1,6 @@
 use crate::pc_errors::*;
 use csv::Reader;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use std::fs::File;
 use std::io::Read;
 use std::path::Path;
@@ -19,7 +19,7 @@ pub fn open_int_csv<P: AsRef<Path> + std::fmt::Debug>(
     match File::open(&path) {
         Ok(file) => {
             if path.as_ref().extension().unwrap() == "gz" {
-                read_csv(index, path, Reader::from_reader(GzDecoder::new(file)))
+                read_csv(index, path, Reader::from_reader(MultiGzDecoder::new(file)))
             } else {
                 read_csv(index, path, Reader::from_reader(file))
             }
-- 
2.43.0


From 5b4332ace50fed1659cb54d6c9f9e1ad2af97aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:02 +0000
Subject: [PATCH 38/40] fix: knn returns k points for a query infinitely far
 from all of them

---
 goko/src/covertree/query_tools/knn_query_heap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/query_tools/knn_query_heap.rs b/goko/src/covertree/query_tools/knn_query_heap.rs
index 2d8486c..1c6c273 100644
--- a/goko/src/covertree/query_tools/knn_query_heap.rs
+++ b/goko/src/covertree/query_tools/knn_query_heap.rs
@@ -64,7 +64,7 @@ impl RoutingQueryHeap for KnnQueryHeap {
         for ((si, pi), d) in indexes.iter().zip(dists) {
             let emd = (d - self.scale_base.powi(*si)).max(0.0);
             parent_est_dist_update = emd.max(parent_est_dist_update);
-            if emd < max_dist {
+            if emd < max_dist || self.dist_heap.len() < self.k {
                 self.child_heap.push(QueryAddress {
                     address: (*si, *pi),
                     dist_to_center: *d,
-- 
2.43.0


From 39927bf994b243432d9638be0eeba1573bd1d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:02 +0000
Subject: [PATCH 39/40] fix: the path of a query infinitely far from a node
 with only a nested child does not panic

---
 goko/src/covertree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goko/src/covertree/node.rs b/goko/src/covertree/node.rs
index e688b25..211ca11 100644
--- a/goko/src/covertree/node.rs
+++ b/goko/src/covertree/node.rs
@@ -260,7 +260,7 @@ impl<D: PointCloud> CoverNode<D> {
                 .enumerate()
                 .min_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
                 .unwrap_or((0, &std::f32::MAX));
-            if dist_to_center < *min_dist {
+            if distances.is_empty() || dist_to_center < *min_dist {
                 if dist_to_center < scale_base.powi(children.nested_scale) {
                     Ok(Some((
                         dist_to_center,
-- 
2.43.0


From b9cfc1ba8372de4940193e73470b14dcd77469db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:02 +0000
Subject: [PATCH 40/40] fix: a k or window size that isn't a number is refused
 instead of ignored

---
 serve_goko/src/http/service.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serve_goko/src/http/service.rs b/serve_goko/src/http/service.rs
index e68944c..d36ea08 100644
--- a/serve_goko/src/http/service.rs
+++ b/serve_goko/src/http/service.rs
@@ -42,7 +42,7 @@ pub struct GokoHttp<D: PointCloud, P: PointParser> {
 
 fn parse_knn_query(uri: &Uri) -> Result<usize, GokoClientError> {
     lazy_static! {
-        static ref RE: Regex = Regex::new(r"(?:^|&)k=(?P<k>\d+)").unwrap();
+        static ref RE: Regex = Regex::new(r"(?:^|&)k=(?P<k>[^&]*)").unwrap();
     }
 
     match uri.query().map(|s| RE.captures(s)).flatten() {
@@ -56,7 +56,7 @@ fn parse_tracker_query(uri: &Uri) -> (Option<String>, Option<usize>) {
         static ref RE_TRACKER: Regex = Regex::new(r"(?:^|&)tracker_name=(?P<tracker_name>[^&]+)").unwrap();
     }
     lazy_static! {
-        static ref RE_WINDOW: Regex = Regex::new(r"(?:^|&)window_size=(?P<window_size>\d+)").unwrap();
+        static ref RE_WINDOW: Regex = Regex::new(r"(?:^|&)window_size=(?P<window_size>[^&]*)").unwrap();
     }
 
     let tracker_name = match uri.query().map(|s| RE_TRACKER.captures(s)).flatten() {
-- 
2.43.0

