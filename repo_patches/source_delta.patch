From c633c6bc8a374e28244e662dbacedddd32dc32e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 01/14] fix: write_array must not write past the end of the
 array when given more data than fits

---
 crates/crabslab/src/slab.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..4f6dc3b 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -96,7 +96,10 @@ pub trait Slab {
         if array.len() > data.len() {
             return;
         }
-        let _ = self.write_indexed_slice(data, array.starting_index());
+        let mut index = array.starting_index();
+        for i in 0..array.len() {
+            index = self.write_indexed(crate::slice_index(data, i), index);
+        }
     }
 }
 
-- 
2.43.0


From fb7bd775cd7ef29ac706efce6bad5fe6d84005fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 02/14] fix: Vec<u32>::reserve_capacity must reserve up to the
 given capacity

---
 crates/crabslab/src/slab.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index 4f6dc3b..849e5e1 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -299,7 +299,8 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        // `Vec::reserve` takes the number of elements in addition to the current length.
+        Vec::reserve(self, capacity.saturating_sub(Vec::len(self)));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From 0b91f16dfb582a941ab1b81ae5d0a0630553e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 03/14] fix: creating an empty array must not queue a write at
 the null index

---
 crates/craballoc/src/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..bbc448f 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -437,7 +437,12 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            // An empty array is the null array, which has no place in the buffer to write to.
+            updates: Arc::new(Mutex::new(if array.is_empty() {
+                vec![]
+            } else {
+                vec![update]
+            })),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From 6edc9b49312bd7b1c0c7056514f34df01d3f9500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 04/14] fix: GpuArray::set_item with an index out of bounds
 must not queue a write at the null index

---
 crates/craballoc/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index bbc448f..3ff1822 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -466,6 +466,10 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
 
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            // The index is out of bounds, there is nothing to write.
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From aa472e662b2ba7e74a9a9befc23fe04dc86e3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 05/14] fix: RangeManager::remove must not underflow when asked
 for zero elements

---
 crates/craballoc/src/range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..dfbe3cd 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,10 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            // An inclusive range cannot be empty.
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From b06ad1aad35044307c62e8898dee61082416b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 06/14] fix: RangeManager::add_range must merge every range the
 input touches, not only the first

---
 crates/craballoc/src/range.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index dfbe3cd..dcc2067 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -117,13 +117,26 @@ impl<R: IsRange> RangeManager<R> {
     }
 
     pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
-                range.union(input_range);
-                return;
+        let Some(first) = self
+            .ranges
+            .iter()
+            .position(|range| range.should_merge_with(&input_range))
+        else {
+            self.ranges.push(input_range);
+            return;
+        };
+        // The input may bridge the gaps between any number of ranges, all of which
+        // must be merged, and the input last, as it is the newest.
+        let mut i = first + 1;
+        while i < self.ranges.len() {
+            if self.ranges[i].should_merge_with(&input_range) {
+                let range = self.ranges.remove(i);
+                self.ranges[first].union(range);
+            } else {
+                i += 1;
             }
         }
-        self.ranges.push(input_range);
+        self.ranges[first].union(input_range);
     }
 }
 
-- 
2.43.0


From 0cafa509525ab4c1aedc59041c108c4c95fabbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 07/14] fix: SlabAllocator::read_array of an empty array must
 not copy from the null index

---
 crates/craballoc/src/slab/wgpu_slab.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/slab/wgpu_slab.rs b/crates/craballoc/src/slab/wgpu_slab.rs
index 8982657..3cf2803 100644
--- a/crates/craballoc/src/slab/wgpu_slab.rs
+++ b/crates/craballoc/src/slab/wgpu_slab.rs
@@ -28,6 +28,10 @@ impl SlabAllocator<WgpuRuntime> {
         &self,
         array: Array<T>,
     ) -> Result<Vec<T>, SlabAllocatorError> {
+        if array.is_empty() {
+            // An empty array is the null array, which has no place in the buffer to read from.
+            return Ok(vec![]);
+        }
         let arr = array.into_u32_array();
         let range = array.index as usize..(arr.index + arr.len) as usize;
         let data = self.read(range).await?;
-- 
2.43.0


From 7a16298322bd7be47791f4e64b90a679678149fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 08/14] fix: a new update source must be known before its
 notification is sent

A concurrent commit that received the notification first found no source, dropped it, and the first value was never written.
---
 crates/craballoc/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..f5fe34b 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -303,9 +303,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
+        // Insert before notifying, or a concurrent commit might drop the notification of
+        // a source it doesn't know.
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 44195361be28ba605cc5359c53c4c02b15846fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 09/14] fix: concurrent allocations must not count on the same
 room

Two allocations could both see the last free words of the capacity, neither grew it, and a commit wrote past the end of the buffer.
---
 crates/craballoc/src/slab.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index f5fe34b..a8c52c3 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -315,8 +315,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
     }
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
+        // Held until the words are taken, so that concurrent allocations cannot count on the same room.
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -340,12 +342,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
             return Array::default();
         }
 
+        // Held until the words are taken, so that concurrent allocations cannot count on the same room.
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
-- 
2.43.0


From d2a1176517492bb43adad34d5f626e8e85b47809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 10/14] fix: a commit must not forget ids that
 get_updated_source_ids queues at the same time

The queue was copied and emptied under two separate locks.
---
 crates/craballoc/src/slab.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index a8c52c3..4e368df 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, RwLock, RwLockWriteGuard},
 };
 
 use crate::{
@@ -437,12 +437,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Return the ids of all sources that require updating.
     pub fn get_updated_source_ids(&self) -> FxHashSet<usize> {
+        self.receive_updated_source_ids().clone()
+    }
+
+    /// Drain the source notifier into the `update_queue`, returning the locked queue.
+    fn receive_updated_source_ids(&self) -> RwLockWriteGuard<'_, FxHashSet<usize>> {
         // UNWRAP: panic on purpose
         let mut update_set = self.update_queue.write().unwrap();
         while let Ok(source_index) = self.notifier.1.try_recv() {
             update_set.insert(source_index);
         }
-        update_set.clone()
+        update_set
     }
 
     /// Build the set of sources that require updates, draining the source
@@ -450,9 +455,8 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
-        // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        // Take the ids while the queue is locked, so that none that arrive in between are lost.
+        let update_set = std::mem::take(&mut *self.receive_updated_source_ids());
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From 5cc4686279fea9a705385419f1acb09bd116d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 11/14] fix: concurrent commits must not interleave

Both could take updates and then write them out of order, so that an older value won, and the second could find no buffer yet.
---
 crates/craballoc/src/slab.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4e368df..d48307c 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock, RwLockWriteGuard},
+    sync::{atomic::AtomicBool, Arc, Mutex, RwLock, RwLockWriteGuard},
 };
 
 use crate::{
@@ -243,6 +243,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     update_queue: Arc<RwLock<FxHashSet<usize>>>,
     // Recycled memory ranges
     pub(crate) recycles: Arc<RwLock<RangeManager<Range>>>,
+    // Held during a commit, so that concurrent commits don't write their updates out of order
+    commit_lock: Arc<Mutex<()>>,
 }
 
 impl<R: IsRuntime> Clone for SlabAllocator<R> {
@@ -262,6 +264,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
             recycles: self.recycles.clone(),
+            commit_lock: self.commit_lock.clone(),
         }
     }
 }
@@ -285,6 +288,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             update_sources: Default::default(),
             update_queue: Default::default(),
             recycles: Default::default(),
+            commit_lock: Default::default(),
             len: Default::default(),
             // Start with size 1, because some of `wgpu`'s validation depends on it.
             // See <https://github.com/gfx-rs/wgpu/issues/6414> for more info.
@@ -525,6 +529,8 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // UNWRAP: panic on purpose
+        let _commit_guard = self.commit_lock.lock().unwrap();
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
-- 
2.43.0


From 3a618ba5b17f90755c5ee4fca72835321571e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 12/14] fix: a commit must collect its updates before it
 decides whether to grow the buffer

A value created in between was written past the end of the buffer.
---
 crates/craballoc/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index d48307c..71a4830 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -531,6 +531,9 @@ impl<R: IsRuntime> SlabAllocator<R> {
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
         // UNWRAP: panic on purpose
         let _commit_guard = self.commit_lock.lock().unwrap();
+        // Collect the updates first. Everything they write to has been allocated, which
+        // means that any expansion they need is known below.
+        let writes = self.drain_updated_sources();
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
@@ -543,7 +546,6 @@ impl<R: IsRuntime> SlabAllocator<R> {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
         };
-        let writes = self.drain_updated_sources();
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From 224207f74fe7d112a58fa109d3592bab47e8d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 13/14] fix: an invalidated buffer must be replaced by the time
 anyone can tell

update_if_invalid, next to a commit, could find its buffer invalid and replace it by the same one.
---
 crates/craballoc/src/slab.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 71a4830..948f01e 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -199,9 +199,10 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                guard.as_ref().unwrap().clone()
+                let updated_buffer = guard.as_ref().unwrap().clone();
+                debug_assert!(updated_buffer.is_valid());
+                updated_buffer
             };
-            debug_assert!(updated_buffer.is_valid());
             *self = updated_buffer;
             true
         } else {
@@ -405,13 +406,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let new_buffer = self.runtime.buffer_create(
             self.capacity(),
             self.label.as_deref(),
             self.buffer_usages.clone(),
         );
         let mut guard = self.buffer.write().unwrap();
+        // Invalidate the old buffer while the lock is held, so that whoever finds it invalid
+        // also finds the new one.
+        self.invalidation_k
+            .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
         if let Some(old_buffer) = guard.take() {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
@@ -539,9 +544,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
+            self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From ff683cc42c52fe672a0615b94c7526b08231e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 14/14] fix: dropping a value must let go of it before
 notifying the slab

A commit between the notification and the release still counted the reference, and the space was never recycled.
---
 crates/craballoc/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 3ff1822..d4ea95a 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,8 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Let go before notifying, or a concurrent commit might still count this reference.
+        drop(std::mem::take(&mut self.update));
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -406,6 +408,8 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // Let go before notifying, or a concurrent commit might still count this reference.
+        drop(std::mem::take(&mut self.updates));
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0

