From be0e3a72050f212bc172e269700e86e13f0107c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:59 +0000
Subject: [PATCH 1/3] fix: keep the reserved deque capacity when cloning a
 parts iterator

---
 src/internal/bin_parts_iter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..a37db78 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -95,6 +94,22 @@ pub struct BinaryPartsIter<S> {
 // }
 pub unsafe trait SplitAsSlice<T>: BinarySplitOff + Deref<Target=[T]> { }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // Not derived b/c VecDeque's Clone impl only allocates capacity for the
+        // items currently in the deque, whereas the clone may still need the
+        // full capacity reserved in BinaryPartsIter::new.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 impl<S> BinaryPartsIter<S> {
     pub fn new(slice: S, num_parts: usize) -> Self {
         assert_ne!(0, num_parts, "num_parts > 0");
-- 
2.43.0


From ff12cacbf86dc06dd4d8359aecd68e294c065f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 2/3] fix: serialise upgrades and mutability checks of an
 ArcSlice's subdivisions

get_mut and into_mut closed the gates of their own DataGuard only. An upgrade
of a descendant WeakSlice obtains strong refs without passing any gate, so it
could run concurrently with either and end up aliasing the exclusive access.
get_mut also didn't notice WeakSlices of descendant subslices, or WeakSlices
made before the current DataGuard, and neither check was ordered after the
accesses of refs that had since been dropped.

Subdivisions of one slice now share one lock that upgrade, guard creation,
get_mut and into_mut hold.
---
 src/arc/arc_slice.rs | 152 +++++++++++++++++++++++--------------------
 src/internal/gate.rs |   8 +++
 2 files changed, 90 insertions(+), 70 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..d4285e0 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,11 +1,11 @@
 use core::{
     iter::FusedIterator,
     marker::PhantomData,
-    mem,
+    mem::{self, ManuallyDrop},
     ops::Deref,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{self, AtomicPtr, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -37,6 +37,12 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Ditto left_child on really AtomicPtr<Self>
     right_child: AtomicPtr<()>,
     parent: Weak<Self>,
+    // Shared by all the ArcSliceDatas obtained by subdividing the same
+    // original ArcSlice. Must be held (closed) in order to upgrade a
+    // WeakSlice, to guard an ArcSliceData, or to decide whether a mutation
+    // is possible. NEVER drop the last strong ref to an ArcSliceData while
+    // holding this: That'd call into arbitrary Drop impls.
+    lock: Arc<Gate>,
     // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
     // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
     // but avoiding using of unstable Weak::into_raw.
@@ -45,16 +51,12 @@ pub (in crate::arc) struct ArcSliceData<T> {
     phantom_child: PhantomData<Self>,
 }
 
-/// Signals the presence of child ArcSlices or WeakSlices for the same
-/// data subslice. Part of detecting which mutations are possible.
+/// Signals the presence of child ArcSlices for the same data subslice. Part
+/// of detecting which mutations are possible.
 struct DataGuard {
     // Not used except in the fact that a child DataGuard keeps its parent
     // DataGuard alive.
     _parent: Option<Arc<Self>>,
-    // A Gate controlling whether clone_left and clone_right are allowed
-    clone_child_gate: Gate,
-    // A Gate controlling whether downgrade is allowed
-    downgrade_gate: Gate,
 }
 
 /// An atomically reference counted slice that tracks reference counts
@@ -68,8 +70,9 @@ pub struct ArcSlice<T> {
 /// to std::sync::Weak<[T]>.
 pub struct WeakSlice<T> {
     data: Weak<ArcSliceData<T>>,
-    // Not used except as part of signaling the presence of WeakSlices to ArcSlice:;get_mut
-    _data_guard: Weak<DataGuard>,
+    // The lock of the ArcSliceData we were obtained from. None if there's no
+    // such ArcSliceData.
+    lock: Option<Arc<Gate>>,
 }
 
 /// A double-ended iterator over roughly-even subslices of a starting ArcSlice.
@@ -89,16 +92,17 @@ impl<T> ArcSliceData<T> {
     }
 
     pub (in crate::arc) unsafe fn from_data_parts(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>) -> Self {
-        Self::with_data_and_parent(ptr, len, alloc, Weak::new())
+        Self::with_data_and_parent(ptr, len, alloc, Weak::new(), Arc::new(Gate::new()))
     }
 
-    fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>) -> Self {
+    fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>, lock: Arc<Gate>) -> Self {
         let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
         Self {
             ptr,
             len,
             alloc,
             parent,
+            lock,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
             guard,
@@ -135,7 +139,7 @@ impl<T> ArcSliceData<T> {
             // Observed the child ptr as being null. Try to construct a new child and
             // swap into place.
             let alloc = if len == 0 { None } else { self.alloc.clone() };
-            let new_child = Arc::new(Self::with_data_and_parent(ptr, len, alloc, Arc::downgrade(self)));
+            let new_child = Arc::new(Self::with_data_and_parent(ptr, len, alloc, Arc::downgrade(self), self.lock.clone()));
             let new_child_clone = new_child.clone();
             let new_child = Arc::into_raw(new_child);
             let prev_child = child.compare_and_swap(ptr::null_mut(), new_child as _, Ordering::AcqRel);
@@ -191,6 +195,22 @@ impl<T> ArcSliceData<T> {
         }
     }
 
+    /// Are there any WeakSlices for this subslice or any of its subdivisions?
+    /// Calling code must hold the lock and must have already determined that
+    /// there are no other strong refs to any of these subslices.
+    fn any_weak_slices(self: &Arc<Self>) -> bool {
+        // Besides WeakSlices, the only weak refs are our children's parent refs.
+        let mut num_children = 0;
+        let any_descendant = [&self.left_child, &self.right_child].iter().any(|child| {
+            let child = child.load(Ordering::Acquire);
+            if child.is_null() { return false; }
+            num_children += 1;
+            let child = ManuallyDrop::new(unsafe { Arc::from_raw(child as *const Self) });
+            child.any_weak_slices()
+        });
+        any_descendant || Arc::weak_count(self) != num_children
+    }
+
     fn left_sub(&self) -> (NonNull<T>, usize) {
         (self.ptr, self.len >> 1)
     }
@@ -283,7 +303,10 @@ impl<T> Deref for ArcSliceData<T> {
 }
 
 impl DataGuard {
-    fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
+    /// Get or create the guard for data. Calling code must hold data's lock.
+    /// This pushes onto ancestors any strong refs to data's ancestors that
+    /// it needed along the way. Drop those only after releasing the lock.
+    fn guard<T>(data: &ArcSliceData<T>, ancestors: &mut Vec<Arc<ArcSliceData<T>>>) -> Arc<Self> {
         let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
         // We guarantee that ArcSliceData.guard is always a valid pointer
         let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
@@ -291,13 +314,12 @@ impl DataGuard {
             // No reference to a live existing guard. We'll try constructing
             // a new guard as we do for RcSliceData and then atomically
             // swapping the new guard into place.
-            let parent_guard = data.parent.upgrade()
-                .map(|parent_data| Self::guard(&parent_data));
-            let guard = Arc::new(Self {
-                _parent: parent_guard,
-                clone_child_gate: Gate::new(),
-                downgrade_gate: Gate::new(),
+            let parent_guard = data.parent.upgrade().map(|parent_data| {
+                let parent_guard = Self::guard(&parent_data, ancestors);
+                ancestors.push(parent_data);
+                parent_guard
             });
+            let guard = Arc::new(Self { _parent: parent_guard });
             let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
             let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
             if prev_guard_ptr == existing_guard_ptr {
@@ -319,8 +341,13 @@ impl DataGuard {
 
 impl<T> ArcSlice<T> {
     pub (in crate::arc) fn from_data(data: Arc<ArcSliceData<T>>) -> Self {
-        let data_guard = DataGuard::guard(&data);
-        Self { data, data_guard }
+        let mut ancestors = Vec::new();
+        let latch = data.lock.close();
+        let data_guard = DataGuard::guard(&data, &mut ancestors);
+        drop(latch);
+        let slice = Self { data, data_guard };
+        drop(ancestors);
+        slice
     }
 
     pub fn from_boxed_slice(slice: Box<[T]>) -> Self {
@@ -332,12 +359,10 @@ impl<T> ArcSlice<T> {
     }
 
     pub fn clone_left(this: &Self) -> Self {
-        this.clone_child_gate().wait_till_open();
         Self::from_data(this.data.clone_left())
     }
 
     pub fn clone_right(this: &Self) -> Self {
-        this.clone_child_gate().wait_till_open();
         Self::from_data(this.data.clone_right())
     }
 
@@ -361,29 +386,19 @@ impl<T> ArcSlice<T> {
 
     pub fn get_mut(this: &mut Self) -> Option<&mut [T]> {
         // We do the same basic checks as RcSlice::get_mut, but we also have to
-        // avoid race conditions while doing so. We solve this w/ short-lived locks.
-        // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
-        // reason they do w/ RcSlice::get_mut. Refactor!
-
-        // Check for no weak refs first.
-        this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
-                this.clone_child_gate().try_close().and_then(|_clone_child_latch|
-                    if 1 == Arc::strong_count(&this.data_guard) {
-                        if 1 == Arc::strong_count(&this.data) {
-                            // Safe to mutate
-                            unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
-                        } else {
-                            None
-                        }
-                    } else {
-                        None
-                    }
-                )
-            } else {
-                None
+        // avoid race conditions while doing so. Holding the lock keeps any
+        // WeakSlice from being upgraded meanwhile.
+        let _latch = this.data.lock.close();
+        if 1 == Arc::strong_count(&this.data_guard) && 1 == Arc::strong_count(&this.data) {
+            // Anything done via refs that have since been dropped happened
+            // before our mutations.
+            atomic::fence(Ordering::Acquire);
+            if !this.data.any_weak_slices() {
+                // Safe to mutate
+                return unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) };
             }
-        )
+        }
+        None
     }
 
     pub fn into_mut(this: Self) -> Result<ArcSliceMut<T>, Self> {
@@ -391,35 +406,26 @@ impl<T> ArcSlice<T> {
         // get_mut above, we need to do locking to avoid race conditions.
 
         let ArcSlice { data, data_guard } = this;
-        let slice_mut = match (*data_guard).clone_child_gate.try_close() {
-            Some(_clone_child_latch) => {
-                if 1 == Arc::strong_count(&data_guard) {
-                    Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
-                } else {
-                    Err(data)
-                }
-            },
-            None => Err(data)
+        let lock = data.lock.clone();
+        let latch = lock.close();
+        let slice_mut = if 1 == Arc::strong_count(&data_guard) {
+            // Ditto get_mut
+            atomic::fence(Ordering::Acquire);
+            Arc::try_unwrap(data).map(|data| unsafe { data.into_mut() })
+        } else {
+            Err(data)
         };
+        drop(latch);
         slice_mut.map_err(|data| ArcSlice { data, data_guard })
     }
 
     pub fn downgrade(this: &Self) -> WeakSlice<T> {
-        this.downgrade_gate().wait_till_open();
-        WeakSlice { data: Arc::downgrade(&this.data), _data_guard: Arc::downgrade(&this.data_guard) }
+        WeakSlice { data: Arc::downgrade(&this.data), lock: Some(this.data.lock.clone()) }
     }
 
     // TODO: unsplit
     // TODO: make_mut
     // TODO: into_boxed_slice, into_vec
-
-    fn clone_child_gate(&self) -> &Gate {
-        &(*self.data_guard).clone_child_gate
-    }
-
-    fn downgrade_gate(&self) -> &Gate {
-        &(*self.data_guard).downgrade_gate
-    }
 }
 
 impl<T> Clone for ArcSlice<T> {
@@ -467,19 +473,25 @@ impl<T> WeakSlice<T> {
     /// Constructs a new `WeakSlice<T>`, without allocating any memory.
     /// Calling `upgrade` on the return value always gives `None`.
     pub fn new() -> Self {
-        Self { data: Weak::new(), _data_guard: Weak::new() }
+        Self { data: Weak::new(), lock: None }
     }
 
     pub fn upgrade(&self) -> Option<ArcSlice<T>> {
-        // TODO: This suffers from the same limitations as
-        // crate::rc::WeakSlice::upgrade does.
-        self.data.upgrade().map(ArcSlice::from_data)
+        let mut ancestors = Vec::new();
+        let latch = self.lock.as_ref()?.close();
+        let slice = self.data.upgrade().map(|data| {
+            let data_guard = DataGuard::guard(&data, &mut ancestors);
+            ArcSlice { data, data_guard }
+        });
+        drop(latch);
+        drop(ancestors);
+        slice
     }
 }
 
 impl<T> Clone for WeakSlice<T> {
     fn clone(&self) -> Self {
-        Self { data: self.data.clone(), _data_guard: self._data_guard.clone() }
+        Self { data: self.data.clone(), lock: self.lock.clone() }
     }
 }
 
diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..1ff170c 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -23,6 +23,14 @@ impl Gate {
             Some(Latch(self))
         }
     }
+
+    /// Wait for this gate to open, then close it.
+    pub fn close(&self) -> Latch<'_> {
+        loop {
+            if let Some(latch) = self.try_close() { return latch; }
+            self.wait_till_open();
+        }
+    }
 }
 
 impl<'a> Drop for Latch<'a> {
-- 
2.43.0


From aee4229b88437026b6d0d96a10bf013595cca59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 3/3] fix: don't leak the ref cells of an ArcSlice's guards

ArcSliceData.guard pointed to a heap allocated Weak that was freed neither when
replaced nor when the ArcSliceData was dropped, leaking an allocation per
subslice plus the DataGuard it weakly refers to.
---
 src/arc/arc_slice.rs | 40 +++++++++++-----------------------------
 1 file changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index d4285e0..61eed33 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -1,4 +1,5 @@
 use core::{
+    cell::UnsafeCell,
     iter::FusedIterator,
     marker::PhantomData,
     mem::{self, ManuallyDrop},
@@ -43,10 +44,8 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // is possible. NEVER drop the last strong ref to an ArcSliceData while
     // holding this: That'd call into arbitrary Drop impls.
     lock: Arc<Gate>,
-    // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
-    // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
-    // but avoiding using of unstable Weak::into_raw.
-    guard: AtomicPtr<Weak<DataGuard>>,
+    // Only accessed while holding the lock.
+    guard: UnsafeCell<Weak<DataGuard>>,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
 }
@@ -96,7 +95,6 @@ impl<T> ArcSliceData<T> {
     }
 
     fn with_data_and_parent(ptr: NonNull<T>, len: usize, alloc: Option<Arc<SliceAlloc<T>>>, parent: Weak<Self>, lock: Arc<Gate>) -> Self {
-        let guard = AtomicPtr::new(Box::into_raw(Box::new(Weak::new())) as _);
         Self {
             ptr,
             len,
@@ -105,7 +103,7 @@ impl<T> ArcSliceData<T> {
             lock,
             left_child: AtomicPtr::default(),
             right_child: AtomicPtr::default(),
-            guard,
+            guard: UnsafeCell::new(Weak::new()),
             phantom_item: PhantomData,
             phantom_child: PhantomData,
         }
@@ -307,35 +305,19 @@ impl DataGuard {
     /// This pushes onto ancestors any strong refs to data's ancestors that
     /// it needed along the way. Drop those only after releasing the lock.
     fn guard<T>(data: &ArcSliceData<T>, ancestors: &mut Vec<Arc<ArcSliceData<T>>>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
-        // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-        while existing_guard.is_none() {
-            // No reference to a live existing guard. We'll try constructing
-            // a new guard as we do for RcSliceData and then atomically
-            // swapping the new guard into place.
+        let existing_guard = unsafe { (*data.guard.get()).upgrade() };
+        existing_guard.unwrap_or_else(|| {
+            // No reference to a live existing guard. Construct a new guard
+            // as we do for RcSliceData.
             let parent_guard = data.parent.upgrade().map(|parent_data| {
                 let parent_guard = Self::guard(&parent_data, ancestors);
                 ancestors.push(parent_data);
                 parent_guard
             });
             let guard = Arc::new(Self { _parent: parent_guard });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
-            if prev_guard_ptr == existing_guard_ptr {
-                // Swap succeeded. Set existing_guard to the guard we just
-                // successfully created to exit the loop.
-                existing_guard = Some(guard);
-            } else {
-                // Uh oh! Swap failed. We must've just lost a race to guard this
-                // slice data. Reconstitue our guard_ptr to drop it, then keep
-                // looping until we manage to observe a live existing guard.
-                unsafe { Box::from_raw(guard_ptr); }
-                existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-            }
-        }
-        existing_guard.unwrap_or_else(|| unreachable!())
+            unsafe { *data.guard.get() = Arc::downgrade(&guard) };
+            guard
+        })
     }
 }
 
-- 
2.43.0

