From cec0d12ad2d398f12818e9495aa20260c4dd44b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 01/13] fix: UntypedVec::pop no longer pops from an empty
 container of zero-sized values

---
 untyped_vec/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..480feca 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -207,7 +207,7 @@ impl UntypedVec {
                 drop_fn(ptr);
             }
             true
-        } else if self.len >= self.type_info.layout.size() {
+        } else if self.len > 0 {
             self.len -= self.type_info.layout.size();
             let ptr = self.data.as_ptr();
             // Safe because we're offsetting inside of the allocation
-- 
2.43.0


From 4b2566577f65973b41b000dc2b6937a6443a8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 02/13] fix: UntypedVec drops its zero-sized values too

---
 untyped_vec/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 480feca..735166e 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -362,9 +362,10 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        // Zero sized values never allocate but still have to be dropped
+        while self.pop() {}
 
+        if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
 
-- 
2.43.0


From c0deb64f6416ff72760ce2f82bb31265ed4d91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 03/13] fix: UntypedVec::as_slice and as_slice_mut accept
 zero-sized types

---
 untyped_vec/src/lib.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 735166e..6ec3412 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -309,13 +309,8 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
@@ -330,13 +325,8 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
-- 
2.43.0


From ddc9e1324e20b5430a305f62fa66226f6c4dcb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 04/13] fix: UntypedVec hands out aligned pointers when nothing
 is allocated

---
 untyped_vec/src/lib.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 6ec3412..a0a8b55 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -142,6 +142,15 @@ impl UntypedVec {
         self.len += self.type_info.layout.size();
     }
 
+    /// The start of the allocation, or a dangling but aligned pointer if nothing is allocated
+    fn data_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            return self.type_info.layout.align() as *mut u8;
+        }
+
+        self.data.as_ptr()
+    }
+
     pub fn get_raw(&self, element: usize) -> Option<*const u8> {
         if self.len == 0 {
             return None;
@@ -149,7 +158,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -176,7 +185,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.data_ptr())
             } else {
                 None
             }
@@ -200,7 +209,7 @@ impl UntypedVec {
     pub fn pop(&mut self) -> bool {
         if self.type_info.layout.size() == 0 && self.len > 0 {
             self.len -= 1;
-            let ptr = self.data.as_ptr();
+            let ptr = self.data_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
 
             if let Some(drop_fn) = self.type_info.drop_fn {
@@ -315,7 +324,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.data_ptr() as *const T, slice_len)
         }
     }
 
@@ -331,7 +340,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.data_ptr() as *mut T, slice_len)
         }
     }
 
@@ -339,14 +348,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.data_ptr()
     }
 }
 
-- 
2.43.0


From a05f5d74e3a631b93c82c0bba7204ad2e1c30870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 05/13] fix: swap_move_element_to_other_vec rejects out of
 range indices of zero-sized values

---
 untyped_vec/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index a0a8b55..72b0fc7 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -242,9 +242,7 @@ impl UntypedVec {
     ) {
         assert!(self.type_info == other.type_info);
         assert!(self.len > 0);
-        assert!(
-            self.type_info.layout.size() == 0 || element < self.len / self.type_info.layout.size()
-        );
+        assert!(element < self.len());
 
         let data: *mut MaybeUninit<u8> = self.data.as_ptr() as *mut MaybeUninit<u8>;
 
-- 
2.43.0


From e3b87d597f395dc7d84b2e35f027ef0ba89e3081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 06/13] fix: an EntityBuilder can only be built once

---
 arche_tape/src/entity_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..3f789a3 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -226,7 +226,7 @@ impl<'a> EntityBuilder<'a> {
         unsafe { self.with_dynamic_with_data(&mut component as *mut _ as *mut _, component_id) }
     }
 
-    pub fn build(&mut self) -> EcsId {
+    pub fn build(mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
-- 
2.43.0


From 1731a10bc6fd5f02165a3de5c6612b1d6191ebd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 07/13] fix: reject duplicate components before an entity is
 built

---
 arche_tape/src/entity_builder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 3f789a3..41abe73 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -228,6 +228,14 @@ impl<'a> EntityBuilder<'a> {
 
     pub fn build(mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
+
+        for (n, id) in self.comp_ids.iter().enumerate() {
+            assert!(
+                !self.comp_ids[..n].contains(id),
+                "Attempted to add the same component twice in EntityBuilder"
+            );
+        }
+
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
                 .entities
-- 
2.43.0


From d24344d91d5d686562e0a979fe196f197841e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 08/13] fix: querying a component that was never attached to an
 entity yields nothing

---
 arche_tape/src/static_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..468d4be 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -237,6 +237,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static mut T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // Components only have a lock and a bitset once an archetype containing them exists
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Mut(id))
     }
 
@@ -259,6 +261,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // Components only have a lock and a bitset once an archetype containing them exists
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Immut(id))
     }
 
-- 
2.43.0


From 9e9fdb34c49fdb46633d4cfbe96618f08257c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 09/13] fix: get_or_create_type_id_ecsid never returns the id
 of a despawned component

---
 arche_tape/src/world.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..17aaefb 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -440,7 +440,10 @@ impl World {
     pub fn get_or_create_type_id_ecsid<T: Component>(&mut self) -> EcsId {
         let comp_id = self.type_id_to_ecs_id.get(&TypeId::of::<T>());
         if let Some(comp_id) = comp_id {
-            return *comp_id;
+            // The component's entity may have been despawned since
+            if self.entities.is_alive(*comp_id) {
+                return *comp_id;
+            }
         }
 
         let entity = self.spawn().build();
-- 
2.43.0


From ebd20573c412db7652388f236568470b0d89b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:39 +0000
Subject: [PATCH 10/13] fix: get_component_mut_dynamic returns None for a
 component the entity does not have

---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 17aaefb..bd04ed0 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -869,7 +869,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From 2a46c1e095e50ab316a1b54c19dbb34c5d1e67b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 11/13] fix: remove_component_dynamic destroys the removed
 value last

---
 arche_tape/src/world.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index bd04ed0..16dec4d 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -828,11 +828,6 @@ impl World {
             skipped_storage = Some(current_archetype.component_storages.len() - 1);
         }
 
-        current_archetype.component_storages[skipped_storage.unwrap()]
-            .1
-            .get_mut()
-            .swap_remove(entity_idx);
-
         target_archetype.entities.push(entity);
         self.ecs_id_meta[entity.uindex()]
             .as_mut()
@@ -850,6 +845,12 @@ impl World {
                 .instance_meta
                 .index = entity_idx;
         }
+
+        // Has to be last as it runs the destructor of the removed value, which may panic
+        current_archetype.component_storages[skipped_storage.unwrap()]
+            .1
+            .get_mut()
+            .swap_remove(entity_idx);
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From 346e0ff28e10bb2ae9acce8e34eee28c5e8be3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 12/13] fix: conflicting queries panic instead of deadlocking

---
 arche_tape/src/dyn_query.rs    | 12 ++++++++++--
 arche_tape/src/static_query.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/arche_tape/src/dyn_query.rs b/arche_tape/src/dyn_query.rs
index 28e305b..308a745 100644
--- a/arche_tape/src/dyn_query.rs
+++ b/arche_tape/src/dyn_query.rs
@@ -171,8 +171,16 @@ impl<'a, const N: usize> DynQuery<'a, N> {
             if let Some(&idx) = world.lock_lookup.get(ecs_id) {
                 let lock = &world.locks[idx];
                 match fetch {
-                    FetchType::Mut(_) => *guard = EitherGuard::Write(lock.write().unwrap()),
-                    FetchType::Immut(_) => *guard = EitherGuard::Read(lock.read().unwrap()),
+                    FetchType::Mut(_) => {
+                        *guard = EitherGuard::Write(lock.try_write().expect(
+                            "Attempted to access a component that is already borrowed by a query",
+                        ))
+                    }
+                    FetchType::Immut(_) => {
+                        *guard = EitherGuard::Read(lock.try_read().expect(
+                            "Attempted to access a component that is already mutably borrowed by a query",
+                        ))
+                    }
                     _ => (),
                 }
             } else {
diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 468d4be..5d7a719 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -62,8 +62,8 @@ macro_rules! impl_query_tuple {
                     Some([$($T,)*]) => {
                         [$(
                             match $T {
-                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap()),
-                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap()),
+                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].try_write().expect("Attempted to access a component that is already borrowed by a query")),
+                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].try_read().expect("Attempted to access a component that is already mutably borrowed by a query")),
                                 FetchType::EcsId => EitherGuard::None,
                             },
                         )*]
-- 
2.43.0


From 0838a6bdd70766e8ece601c8e022db122f6b397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 13/13] fix: ArrayVec::pop returns the last element

---
 arche_tape/src/array_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/array_vec.rs b/arche_tape/src/array_vec.rs
index 2ab50be..6f64c82 100644
--- a/arche_tape/src/array_vec.rs
+++ b/arche_tape/src/array_vec.rs
@@ -49,8 +49,8 @@ impl<T, const LEN: usize> ArrayVec<T, LEN> {
 
     pub fn pop(&mut self) -> Option<T> {
         if self.len > 0 {
-            let data = unsafe { self.array[self.len].as_mut_ptr().read() };
             self.len -= 1;
+            let data = unsafe { self.array[self.len].as_mut_ptr().read() };
             return Some(data);
         }
 
-- 
2.43.0

