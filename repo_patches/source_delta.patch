From a32bc6eda9cc3d82b1f985b68983263a87d3e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 01/14] fix: do not revive or corrupt entities created before
 maintain

EntityAllocator::maintain re-inserted every entity allocated since the last
maintain, including the ones already created (and possibly destroyed) through
create and extend.
---
 src/entity/entity_allocator.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/entity/entity_allocator.rs b/src/entity/entity_allocator.rs
index eddf900..c651cfa 100644
--- a/src/entity/entity_allocator.rs
+++ b/src/entity/entity_allocator.rs
@@ -15,15 +15,24 @@ impl EntityAllocator {
     pub fn allocate(&mut self) -> Option<Entity> {
         let recycled_since_maintain = *self.recycled_since_maintain.get_mut();
 
-        if recycled_since_maintain < self.recycled.len() {
-            *self.recycled_since_maintain.get_mut() += 1;
-            Some(self.recycled[self.recycled.len() - recycled_since_maintain - 1])
-        } else if let Ok(index) = u32::try_from(*self.next_index_to_allocate.get_mut()) {
-            *self.next_index_to_allocate.get_mut() += 1;
-            Some(Entity::with_index(index))
-        } else {
-            None
+        // The last `recycled_since_maintain` recycled entities are reserved.
+        if let Some(last) = (self.recycled.len() - recycled_since_maintain).checked_sub(1) {
+            return self.recycled.remove(last);
         }
+
+        let next_index_to_allocate = *self.next_index_to_allocate.get_mut();
+        let index = u32::try_from(next_index_to_allocate).ok()?;
+
+        // Keep the previously reserved indexes separate from the index allocated now, which
+        // must not be returned by `maintain`.
+        let reserved = self.last_maintained_index..next_index_to_allocate;
+        *self.recycled_since_maintain.get_mut() += (reserved.end - reserved.start) as usize;
+        self.recycled
+            .extend(reserved.map(|i| Entity::with_index(i as u32)));
+
+        *self.next_index_to_allocate.get_mut() += 1;
+        self.last_maintained_index = next_index_to_allocate + 1;
+        Some(Entity::with_index(index))
     }
 
     #[must_use]
-- 
2.43.0


From f8e148fc048ae421cba18eb56297857411ee1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 02/14] fix: start component slices at the beginning of the
 group range

---
 src/query/query_part.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_part.rs b/src/query/query_part.rs
index 7d85ab3..5cec82a 100644
--- a/src/query/query_part.rs
+++ b/src/query/query_part.rs
@@ -257,7 +257,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
@@ -336,7 +336,7 @@ where
         _entities: &'a [Entity],
         range: Range<usize>,
     ) -> Self::Slice<'a> {
-        slice::from_raw_parts_mut(data.as_ptr(), range.end - range.start)
+        slice::from_raw_parts_mut(data.add(range.start).as_ptr(), range.end - range.start)
     }
 }
 
-- 
2.43.0


From c8965d617c34b4a286b25287a64ed6aad7561bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 03/14] fix: accept groups nested inside previously added
 larger groups

Adding a group smaller than an existing group of the same family was refused
when the existing group contained it, and accepted when it did not.
---
 src/component/group_layout.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 2fda1b6..68273f3 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -132,9 +132,9 @@ impl GroupFamily {
                     return true;
                 }
                 Ordering::Greater => {
-                    let is_superset = self.components[prev_arity..arity]
+                    let is_superset = components
                         .iter()
-                        .all(|c| !components.contains(c));
+                        .all(|c| self.components[..arity].contains(c));
 
                     if !is_superset {
                         panic_incompatible_groups(components, &self.components[..arity]);
@@ -149,7 +149,7 @@ impl GroupFamily {
         // Insert new group.
         if let Some(index) = index {
             let next_arity = self.arities[index];
-            self.components[..next_arity].sort_by_cached_key(|c| components.contains(c));
+            self.components[..next_arity].sort_by_cached_key(|c| !components.contains(c));
             self.arities.insert(index, components.len());
         } else {
             for component in components {
-- 
2.43.0


From 166a2cbab34e6090bab3f9502e80cee3a8cf5e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 04/14] fix: support groups of 16 components and layouts of 64
 groups

The mask constructors refused the documented maximum arity and group count.
---
 src/component/group_mask.rs   | 11 +++--------
 src/component/storage_mask.rs |  5 ++---
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/component/group_mask.rs b/src/component/group_mask.rs
index 318ddcb..38bf650 100644
--- a/src/component/group_mask.rs
+++ b/src/component/group_mask.rs
@@ -11,21 +11,16 @@ impl GroupMask {
     #[inline]
     #[must_use]
     pub const fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
+        assert!(to <= MAX_GROUP_COUNT);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1_u128 << (to - from)) - 1) << from) as u64)
     }
 
     #[inline]
     #[must_use]
     pub const fn skip_from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_COUNT);
-        assert!(to < MAX_GROUP_COUNT);
-        assert!(from <= to);
-
-        Self(!(((1 << (to - from)) - 1) << from))
+        Self(!Self::from_to(from, to).0)
     }
 
     #[inline]
diff --git a/src/component/storage_mask.rs b/src/component/storage_mask.rs
index e49a44c..3308dc8 100644
--- a/src/component/storage_mask.rs
+++ b/src/component/storage_mask.rs
@@ -10,11 +10,10 @@ impl StorageMask {
     #[inline]
     #[must_use]
     pub fn from_to(from: usize, to: usize) -> Self {
-        assert!(from < MAX_GROUP_ARITY);
-        assert!(to < MAX_GROUP_ARITY);
+        assert!(to <= MAX_GROUP_ARITY);
         assert!(from <= to);
 
-        Self(((1 << (to - from)) - 1) << from)
+        Self((((1_u32 << (to - from)) - 1) << from) as u16)
     }
 }
 
-- 
2.43.0


From 01468e9f1445ecc0d01f92cdfe129a24dd106bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 05/14] fix: refuse layouts with too many groups before they
 reach a world

Setting such a layout panicked halfway through and lost the components that
the world already stored.
---
 src/component/group_layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index 68273f3..bc08e72 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -58,6 +58,13 @@ impl GroupLayout {
                 "Groups families may not have any component types in common",
             );
         }
+
+        let group_count = self.families.iter().map(|f| f.arities.len()).sum::<usize>();
+
+        assert!(
+            group_count <= MAX_GROUP_COUNT,
+            "Layouts must have at most {MAX_GROUP_COUNT} groups",
+        );
     }
 
     /// Returns the group families of this layout.
-- 
2.43.0


From d166b66effaa6074ced58af335a7a519bc62f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 06/14] fix: do not drop components twice when a destructor
 panics

---
 src/component/component_sparse_set.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index 25fb590..c9306a3 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -2,7 +2,7 @@ use crate::component::Component;
 use crate::entity::{Entity, SparseVec, SparseVecSlot};
 use alloc::{alloc, Layout, LayoutError};
 use core::ptr::NonNull;
-use core::{fmt, mem, slice};
+use core::{fmt, mem, ptr, slice};
 
 pub(crate) struct ComponentSparseSet {
     sparse: SparseVec,
@@ -111,11 +111,15 @@ impl ComponentSparseSet {
             });
         }
 
-        let dropped_ptr = self.components.cast::<T>().add(index);
-        dropped_ptr.drop_in_place();
-
+        let deleted_ptr = self.components.cast::<T>().add(index);
         let last_ptr = self.components.cast::<T>().add(self.len);
-        last_ptr.copy_to(dropped_ptr, 1);
+
+        // Move the deleted component to the end before dropping it, because the drop may panic.
+        if index < self.len {
+            deleted_ptr.swap(last_ptr);
+        }
+
+        last_ptr.drop_in_place();
     }
 
     #[inline]
@@ -299,15 +303,13 @@ impl ComponentSparseSet {
     {
         self.sparse.clear();
 
+        // Reset the length before dropping the components, because the drops may panic.
+        let len = mem::replace(&mut self.len, 0);
+
         if mem::needs_drop::<T>() {
-            for i in 0..self.len {
-                unsafe {
-                    self.components.cast::<T>().add(i).drop_in_place();
-                }
-            }
+            ptr::slice_from_raw_parts_mut(self.components.cast::<T>().as_ptr(), len)
+                .drop_in_place();
         }
-
-        self.len = 0;
     }
 
     unsafe fn drop_typed<T>(&mut self)
-- 
2.43.0


From dd7bca1ec4ed7827e7d0b7eed27b368c7d37de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 07/14] fix: strip and clear all storages when a component
 destructor panics

A destructor that panicked while an entity was destroyed left components of the
dead entity behind. Removing them through the old handle after the index had
been reused corrupted the groups of the new entity.
---
 src/component/component_storage.rs | 44 +++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 380e5e4..7e4a5e9 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -8,7 +8,7 @@ use alloc::vec::Vec;
 use atomic_refcell::AtomicRefCell;
 use core::any::{self, TypeId};
 use core::ops::Range;
-use core::{cmp, mem};
+use core::{cmp, mem, slice};
 use hashbrown::hash_map::Entry;
 use hashbrown::HashMap;
 use rustc_hash::FxBuildHasher;
@@ -140,9 +140,9 @@ impl ComponentStorage {
             ungroup_all(&mut self.components, &mut self.groups, entity);
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().delete_dyn(entity);
-        }
+        for_each_sparse_set(&mut self.components, |sparse_set| {
+            sparse_set.delete_dyn(entity);
+        });
     }
 
     pub fn clear(&mut self) {
@@ -150,9 +150,7 @@ impl ComponentStorage {
             group.len = 0;
         }
 
-        for sparse_set in &mut self.components {
-            sparse_set.get_mut().clear();
-        }
+        for_each_sparse_set(&mut self.components, ComponentSparseSet::clear);
     }
 
     #[must_use]
@@ -313,6 +311,38 @@ impl ComponentStorage {
     }
 }
 
+/// Calls `f` for all sparse sets, even if one of the calls panics.
+fn for_each_sparse_set<F>(components: &mut [AtomicRefCell<ComponentSparseSet>], f: F)
+where
+    F: FnMut(&mut ComponentSparseSet),
+{
+    struct Guard<'a, F>(slice::IterMut<'a, AtomicRefCell<ComponentSparseSet>>, F)
+    where
+        F: FnMut(&mut ComponentSparseSet);
+
+    impl<F> Guard<'_, F>
+    where
+        F: FnMut(&mut ComponentSparseSet),
+    {
+        fn run(&mut self) {
+            for sparse_set in &mut self.0 {
+                (self.1)(sparse_set.get_mut());
+            }
+        }
+    }
+
+    impl<F> Drop for Guard<'_, F>
+    where
+        F: FnMut(&mut ComponentSparseSet),
+    {
+        fn drop(&mut self) {
+            self.run();
+        }
+    }
+
+    Guard(components.iter_mut(), f).run();
+}
+
 #[derive(Clone, Copy, Debug)]
 pub(crate) struct ComponentMetadata {
     pub storage_index: usize,
-- 
2.43.0


From d2421ace07bd807d20468e352be33986870b0323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 08/14] fix: iterate all entities when a query requires no
 component

Such queries matched every entity when looking up single entities, but yielded
nothing when iterated.
---
 src/query/query_all.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/query/query_all.rs b/src/query/query_all.rs
index d1f925c..bd66b20 100644
--- a/src/query/query_all.rs
+++ b/src/query/query_all.rs
@@ -120,7 +120,7 @@ where
                 }
                 (Some(get_entities), None) => get_entities,
                 (None, Some(include_entities)) => include_entities,
-                (None, None) => &[],
+                (None, None) => self.world.entities(),
             };
 
             Iter::Sparse(SparseIter::new(
@@ -164,7 +164,7 @@ where
                 }
                 (Some(get_entities), None) => get_entities,
                 (None, Some(include_entities)) => include_entities,
-                (None, None) => &[],
+                (None, None) => self.world.entities(),
             };
 
             ParIter::Sparse(SparseParIter::new(
-- 
2.43.0


From 385ca860cff62c88212d91d95676bd65751647f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 09/14] fix: honour filters that exclude every entity in dense
 queries

Excluding an entity or an optional component matches no entity, but the filter
was ignored by dense iteration and slices.
---
 src/query/query_all.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/query/query_all.rs b/src/query/query_all.rs
index bd66b20..231049a 100644
--- a/src/query/query_all.rs
+++ b/src/query/query_all.rs
@@ -203,11 +203,20 @@ where
         let include_info = self.include_info?;
         let exclude_info = self.exclude_info?;
 
-        unsafe {
+        let range = unsafe {
             self.world
                 .components
-                .group_range(&get_info.add_query(&include_info)?, &exclude_info)
+                .group_range(&get_info.add_query(&include_info)?, &exclude_info)?
+        };
+
+        let (_, exclude_sparse) = E::split_filter_parts(&self.exclude);
+
+        // Filters that exclude all entities do not have grouping information.
+        if !E::contains_none_raw(exclude_sparse, usize::MAX) {
+            return None;
         }
+
+        Some(range)
     }
 }
 
-- 
2.43.0


From 8f6d2bf191d43f71c9e34f0e1fcb422d67c432a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 10/14] fix: do not iterate excluded entities densely in nested
 groups

When a group adds several components to a smaller group, the entities outside of
it may still have some of them, and a query excluding all of them must skip
those entities.
---
 src/query/query_all.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/query/query_all.rs b/src/query/query_all.rs
index 231049a..f5941d1 100644
--- a/src/query/query_all.rs
+++ b/src/query/query_all.rs
@@ -216,6 +216,21 @@ where
             return None;
         }
 
+        // The group range contains the entities that lack at least one of the excluded
+        // components, but the query only matches the ones that lack all of them.
+        if matches!(exclude_info, QueryGroupInfo::Many(_)) {
+            let (get_entities, _) = G::split_dense_parts(&self.get);
+            let (include_entities, _) = I::split_filter_parts(&self.include);
+            let entities = get_entities.or(include_entities)?.get(range.clone())?;
+
+            if !entities
+                .iter()
+                .all(|entity| E::contains_none_raw(exclude_sparse, entity.sparse()))
+            {
+                return None;
+            }
+        }
+
         Some(range)
     }
 }
-- 
2.43.0


From 6c4a1f04892d375a256fe7b876e95ca1f8fd8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 11/14] fix: keep groups consistent when insert or extend
 panics

A panic of the extending iterator, or a component type that was not registered,
left the components inserted so far outside of their groups.
---
 src/component/component_set.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/component/component_set.rs b/src/component/component_set.rs
index 7b629d8..4e66d27 100644
--- a/src/component/component_set.rs
+++ b/src/component/component_set.rs
@@ -44,7 +44,7 @@ macro_rules! impl_component_set {
             unsafe fn insert(world: &mut World, entity: Entity, components: Self) {
                 let mut group_mask = GroupMask::EMPTY;
 
-                $({
+                let sparse_sets = ($({
                     let metadata = world
                         .components
                         .metadata
@@ -57,11 +57,14 @@ macro_rules! impl_component_set {
                         world
                             .components
                             .components
-                            .get_unchecked_mut(metadata.storage_index)
-                            .get_mut()
-                            .insert(entity, components.$idx);
+                            .get_unchecked(metadata.storage_index)
+                            .as_ptr()
                     }
-                })*
+                },)*);
+
+                unsafe {$(
+                    (*sparse_sets.$idx).insert(entity, components.$idx);
+                )*}
 
                 if group_mask != GroupMask::EMPTY {
                     unsafe {
@@ -107,14 +110,9 @@ macro_rules! impl_component_set {
                     unsafe {$(
                         (*sparse_sets.$idx).insert(entity, components.$idx);
                     )*}
-                });
-
-                let new_entities = unsafe {
-                    world.entities.as_slice().get_unchecked(start_entity..)
-                };
 
-                if group_mask != GroupMask::EMPTY {
-                    for &entity in new_entities {
+                    // Group the entity right away, because the iterator may panic.
+                    if group_mask != GroupMask::EMPTY {
                         unsafe {
                             group(
                                 &mut world.components.components,
@@ -124,9 +122,11 @@ macro_rules! impl_component_set {
                             );
                         }
                     }
-                }
+                });
 
-                new_entities
+                unsafe {
+                    world.entities.as_slice().get_unchecked(start_entity..)
+                }
             }
 
             unsafe fn remove(world: &mut World, entity: Entity) -> Self::Remove {
-- 
2.43.0


From 260f3d6d76d83503245adcb9c6ef7a6ccbec8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 12/14] fix: discard the old storages when setting a new layout

Every layout change left a placeholder storage behind for each component type.
---
 src/component/component_storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/component/component_storage.rs b/src/component/component_storage.rs
index 7e4a5e9..000f9d7 100644
--- a/src/component/component_storage.rs
+++ b/src/component/component_storage.rs
@@ -306,6 +306,7 @@ impl ComponentStorage {
 
         self.groups.clear();
         self.metadata.clear();
+        self.components.clear();
 
         sparse_sets
     }
-- 
2.43.0


From 8acaa52d2c9f49ce2b188a0fe504e96dbfa08f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 13/14] fix: keep entity versions when swapping grouped
 components

---
 src/component/component_sparse_set.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/component/component_sparse_set.rs b/src/component/component_sparse_set.rs
index c9306a3..5251a42 100644
--- a/src/component/component_sparse_set.rs
+++ b/src/component/component_sparse_set.rs
@@ -287,8 +287,16 @@ impl ComponentSparseSet {
         // Swap entities.
         let entity_a = self.entities.add(dense_a).as_mut();
         let entity_b = self.entities.add(dense_b).as_mut();
-        self.sparse
-            .swap_nonoverlapping(entity_a.sparse(), entity_b.sparse());
+
+        // Swap only the dense indexes, because the entities may have different versions.
+        *self.sparse.get_unchecked_mut(entity_a.sparse()) = Some(SparseVecSlot {
+            index: dense_b as u32,
+            version: entity_a.version,
+        });
+        *self.sparse.get_unchecked_mut(entity_b.sparse()) = Some(SparseVecSlot {
+            index: dense_a as u32,
+            version: entity_b.version,
+        });
         mem::swap(entity_a, entity_b);
 
         // Swap components.
-- 
2.43.0


From 1cf8dfd44a33ba9f9f5d2294ebce7d8056453b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 14/14] fix: leave the group layout unchanged when a group is
 refused

A layout that had refused a group with a panic contained parts of it or all of
it afterwards.
---
 src/component/group_layout.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/component/group_layout.rs b/src/component/group_layout.rs
index bc08e72..a55e495 100644
--- a/src/component/group_layout.rs
+++ b/src/component/group_layout.rs
@@ -44,14 +44,16 @@ impl GroupLayout {
             "Groups must have at most {MAX_GROUP_ARITY} component types",
         );
 
-        let successes = self
-            .families
+        // Work on a copy, so that a refused group does not change the layout.
+        let mut families = self.families.clone();
+
+        let successes = families
             .iter_mut()
             .map(|f| usize::from(f.try_add_group(&components)))
             .sum::<usize>();
 
         if successes == 0 {
-            self.families.push(GroupFamily::new(components));
+            families.push(GroupFamily::new(components));
         } else {
             assert_eq!(
                 successes, 1,
@@ -59,12 +61,14 @@ impl GroupLayout {
             );
         }
 
-        let group_count = self.families.iter().map(|f| f.arities.len()).sum::<usize>();
+        let group_count = families.iter().map(|f| f.arities.len()).sum::<usize>();
 
         assert!(
             group_count <= MAX_GROUP_COUNT,
             "Layouts must have at most {MAX_GROUP_COUNT} groups",
         );
+
+        self.families = families;
     }
 
     /// Returns the group families of this layout.
-- 
2.43.0

