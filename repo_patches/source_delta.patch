From 82a5c9ba5d5c08fa8bf7f57ecf024473d29d12be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 01/14] fix: asking about a never-issued entity id answers no
 instead of panicking

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..5e8bfd1 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -279,7 +279,7 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
+        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
         } else {
             false
-- 
2.43.0


From 652dc9e1d137d8d3511df3c0b6e08c3921fbb8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 02/14] fix: the last id of the recycling chain no longer
 counts as a living entity

---
 src/entity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 5e8bfd1..2b65c69 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -194,8 +194,8 @@ impl<'a> Entities<'a> {
 
 #[derive(Debug,Copy,Clone)]
 enum EntityFlag{
-    /// store the next available EntityID
-    Available(EntityId),
+    /// store the next available EntityID, None at the end of the chain
+    Available(Option<EntityId>),
     /// store the index of EntityID in entities array
     Unavailable(usize)
 }
@@ -204,8 +204,8 @@ enum EntityFlag{
 pub(in crate) struct EntityManager {
     // entity_flags[0] : Because the ID 0 is not a valid ID,
     //     so the first one can be used to store the last removed ID
-    //     Unavailable(_)      -> there is no entityID for reuse
-    //     Available(EntityID) -> the EntityID
+    //     Available(None)           -> there is no entityID for reuse
+    //     Available(Some(EntityID)) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
 }
@@ -213,7 +213,7 @@ pub(in crate) struct EntityManager {
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
-            entity_flags: vec![EntityFlag::Unavailable(0)],
+            entity_flags: vec![EntityFlag::Available(None)],
             entities: vec![]
         }
     }
@@ -221,7 +221,7 @@ impl EntityManager {
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
-        if let EntityFlag::Available(last_id) = self.entity_flags.first().unwrap() {
+        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
             let last_id = *last_id;
             //we got an id can be reused
             let new_id = self.entity_flags[last_id.get()];
@@ -274,7 +274,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // keep these destroyed ids being a chain
             self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
         }
     }
 
-- 
2.43.0


From 44b369ffd7645f95d704424781da24118276657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 03/14] fix: removing an id just past the sparse array returns
 None instead of panicking

---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From 1b4a8847fa90bfd8313147032a8e9784d2b29569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 04/14] fix: batch attach overwrites components the entities
 already have

---
 src/sparse_set.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..b36be13 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -47,6 +47,13 @@ impl<E,T> SparseSet<E,T>
 
     pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
+        // overwrite the data of those which already exist
+        if entities.iter().any(|entity|self.exist(*entity)) {
+            for (entity,data) in entities.iter().zip(data) {
+                self.add(*entity,data);
+            }
+            return;
+        }
         let start_index = self.entities.len();
         // copy data to dense
         self.entities.extend_from_slice(entities);
-- 
2.43.0


From 4aff8153615590e497d1aa718e7efaa96bad6043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 05/14] fix: batch attach adds the entities to the groups of
 the component

---
 src/entity.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 2b65c69..e3c72ff 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,12 +166,12 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
+        let mut storage = self.world.raw_storage_write(type_id)
             .expect("Entities:Cannot attach component because components has not been registered.");
         // Safety:
-        // sparse_set is SparseSet<EntityId,T>
+        // storage is SparseSet<EntityId,T>
         let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
+            storage.downcast_mut::<SparseSet<EntityId,T>>()
         };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
@@ -180,6 +180,36 @@ impl<'a> Entities<'a> {
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
         sparse_set.add_batch(&ids,components);
+        drop(storage);
+        let world = self.world;
+        for mut group in world.groups(type_id) {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    }
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&comp_b);
+                    }
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = world.raw_storage_read(type_a).unwrap();
+                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From cdf48cdd52c25a8d719350531433b6613fbbb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 06/14] fix: non-owning groups look components up by entity,
 not by a stale index

---
 src/group/non_owning/mod.rs   |  17 ++---
 src/group/non_owning/query.rs | 116 +++++++++++++++-------------------
 2 files changed, 58 insertions(+), 75 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..411f6ab 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,7 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +67,7 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +96,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +105,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..0893ad7 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -80,12 +80,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -111,14 +111,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -138,9 +138,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -148,12 +145,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -170,7 +167,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +232,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -245,12 +242,12 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -276,14 +273,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -303,9 +300,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -313,12 +307,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
+                sparse_set_a.get_unchecked(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -335,7 +329,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +394,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -410,12 +404,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -441,14 +435,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             Some((data_a,data_b))
         } else {
@@ -468,9 +462,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -478,12 +469,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
+                sparse_set_b.get_unchecked(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
@@ -501,7 +492,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +557,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -576,12 +567,12 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((data_a,data_b))
@@ -607,14 +598,14 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
+        if group.exist(id) {
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             Some((data_a,data_b))
         } else {
@@ -634,9 +625,6 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
@@ -644,12 +632,12 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
             // Safety:
-            // Safe here, because the index stored in group is valid.
+            // Safe here, because entities in group have both components.
             let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
+                sparse_set_a.get_unchecked_mut(id)
             };
             let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
+                sparse_set_b.get_unchecked_mut(id)
             };
             self.index += 1;
             Some((id,(data_a,data_b)))
-- 
2.43.0


From 0407171dea6b887be22ef1669fe314f4647860ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 07/14] fix: removing an entity updates every group before any
 storage

---
 src/world.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..60b0af4 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -111,7 +111,8 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
+        // remove entity in all groups before removing it in any storage,
+        // because groups can share storages
         for mut group in groups {
             match &mut *group{
                 Group::FullOwning(data) => {
@@ -119,15 +120,12 @@ impl World {
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +135,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
-- 
2.43.0


From 01cfeb98ff954613cd6d47cb7010e6380f80e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 08/14] fix: make_group refuses unregistered or repeated
 components before adding the group

---
 src/world.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index 60b0af4..06f18e1 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -255,6 +255,8 @@ impl World {
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
     /// * Panic if component is owned by another group.
+    /// * Panic if both components of ```group``` are the same.
+    /// * Panic if component is not registered.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
@@ -275,6 +277,11 @@ impl World {
             },
             "World: Cannot make group because component was owned by another group"
         );
+        let (type_a,type_b) = group.types();
+        assert!(type_a != type_b,
+                "World: Cannot make group because its two components are the same");
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because component has not been registered");
 
         self.groups.push(RwLock::new(group));
         let group = self.groups.last().unwrap();
-- 
2.43.0


From 63742bc42d649f5f6f8f40c45a3eb7dbb771f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 09/14] fix: group queries lock the group before its storages,
 as attach and detach do

---
 src/group/full_owning/query.rs    | 16 ++++++++--------
 src/group/non_owning/query.rs     | 16 ++++++++--------
 src/group/partial_owning/query.rs | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 21d03e6..518cc5d 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -24,6 +24,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +40,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef{
             index: 0,
@@ -157,6 +157,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -171,8 +173,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut{
             index: 0,
@@ -291,6 +291,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -305,8 +307,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef{
             index: 0,
@@ -424,6 +424,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
                 "Queryable for FullOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
+        let group = world.group(full_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -438,8 +440,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
-        let group = world.group(full_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut{
             index: 0,
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 0893ad7..6ca3b24 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -24,6 +24,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +40,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -186,6 +186,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -200,8 +202,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -348,6 +348,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -362,8 +364,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
@@ -511,6 +511,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
                 "Queryable for NonOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
+        let group = world.group(non_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -525,8 +527,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
-        let group = world.group(non_owning::<A,B>());
         let group_data = match &*group {
             Group::NonOwning(data) => data,
             _ => unreachable!()
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d0dfbd6..d3cc6ea 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -24,6 +24,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -38,8 +40,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefRef {
             index: 0,
@@ -165,6 +165,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let storage_a = world.raw_storage_read(type_id_a).unwrap();
@@ -179,8 +181,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         };
         let ptr_a = &*sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterRefMut {
             index: 0,
@@ -308,6 +308,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -322,8 +324,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &*sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutRef {
             index: 0,
@@ -449,6 +449,8 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
                 "Queryable for PartialOwning: Component was not registered in world");
         let type_id_a = TypeId::of::<A>();
         let type_id_b = TypeId::of::<B>();
+        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
+        let group = world.group(partial_owning::<A,B>());
         // Unwrap here
         // assert before ensures this
         let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
@@ -463,8 +465,6 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         };
         let ptr_a = &mut *sparse_set_a;
         let ptr_b = &mut *sparse_set_b;
-        assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
-        let group = world.group(partial_owning::<A,B>());
         let length = group.len();
         Box::new(IterMutMut {
             index: 0,
-- 
2.43.0


From cfa86dc0385f6a71794998bf4389d845ef7e2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 10/14] fix: the two storages of a group are always locked in
 one global order

---
 src/entity.rs                     | 47 ++++++++++++++++++-------------
 src/group/full_owning/query.rs    | 30 +++++++++++---------
 src/group/non_owning/query.rs     | 30 +++++++++++---------
 src/group/partial_owning/query.rs | 30 +++++++++++---------
 src/world.rs                      | 44 +++++++++++++++++++++++------
 5 files changed, 115 insertions(+), 66 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index e3c72ff..7e5f549 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1,5 +1,5 @@
 use std::{any::TypeId, num::NonZeroUsize, ops::Range};
-use parking_lot::RwLockReadGuard;
+use parking_lot::{RwLock, RwLockReadGuard};
 use crate::{component::{Component, ComponentRead, ComponentWrite}, group::Group, sparse_set::SparseSet, world::World};
 
 /// The type of ID of entity which starts from 1 and can be recycled automatically
@@ -54,20 +54,23 @@ impl<'a> Entity<'a>{
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
-                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    let (mut comp_a,mut comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::write);
                     data.add(self.id,&mut comp_a,&mut comp_b);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (mut comp_a,comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::read);
                     data.add(self.id,&mut comp_a,&comp_b);
                 },
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = world.raw_storage_read(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::read,
+                        type_b,RwLock::read);
                     data.add(self.id,&comp_a,&comp_b);
                 }
             }
@@ -87,20 +90,23 @@ impl<'a> Entity<'a>{
             match &mut *group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
-                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    let (mut comp_a,mut comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::write);
                     data.remove(self.id,&mut comp_a,&mut comp_b);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (mut comp_a,comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::read);
                     data.remove(self.id,&mut comp_a,&comp_b);
                 },
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = world.raw_storage_read(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::read,
+                        type_b,RwLock::read);
                     data.remove(self.id,&comp_a,&comp_b);
                 }
             }
@@ -186,24 +192,27 @@ impl<'a> Entities<'a> {
             match &mut *group {
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
-                    let mut comp_b = world.raw_storage_write(type_b).unwrap();
+                    let (mut comp_a,mut comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::write);
                     for id in &ids {
                         data.add(*id,&mut comp_a,&mut comp_b);
                     }
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = world.raw_storage_write(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (mut comp_a,comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::read);
                     for id in &ids {
                         data.add(*id,&mut comp_a,&comp_b);
                     }
                 },
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = world.raw_storage_read(type_a).unwrap();
-                    let comp_b = world.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = world.raw_storage_pair(
+                        type_a,RwLock::read,
+                        type_b,RwLock::read);
                     for id in &ids {
                         data.add(*id,&comp_a,&comp_b);
                     }
diff --git a/src/group/full_owning/query.rs b/src/group/full_owning/query.rs
index 518cc5d..fbf5c4c 100644
--- a/src/group/full_owning/query.rs
+++ b/src/group/full_owning/query.rs
@@ -1,5 +1,5 @@
 use std::any::TypeId;
-use parking_lot::{RwLockReadGuard, RwLockWriteGuard};
+use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, full_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::World};
 use super::FullOwning;
 
@@ -26,10 +26,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a B> {
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
         let group = world.group(full_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::read,
+            type_id_b,RwLock::read);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -159,10 +160,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a A,&'a mut
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
         let group = world.group(full_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::read,
+            type_id_b,RwLock::write);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -293,10 +295,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
         let group = world.group(full_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::write,
+            type_id_b,RwLock::read);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -426,10 +429,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for FullOwning<&'a mut A,&'a
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
         let group = world.group(full_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::write,
+            type_id_b,RwLock::write);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 6ca3b24..1aa64e9 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -1,5 +1,5 @@
 use std::any::TypeId;
-use parking_lot::{RwLockReadGuard, RwLockWriteGuard};
+use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, non_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::World};
 use super::NonOwning;
 
@@ -26,10 +26,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a B> {
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
         let group = world.group(non_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::read,
+            type_id_b,RwLock::read);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -188,10 +189,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a A,&'a mut B
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
         let group = world.group(non_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::read,
+            type_id_b,RwLock::write);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -350,10 +352,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a B
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
         let group = world.group(non_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::write,
+            type_id_b,RwLock::read);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -513,10 +516,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for NonOwning<&'a mut A,&'a m
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(non_owning::<A,B>()),"Queryable for NonOwning: Group is not in world");
         let group = world.group(non_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::write,
+            type_id_b,RwLock::write);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/group/partial_owning/query.rs b/src/group/partial_owning/query.rs
index d3cc6ea..f0656b4 100644
--- a/src/group/partial_owning/query.rs
+++ b/src/group/partial_owning/query.rs
@@ -1,5 +1,5 @@
 use std::any::TypeId;
-use parking_lot::{RwLockReadGuard, RwLockWriteGuard};
+use parking_lot::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use crate::{component::{Component, ComponentStorage}, entity::EntityId, group::{Group, partial_owning}, query::{QueryIterator, Queryable}, sparse_set::SparseSet, world::World};
 use super::PartialOwning;
 
@@ -26,10 +26,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a B
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
         let group = world.group(partial_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (storage_a,storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::read,
+            type_id_b,RwLock::read);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -167,10 +168,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a A,&'a m
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
         let group = world.group(partial_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let storage_a = world.raw_storage_read(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (storage_a,mut storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::read,
+            type_id_b,RwLock::write);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -310,10 +312,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
         let group = world.group(partial_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let storage_b = world.raw_storage_read(type_id_b).unwrap();
+        let (mut storage_a,storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::write,
+            type_id_b,RwLock::read);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
@@ -451,10 +454,11 @@ impl<'a,A : Component,B : Component> Queryable<'a> for PartialOwning<&'a mut A,&
         let type_id_b = TypeId::of::<B>();
         assert!(world.has_group(partial_owning::<A,B>()),"Queryable for PartialOwning: Group is not in world");
         let group = world.group(partial_owning::<A,B>());
-        // Unwrap here
+        // Never fails
         // assert before ensures this
-        let mut storage_a = world.raw_storage_write(type_id_a).unwrap();
-        let mut storage_b = world.raw_storage_write(type_id_b).unwrap();
+        let (mut storage_a,mut storage_b) = world.raw_storage_pair(
+            type_id_a,RwLock::write,
+            type_id_b,RwLock::write);
         // Safety:
         // storage is SparseSet<EntityId,...>
         let sparse_set_a = unsafe {
diff --git a/src/world.rs b/src/world.rs
index 06f18e1..ba281ff 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -103,8 +103,9 @@ impl World {
             let need_remove = {
                 let group = group.read();
                 let (type_a,type_b) = group.types();
-                let comp_a = self.raw_storage_read(type_a).unwrap();
-                let comp_b = self.raw_storage_read(type_b).unwrap();
+                let (comp_a,comp_b) = self.raw_storage_pair(
+                    type_a,RwLock::read,
+                    type_b,RwLock::read);
                 group.in_group(entity_id, &comp_a, &comp_b)
             };
             if need_remove {
@@ -117,20 +118,23 @@ impl World {
             match &mut *group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = self.raw_storage_write(type_a).unwrap();
-                    let mut comp_b = self.raw_storage_write(type_b).unwrap();
+                    let (mut comp_a,mut comp_b) = self.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::write);
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let mut comp_a = self.raw_storage_write(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
+                    let (mut comp_a,comp_b) = self.raw_storage_pair(
+                        type_a,RwLock::write,
+                        type_b,RwLock::read);
                     data.remove(entity_id,&mut comp_a,&comp_b);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
-                    let comp_a = self.raw_storage_read(type_a).unwrap();
-                    let comp_b = self.raw_storage_read(type_b).unwrap();
+                    let (comp_a,comp_b) = self.raw_storage_pair(
+                        type_a,RwLock::read,
+                        type_b,RwLock::read);
                     data.remove(entity_id,&comp_a,&comp_b);
                 },
             }
@@ -174,6 +178,30 @@ impl World {
             .map(|rwlock|rwlock.write())
     }
 
+    /// Get lock guards of two different raw component storages.
+    /// The locks are always taken in the order of type id,
+    /// so threads locking the same storages never wait for each other in a circle.
+    /// # Panics
+    /// * Panics if one of components is not registered
+    pub(in crate) fn raw_storage_pair<'a,GA,GB>(
+        &'a self,
+        id_a : TypeId,
+        lock_a : impl FnOnce(&'a RwLock<Box<dyn ComponentStorage>>) -> GA,
+        id_b : TypeId,
+        lock_b : impl FnOnce(&'a RwLock<Box<dyn ComponentStorage>>) -> GB) -> (GA,GB) {
+        let storage_a = &self.components[&id_a];
+        let storage_b = &self.components[&id_b];
+        if id_a < id_b {
+            let guard_a = lock_a(storage_a);
+            let guard_b = lock_b(storage_b);
+            (guard_a,guard_b)
+        } else {
+            let guard_b = lock_b(storage_b);
+            let guard_a = lock_a(storage_a);
+            (guard_a,guard_b)
+        }
+    }
+
     /// Attach a component to an entity.  
     /// # Panics
     /// * Panic if ```T``` is not registered.
-- 
2.43.0


From a62bbf424088f1c95f9b4abd36e8ac74d43df5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 11/14] fix: removing an entity never holds one storage while
 it waits for another

---
 src/world.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ba281ff..c47170e 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -140,19 +140,16 @@ impl World {
             }
         }
         // remove entity in storages
-        let mut storages = vec![];
+        // only lock one storage at a time, because they are not in a fixed order
         for storage in self.components.values() {
             let need_remove = {
                 let storage = storage.read();
                 storage.has(entity_id)
             };
             if need_remove {
-                storages.push(storage.write());
+                storage.write().remove(entity_id);
             }
         }
-        for mut storage in storages {
-            storage.remove(entity_id);
-        }
         // remove entity from manager
         {
             let mut entity_manager = self.entity_manager.write();
-- 
2.43.0


From b8dce48297144b500753452bc1214b6424f72c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 12/14] fix: an entity stops existing before its components are
 removed, not after

---
 src/entity.rs | 26 ++++++++++++++++++++++----
 src/world.rs  | 12 +++++++++---
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 7e5f549..689b622 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -303,20 +303,38 @@ impl EntityManager {
     }
     // remove entity id
     // Do nothing if entity_id not exist
+    #[allow(dead_code)]
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
+        if self.retire(entity_id) {
+            self.recycle(entity_id);
+        }
+    }
+
+    // the first step of removing: entity_id does not exist anymore,
+    // but it cannot be reused until recycle() is called
+    // Return false and do nothing if entity_id not exist
+    pub(in crate) fn retire(&mut self,entity_id : EntityId) -> bool {
         let entity_id_ = entity_id.get();
-        if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
+        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
             // unwrap safe: in this branch, we must have one entity at least
             let the_last_one_id = self.entities.last().unwrap();
             // move this entity to the end of entities
             self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
             self.entities.swap_remove(index);
-            // keep these destroyed ids being a chain
-            self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
+            self.entity_flags[entity_id_] = EntityFlag::Available(None);
+            true
+        } else {
+            false
         }
     }
 
+    // the second step of removing: make a retired entity_id reusable
+    pub(in crate) fn recycle(&mut self,entity_id : EntityId) {
+        // keep these destroyed ids being a chain
+        self.entity_flags[entity_id.get()] = self.entity_flags[0];
+        self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
+    }
+
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
         if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
diff --git a/src/world.rs b/src/world.rs
index c47170e..1c8e18b 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -95,7 +95,13 @@ impl World {
 
     /// Remove entity and its components.
     pub fn remove_entity(&self, entity_id: EntityId) {
-        assert!(self.exist(entity_id),
+        // From now on no one can get this entity, so nothing can be attached to it.
+        // But its id will not be reused until all components are removed.
+        let existed = {
+            let mut entity_manager = self.entity_manager.write();
+            entity_manager.retire(entity_id)
+        };
+        assert!(existed,
                 "World:Cannot remove a non-exists entity");
         // find all groups need remove 
         let mut groups = vec![];
@@ -150,10 +156,10 @@ impl World {
                 storage.write().remove(entity_id);
             }
         }
-        // remove entity from manager
+        // make the id reusable
         {
             let mut entity_manager = self.entity_manager.write();
-            entity_manager.remove(entity_id);
+            entity_manager.recycle(entity_id);
         }
     }
 
-- 
2.43.0


From 829b11beb0ac55f201e29d624b4543c7a2790e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 13/14] fix: detach keeps its groups locked until the component
 is gone

---
 src/entity.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 689b622..2610b96 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -86,8 +86,10 @@ impl<'a> Entity<'a>{
         assert!(world.has_registered::<T>(),
                 "World:Cannot detach component because components has not been registered.");
         let type_id = TypeId::of::<T>();
-        for mut group in world.groups(type_id) {
-            match &mut *group{
+        // keep groups locked until the component is removed
+        let mut groups = world.groups(type_id);
+        for group in &mut groups {
+            match &mut **group{
                 Group::FullOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let (mut comp_a,mut comp_b) = world.raw_storage_pair(
-- 
2.43.0


From 7ca9999f3db71b92ede559ef1805ac14f59f0208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 14/14] fix: a created entity cannot be removed before its
 handle is returned

---
 src/world.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index 1c8e18b..811655d 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -74,23 +74,20 @@ impl World {
     /// Create an entity without any component in World,
     ///  return an [Entity](crate::entity::Entity).
     pub fn create_entity(&self) -> Entity<'_> {
-        let id = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate()
-        };
-        self.entity(id).unwrap()
+        let mut entity_manager = self.entity_manager.write();
+        let id = entity_manager.allocate();
+        // no one can remove this entity before Entity is dropped
+        Entity::new(self,RwLockWriteGuard::downgrade(entity_manager),id)
     }
 
     /// Create count of entities
     /// # Details
     /// This funtionn ensures tbe entity id is continuous.
     pub fn create_entities(&self,count: usize) -> Entities<'_> {
-        let ids = {
-            let mut entity_manager = self.entity_manager.write();
-            entity_manager.allocate_n(count)
-        };
-        let entity_manager = self.entity_manager.read();
-        Entities::new(self,ids,entity_manager)
+        let mut entity_manager = self.entity_manager.write();
+        let ids = entity_manager.allocate_n(count);
+        // no one can remove these entities before Entities is dropped
+        Entities::new(self,ids,RwLockWriteGuard::downgrade(entity_manager))
     }
 
     /// Remove entity and its components.
-- 
2.43.0

