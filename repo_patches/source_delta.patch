From a8b8a6f03806c3d6e366ffb41b98ee353bcdf07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 01/90] fix: zero fill streams grown with truncate

---
 src/aaf2/cfb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..49fed89 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -329,7 +329,11 @@ class Stream(object):
 
         # grown the stream
         if size > current_byte_size:
-            self.allocate(size)
+            # seek pads with zeros, allocating only would expose
+            # whatever the newly acquired sectors had in them before
+            orig_pos = self.pos
+            self.seek(size)
+            self.pos = orig_pos
             return
 
         # shrink to mini stream
-- 
2.43.0


From 6825be9af42b730ea797a3e625082b54a5e9997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 02/90] fix: look at the sibling of the current node when
 rebalancing a removal

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 49fed89..2b0fdb7 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -913,7 +913,7 @@ class DirEntry(object):
                     assert is_parent_of(parent, node)
 
                 elif is_not_red(node[1 - direction]):
-                    sibling = parent[1 - direction]
+                    sibling = parent[1 - last]
                     if sibling is not None:
 
                         if is_not_red(sibling[1 - last]) and is_not_red(sibling[last]):
-- 
2.43.0


From ae164532e2a35533cd45085b8ea9c8869b789527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 03/90] fix: path of entries below a storage that is named like
 the root entry

---
 src/aaf2/cfb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 2b0fdb7..ebf5e63 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1005,8 +1005,7 @@ class DirEntry(object):
         path = []
         parent = self
         while parent:
-            name = parent.name
-            if name == "Root Entry":
+            if parent.isroot():
                 break
             path.append(parent.name)
             parent= parent.parent
-- 
2.43.0


From f25a1aa7f43ce9e423ff4ee461bc0a1fdd0faf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 04/90] fix: refuse to move a storage into itself

---
 src/aaf2/cfb.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index ebf5e63..a4bb538 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2130,6 +2130,13 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        # otherwise the storage would be detached from the tree
+        parent = dst_entry
+        while parent is not None:
+            if parent.dir_id == src_entry.dir_id:
+                raise ValueError("cannot move %s into itself: %s" % (src, dst))
+            parent = parent.parent
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From 495115d9303a84a891197b76f5cf50486f82d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 05/90] fix: setting DirEntry.modify_time

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index a4bb538..7baf0dc 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -639,7 +639,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From a8da77b4c3cfac65179e1fcfdecdc167884d27b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 06/90] fix: refuse names that only differ by case from a
 sibling, they corrupt the tree

---
 src/aaf2/cfb.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 7baf0dc..8d0ec04 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -730,6 +730,23 @@ class DirEntry(object):
     def child(self):
         return self.storage.read_dir_entry(self.child_id, self)
 
+    def find_child(self, name):
+        """
+        Find the child called name, names are not case sensitive.
+        """
+        dir_per_sector = self.storage.sector_size // 128
+        max_dirs_entries = self.storage.dir_sector_count * dir_per_sector
+
+        node = self.child()
+        count = 0
+        while node is not None and count < max_dirs_entries:
+            if node == name:
+                return node
+            node = node[1] if node < name else node[0]
+            count += 1
+
+        return None
+
     def add_child(self, entry):
         entry.parent = self
         entry.color = 'black'
@@ -1849,6 +1866,10 @@ class CompoundFileBinary(object):
         if not root.type in ('storage', 'root storage'):
             raise ValueError("can not add entry to non storage type")
 
+        # names only differing by case cannot be in the same tree
+        if root.find_child(basename) is not None:
+            raise ValueError("%s already exists" % path)
+
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
 
@@ -2130,6 +2151,11 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        # names only differing by case cannot be in the same tree
+        match = dst_entry.find_child(dst_basename)
+        if match is not None and match is not src_entry:
+            raise ValueError("dst path already exist: %s" % dst)
+
         # otherwise the storage would be detached from the tree
         parent = dst_entry
         while parent is not None:
-- 
2.43.0


From 29d143669018be21a2c6c7d90a304c9dd0ed42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 07/90] fix: writing to empty streams that start with
 ENDOFCHAIN

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 8d0ec04..6c27e6c 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -645,6 +645,9 @@ class DirEntry(object):
     @property
     def sector_id(self):
         sid = unpack_u32le_from(self.data, 116)
+        # other applications use ENDOFCHAIN for streams without any data
+        if sid == ENDOFCHAIN:
+            return None
         return decode_sid(sid)
 
     @sector_id.setter
-- 
2.43.0


From 65b0f120716ce6054cc1bdae4da488564146b8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 08/90] fix: removing entries from sibling trees that are not
 red black trees

---
 src/aaf2/cfb.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 6c27e6c..459d861 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -898,7 +898,6 @@ class DirEntry(object):
         grand_parent = None
         parent = None
         entry_parent = None
-        entry_grand_parent = None
         direction = 1
         found = None
 
@@ -916,12 +915,6 @@ class DirEntry(object):
             direction = int(node < entry)
 
             if node is entry:
-                # store the grand parent because the parent of entry
-                # can change during rebalance below
-                if grand_parent is None:
-                    entry_grand_parent = head
-                else:
-                    entry_grand_parent = grand_parent
                 found = node
 
             # Push the red node down
@@ -970,9 +963,9 @@ class DirEntry(object):
         if count >= max_dirs_entries:
             raise CompoundFileBinaryError("max dir entries limit reached")
 
-        # entry parent could have changed during rebalance
-        max_search_depth = 4 # grand_parent -> parent -> node
-        entry_parent = find_entry_parent(entry_grand_parent, entry, max_search_depth)
+        # entry parent could have changed during rebalance, and if the tree
+        # wasn't a red black tree to begin with it could be anywhere
+        entry_parent = find_entry_parent(head, entry, max_dirs_entries)
 
         if entry_parent[0] is entry:
             entry_direction = 0
-- 
2.43.0


From 90d781a5904e321dce2e51203ffcd65ed9f5f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 09/90] fix: deleting a property of an object in a read only
 file

---
 src/aaf2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 89829f9..81b37c2 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -342,6 +342,9 @@ class AAFObject(object):
         if result is sentinel:
             raise KeyError(key)
 
+        if not result.writeable:
+            raise AAFPropertyError("file readonly")
+
         del self.property_entries[result.pid]
         if self.dir:
             self.root.manager.add_modified(self)
-- 
2.43.0


From 99d8a94a85fd93a121dd8aa73112f48001ad1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 10/90] fix: comparing class definitions

---
 src/aaf2/metadict.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..9d2dfe8 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -145,7 +145,12 @@ class ClassDef(core.AAFObject):
         return self
 
     def __eq__(self, other):
-        self.auid == other.auid
+        if isinstance(other, ClassDef):
+            return self.auid == other.auid
+        return NotImplemented
+
+    def __hash__(self):
+        return hash(self.auid)
 
     @property
     def auid(self):
-- 
2.43.0


From c59784d6f8e9fb6db706860a15627d6a6a74d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 11/90] fix: registering a class definition that is known by
 another name

---
 src/aaf2/metadict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 9d2dfe8..1d0fea6 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -417,7 +417,7 @@ class MetaDictionary(core.AAFObject):
         if name in self.classdefs_by_name:
             c = self.classdefs_by_name[name]
         elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
+            c = self.classdefs_by_auid[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
-- 
2.43.0


From 1aaca479d553a074785501955b418cb26458343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 12/90] fix: duplicate slot ids when the used slot ids have
 gaps

---
 src/aaf2/mobs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..ee261b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -97,6 +97,7 @@ class Mob(core.AAFObject):
             for i, e in enumerate(slots + [None], start):
                 if i != e:
                     slot_id = i
+                    break
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From 4ab11610f8713c6cfe88a519c1976905066bdf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 13/90] fix: length of timeline slots with a nested scope

---
 src/aaf2/mobslots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From 73d6b34599408b0c4275265167529f5ec65c4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 14/90] fix: adding missing parameters to a known operation
 when updating a dictionary

---
 src/aaf2/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 2655eb5..aee151b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -278,4 +278,4 @@ class Dictionary(core.AAFObject):
                     for p in other_def.parameters:
                         param = self.lookup_parameterdef(p.auid)
                         if param.unique_key not in opdef.parameters:
-                            opdef.append(param)
+                            opdef.parameters.append(param)
-- 
2.43.0


From f3281431b5e1995195da18056b8ca7103548f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 15/90] fix: assigning OperationGroup.parameters

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..5da1ca4 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -324,7 +324,7 @@ class OperationGroup(Segment):
 
     @parameters.setter
     def parameters(self, value):
-        self['Parameters'] = value
+        self['Parameters'].value = value
 
     @property
     def segments(self):
-- 
2.43.0


From cf12708c5e7643c36167c2689fc69b236c7affe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 16/90] fix: copies of type definitions keep their type name,
 element type and target

---
 src/aaf2/types.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..4fa14cf 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -327,7 +327,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -398,7 +398,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -478,7 +478,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -540,7 +540,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -594,7 +594,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -752,7 +752,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -802,7 +802,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
 
@@ -930,7 +930,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From fc45793839babc0c3492ff8abdb52cb56359c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 17/90] fix: fixed arrays are encoded with exactly their number
 of elements

---
 src/aaf2/types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 4fa14cf..1f6b6dc 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -375,11 +375,7 @@ class TypeDefFixedArray(TypeDef):
             result += element_typedef.encode(item)
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
-            while bytes_left:
-                result += b'\0'
-                bytes_left -= 1
+        result += b'\0' * (element_count * byte_size - len(result))
 
         return result
 
-- 
2.43.0


From df7918c3d42adffa6e281ec078821ff3454bed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 18/90] fix: MobID and AUID values are stored by value

---
 src/aaf2/properties.py | 2 +-
 src/aaf2/types.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..9914196 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -863,7 +863,7 @@ class StrongRefSetProperty(Property):
         self.references[new_key] = local_key
         self.objects[new_key] = obj
 
-        obj.unique_property.data = new_key.bytes_le
+        obj.unique_property.data = bytes(new_key.bytes_le)
 
     @writeonly
     def extend(self, values):
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 1f6b6dc..3af0617 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -687,11 +687,11 @@ class TypeDefRecord(TypeDef):
     def encode(self, data):
         # MobID
         if self.auid == MOBID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         # AUID
         if self.auid == AUID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         result = b""
         # TimeStamp
-- 
2.43.0


From 817720cda8b9ed4e0d4b1c041160884dc1085ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 19/90] fix: opening a stream property for writing marks the
 object modified

---
 src/aaf2/properties.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 9914196..2d39d65 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -225,9 +225,9 @@ class StreamProperty(Property):
         self.add_pid_entry()
 
     def open(self, mode='r'):
-        self.setup_stream()
-
         if mode == 'r':
+            self.setup_stream()
+
             if self.attached:
                 stream = self.parent.dir.get(self.stream_name)
             else:
@@ -240,6 +240,9 @@ class StreamProperty(Property):
             if not self.writeable:
                 raise AAFPropertyError("file readonly")
 
+            self.setup_stream()
+            self.mark_modified()
+
             if self.attached:
                 return self.parent.dir.touch(self.stream_name).open(mode)
             else:
-- 
2.43.0


From e2d94ce150cc2c0c4072e75f6d2bad58af4e4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 20/90] fix: detaching unattached objects that have streams

---
 src/aaf2/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2d39d65..fdd323f 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -258,6 +258,10 @@ class StreamProperty(Property):
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
 
+        # already detached
+        if not self.attached:
+            return
+
         stream = self.parent.dir.get(self.stream_name)
         if not stream:
             raise AAFAttachError("stream doesn't exists")
-- 
2.43.0


From c53ec6806168b16d151ceca4fa6317812fc981ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 21/90] fix: assigning to strong reference properties: refuse
 attached objects up front, detach the replaced object

---
 src/aaf2/properties.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index fdd323f..afeea58 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -357,7 +357,14 @@ class StrongRefProperty(Property):
     @value.setter
     @writeonly
     def value(self, value):
+        current = None
+        if self.object or (self.ref and self.attached):
+            current = self.value
+
         if value is None:
+            if current:
+                current.detach()
+                self.object = None
             self.remove_pid_entry()
             return
 
@@ -370,14 +377,17 @@ class StrongRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        if value.dir and value is not current:
+            raise AAFAttachError("Object already attached")
+
         if self.ref is None:
             propdef = self.propertydef
             self.ref = mangle_name(propdef.property_name, self.pid, 32)
             self.data = self.encode(self.ref)
 
         # before assigning new object detach old
-        if self.object:
-            self.object.detach()
+        if current:
+            current.detach()
             self.object = None
 
         self.object = value
-- 
2.43.0


From 1e88779ef0ac6a01ad90f00b7cb6bf9fe2e407ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 22/90] fix: removing a strong reference property detaches its
 objects

---
 src/aaf2/core.py       | 7 +++++++
 src/aaf2/properties.py | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 81b37c2..9317935 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -345,6 +345,13 @@ class AAFObject(object):
         if not result.writeable:
             raise AAFPropertyError("file readonly")
 
+        # detaches the objects
+        if isinstance(result, (properties.StrongRefProperty,
+                               properties.StrongRefVectorProperty,
+                               properties.StrongRefSetProperty)):
+            result.value = None
+            return
+
         del self.property_entries[result.pid]
         if self.dir:
             self.root.manager.add_modified(self)
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index afeea58..a960629 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -675,9 +675,11 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
+        value = list(value)
         self.clear()
         self.extend(value)
 
@@ -967,13 +969,15 @@ class StrongRefSetProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
-        self.clear()
         if isinstance(value, dict):
             value = value.values()
 
+        value = list(value)
+        self.clear()
         self.extend(value)
         return
 
-- 
2.43.0


From 8f0c86109951120524cf0ce5538cc029a2ad1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 23/90] fix: extending reference properties with an iterator,
 or a vector with an object twice

---
 src/aaf2/properties.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a960629..eb2ad53 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -646,6 +646,10 @@ class StrongRefVectorProperty(Property):
         index_name = self.index_name # sets self.data
         ref_classdef = self.ref_classdef
 
+        value = list(value)
+        if len(set(id(obj) for obj in value)) != len(value):
+            raise AAFAttachError("Object occurs more than once")
+
         for obj in value:
             assert ref_classdef.isinstance(obj.classdef)
 
@@ -888,6 +892,7 @@ class StrongRefSetProperty(Property):
     def extend(self, values):
         typedef = self.typedef
         classdef = typedef.ref_classdef
+        values = list(values)
 
         # check values are the correct type
         for item in values:
@@ -1230,6 +1235,7 @@ class WeakRefArrayProperty(Property):
     @writeonly
     def extend(self, values):
         ref_classdef = self.ref_classdef
+        values = list(values)
 
         # check values are the correct type
         for item in values:
@@ -1273,6 +1279,7 @@ class WeakRefArrayProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 6808c8d7f9d0c9d4fda62c9759b2600972e26e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 24/90] fix: negative indices of strong reference vectors that
 are out of range, type of assigned items

---
 src/aaf2/properties.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index eb2ad53..0978c5e 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -526,11 +526,11 @@ class StrongRefVectorProperty(Property):
         return "%s{%x}" % (self.index_name, self.references[index])
 
     def get(self, index, default=None):
-        if index >= len(self.references):
-            return default
-
         if index < 0:
-            index = max(0, len(self.references) + index)
+            index += len(self.references)
+
+        if index < 0 or index >= len(self.references):
+            return default
 
         item = self.objects.get(index, None)
         if item:
@@ -558,11 +558,13 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def __setitem__(self, index, value):
         if index < 0:
-            index = max(0, len(self) + index)
+            index += len(self)
 
-        if index >= len(self):
+        if index < 0 or index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
+        assert self.ref_classdef.isinstance(value.classdef)
+
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
@@ -595,7 +597,7 @@ class StrongRefVectorProperty(Property):
         if obj is None:
             raise IndexError(index)
         if index < 0:
-            index = max(0, len(self) + index)
+            index += len(self)
 
         self.references.pop(index)
 
-- 
2.43.0


From 0d41da8a4acd1f3ced33d3f101a550ad38eecff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 25/90] fix: inserting into strong reference vectors: indices
 out of range, attached objects, empty properties

---
 src/aaf2/properties.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 0978c5e..d04d401 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -623,8 +623,20 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
+        index_name = self.index_name # sets self.data
         assert self.ref_classdef.isinstance(value.classdef)
 
+        if value.root is not self.parent.root:
+            raise AAFAttachError("Object is from a different root")
+
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
+        # same as list.insert
+        if index < 0:
+            index = max(0, len(self) + index)
+        index = min(index, len(self))
+
         self.references.insert(index, self.next_free_key)
 
         objects = {}
@@ -641,6 +653,7 @@ class StrongRefVectorProperty(Property):
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
     @writeonly
-- 
2.43.0


From 4cb00e9c01f328c9b40af7749463160eb6681b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 26/90] fix: changing a mob id to one that is already in use

---
 src/aaf2/properties.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d04d401..1b4f50e 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -151,6 +151,9 @@ class Property(object):
     @writeonly
     def value(self, value):
         if self.data is not None and self.parent.dir and self.unique:
+            if value is None:
+                raise AAFPropertyError("cannot remove unique property value of attached object")
+
             if self.propertydef.auid == MOB_MOBID_AUID:
                 self.parent.root.content.mobs.swap_unique_key(self.value, value)
             elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:
@@ -894,6 +897,12 @@ class StrongRefSetProperty(Property):
         if obj is None:
             raise ValueError("invalid key: %s" % str(old_key))
 
+        # keys are mutable, keep a copy
+        new_key = new_key.__class__(bytes_le=new_key.bytes_le)
+
+        if new_key in self and new_key != old_key:
+            raise ValueError("key already exists: %s" % str(new_key))
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
-- 
2.43.0


From 2bdff7f3dcb7d90131f688f52e1dd9b8d0fb6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 27/90] fix: detach the replaced object of a strong reference
 set when it is not loaded

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 1b4f50e..d08bcd1 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -941,7 +941,7 @@ class StrongRefSetProperty(Property):
             key = item.unique_key
             assert key is not None
 
-            current = self.objects.get(key, None)
+            current = self.get(key, None)
             current_local_key = self.references.get(key, None)
 
             if current and current is not item:
-- 
2.43.0


From 52e2af57a9835cf53c6a01c8f09af164119439c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 28/90] fix: key pid of copied weak references

---
 src/aaf2/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d08bcd1..9a0519f 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1060,7 +1060,7 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
@@ -1072,7 +1072,7 @@ class WeakRefProperty(Property):
                 v = self.value
                 if self.ref_classdef.auid == CLASSDEF_AUID:
                     parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
+                elif self.ref_classdef.auid == TYPEDEF_AUID:
                     parent.root.metadict.register_external_typedef(v)
                 else:
                     c = v.copy(root=parent.root, classdef_cache=cache)
-- 
2.43.0


From 64a55328a1b77399f2ced05e78e5243796ec6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 29/90] fix: copying weak reference vectors whose targets are
 missing in the other file

---
 src/aaf2/properties.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 9a0519f..3a474b4 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1166,10 +1166,17 @@ class WeakRefArrayProperty(Property):
         else:
             weakref_index = parent.root.weakref_index(p.pid_path)
             ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-            for ref in self.references:
-                # copy property here if not present?
-                assert ref in target_property
-                p.append(target_property[ref])
+            for key, value in self.items():
+                # add property value if not present
+                if key not in target_property:
+                    if self.ref_classdef.auid == CLASSDEF_AUID:
+                        parent.root.metadict.register_external_classdef(value)
+                    elif self.ref_classdef.auid == TYPEDEF_AUID:
+                        parent.root.metadict.register_external_typedef(value)
+                    else:
+                        c = value.copy(root=parent.root, classdef_cache=cache)
+                        target_property.append(c)
+                p.append(target_property[key])
 
         return p
 
-- 
2.43.0


From f181f258740c207eee9152c3a70e19dbffed958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 30/90] fix: index name of copied strong reference vectors

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 3a474b4..6e943e9 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -446,7 +446,7 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
-- 
2.43.0


From c0f50389fa05c7116216cd1790d2e2198247c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 31/90] fix: bezier interpolation when the root finder fails
 and for points at the same time

---
 src/aaf2/interpolation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 26b93d7..b51edf2 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -152,7 +152,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
@@ -177,8 +177,8 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
     if not roots:
-        # fall back to old method or decrease EPSILON precision?
-        assert False
+        # no root because of floating point error, fall back to old method
+        return bezier_interpolate_old(p0, p1, p2, p3, x)
 
     # use the root as t for y
     y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
-- 
2.43.0


From cc1eaa78f97514f1a29a8a7b447b04da112b8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 32/90] fix: offset maps of a single frame, or that end before
 the first keyframe

---
 src/aaf2/interpolation.py | 1 +
 src/aaf2/misc.py          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index b51edf2..97decb3 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -289,6 +289,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = float(start) - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..bfd0962 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -409,7 +409,7 @@ def generate_offset_map(speed_map, start=0, end=None):
     offset_index = None
 
     inter_start = min(start, center)
-    inter_end = max(center,  end+1)
+    inter_end = max(center+1, end+1)
 
     for i, (t,v) in enumerate(integrate_iter(speed_map.value_at, inter_start, inter_end)):
         time.append(t)
-- 
2.43.0


From faf47c32d8560b41f977a154ddfc97797337f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 33/90] fix: keyframes added before the first one

---
 src/aaf2/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index bfd0962..8e83a66 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -238,10 +238,14 @@ class VaryingValue(Parameter):
         pointlist = self['PointList']
 
         if len(pointlist) > 0:
+            # stored time can be slightly different
+            time = cp.time
             index = self.nearest_index(time)
             nearest = pointlist[index]
-            if float(nearest.time) == float(time):
+            if nearest.time == time:
                 pointlist[index] = cp
+            elif nearest.time > time:
+                pointlist.insert(index, cp)
             else:
                 pointlist.insert(index+1, cp)
         else:
-- 
2.43.0


From 7c0cdeddb6b2e42037908f913a20acc3c8031924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 34/90] fix: rationals made from large or negative floats

---
 src/aaf2/rational.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index d5357de..ad8a5ea 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -37,9 +37,10 @@ class AAFRational(Fraction):
 
                 # make sure fraction can fit in a int32
                 value = value.limit_denominator(0x7FFFFFFF)
-                if value._numerator > 0x7FFFFFFF or value._numerator < -0x7FFFFFFF:
-                    value._denominator = int(value._denominator * (0x7FFFFFFF / float(value._numerator)))
-                    value._numerator = 0x7FFFFFFF
+                if abs(value) > 0x7FFFFFFF:
+                    value = Fraction(0x7FFFFFFF if value > 0 else -0x7FFFFFFF)
+                elif abs(value._numerator) > 0x7FFFFFFF:
+                    value = value.limit_denominator(int(0x7FFFFFFF / abs(value)))
 
                 self._numerator = value._numerator
                 self._denominator = value._denominator
-- 
2.43.0


From 60a3f7eaea235b4a6d2d6a212ee126eab5a977d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 35/90] fix: dependant_mobs never ends when references are
 circular

---
 src/aaf2/mobs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ee261b1..9fab753 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -154,10 +154,12 @@ class Mob(core.AAFObject):
         """
 
         visited = set()
+        entered = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
+            entered.add(mob.mob_id)
             children_processed = True
 
             for obj, _ in mob.walk_references(topdown=True):
@@ -165,7 +167,8 @@ class Mob(core.AAFObject):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    # skip mobs that are being processed, references can be circular
+                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in entered:
                         stack.append(ref_mob)
                         children_processed = False
 
-- 
2.43.0


From 5e380c400c2861b92a56e0183f2c6a4bbe4d3844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 36/90] fix: elements added to enumerations of existing files
 are saved

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 3af0617..666f55d 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,8 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        if self.dir:
+            self.root.manager.add_modified(self)
 
     def decode(self, data):
 
@@ -818,6 +820,8 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        if self.dir:
+            self.root.manager.add_modified(self)
 
     @property
     def elements(self):
-- 
2.43.0


From e51092f938ab89e168b7d69b41f96efbb50eb022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 37/90] fix: copying a reference vector whose local keys are
 not its indices failed

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 6e943e9..d1bb5bd 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -452,7 +452,7 @@ class StrongRefVectorProperty(Property):
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
-- 
2.43.0


From 4bbe87d2ad94703f154c8e17d1238bf622948618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 38/90] fix: changing the id of a mob that is not owned by the
 content storage re-keyed another mob or failed

---
 src/aaf2/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d1bb5bd..7d46aac 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -155,12 +155,16 @@ class Property(object):
                 raise AAFPropertyError("cannot remove unique property value of attached object")
 
             if self.propertydef.auid == MOB_MOBID_AUID:
-                self.parent.root.content.mobs.swap_unique_key(self.value, value)
+                owner = self.parent.root.content.mobs
             elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:
-                self.parent.root.content.essencedata.swap_unique_key(self.value, value)
+                owner = self.parent.root.content.essencedata
             else:
                 raise AAFPropertyError("cannot change unique property value of attached object")
 
+            # the object could also be attached somewhere else
+            if owner.get(self.value) is self.parent:
+                owner.swap_unique_key(self.value, value)
+
         if value is None:
             self.remove_pid_entry()
             return
-- 
2.43.0


From 85a4df3dab894cf6aaf024a7f377709885f07f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 39/90] fix: a refused assignment to a reference collection
 lost the items it had

---
 src/aaf2/properties.py | 52 +++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 7d46aac..f810ce1 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -663,24 +663,28 @@ class StrongRefVectorProperty(Property):
         self.add_pid_entry()
         self.attach()
 
-    @writeonly
-    def extend(self, value):
-        index_name = self.index_name # sets self.data
+    def check_values(self, values, current=()):
         ref_classdef = self.ref_classdef
 
-        value = list(value)
-        if len(set(id(obj) for obj in value)) != len(value):
+        if len(set(id(obj) for obj in values)) != len(values):
             raise AAFAttachError("Object occurs more than once")
 
-        for obj in value:
+        for obj in values:
             assert ref_classdef.isinstance(obj.classdef)
 
             if obj.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
-            if obj.dir:
+            if obj.dir and not any(obj is item for item in current):
                 raise AAFAttachError("Object already attached")
 
+    @writeonly
+    def extend(self, value):
+        index_name = self.index_name # sets self.data
+
+        value = list(value)
+        self.check_values(value)
+
         for obj in value:
             i = len(self.references)
             self.references.append(self.next_free_key)
@@ -706,6 +710,8 @@ class StrongRefVectorProperty(Property):
             return
 
         value = list(value)
+        # refuse before the current items are gone
+        self.check_values(value, self.value)
         self.clear()
         self.extend(value)
 
@@ -916,11 +922,8 @@ class StrongRefSetProperty(Property):
 
         obj.unique_property.data = bytes(new_key.bytes_le)
 
-    @writeonly
-    def extend(self, values):
-        typedef = self.typedef
-        classdef = typedef.ref_classdef
-        values = list(values)
+    def check_values(self, values, current=()):
+        classdef = self.typedef.ref_classdef
 
         # check values are the correct type
         for item in values:
@@ -928,8 +931,17 @@ class StrongRefSetProperty(Property):
                 raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
-            if item.dir:
+            if item.dir and not any(item is obj for obj in current):
                 raise AAFAttachError("Object already attached")
+            if item.unique_key is None:
+                raise AAFPropertyError("Object has no unique key")
+
+    @writeonly
+    def extend(self, values):
+        typedef = self.typedef
+        classdef = typedef.ref_classdef
+        values = list(values)
+        self.check_values(values)
 
         if self.key_pid is None:
             self.key_pid = classdef.unique_key_pid
@@ -1010,6 +1022,8 @@ class StrongRefSetProperty(Property):
             value = value.values()
 
         value = list(value)
+        # refuse before the current items are gone
+        self.check_values(value, self.value)
         self.clear()
         self.extend(value)
         return
@@ -1267,10 +1281,8 @@ class WeakRefArrayProperty(Property):
             obj = resolve_weakref(self, key)
             yield (key, obj)
 
-    @writeonly
-    def extend(self, values):
+    def check_values(self, values):
         ref_classdef = self.ref_classdef
-        values = list(values)
 
         # check values are the correct type
         for item in values:
@@ -1279,6 +1291,12 @@ class WeakRefArrayProperty(Property):
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
+    @writeonly
+    def extend(self, values):
+        ref_classdef = self.ref_classdef
+        values = list(values)
+        self.check_values(values)
+
         if self.index_name is None:
             propdef = self.propertydef
             self.index_name = mangle_name(propdef.property_name, self.pid, 32-10)
@@ -1315,6 +1333,8 @@ class WeakRefArrayProperty(Property):
             return
 
         value = list(value)
+        # refuse before the current items are gone
+        self.check_values(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From c4ab7dcc0801e2c6c1cb2e69f26f663e47cd11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 40/90] fix: registering a class again failed if a property had
 a local pid, and local pids given to a class were not reserved

---
 src/aaf2/metadict.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 1d0fea6..7d64523 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -260,6 +260,9 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        elif pid >= 0x8000:
+            assert pid not in self.root.metadict.local_pids
+            self.root.metadict.local_pids.add(pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
@@ -423,16 +426,7 @@ class MetaDictionary(core.AAFObject):
 
         if propertydefs:
             for prop_name, prop_args in propertydefs.items():
-                property_auid = prop_args[0]
-                pid = prop_args[1]
-
-                if pid is None:
-                    pid = self.next_free_pid()
-                elif pid and pid >= 0x8000:
-                    assert pid not in self.local_pids
-                    self.local_pids.add(pid)
-
-                c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
+                c.register_propertydef(prop_name, *prop_args)
 
         self.classdefs_by_name[name]   = c
         self.classdefs_by_auid[c.auid] = c
-- 
2.43.0


From 4e7a68187dc6c5302dd8682d78df9ca2f11bd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 41/90] fix: a class with the name of another class could not
 be registered or copied from another file

---
 src/aaf2/metadict.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 7d64523..458c70d 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -417,9 +417,7 @@ class MetaDictionary(core.AAFObject):
             parent_classdef = self.lookup_classdef(parent)
             parent_auid = parent_classdef.auid
 
-        if name in self.classdefs_by_name:
-            c = self.classdefs_by_name[name]
-        elif class_auid in self.classdefs_by_auid:
+        if class_auid in self.classdefs_by_auid:
             c = self.classdefs_by_auid[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
@@ -428,7 +426,8 @@ class MetaDictionary(core.AAFObject):
             for prop_name, prop_args in propertydefs.items():
                 c.register_propertydef(prop_name, *prop_args)
 
-        self.classdefs_by_name[name]   = c
+        # the name could already be used by another class
+        self.classdefs_by_name.setdefault(name, c)
         self.classdefs_by_auid[c.auid] = c
 
         # Root is not include in the data model for some reason
-- 
2.43.0


From 8c08b685cbf9c784573e48560dff454520604fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 42/90] fix: local pid changed on merging the built-in model
 left a stale property lookup

---
 src/aaf2/metadict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 458c70d..da1d9aa 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -617,6 +617,8 @@ class MetaDictionary(core.AAFObject):
                     for pdef in classdef['Properties'].values():
                         if pdef.pid >= 0x8000:
                             if pdef.pid in self.local_pids:
+                                del classdef.propertydef_by_pid[pdef.pid]
                                 pdef.pid = self.next_free_pid()
+                                classdef.propertydef_by_pid[pdef.pid] = pdef
 
                     self['ClassDefinitions'].append(classdef)
-- 
2.43.0


From 6055c75dc8e0e0afdd193c2a533cc96be065f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:44 +0000
Subject: [PATCH 43/90] fix: built-in type with a local pid was merged with the
 pid of another class definition

---
 src/aaf2/metadict.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index da1d9aa..9e33307 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -556,6 +556,7 @@ class MetaDictionary(core.AAFObject):
         return result
 
     def read_properties(self):
+        builtin_classdefs = dict(self.classdefs_by_auid)
         super(MetaDictionary, self).read_properties()
         for key, typedef in self['TypeDefinitions'].items():
             self.typedefs_by_name[typedef.type_name] = typedef
@@ -588,14 +589,22 @@ class MetaDictionary(core.AAFObject):
                     # this is super annoying, handle typedefs that have dynamic pids
                     classdef = self.classdefs_by_auid.get(typedef.class_id)
                     assert classdef
-                    for pdef in classdef['Properties'].values():
+                    builtin = builtin_classdefs.get(typedef.class_id, classdef)
+                    for pdef in builtin['Properties'].values():
                         if pdef.pid >= 0x8000:
+                            old_pid = pdef.pid
+                            new_pid = old_pid
                             # if typedef has a dynamic pid might need to change it
-                            if pdef.pid in self.local_pids:
-                                old_pid = pdef.pid
+                            if classdef is not builtin:
+                                # the file has its own pid for it
+                                new_pid = classdef['Properties'][pdef.auid].pid
+                            elif pdef.pid in self.local_pids:
+                                del classdef.propertydef_by_pid[old_pid]
                                 new_pid = self.next_free_pid()
                                 pdef.pid = new_pid
+                                classdef.propertydef_by_pid[new_pid] = pdef
 
+                            if new_pid != old_pid:
                                 prop = typedef.property_entries.pop(old_pid)
                                 prop.pid = new_pid
                                 typedef.property_entries[new_pid] = prop
-- 
2.43.0


From 32bfc3ee64092372d189c8e962c7c8b3a50045e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 44/90] fix: a value could not be given to string array
 properties

---
 src/aaf2/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 666f55d..0769947 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -446,7 +446,8 @@ class TypeDefVarArray(TypeDef):
 
         element_typedef = self.element_typedef
 
-        if element_typedef.type_name == "Character":
+        #aafCharacter
+        if element_typedef.auid == AUID("01100100-0000-0000-060e-2b3401040101"):
             return encode_utf16_array(value)
 
         if isinstance(element_typedef, TypeDefInt):
-- 
2.43.0


From 9d992a16dd0b0097dc46b07cc631e1bd6aab97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 45/90] fix: a string with a null character was cut when
 stored, now it is refused

---
 src/aaf2/types.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 0769947..da8e28f 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -305,6 +305,11 @@ class TypeDefEnum(TypeDef):
 
         raise AAFPropertyError("invalid enum: %s" % str(data))
 
+def check_null(data):
+    # strings are null terminated, the rest would be lost
+    if u'\x00' in data:
+        raise ValueError("string contains null character: %r" % data)
+
 def iter_utf16_array(data):
     start = 0
     data = bytearray(data)
@@ -448,6 +453,9 @@ class TypeDefVarArray(TypeDef):
 
         #aafCharacter
         if element_typedef.auid == AUID("01100100-0000-0000-060e-2b3401040101"):
+            value = list(value)
+            for item in value:
+                check_null(item)
             return encode_utf16_array(value)
 
         if isinstance(element_typedef, TypeDefInt):
@@ -550,6 +558,7 @@ class TypeDefString(TypeDef):
         return decode_utf16le(data)
 
     def encode(self, data):
+        check_null(data)
         return encode_utf16le(data)
 
 @register_class
-- 
2.43.0


From 8c3681258f2331c490698a71659c70a0b965858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 46/90] fix: strings of 8 bit characters were stored and read
 as utf-16

---
 src/aaf2/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index da8e28f..8ed5954 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -555,10 +555,15 @@ class TypeDefString(TypeDef):
             return self.root.metadict.lookup_typedef(self.property_entries[PID_STR_TYPE].ref)
 
     def decode(self, data):
+        if isinstance(self.element_typedef, TypeDefGenericCharacter):
+            return data.decode('latin-1').split(u'\x00')[0]
         return decode_utf16le(data)
 
     def encode(self, data):
         check_null(data)
+        if isinstance(self.element_typedef, TypeDefGenericCharacter):
+            # 8 bit characters
+            return data.encode('latin-1') + b"\x00"
         return encode_utf16le(data)
 
 @register_class
-- 
2.43.0


From 30458cd037734923e01bbd98df3201f03270f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 47/90] fix: arrays, sets and records of renamed types or
 extensible enumerations could not be read

---
 src/aaf2/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 8ed5954..d2d4a59 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -772,6 +772,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
@@ -817,6 +821,10 @@ class TypeDefExtEnum(TypeDef):
     def copy(self, root=None):
         return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
+    @property
+    def byte_size(self):
+        return 16
+
     def register_element(self, element_name, element_auid):
 
         element_names = []
-- 
2.43.0


From 4459be11bd623f5e4ceca9fe76aaced07aaa658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 48/90] fix: a mob id was stored in properties for auids, and
 the other way round

---
 src/aaf2/types.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index d2d4a59..3fc4f2c 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -702,13 +702,12 @@ class TypeDefRecord(TypeDef):
         return result
 
     def encode(self, data):
-        # MobID
-        if self.auid == MOBID_AUID:
-            return bytes(data.bytes_le)
-
-        # AUID
-        if self.auid == AUID_AUID:
-            return bytes(data.bytes_le)
+        # MobID or AUID
+        if self.auid in (MOBID_AUID, AUID_AUID):
+            result = bytes(data.bytes_le)
+            if len(result) != (32 if self.auid == MOBID_AUID else 16):
+                raise ValueError("invalid %s: %s" % (self.type_name, str(data)))
+            return result
 
         result = b""
         # TimeStamp
-- 
2.43.0


From 67757caeab0417a48dd7857c0bb4487fc0b8a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 49/90] fix: a set stored an element twice if it was given as
 name and as number

---
 src/aaf2/types.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 3fc4f2c..9f5bed1 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -527,11 +527,8 @@ class TypeDefSet(TypeDef):
         typedef = self.element_typedef
 
         set_data = set(data)
-        result = b""
-        for item in set_data:
-            result += typedef.encode(item)
-
-        return result
+        # different values can stand for the same element, names and numbers of enums for example
+        return b"".join(sorted(set(bytes(typedef.encode(item)) for item in set_data)))
 
 PID_STR_TYPE = 0x001B
 
-- 
2.43.0


From 295e3c502747ae48b353870d8efdf90bce7398ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 50/90] fix: a class or type with the name of another one took
 its place

---
 src/aaf2/metadict.py | 25 +++++++++++++++++--------
 src/aaf2/types.py    | 23 ++++++++++++++---------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 9e33307..b89e087 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -367,16 +367,16 @@ class MetaDictionary(core.AAFObject):
                     args = [args]
 
                 if cat == "extenums":
-                    if name in self.typedefs_by_name:
-                        t = self.typedefs_by_name[name]
+                    t = self.typedefs_by_auid.get(AUID(args[0]), None)
+                    if t:
                         for element_value, element_name in args[1].items():
                             t.register_element(element_name, AUID(element_value))
                     else:
                         t = types.TypeDefExtEnum(self.root, name, *args)
                         properties.add2set(self, PID_TYPEDEFS, t.auid, t)
                 elif cat == "enums":
-                    if name in self.typedefs_by_name:
-                        t = self.typedefs_by_name[name]
+                    t = self.typedefs_by_auid.get(AUID(args[0]), None)
+                    if t:
                         for element_value, element_name in args[2].items():
                             t.register_element(element_name, element_value)
                     else:
@@ -387,10 +387,16 @@ class MetaDictionary(core.AAFObject):
                     t = classobj(self.root, name, *args)
                     properties.add2set(self, PID_TYPEDEFS, t.auid, t)
 
-                self.typedefs_by_name[name] = t
+                self.add_typedef_name(name, t)
                 self.typedefs_by_auid[t.auid] = t
                 self.typedefs_classes[t.auid] = t.__class__
 
+    def add_typedef_name(self, name, typedef):
+        # the name could already be used by another type
+        t = self.typedefs_by_name.get(name, None)
+        if t is None or t.auid == typedef.auid:
+            self.typedefs_by_name[name] = typedef
+
     def register_extensions(self):
         from .model.ext import classdefs as ext_classdefs
         from .model.ext import typedefs as ext_typedefs
@@ -470,7 +476,7 @@ class MetaDictionary(core.AAFObject):
             typedef = ext_typedef.copy(self.root)
 
             self['TypeDefinitions'].append(typedef)
-            self.typedefs_by_name[typedef.type_name] = typedef
+            self.add_typedef_name(typedef.type_name, typedef)
             self.typedefs_by_auid[typedef.auid] = typedef
 
         # make sure enum has all the values
@@ -559,13 +565,16 @@ class MetaDictionary(core.AAFObject):
         builtin_classdefs = dict(self.classdefs_by_auid)
         super(MetaDictionary, self).read_properties()
         for key, typedef in self['TypeDefinitions'].items():
-            self.typedefs_by_name[typedef.type_name] = typedef
+            self.add_typedef_name(typedef.type_name, typedef)
             self.typedefs_by_auid[typedef.auid] = typedef
 
         # reset local pids
         self.local_pids = set()
         for key, classdef in self['ClassDefinitions'].items():
-            self.classdefs_by_name[classdef.class_name] = classdef
+            # the name could already be used by another class
+            c = self.classdefs_by_name.get(classdef.class_name, None)
+            if c is None or c.auid == classdef.auid:
+                self.classdefs_by_name[classdef.class_name] = classdef
             self.classdefs_by_auid[classdef.auid] = classdef
             propertydef_by_pid = {}
             for pdef in classdef['Properties'].values():
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 9f5bed1..5d22083 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -584,7 +584,7 @@ RATIONAL_AUID   = AUID("03010100-0000-0000-060e-2b3401040101")
 @register_class
 class TypeDefRecord(TypeDef):
     class_id = AUID("0d010101-020d-0000-060e-2b3402060101")
-    __slots__ = ('_fields')
+    __slots__ = ('_fields', '_field_typedefs')
 
     def __new__(cls, root=None, name=None, type_auid=None, fields=None):
         self = super(TypeDefRecord, cls).__new__(cls, root, name, type_auid)
@@ -599,6 +599,7 @@ class TypeDefRecord(TypeDef):
             properties.add_typedef_weakref_vector_property(self, PID_RECORD_TYPES, 'MemberTypes', types)
 
         self._fields = None
+        self._field_typedefs = None
         return self
 
     def copy(self, root=None):
@@ -623,11 +624,18 @@ class TypeDefRecord(TypeDef):
         self._fields = list(zip(names, [t.type_name for t in types]))
         return self._fields
 
+    def field_typedefs(self):
+        # names of types can be ambiguous
+        if self._field_typedefs is None:
+            types = [t.auid for t in self['MemberTypes'].value]
+            self._field_typedefs = list(zip(self.member_names, types))
+        for name, auid in self._field_typedefs:
+            yield name, self.root.metadict.lookup_typedef(auid)
+
     @property
     def byte_size(self):
         size = 0
-        for key, typedef_name in self.fields:
-            typedef = self.root.metadict.typedefs_by_name[typedef_name]
+        for key, typedef in self.field_typedefs():
             size += typedef.byte_size
         if size == 0:
             print("!!", self['MemberTypes'].value, list(iter_utf16_array(self['MemberNames'].data)))
@@ -650,9 +658,7 @@ class TypeDefRecord(TypeDef):
         start = 0
         result = {}
 
-        for key, typedef_name in self.fields:
-            typedef = self.root.metadict.lookup_typedef(typedef_name)
-
+        for key, typedef in self.field_typedefs():
             end = start + typedef.byte_size
             result[key] = typedef.decode(data[start:end])
             start = end
@@ -709,7 +715,7 @@ class TypeDefRecord(TypeDef):
         result = b""
         # TimeStamp
         if self.auid == TIMESTAMP_AUID and isinstance(data, datetime.datetime):
-            f = [self.root.metadict.lookup_typedef(t) for k, t in self.fields]
+            f = [t for k, t in self.field_typedefs()]
             #date
             result += f[0].encode(data.date())
 
@@ -740,8 +746,7 @@ class TypeDefRecord(TypeDef):
             r = AAFRational(data)
             data = {'Numerator': r.numerator, 'Denominator':r.denominator }
 
-        for key, typedef_name in self.fields:
-            typedef = self.root.metadict.lookup_typedef(typedef_name)
+        for key, typedef in self.field_typedefs():
             value = typedef.encode(data[key])
             result+=value
 
-- 
2.43.0


From 6cb2bf92e5cdb8db090c2fa8fd0c88dbd8402adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 51/90] fix: copying an object with a property added to
 InterchangeObject to another file failed

---
 src/aaf2/metadict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index b89e087..322830f 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -493,7 +493,7 @@ class MetaDictionary(core.AAFObject):
     def register_external_classdef(self, ext_classdef):
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
-        for c in class_chain[1:]:
+        for c in class_chain:
             classdef = self.lookup_classdef(c.auid)
             if not classdef:
                 classdef = self.register_classdef(c.class_name,
-- 
2.43.0


From 80a1d514131855d60615f41dadfc9aa3387ce1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 52/90] fix: copying a value of indirect type to another file
 did not bring along the type

---
 src/aaf2/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index f810ce1..476b3e9 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -138,6 +138,10 @@ class Property(object):
     def copy(self, parent, pid, cache=None):
         p = self.__class__(parent, pid, self.format, version=PROPERTY_VERSION)
         p.data = bytes(self.data)
+
+        # the type of the value could be unknown to the other file
+        if parent.root is not self.parent.root and hasattr(self.typedef, 'decode_typedef'):
+            parent.root.metadict.register_external_typedef(self.typedef.decode_typedef(p.data))
         return p
 
     @property
-- 
2.43.0


From bcc3fd82e79f95d35782e24126c26403425956b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 53/90] fix: empty reference collections copied to another file
 lacked their index

---
 src/aaf2/properties.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 476b3e9..4d5c0a0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -470,9 +470,8 @@ class StrongRefVectorProperty(Property):
                 c = value.copy(dir_entry)
                 p.objects[i] = c
         else:
-            for i, value in enumerate(self):
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            # also names the index of an empty vector
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self])
 
         return p
 
@@ -785,9 +784,8 @@ class StrongRefSetProperty(Property):
                         dir_entry = parent.dir.makedir(ref)
                 p.objects[key] = value.copy(dir_entry)
         else:
-            for value in self.values():
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            # also names the index of an empty set
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self.values()])
 
         return p
 
@@ -1188,6 +1186,7 @@ class WeakRefArrayProperty(Property):
         else:
             weakref_index = parent.root.weakref_index(p.pid_path)
             ref_parent, target_property = parent.root.weakref_prop(weakref_index)
+            values = []
             for key, value in self.items():
                 # add property value if not present
                 if key not in target_property:
@@ -1198,7 +1197,10 @@ class WeakRefArrayProperty(Property):
                     else:
                         c = value.copy(root=parent.root, classdef_cache=cache)
                         target_property.append(c)
-                p.append(target_property[key])
+                values.append(target_property[key])
+
+            # also names the index of an empty array
+            p.extend(values)
 
         return p
 
-- 
2.43.0


From 6fa5d73e8b8f762cfc3bccdee99cb1111f20f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 54/90] fix: copying a parameter to another file did not bring
 along its definition

---
 src/aaf2/misc.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 8e83a66..a7c1c31 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -133,6 +133,18 @@ class Parameter(core.AAFObject):
     def name(self):
         return self.parameterdef.name
 
+    def copy(self, new_dir=None, root=None, classdef_cache=None):
+        new_obj = super(Parameter, self).copy(new_dir, root, classdef_cache)
+
+        # bring along the definition
+        if new_obj.root is not self.root and 'Definition' in self:
+            parameterdef = self.parameterdef
+            dictionary = new_obj.root.dictionary
+            if parameterdef and dictionary.lookup_parameterdef(parameterdef.auid) is None:
+                dictionary.register_def(parameterdef.copy(root=new_obj.root))
+
+        return new_obj
+
     @property
     def unique_property(self):
         return self['Definition']
-- 
2.43.0


From d97c3078aa8e77347d2aed969411254c2f69aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 55/90] fix: definitions copied along with an object could be
 lost or recursed without end

---
 src/aaf2/core.py       |  3 +-
 src/aaf2/file.py       |  8 +++++-
 src/aaf2/properties.py | 62 +++++++++++++++++++++---------------------
 3 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 9317935..e38e702 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -248,7 +248,8 @@ class AAFObject(object):
 
     def copy(self, new_dir=None, root=None, classdef_cache=None):
         new_obj = self.__class__.__new__(self.__class__)
-        classdef_cache = classdef_cache or set()
+        if classdef_cache is None:
+            classdef_cache = set()
         root = root or self.root
         new_obj.root = root
 
diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..84658da 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -290,7 +290,13 @@ class AAFFile(object):
             p = root.property_entries[pid]
             root = p.value
 
-        p = root.property_entries[path[-1]]
+        p = root.property_entries.get(path[-1])
+        if p is None:
+            # nothing of that kind is defined yet, the property is added
+            # once something is put in it
+            propertydef = root.classdef.get_propertydef_from_pid(path[-1])
+            p = root[propertydef.property_name]
+
         return root, p
 
     def weakref_index(self, pid_path):
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 4d5c0a0..7be6ae6 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1066,6 +1066,26 @@ def resolve_weakref(p, ref):
     else:
         return p.parent.root.resovle_weakref(p.weakref_index, p.key_pid, ref)
 
+def copy_weakref_target(p, ref, value, cache):
+    """Add the target of the copied weak reference p to its root, if not there"""
+    root = p.parent.root
+    _, target_property = root.weakref_prop(p.weakref_index)
+    if ref in target_property:
+        return
+
+    ref_classdef = p.ref_classdef
+    if ref_classdef.auid == CLASSDEF_AUID:
+        root.metadict.register_external_classdef(value())
+    elif ref_classdef.auid == TYPEDEF_AUID:
+        root.metadict.register_external_typedef(value())
+    elif (p.weakref_index, ref) not in cache:
+        # definitions can refer to each other, this one is underway from now on
+        cache.add((p.weakref_index, ref))
+        c = value().copy(root=root, classdef_cache=cache)
+        # fetched again, the copy could have brought other definitions
+        _, target_property = root.weakref_prop(p.weakref_index)
+        target_property.append(c)
+
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -1084,21 +1104,13 @@ class WeakRefProperty(Property):
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-
-            # add property value if not present
-            if self.ref not in target_property:
-                v = self.value
-                if self.ref_classdef.auid == CLASSDEF_AUID:
-                    parent.root.metadict.register_external_classdef(v)
-                elif self.ref_classdef.auid == TYPEDEF_AUID:
-                    parent.root.metadict.register_external_typedef(v)
-                else:
-                    c = v.copy(root=parent.root, classdef_cache=cache)
-                    target_property.append(c)
-
-            p.value = target_property[self.ref]
+            ref_classdef = p.ref_classdef
+            p.weakref_index = parent.root.weakref_index(p.pid_path)
+            p.key_pid = ref_classdef.unique_key_pid
+            p.key_size = ref_classdef.unique_key_size
+            copy_weakref_target(p, self.ref, lambda: self.value, cache)
+            p.ref = self.ref
+            p.data = p.encode()
 
         return p
 
@@ -1184,23 +1196,11 @@ class WeakRefArrayProperty(Property):
             p.key_pid = self.key_pid
             p.key_size = self.key_size
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-            values = []
+            # names the index
+            p.extend([])
             for key, value in self.items():
-                # add property value if not present
-                if key not in target_property:
-                    if self.ref_classdef.auid == CLASSDEF_AUID:
-                        parent.root.metadict.register_external_classdef(value)
-                    elif self.ref_classdef.auid == TYPEDEF_AUID:
-                        parent.root.metadict.register_external_typedef(value)
-                    else:
-                        c = value.copy(root=parent.root, classdef_cache=cache)
-                        target_property.append(c)
-                values.append(target_property[key])
-
-            # also names the index of an empty array
-            p.extend(values)
+                copy_weakref_target(p, key, lambda: value, cache)
+                p.references.append(key)
 
         return p
 
-- 
2.43.0


From 74242500f96d86037eeaf83fd52eea54d81da5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 56/90] fix: streams and storages of a file opened for reading
 could be changed in memory

---
 src/aaf2/cfb.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 459d861..1e119ec 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -241,6 +241,7 @@ class Stream(object):
             self.pos = min(orig_pos, len(realloc_data))
 
     def write(self, data):
+        self.storage.check_writeable()
         data_size = len(data)
         current_size = self.dir.byte_size
         new_size = max(self.tell() + data_size, current_size)
@@ -308,6 +309,7 @@ class Stream(object):
         assert self.pos <= self.dir.byte_size
 
     def truncate(self, size=None):
+        self.storage.check_writeable()
         # print("trunc", self.dir.path())
         if size is None:
             size = self.pos
@@ -1846,7 +1848,12 @@ class CompoundFileBinary(object):
                 self.fat_freelist.insert(0, sid)
 
 
+    def check_writeable(self):
+        if self.mode in ("r", "rb"):
+            raise io.UnsupportedOperation("file readonly")
+
     def create_dir_entry(self, path, dir_type='storage', class_id=None):
+        self.check_writeable()
 
         if self.exists(path):
             raise ValueError("%s already exists" % path)
@@ -1902,6 +1909,7 @@ class CompoundFileBinary(object):
         Removes both streams and storage DirEntry types from file.
         storage type entries need to be empty dirs.
         """
+        self.check_writeable()
 
         entry = self.find(path)
 
@@ -1927,6 +1935,7 @@ class CompoundFileBinary(object):
         """
         Removes directory structure, similar to shutil.rmtree.
         """
+        self.check_writeable()
         for root, storage, streams in self.walk(path, topdown=False):
 
             for item in streams:
@@ -2120,6 +2129,7 @@ class CompoundFileBinary(object):
         """
         Moves ``DirEntry`` from src to dst
         """
+        self.check_writeable()
         src_entry = self.find(src)
         if src_entry is None:
             raise ValueError("src path does not exist: %s" % src)
@@ -2173,6 +2183,8 @@ class CompoundFileBinary(object):
 
     def open(self, path, mode='r'):
         """Open stream, returning ``Stream`` object"""
+        if mode != 'r':
+            self.check_writeable()
 
         entry = self.find(path)
         if entry is None:
-- 
2.43.0


From 9e05d026227ede2800f70a70755dfe2b0a62c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 57/90] fix: values of parameters and tagged values changed
 although the change was refused

---
 src/aaf2/misc.py       | 14 +++-----------
 src/aaf2/properties.py |  6 ++++++
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index a7c1c31..555f4de 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -90,9 +90,7 @@ class TaggedValue(core.AAFObject):
         if value_typedef is None:
             self.value = value
             return
-        self['Value'].add_pid_entry()
-        self['Value'].data = self['Value'].typedef.encode(value, value_typedef)
-        self['Value'].mark_modified()
+        self['Value'].encode_indirect(value, value_typedef)
 
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
@@ -191,11 +189,7 @@ class ConstantValue(Parameter):
 
     @value.setter
     def value(self, value):
-        self['Value'].add_pid_entry()
-        indirect_typedef = self['Value'].typedef
-        parameter_typdef = self.typedef
-        self['Value'].data = indirect_typedef.encode(value, parameter_typdef)
-        self['Value'].mark_modified()
+        self['Value'].encode_indirect(value, self.typedef)
 
 
 @register_class
@@ -240,9 +234,7 @@ class VaryingValue(Parameter):
         cp = self.root.create.ControlPoint()
         cp.time = time
 
-        cp['Value'].add_pid_entry()
-        cp['Value'].data = cp['Value'].typedef.encode(value, self.typedef)
-        cp['Value'].mark_modified()
+        cp['Value'].encode_indirect(value, self.typedef)
 
         if edit_hint:
             cp['EditHint'].value = edit_hint
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 7be6ae6..0a9113c 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -176,6 +176,12 @@ class Property(object):
         self.data = self.typedef.encode(value)
         self.add_pid_entry()
 
+    @writeonly
+    def encode_indirect(self, value, value_typedef):
+        """Set a value of indirect type, stored as value_typedef"""
+        self.data = self.typedef.encode(value, value_typedef)
+        self.add_pid_entry()
+
     def add_pid_entry(self):
         if not self.pid in self.parent.property_entries:
             self.parent.property_entries[self.pid] = self
-- 
2.43.0


From 308989aa773f1d524fd6883e0f7e00610f51e9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 58/90] fix: reading an absent stream added the property to an
 object of a read only file

---
 src/aaf2/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 0a9113c..d4e5378 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -243,7 +243,11 @@ class StreamProperty(Property):
 
     def open(self, mode='r'):
         if mode == 'r':
-            self.setup_stream()
+            # looking for it does not add it to a file that is only read
+            if self.writeable:
+                self.setup_stream()
+            elif self.stream_name is None:
+                raise AAFPropertyError("cannot find stream: %s" % self.propertydef.property_name)
 
             if self.attached:
                 stream = self.parent.dir.get(self.stream_name)
-- 
2.43.0


From 05d9bafeb13e8ab0efd73cc642c5a03f23e63a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 59/90] fix: a damaged file with a cyclic DIFAT chain used up
 all memory

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 1e119ec..7d4087d 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1376,6 +1376,9 @@ class CompoundFileBinary(object):
             if not isinstance(sector_type, int):
                 break
 
+            if sid in self.difat_chain:
+                raise CompoundFileBinaryError('cyclic DIFAT chain found starting at %d' % self.difat_sector_start)
+
             self.difat_chain.append(sid)
             f.seek((sid + 1) *  self.sector_size)
             difat = []
-- 
2.43.0


From 023d50897da531e1ff346cd168294a8a66304105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 60/90] fix: reading a stream of a damaged file used as much
 memory as its claimed size

---
 src/aaf2/cfb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 7d4087d..12910c4 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -142,6 +142,14 @@ class Stream(object):
         else:
             bytes_to_read = max(0, min(n, byte_size - self.tell()))
 
+        if self.is_mini_stream():
+            chain_size = len(self.fat_chain) * self.storage.mini_stream_sector_size
+        else:
+            chain_size = len(self.fat_chain) * self.storage.sector_size
+
+        if bytes_to_read and self.tell() + bytes_to_read > chain_size:
+            raise CompoundFileBinaryError("stream is longer than its sectors: %s" % self.dir.path())
+
         result = bytearray(bytes_to_read)
         mv = memoryview(result)
 
-- 
2.43.0


From 485943fadf7dbed1c9e6361a933928dc791c7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 61/90] fix: the index of a reference set in a damaged file
 used up all memory

---
 src/aaf2/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d4e5378..c69f300 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -827,8 +827,12 @@ class StrongRefSetProperty(Property):
                 'I', # ref_count
                 '%ds' % self.key_size))
 
+            data = f.read()
+            if len(data) != count * (8 + self.key_size):
+                raise AAFPropertyError("index stream has the wrong size: %s" % index_name)
+
             index_fmt  = struct.Struct(str('<' + fmt * count))
-            index_data = index_fmt.unpack(f.read())
+            index_data = index_fmt.unpack(data)
 
             for i in range(count):
                 index = i * 3
-- 
2.43.0


From d16d33d72695d410e39cd4f00d3fce8b21710256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 62/90] fix: reading a damaged file with storages inside
 themselves did not end

---
 src/aaf2/cfb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 12910c4..3626126 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2012,6 +2012,10 @@ class CompoundFileBinary(object):
             if count > max_dirs_entries:
                 raise CompoundFileBinaryError("corrupt folder structure")
 
+            # an entry cannot be in more than one storage, even less in itself
+            if current.parent is None or current.parent.dir_id != root.dir_id:
+                raise CompoundFileBinaryError("corrupt folder structure")
+
             left = current.left()
             if left:
                 stack.append(left)
-- 
2.43.0


From d47604048b649f79ec17acbd4511722c7cf2f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 63/90] fix: reading a damaged file with the root inside a
 storage did not end

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 3626126..6e511ac 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2013,7 +2013,7 @@ class CompoundFileBinary(object):
                 raise CompoundFileBinaryError("corrupt folder structure")
 
             # an entry cannot be in more than one storage, even less in itself
-            if current.parent is None or current.parent.dir_id != root.dir_id:
+            if current.isroot() or current.parent is None or current.parent.dir_id != root.dir_id:
                 raise CompoundFileBinaryError("corrupt folder structure")
 
             left = current.left()
-- 
2.43.0


From 2ea35ec2d794881713f72061f5aec6f8edfbf4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 64/90] fix: the last DIFAT sector did not end its chain

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 6e511ac..27c84f6 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1666,7 +1666,7 @@ class CompoundFileBinary(object):
             for i in range(self.sector_size // 4):
                 difat.append(FREESECT)
 
-            difat[-1] == ENDOFCHAIN
+            difat[-1] = ENDOFCHAIN
             self.difat.append(difat)
 
             for t, i, v in self.iter_difat():
-- 
2.43.0


From 486d604a339344f27b4236257e80f33ad64244fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 65/90] fix: moving into a directory deeper than the directory
 cache is large (C02)

---
 src/aaf2/cfb.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 27c84f6..df33e49 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2192,8 +2192,6 @@ class CompoundFileBinary(object):
         src_entry.name = dst_basename
         dst_entry.add_child(src_entry)
 
-        self.children_cache[dst_entry.dir_id][src_entry.name] = src_entry
-
         return src_entry
 
     def open(self, path, mode='r'):
-- 
2.43.0


From 84a285815814a0c387e940eddecb0a2ed4c2abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 66/90] fix: entries read while inserting or removing a sibling
 had no parent (C02)

---
 src/aaf2/cfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index df33e49..d579a87 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -790,6 +790,7 @@ class DirEntry(object):
 
         head = DirEntry(self.storage, None) # False tree root
         head.red = True
+        head.parent = self # entries read through it belong here
         entry.red = True
 
         grand_grand_grand_parent = None
@@ -902,6 +903,7 @@ class DirEntry(object):
 
         head = DirEntry(self.storage, None) # False tree root
         head.red = True
+        head.parent = self.parent # entries read through it belong there
         head.name = "" # NOTE: any name will be less then this
         node = head
         node[1] = self.parent.child()
-- 
2.43.0


From f99f47ad636025c2502f71167491fbfd35754c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 67/90] fix: enum elements inside of types both files know got
 lost when copying (C16)

---
 src/aaf2/metadict.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 322830f..e3b10aa 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -447,6 +447,22 @@ class MetaDictionary(core.AAFObject):
 
         typedef = self.lookup_typedef(ext_typedef.auid)
 
+        # the types a known type is made of could still lack enum values
+        if isinstance(ext_typedef, (types.TypeDefFixedArray,
+                                    types.TypeDefVarArray,
+                                    types.TypeDefSet,
+                                    types.TypeDefString,
+                                    types.TypeDefEnum)):
+
+            self.register_external_typedef(ext_typedef.element_typedef)
+
+        elif isinstance(ext_typedef, types.TypeDefRecord):
+            for t in ext_typedef.member_types:
+                self.register_external_typedef(t)
+
+        elif isinstance(ext_typedef, types.TypeDefRename):
+            self.register_external_typedef(ext_typedef.renamed_typedef)
+
         # create typedef if missing
         if not typedef:
             if isinstance(ext_typedef, (types.TypeDefStrongRef,
@@ -455,24 +471,6 @@ class MetaDictionary(core.AAFObject):
                 classdef = ext_typedef.ref_classdef
                 self.register_external_classdef(classdef)
 
-            elif isinstance(ext_typedef, (types.TypeDefFixedArray,
-                                          types.TypeDefVarArray,
-                                          types.TypeDefSet,
-                                          types.TypeDefString,
-                                          types.TypeDefEnum)):
-
-                self.register_external_typedef(ext_typedef.element_typedef)
-
-            elif isinstance(ext_typedef, types.TypeDefRecord):
-                for t in ext_typedef.member_types:
-                    self.register_external_typedef(t)
-
-            elif isinstance(ext_typedef, types.TypeDefRename):
-                self.register_external_typedef(ext_typedef.renamed_typedef)
-
-            elif isinstance(ext_typedef, types.TypeDefEnum):
-                self.register_external_typedef(ext_typedef.element_typedef)
-
             typedef = ext_typedef.copy(self.root)
 
             self['TypeDefinitions'].append(typedef)
-- 
2.43.0


From 5377c09bfe148b8c06e8a47e1d51140c23203ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 68/90] fix: convert floats to the closest rational that fits
 32 bits

---
 src/aaf2/rational.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index ad8a5ea..b5839e3 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -36,11 +36,13 @@ class AAFRational(Fraction):
                 value = Fraction.from_float(numerator)
 
                 # make sure fraction can fit in a int32
-                value = value.limit_denominator(0x7FFFFFFF)
                 if abs(value) > 0x7FFFFFFF:
                     value = Fraction(0x7FFFFFFF if value > 0 else -0x7FFFFFFF)
-                elif abs(value._numerator) > 0x7FFFFFFF:
-                    value = value.limit_denominator(int(0x7FFFFFFF / abs(value)))
+                elif abs(value) > 1:
+                    # it is the numerator that is limited
+                    value = 1 / (1 / value).limit_denominator(0x7FFFFFFF)
+                else:
+                    value = value.limit_denominator(0x7FFFFFFF)
 
                 self._numerator = value._numerator
                 self._denominator = value._denominator
-- 
2.43.0


From d849b4f7a3d4d42406d24aa7ec724194e067ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 69/90] fix: rationals from decimal texts with underscores

---
 src/aaf2/rational.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index b5839e3..fc4421a 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -68,6 +68,8 @@ class AAFRational(Fraction):
                     denominator = 1
                     decimal = m.group('decimal')
                     if decimal:
+                        # python 3.12 allows underscores
+                        decimal = decimal.replace('_', '')
                         scale = 10**len(decimal)
                         numerator = numerator * scale + int(decimal)
                         denominator *= scale
-- 
2.43.0


From d79e6f6c817e9944ac33fe38ec075ed24e82048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 70/90] fix: component at the first time of a component

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 5da1ca4..cc4d133 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -98,7 +98,7 @@ class Sequence(Segment):
                     return index
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index
 
             last_component = component
-- 
2.43.0


From e498adc2da9b9da80b4087a7be48705aa28ca55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 71/90] fix: bezier roots lost to floating point errors

---
 src/aaf2/interpolation.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 97decb3..823db20 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -176,14 +176,30 @@ def bezier_interpolate(p0, p1, p2, p3, x):
 
     # solve for x = 0
     roots = bezier_cubic_roots(pa, pb, pc, pd)
-    if not roots:
-        # no root because of floating point error, fall back to old method
-        return bezier_interpolate_old(p0, p1, p2, p3, x)
+    if roots:
+        t = min(1.0, max(0, roots[0]))
+        error = abs(cubic_bezier(pa, pb, pc, pd, t))
+
+    if not roots or error > (pd - pa) * 1e-9:
+        # no root or a wrong one because of floating point error.
+        # the handles don't reach over the end points, so x always increases
+        t = bezier_bisect(pa, pb, pc, pd)
 
     # use the root as t for y
-    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], min(1.0, max(0, roots[0])))
+    y = cubic_bezier(p0[1], p1[1], p2[1], p3[1], t)
     return y
 
+def bezier_bisect(pa, pb, pc, pd):
+    low = 0.0
+    high = 1.0
+    for i in range(60):
+        t = (low + high) * 0.5
+        if cubic_bezier(pa, pb, pc, pd, t) < 0.0:
+            low = t
+        else:
+            high = t
+    return (low + high) * 0.5
+
 def bezier_interpolate_old(p0, p1, p2, p3, t):
 
     t_len = p3[0] - p0[0]
-- 
2.43.0


From 761f8e34824e5ce80bcec49edbd683633f4c98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 72/90] fix: length of imported audio with a fractional edit
 rate

---
 src/aaf2/mobs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 9fab753..799f252 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -10,7 +10,7 @@ import io
 
 from . import core
 from . mobid import MobID
-from . utils import register_class, rescale
+from . utils import register_class
 from . misc import TaggedValueHelper
 from . import essence
 from . import video
@@ -419,7 +419,7 @@ class SourceMob(Mob):
 
         # set lengths
         descriptor.length = frames
-        slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))
+        slot.segment.length = length or int(frames * AAFRational(edit_rate) / sample_rate)
 
         if essencedata is not None:
             stream = essencedata.open('w')
-- 
2.43.0


From f093ac2d76de0cafe0c6ec7278bfae187ed8e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 73/90] fix: mxf positions and lengths are signed

---
 src/aaf2/mxf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..de56334 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -351,13 +351,13 @@ class MXFComponent(MXFObject):
             if tag == 0x1001:
                 self.data['Components'] = decode_strong_ref_array(f)
             elif tag == 0x1201:
-                self.data['StartTime'] = read_u64be(f)
+                self.data['StartTime'] = read_s64be(f)
             elif tag == 0x1102:
                 self.data['SourceMobSlotID'] = read_u32be(f)
             elif tag == 0x1101:
                 self.data['SourceID'] = decode_mob_id(data)
             elif tag == 0x0202:
-                self.data['Length'] = read_u64be(f)
+                self.data['Length'] = read_s64be(f)
             elif tag == 0x0201:
                 self.data['DataDef'] = decode_datadef(data)
             elif tag == 0x1503:
@@ -365,7 +365,7 @@ class MXFComponent(MXFObject):
             elif tag == 0x1502:
                 self.data['FPS'] = read_u16be(f)
             elif tag == 0x1501:
-                self.data['Start'] = read_u64be(f)
+                self.data['Start'] = read_s64be(f)
             elif tag == 0x0501:
                 self.data['Choices'] = decode_strong_ref_array(f)
             elif tag == 0x0502:
-- 
2.43.0


From 71342d0295056eab7d1f5ee31a73df79eaf03b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 74/90] fix: link mxf files with an unknown data definition

---
 src/aaf2/mxf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index de56334..846d9ca 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -66,7 +66,7 @@ def reverse_auid(data):
 def decode_datadef(data):
     orig = AUID(bytes_be=data)
     datadef = reverse_auid(orig)
-    name = datadefs.DataDefs.get(str(datadef), (None, None))[0]
+    name = datadefs.DataDefs.get(str(datadef), ('DataDef_Unknown', None))[0]
     return name
 
 def decode_strongref(data):
-- 
2.43.0


From 114bc17170bf0096c9c4b2fe0279c4a6075525b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 75/90] fix: link mxf files with a mpeg descriptor

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 846d9ca..25a7c33 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From a97c08b4d0b5e24788e35412db8b63b7118bf2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 76/90] fix: find the end of the mxf header when fill follows
 the partition pack

---
 src/aaf2/mxf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 25a7c33..0f2070d 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -863,16 +863,21 @@ class MXFFile(object):
         self.aaf = None
         with io.open(path, 'rb') as f:
 
+            header_end = None
             for key, length in iter_kl(f):
 
                 # only read until the first body partition
-                if not self.header_partition_size is None and f.tell() > self.header_partition_size:
+                if header_end is not None and f.tell() > header_end:
                     break
 
                 if key == AUID("060e2b34-0205-0101-0d01-020101050100"):
                     self.local_tags = self.read_primer(f, length)
                 elif key == AUID("060e2b34-0205-0101-0d01-020101020400"):
+                    pack_end = f.tell() + length
                     self.read_header(f, length)
+                    # a fill item can follow the partition pack, the sizes
+                    # given in the pack do not cover either of them
+                    header_end = pack_end + self.header_partition_size
                 else:
                     # print('{')
                     # print(key,  auid_to_str_list(key, sep='.'))
-- 
2.43.0


From a8722566ff39bd989baf20df3b79c40e99d9b84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 77/90] fix: mxf files without a known grid size

---
 src/aaf2/mxf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 0f2070d..1d940c3 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -921,6 +921,9 @@ class MXFFile(object):
         return mobs
 
     def round_to_kag(self, pos, kag_size):
+        # 0 means the grid size is unknown
+        if kag_size == 0:
+            return pos
         ret = (pos // kag_size) * kag_size
         if ret == pos:
             return pos
-- 
2.43.0


From fcffd73f69f88fe24bdea007137fc459fa940aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 78/90] fix: use the stored length of mxf sequences

---
 src/aaf2/ama.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 22a6e2f..14e5064 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -446,6 +446,7 @@ def create_media_link(f, path, metadata):
                 from_clip = from_mob.create_source_clip(slot_id=from_slot.slot_id, media_kind=slot_kind)
                 to_slot = to_mob.create_empty_sequence_slot(edit_rate=from_slot.edit_rate,
                                                             media_kind=from_clip.media_kind)
+                to_slot.segment.length = from_clip.length
                 to_slot.segment.components.append(from_clip)
 
                 if slot_kind == 'Sound':
-- 
2.43.0


From 6507be5418b9baa2a04e529f226f0a14022344ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 79/90] fix: create slots for all streams of linked media

---
 src/aaf2/ama.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 14e5064..dc29089 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -118,6 +118,14 @@ class FormatInfo:
         for stream in self.metadata['streams']:
             yield StreamInfo(stream)
 
+    @property
+    def sound_streams(self):
+        return [stream for stream in self.streams if stream.is_sound]
+
+    @property
+    def picture_streams(self):
+        return [stream for stream in self.streams if stream.is_picture]
+
     @property
     def first_sound_stream(self):
         return next((stream for stream in self.streams if stream.is_sound), None)
@@ -415,16 +423,14 @@ def create_media_link(f, path, metadata):
     def tape_mob_for_format(name, format_info):
         tape_mob = f.create.SourceMob()
         tape_mob.name = name
-        picture = format_info.first_picture_stream
-        if picture is not None:
+        for picture in format_info.picture_streams:
             pix_slot = tape_mob.create_picture_slot(edit_rate=picture.edit_rate)
             pix_slot.segment.length = picture.length
             tape_source_clip = f.create.SourceClip(media_kind='picture')
             tape_source_clip.length = picture.length
             pix_slot.segment.components.append(tape_source_clip)
 
-        sound = format_info.first_sound_stream
-        if sound is not None:
+        for sound in format_info.sound_streams:
             for channel in range(sound.physical_track_count):
                 sound_slot = tape_mob.create_sound_slot(edit_rate=sound.edit_rate)
                 sound_slot.segment.length = sound.length
-- 
2.43.0


From a8d36d76fc842f98f3ccd3cd3d9f806d05da0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 80/90] fix: link media given by relative path

---
 src/aaf2/ama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index dc29089..6bdfcea 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -101,7 +101,7 @@ def create_network_locator(f, absolute_path):
         n['URLString'].value = 'file://' + urllib.pathname2url(absolute_path)
     else:
         import pathlib
-        n['URLString'].value = pathlib.Path(absolute_path).as_uri()
+        n['URLString'].value = pathlib.Path(os.path.abspath(absolute_path)).as_uri()
 
     return n
 
-- 
2.43.0


From 938ab59bdce5689feabca92664d5921d0741a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 81/90] fix: link audio with interleaved 8 bit samples

---
 src/aaf2/audio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/audio.py b/src/aaf2/audio.py
index 62a3d43..f373290 100644
--- a/src/aaf2/audio.py
+++ b/src/aaf2/audio.py
@@ -20,6 +20,7 @@ pcm_profiles = {
 }
 
 audio_format_sizes = {
+'u8'    :  (8,  1),
 's16'   :  (16, 2),
 's32'   :  (32, 4),
 'flt'   :  (32, 4),
-- 
2.43.0


From a11940e6cfce51f69c5ea1cdc942659589c575e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 82/90] fix: a refused tagged value leaves no incomplete tag

---
 src/aaf2/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 555f4de..29adec4 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -51,9 +51,10 @@ class TaggedValueHelper(object):
         if tag is None:
             tag = self.p.parent.root.create.TaggedValue()
             tag['Name'].value = key
+            tag['Value'].value = value
             self.p.append(tag)
-
-        tag['Value'].value = value
+        else:
+            tag['Value'].value = value
 
 @register_class
 class TaggedValue(core.AAFObject):
-- 
2.43.0


From ec94c2850cea0c9e7831f2565f4613d77d148596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:14 +0000
Subject: [PATCH 83/90] fix: sets of a subclass of Mob, EssenceData or
 Parameter use the right key

---
 src/aaf2/metadict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index e3b10aa..40974d5 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -184,14 +184,15 @@ class ClassDef(core.AAFObject):
 
         # Parameter work around
         # Uses the DefinitionObject Identification PID
-        if self.isinstance(self.root.metadict.lookup_classdef(AUID("0d010101-0101-3c00-060e-2b3402060101"))):
+        parameter_classdef = self.root.metadict.lookup_classdef(AUID("0d010101-0101-3c00-060e-2b3402060101"))
+        if parameter_classdef.isinstance(self):
             return 0x1B01
 
     @property
     def unique_key_size(self):
         mob_classdef = self.root.metadict.lookup_classdef(AUID("0d010101-0101-3400-060e-2b3402060101"))
         essencedata_classdef = self.root.metadict.lookup_classdef(AUID("0d010101-0101-2300-060e-2b3402060101"))
-        if self.isinstance(mob_classdef) or self.isinstance(essencedata_classdef):
+        if mob_classdef.isinstance(self) or essencedata_classdef.isinstance(self):
             return 32
         return 16
 
-- 
2.43.0


From 193f9c0d20490923580ec58e052ea5ac07ec2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:30 +0000
Subject: [PATCH 84/90] fix: changing the id of a mob keeps any set it is
 attached to in step

---
 src/aaf2/properties.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index c69f300..c9cd9d6 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -158,16 +158,14 @@ class Property(object):
             if value is None:
                 raise AAFPropertyError("cannot remove unique property value of attached object")
 
-            if self.propertydef.auid == MOB_MOBID_AUID:
-                owner = self.parent.root.content.mobs
-            elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:
-                owner = self.parent.root.content.essencedata
-            else:
+            if self.propertydef.auid not in (MOB_MOBID_AUID, ESSENCEDATA_MOBID_AUID):
                 raise AAFPropertyError("cannot change unique property value of attached object")
 
-            # the object could also be attached somewhere else
-            if owner.get(self.value) is self.parent:
-                owner.swap_unique_key(self.value, value)
+            # the set the object is attached to
+            owner = self.parent.root.manager.read_object(self.parent.dir.parent.path())
+            for p in list(owner.property_entries.values()):
+                if isinstance(p, StrongRefSetProperty) and p.get(self.value) is self.parent:
+                    p.swap_unique_key(self.value, value)
 
         if value is None:
             self.remove_pid_entry()
-- 
2.43.0


From ff71eee5086bed541392e32e10e2cbc2555c14fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 85/90] fix: copying objects of classes that refer to
 themselves

---
 src/aaf2/metadict.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 40974d5..d8e00ac 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -446,8 +446,6 @@ class MetaDictionary(core.AAFObject):
         if not isinstance(ext_typedef, types.TypeDef):
             return None
 
-        typedef = self.lookup_typedef(ext_typedef.auid)
-
         # the types a known type is made of could still lack enum values
         if isinstance(ext_typedef, (types.TypeDefFixedArray,
                                     types.TypeDefVarArray,
@@ -464,20 +462,21 @@ class MetaDictionary(core.AAFObject):
         elif isinstance(ext_typedef, types.TypeDefRename):
             self.register_external_typedef(ext_typedef.renamed_typedef)
 
+        typedef = self.lookup_typedef(ext_typedef.auid)
+
         # create typedef if missing
         if not typedef:
-            if isinstance(ext_typedef, (types.TypeDefStrongRef,
-                                        types.TypeDefWeakRef)):
-                # could this cause RecursionError?
-                classdef = ext_typedef.ref_classdef
-                self.register_external_classdef(classdef)
-
             typedef = ext_typedef.copy(self.root)
 
             self['TypeDefinitions'].append(typedef)
             self.add_typedef_name(typedef.type_name, typedef)
             self.typedefs_by_auid[typedef.auid] = typedef
 
+            # only now, the class could have properties of this type
+            if isinstance(ext_typedef, (types.TypeDefStrongRef,
+                                        types.TypeDefWeakRef)):
+                self.register_external_classdef(ext_typedef.ref_classdef)
+
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
             ext_elements = ext_typedef.elements
-- 
2.43.0


From 7299f5d2fe5c74cb9e33915f0bcd8c919b6e8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 86/90] fix: an absent weak reference reads as None

---
 src/aaf2/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index c9cd9d6..2caf654 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1158,6 +1158,8 @@ class WeakRefProperty(Property):
 
     @property
     def value(self):
+        if self.ref is None:
+            return None
         return resolve_weakref(self, self.ref)
 
     @property
-- 
2.43.0


From 4998b920d9f3d4c01940d4227ce757daf1105dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:29 +0000
Subject: [PATCH 87/90] fix: the stream of an object outside of the file can be
 looked at

---
 src/aaf2/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2caf654..12d4bad 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -310,7 +310,11 @@ class StreamProperty(Property):
 
     @property
     def value(self):
-        return self.parent.dir.get(self.stream_name)
+        if self.stream_name is None:
+            return None
+        if self.attached:
+            return self.parent.dir.get(self.stream_name)
+        return self.dir
 
 
 class StrongRefProperty(Property):
-- 
2.43.0


From 5851ef6cc4c9475f779c9619cadb87d1901ce3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 88/90] fix: an absent reference of an object outside of the
 file reads as None

---
 src/aaf2/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 12d4bad..d2dc5d0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -370,6 +370,8 @@ class StrongRefProperty(Property):
     def value(self):
         if self.object:
             return self.object
+        if self.ref is None or not self.attached:
+            return None
         dir_entry = self.parent.dir.get(self.ref)
         obj = None
         if dir_entry:
-- 
2.43.0


From 9f6ce09682d958e363431a37ad4c575ee941bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 89/90] fix: an operation group takes the media kind of its
 operation

---
 src/aaf2/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index cc4d133..8acace8 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -307,8 +307,8 @@ class OperationGroup(Segment):
         super(OperationGroup, self).__init__(media_kind=media_kind, length=length)
         self.operation = self.root.dictionary.lookup_operationdef(operationdef)
 
-        if self.media_kind is None:
-            self.media_kind = self.operation.media_kind
+        if media_kind is None and self.operation.datadef:
+            self.datadef = self.operation.datadef
 
     @property
     def operation(self):
-- 
2.43.0


From 8af264e2ba6a352bae31220cc1c48a3742a6ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:50 +0000
Subject: [PATCH 90/90] fix: the factory creates the class asked for in nested
 calls and takes a name argument

---
 src/aaf2/file.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 84658da..486133c 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -32,13 +32,19 @@ class AAFFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        # the class to create is part of what is returned, the arguments of
+        # the call can contain other uses of this factory
+        def create_instance(*args, **kwargs):
+            return self._create(name, args, kwargs)
+
+        return create_instance
 
     def from_name(self, name, *args, **kwargs):
+        return self._create(name, args, kwargs)
+
+    def _create(self, name, args, kwargs):
         classdef = self.root.metadict.lookup_classdef(name)
         if classdef is None:
             raise ValueError("no class found with name: %s" % name)
@@ -59,9 +65,6 @@ class AAFFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 class AAFObjectManager(object):
 
     def __init__(self, root):
-- 
2.43.0

