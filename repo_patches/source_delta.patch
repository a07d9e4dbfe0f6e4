From 6cff0fcca4011f9f18d7d240fe46f892a7e043ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 01/91] fix: growing a stream with truncate exposes bytes of
 recycled sectors

---
 src/aaf2/cfb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..6dd6543 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -329,7 +329,10 @@ class Stream(object):
 
         # grown the stream
         if size > current_byte_size:
-            self.allocate(size)
+            # the sectors it gets may be recycled: seeking pads with zeros
+            pos = self.pos
+            self.seek(size)
+            self.pos = pos
             return
 
         # shrink to mini stream
-- 
2.43.0


From 7525560a824fea50780da1dcb02f1b0f7a12ad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 02/91] fix: DIFAT chain is not terminated by ENDOFCHAIN

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 6dd6543..d20677b 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1640,7 +1640,7 @@ class CompoundFileBinary(object):
             for i in range(self.sector_size // 4):
                 difat.append(FREESECT)
 
-            difat[-1] == ENDOFCHAIN
+            difat[-1] = ENDOFCHAIN
             self.difat.append(difat)
 
             for t, i, v in self.iter_difat():
-- 
2.43.0


From 854d9fdb2e9afc36c5107dc1271b2fba40dc7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 03/91] fix: DirEntry.modify_time cannot be set

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index d20677b..51b5f66 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -638,7 +638,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From f5ff9dadc0378a54ab460ea02e08f731a5ddaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 04/91] fix: rebalance_children_tree shuffles a dict view

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 51b5f66..bc42049 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -991,7 +991,7 @@ class DirEntry(object):
 
     def rebalance_children_tree(self):
 
-        children  = self.listdir()
+        children = list(self.listdir())
         self.child_id = None
         random.shuffle(children)
         for c in children:
-- 
2.43.0


From df3918361a06fdefc379ed39a92d7ed8396bc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 05/91] fix: path of an entry below a storage named like the
 root entry is cut short

---
 src/aaf2/cfb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index bc42049..9be19e4 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1004,8 +1004,7 @@ class DirEntry(object):
         path = []
         parent = self
         while parent:
-            name = parent.name
-            if name == "Root Entry":
+            if parent.isroot():
                 break
             path.append(parent.name)
             parent= parent.parent
-- 
2.43.0


From 781e79791144e7bf0a35b9b1fc4f671678293f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 06/91] fix: rmtree of the root destroys every entry before it
 raises

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 9be19e4..c5984f9 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1909,6 +1909,9 @@ class CompoundFileBinary(object):
         """
         Removes directory structure, similar to shutil.rmtree.
         """
+        if self.find(path) is self.root:
+            raise ValueError("can not remove root entry")
+
         for root, storage, streams in self.walk(path, topdown=False):
 
             for item in streams:
-- 
2.43.0


From 71b3511bb91105c741e13c523e85e0354fb08c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 07/91] fix: illegal entry names are refused too late, losing
 the entry or its slot

---
 src/aaf2/cfb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c5984f9..73467f6 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1832,6 +1832,11 @@ class CompoundFileBinary(object):
                 self.fat_freelist.insert(0, sid)
 
 
+    def check_new_name(self, name):
+        # 31 characters and a null terminator
+        if not name or len(name.encode("utf-16le")) > 62:
+            raise ValueError("illegal entry name: '%s'" % name)
+
     def create_dir_entry(self, path, dir_type='storage', class_id=None):
 
         if self.exists(path):
@@ -1848,6 +1853,8 @@ class CompoundFileBinary(object):
         if not root.type in ('storage', 'root storage'):
             raise ValueError("can not add entry to non storage type")
 
+        self.check_new_name(basename)
+
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
 
@@ -2132,6 +2139,8 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        self.check_new_name(dst_basename)
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From bdf2ca153bb4767155c4ed9f482162962dd2d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 08/91] fix: moving a storage beneath itself detaches it from
 the tree

---
 src/aaf2/cfb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 73467f6..509c6a6 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2141,6 +2141,12 @@ class CompoundFileBinary(object):
 
         self.check_new_name(dst_basename)
 
+        parent = dst_entry
+        while parent is not None:
+            if parent is src_entry:
+                raise ValueError("cannot move %s beneath itself: %s" % (src, dst))
+            parent = parent.parent
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From a6a9313a121dfc747d22dcfc63fb86d1f09fdd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 09/91] fix: names differing only by case corrupt the sibling
 tree

---
 src/aaf2/cfb.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 509c6a6..7694041 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1832,11 +1832,20 @@ class CompoundFileBinary(object):
                 self.fat_freelist.insert(0, sid)
 
 
-    def check_new_name(self, name):
+    def check_new_name(self, parent, name, entry=None):
         # 31 characters and a null terminator
         if not name or len(name.encode("utf-16le")) > 62:
             raise ValueError("illegal entry name: '%s'" % name)
 
+        # the sibling tree does not tell apart names that differ by case only
+        node = parent.child()
+        while node is not None:
+            if node == name:
+                if node is not entry:
+                    raise ValueError("name differs from existing one by case only: %s" % name)
+                break
+            node = node[int(node < name)]
+
     def create_dir_entry(self, path, dir_type='storage', class_id=None):
 
         if self.exists(path):
@@ -1853,7 +1862,7 @@ class CompoundFileBinary(object):
         if not root.type in ('storage', 'root storage'):
             raise ValueError("can not add entry to non storage type")
 
-        self.check_new_name(basename)
+        self.check_new_name(root, basename)
 
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
@@ -2139,7 +2148,7 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
-        self.check_new_name(dst_basename)
+        self.check_new_name(dst_entry, dst_basename, src_entry)
 
         parent = dst_entry
         while parent is not None:
-- 
2.43.0


From 684dc88e04cc0bcfb75ef7a019fa8f79b10b110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 10/91] fix: entries read while rebalancing lose their parent

---
 src/aaf2/cfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 7694041..33cb990 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -759,6 +759,7 @@ class DirEntry(object):
 
         head = DirEntry(self.storage, None) # False tree root
         head.red = True
+        head.parent = self # entries read through head get it as parent
         entry.red = True
 
         grand_grand_grand_parent = None
@@ -872,6 +873,7 @@ class DirEntry(object):
         head = DirEntry(self.storage, None) # False tree root
         head.red = True
         head.name = "" # NOTE: any name will be less then this
+        head.parent = self.parent # entries read through head get it as parent
         node = head
         node[1] = self.parent.child()
         grand_parent = None
-- 
2.43.0


From b5233f091398f08bb92bfd9321e8945d6ab05a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 11/91] fix: empty directory entries of an existing file are
 never used again

---
 src/aaf2/cfb.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 33cb990..4729175 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1102,6 +1102,7 @@ class CompoundFileBinary(object):
         self.dir_cache = weakref.WeakValueDictionary()
         self.children_cache = LRUCacheDict()
         self.dir_freelist = []
+        self.dir_freelist_read = False
 
         self.debug_grow = False
         self.is_open = True
@@ -1742,13 +1743,29 @@ class CompoundFileBinary(object):
         self.f.seek(sector_pos)
         self.f.write(bytearray(self.sector_size))
 
+    def read_dir_freelist(self):
+        self.write_modified_dir_entries()
+
+        for i, sid in enumerate(self.dir_fat_chain):
+            sector_data = self.read_sector_data(sid)
+            first_dir_id = i * self.sector_size // 128
+            for offset in range(0, self.sector_size, 128):
+                dir_id = first_dir_id + offset // 128
+                # empty and not handed out already
+                if sector_data[offset + 66] == 0x00 and not dir_id in self.dir_cache:
+                    self.dir_freelist.append(dir_id)
+
     def next_free_dir_id(self):
 
         # use free list first
         if self.dir_freelist:
             return self.dir_freelist.pop(0)
 
-        f = self.f
+        # then the empty entries of existing sectors
+        if not self.dir_freelist_read:
+            self.dir_freelist_read = True
+            self.read_dir_freelist()
+            return self.next_free_dir_id()
 
         sect = self.fat_chain_append(self.dir_fat_chain[-1])
 
-- 
2.43.0


From ddab0c92dfcc1c0ae2eff1425ccd9ac3985b7c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 12/91] fix: removing entries degenerates the sibling tree into
 a list

---
 src/aaf2/cfb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 4729175..c2ae82d 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -914,7 +914,7 @@ class DirEntry(object):
                     assert is_parent_of(parent, node)
 
                 elif is_not_red(node[1 - direction]):
-                    sibling = parent[1 - direction]
+                    sibling = parent[1 - last]
                     if sibling is not None:
 
                         if is_not_red(sibling[1 - last]) and is_not_red(sibling[last]):
@@ -952,7 +952,7 @@ class DirEntry(object):
             raise CompoundFileBinaryError("max dir entries limit reached")
 
         # entry parent could have changed during rebalance
-        max_search_depth = 4 # grand_parent -> parent -> node
+        max_search_depth = 5 # two rotations below grand_parent -> parent -> node
         entry_parent = find_entry_parent(entry_grand_parent, entry, max_search_depth)
 
         if entry_parent[0] is entry:
-- 
2.43.0


From 73bb01898798c58c6532001040c50d50e6e46101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 13/91] fix: negative and out of range indices of object
 vectors

Indices below -len() were clamped to the first element, so vector[-9] and
pop(-9) silently used it. insert() stored the cached object under the unclamped
index, losing it.
---
 src/aaf2/properties.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..76c7d23 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -509,11 +509,11 @@ class StrongRefVectorProperty(Property):
         return "%s{%x}" % (self.index_name, self.references[index])
 
     def get(self, index, default=None):
-        if index >= len(self.references):
-            return default
-
         if index < 0:
-            index = max(0, len(self.references) + index)
+            index += len(self.references)
+
+        if index < 0 or index >= len(self.references):
+            return default
 
         item = self.objects.get(index, None)
         if item:
@@ -541,9 +541,9 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def __setitem__(self, index, value):
         if index < 0:
-            index = max(0, len(self) + index)
+            index += len(self)
 
-        if index >= len(self):
+        if index < 0 or index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
         if value.root is not self.parent.root:
@@ -578,7 +578,7 @@ class StrongRefVectorProperty(Property):
         if obj is None:
             raise IndexError(index)
         if index < 0:
-            index = max(0, len(self) + index)
+            index += len(self.references)
 
         self.references.pop(index)
 
@@ -606,6 +606,11 @@ class StrongRefVectorProperty(Property):
     def insert(self, index, value):
         assert self.ref_classdef.isinstance(value.classdef)
 
+        # clamp the same way list.insert does
+        if index < 0:
+            index = max(0, len(self.references) + index)
+        index = min(index, len(self.references))
+
         self.references.insert(index, self.next_free_key)
 
         objects = {}
-- 
2.43.0


From 19c262951ae4c2b40b9a1045cf1d347b6b19afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 14/91] fix: insert into an object vector skips the checks
 append does

insert() never added the property to its object, so inserting into an unset
vector was lost, and it accepted objects of another file or already attached.
---
 src/aaf2/properties.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 76c7d23..3a485ea 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -604,8 +604,15 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
+        index_name = self.index_name # sets self.data
         assert self.ref_classdef.isinstance(value.classdef)
 
+        if value.root is not self.parent.root:
+            raise AAFAttachError("Object is from a different root")
+
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
         # clamp the same way list.insert does
         if index < 0:
             index = max(0, len(self.references) + index)
@@ -627,6 +634,7 @@ class StrongRefVectorProperty(Property):
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
     @writeonly
-- 
2.43.0


From 67adf48efb2c5aae738dfe50bf75a8e099deeaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 15/91] fix: assigning to an object vector loses elements it
 cannot store

extend() iterated its argument twice, so a generator added nothing, and it
accepted the same object twice; assigning a value removed the old elements
before finding out that the new ones are refused.
---
 src/aaf2/properties.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 3a485ea..1eb2ad5 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -637,20 +637,31 @@ class StrongRefVectorProperty(Property):
         self.add_pid_entry()
         self.attach()
 
-    @writeonly
-    def extend(self, value):
-        index_name = self.index_name # sets self.data
+    def check_values(self, values, members=()):
+        """raise unless all values could be added to a vector holding members"""
         ref_classdef = self.ref_classdef
+        member_ids = set(id(obj) for obj in members)
+        seen = set()
 
-        for obj in value:
+        for obj in values:
             assert ref_classdef.isinstance(obj.classdef)
 
             if obj.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
-            if obj.dir:
+            if obj.dir and id(obj) not in member_ids:
                 raise AAFAttachError("Object already attached")
 
+            if id(obj) in seen:
+                raise AAFAttachError("Object added more than once")
+            seen.add(id(obj))
+
+    @writeonly
+    def extend(self, value):
+        value = list(value)
+        index_name = self.index_name # sets self.data
+        self.check_values(value)
+
         for obj in value:
             i = len(self.references)
             self.references.append(self.next_free_key)
@@ -674,6 +685,8 @@ class StrongRefVectorProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value, self.value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 36fa6fd818ff06e03f34d98b7c4cfba3accfb864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 16/91] fix: item assignment of an object vector accepts
 objects of the wrong class

---
 src/aaf2/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 1eb2ad5..11a042c 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -546,6 +546,8 @@ class StrongRefVectorProperty(Property):
         if index < 0 or index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
+        assert self.ref_classdef.isinstance(value.classdef)
+
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
-- 
2.43.0


From 82c14fed8c6ddc5003b31e83d3c2fcbe501cb609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 17/91] fix: assigning to an object set loses members it cannot
 store

extend() iterated its argument twice, so a generator added nothing, and it
missed a member with the same key that was not loaded yet; assigning a value
removed the old members before finding out that the new ones are refused.
---
 src/aaf2/properties.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 11a042c..dc36e4b 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -893,19 +893,25 @@ class StrongRefSetProperty(Property):
 
         obj.unique_property.data = new_key.bytes_le
 
-    @writeonly
-    def extend(self, values):
-        typedef = self.typedef
-        classdef = typedef.ref_classdef
+    def check_values(self, values, members=()):
+        """raise unless all values could be added to a set holding members"""
+        classdef = self.typedef.ref_classdef
+        member_ids = set(id(obj) for obj in members)
 
-        # check values are the correct type
         for item in values:
             if not classdef.isinstance(item.classdef):
                 raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
-            if item.dir:
+            if item.dir and id(item) not in member_ids:
                 raise AAFAttachError("Object already attached")
+            assert item.unique_key is not None
+
+    @writeonly
+    def extend(self, values):
+        values = list(values)
+        classdef = self.typedef.ref_classdef
+        self.check_values(values)
 
         if self.key_pid is None:
             self.key_pid = classdef.unique_key_pid
@@ -919,9 +925,8 @@ class StrongRefSetProperty(Property):
 
         for item in values:
             key = item.unique_key
-            assert key is not None
 
-            current = self.objects.get(key, None)
+            current = self.get(key, None)
             current_local_key = self.references.get(key, None)
 
             if current and current is not item:
@@ -981,10 +986,12 @@ class StrongRefSetProperty(Property):
             self.remove_pid_entry()
             return
 
-        self.clear()
         if isinstance(value, dict):
             value = value.values()
 
+        value = list(value)
+        self.check_values(value, self.values())
+        self.clear()
         self.extend(value)
         return
 
-- 
2.43.0


From e2e61f93d211557120b36d88eeea681802fe7048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 18/91] fix: changing the id of an attached object to a taken
 or invalid one

Changing the id of a mob to the id of another one dropped that other mob, and
an invalid id left the collection without the object.
---
 src/aaf2/properties.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index dc36e4b..52ccfb0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -151,6 +151,9 @@ class Property(object):
     @writeonly
     def value(self, value):
         if self.data is not None and self.parent.dir and self.unique:
+            if value is None:
+                raise AAFPropertyError("cannot remove unique property of attached object")
+            value = self.typedef.decode(self.typedef.encode(value))
             if self.propertydef.auid == MOB_MOBID_AUID:
                 self.parent.root.content.mobs.swap_unique_key(self.value, value)
             elif self.propertydef.auid == ESSENCEDATA_MOBID_AUID:
@@ -884,6 +887,12 @@ class StrongRefSetProperty(Property):
         if obj is None:
             raise ValueError("invalid key: %s" % str(old_key))
 
+        if new_key == old_key:
+            return
+
+        if new_key in self.references:
+            raise ValueError("key already in use: %s" % str(new_key))
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
-- 
2.43.0


From 118b7fc902e57b28611239b25a2c7123400a0ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 19/91] fix: changing the definition of an attached Parameter
 corrupts its set

The OperationGroup's set kept the parameter under its old key.
---
 src/aaf2/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 52ccfb0..6facba8 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -51,6 +51,7 @@ TYPEDEF_AUID           = AUID("0d010101-0203-0000-060e-2b3402060101")
 
 MOB_MOBID_AUID         = AUID("01011510-0000-0000-060e-2b3401010101")
 ESSENCEDATA_MOBID_AUID = AUID("06010106-0100-0000-060e-2b3401010102")
+PARAMETER_DEFINITION_AUID = AUID("06010104-0104-0000-060e-2b3401010102")
 
 PROPERTY_VERSION=32
 sentinel = object()
@@ -121,7 +122,8 @@ class Property(object):
                 return p
     @property
     def unique(self):
-        return self.propertydef.unique
+        # a set keys Parameters by their Definition
+        return self.propertydef.unique or self.propertydef.auid == PARAMETER_DEFINITION_AUID
 
     @property
     def name(self):
-- 
2.43.0


From 102e5ec3a13bda2e9c134335b90c330bfcc573b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 20/91] fix: assigning an object that is attached elsewhere

The old object was thrown away before the new one was refused, and an object
attached below another parent under the same name was shared by both.  The old
object was not detached when it was not loaded.
---
 src/aaf2/properties.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 6facba8..54cd81f 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -345,6 +345,8 @@ class StrongRefProperty(Property):
     def value(self):
         if self.object:
             return self.object
+        if self.ref is None or self.parent.dir is None:
+            return None
         dir_entry = self.parent.dir.get(self.ref)
         obj = None
         if dir_entry:
@@ -368,14 +370,22 @@ class StrongRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        current = self.value
+        if value is current:
+            self.add_pid_entry()
+            return
+
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
         if self.ref is None:
             propdef = self.propertydef
             self.ref = mangle_name(propdef.property_name, self.pid, 32)
             self.data = self.encode(self.ref)
 
         # before assigning new object detach old
-        if self.object:
-            self.object.detach()
+        if current:
+            current.detach()
             self.object = None
 
         self.object = value
-- 
2.43.0


From 05d271358d7b73a02c9da241ac1c92692b9d7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 21/91] fix: objects attached below another parent count as
 attached here

Directory entries compare by name, an object attached under an equal name
elsewhere was skipped silently.
---
 src/aaf2/properties.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 54cd81f..bf64506 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -411,7 +411,7 @@ class StrongRefProperty(Property):
         dir_entry = self.parent.dir.get(self.ref)
         if dir_entry is None:
             dir_entry = self.parent.dir.makedir(self.ref)
-        if self.object.dir != dir_entry:
+        if self.object.dir is not dir_entry:
             self.object.attach(dir_entry)
 
         # convert to weakref
@@ -724,7 +724,7 @@ class StrongRefVectorProperty(Property):
             dir_entry = self.parent.dir.get(ref)
             if dir_entry is None:
                 dir_entry = self.parent.dir.makedir(ref)
-            if obj.dir != dir_entry:
+            if obj.dir is not dir_entry:
                 obj.attach(dir_entry)
 
 
@@ -964,7 +964,7 @@ class StrongRefSetProperty(Property):
                 dir_entry = self.parent.dir.get(ref)
                 if dir_entry is None:
                     dir_entry = self.parent.dir.makedir(ref)
-                if item.dir != dir_entry:
+                if item.dir is not dir_entry:
                     item.attach(dir_entry)
 
         self.add_pid_entry()
@@ -1035,7 +1035,7 @@ class StrongRefSetProperty(Property):
             dir_entry = self.parent.dir.get(ref)
             if dir_entry is None:
                 dir_entry = self.parent.dir.makedir(ref)
-            if obj.dir != dir_entry:
+            if obj.dir is not dir_entry:
                 obj.attach(dir_entry)
 
 
@@ -1472,7 +1472,7 @@ def add2set(self, pid, key, value):
         dir_entry = prop.parent.dir.get(ref)
         if dir_entry is None:
             dir_entry = prop.parent.dir.makedir(ref)
-        if value.dir != dir_entry:
+        if value.dir is not dir_entry:
             value.attach(dir_entry)
         prop.mark_modified()
 
-- 
2.43.0


From e5d9bae6d49cdb808d77b2f24648496eb09dfdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 22/91] fix: reading a stream property that has no stream

Files opened for reading were modified by it, and in writable ones the object
could not be detached any more.  A stream created on an object that was saved
already was not recorded, and one of a detached object could not be reached
through the property's value.
---
 src/aaf2/properties.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index bf64506..2f7b470 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -228,12 +228,16 @@ class StreamProperty(Property):
         self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32)
         self.data = self.encode(self.stream_name)
         self.add_pid_entry()
+        self.mark_modified()
 
     def open(self, mode='r'):
-        self.setup_stream()
+        if self.writeable:
+            self.setup_stream()
 
         if mode == 'r':
-            if self.attached:
+            if self.stream_name is None:
+                stream = None
+            elif self.attached:
                 stream = self.parent.dir.get(self.stream_name)
             else:
                 stream = self.dir
@@ -257,12 +261,15 @@ class StreamProperty(Property):
                 return self.dir.open(mode)
 
     def detach(self):
+        if not self.attached:
+            return
+
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
 
         stream = self.parent.dir.get(self.stream_name)
         if not stream:
-            raise AAFAttachError("stream doesn't exists")
+            return
 
         stream_path = stream.path()
         tmp = self.parent.root.manager.create_temp_dir().path()
@@ -289,6 +296,10 @@ class StreamProperty(Property):
 
     @property
     def value(self):
+        if self.stream_name is None:
+            return None
+        if not self.attached:
+            return self.dir
         return self.parent.dir.get(self.stream_name)
 
 
-- 
2.43.0


From a84ca1694ed79c8118f32d3b60e928f36f532495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 23/91] fix: removing a property leaves the objects and streams
 it owned attached

Deleting a property, or assigning None, dropped the entry only: the owned
objects stayed attached to their old place and could not be used anywhere
else, came back when the property was set again, and a stream blocked its name.
Properties could be deleted in files opened for reading.
---
 src/aaf2/core.py       |  5 ++++-
 src/aaf2/properties.py | 47 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 89829f9..0357548 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -342,7 +342,10 @@ class AAFObject(object):
         if result is sentinel:
             raise KeyError(key)
 
-        del self.property_entries[result.pid]
+        if not result.writeable:
+            raise AAFPropertyError("file readonly")
+
+        result.remove_pid_entry()
         if self.dir:
             self.root.manager.add_modified(self)
 
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2f7b470..b4d0afa 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -122,6 +122,9 @@ class Property(object):
                 return p
     @property
     def unique(self):
+        if self.propertydef is None:
+            return False
+
         # a set keys Parameters by their Definition
         return self.propertydef.unique or self.propertydef.auid == PARAMETER_DEFINITION_AUID
 
@@ -152,9 +155,11 @@ class Property(object):
     @value.setter
     @writeonly
     def value(self, value):
+        if value is None:
+            self.remove_pid_entry()
+            return
+
         if self.data is not None and self.parent.dir and self.unique:
-            if value is None:
-                raise AAFPropertyError("cannot remove unique property of attached object")
             value = self.typedef.decode(self.typedef.encode(value))
             if self.propertydef.auid == MOB_MOBID_AUID:
                 self.parent.root.content.mobs.swap_unique_key(self.value, value)
@@ -163,10 +168,6 @@ class Property(object):
             else:
                 raise AAFPropertyError("cannot change unique property value of attached object")
 
-        if value is None:
-            self.remove_pid_entry()
-            return
-
         self.data = self.typedef.encode(value)
         self.add_pid_entry()
 
@@ -176,9 +177,17 @@ class Property(object):
         return self
 
     def remove_pid_entry(self):
+        if self.data is not None and self.parent.dir and self.unique:
+            raise AAFPropertyError("cannot remove unique property of attached object")
+
+        self.release()
+        self.data = None
         if self.pid in self.parent.property_entries:
             del self.parent.property_entries[self.pid]
 
+    def release(self):
+        """let go of everything the property owns, before it is removed"""
+
     def __repr__(self):
         name = self.name
         if name:
@@ -294,6 +303,13 @@ class StreamProperty(Property):
 
         self.dir = None
 
+    def release(self):
+        stream = self.value
+        if stream is not None:
+            self.parent.root.cfb.remove(stream.path())
+        self.stream_name = None
+        self.dir = None
+
     @property
     def value(self):
         if self.stream_name is None:
@@ -405,6 +421,13 @@ class StrongRefProperty(Property):
 
         self.attach()
 
+    def release(self):
+        obj = self.value
+        if obj:
+            obj.detach()
+        self.object = None
+        self.ref = None
+
     def detach(self):
         # convert to regular ref
         self.objectref = self.value
@@ -718,6 +741,10 @@ class StrongRefVectorProperty(Property):
         self.clear()
         self.extend(value)
 
+    def release(self):
+        self.clear()
+        self.index_name = None
+
     def detach(self):
         objects = {}
         for i, obj in enumerate(self):
@@ -1027,6 +1054,10 @@ class StrongRefSetProperty(Property):
         self.extend(value)
         return
 
+    def release(self):
+        self.clear()
+        self.index_name = None
+
     def detach(self):
         objects = {}
         for key, value in self.items():
@@ -1304,6 +1335,10 @@ class WeakRefArrayProperty(Property):
     def append(self, value):
         self.extend([value])
 
+    def release(self):
+        self.references = []
+        self.index_name = None
+
     @writeonly
     def clear(self):
         self.references = []
-- 
2.43.0


From 52393ca5e74e51288630754c9fbb54abc3013a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:09 +0000
Subject: [PATCH 24/91] fix: copying an object vector that lost an element
 names the copies wrongly

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index b4d0afa..3b03c8a 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -481,7 +481,7 @@ class StrongRefVectorProperty(Property):
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
-- 
2.43.0


From d8d5fb1fdd314bf4687267059828e9aea3d5ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 25/91] fix: copying a weak reference within a file stores the
 wrong key pid

and copying one to a class definition into another file also copied the
definition object itself.
---
 src/aaf2/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 3b03c8a..974b50b 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1108,7 +1108,7 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
@@ -1120,7 +1120,7 @@ class WeakRefProperty(Property):
                 v = self.value
                 if self.ref_classdef.auid == CLASSDEF_AUID:
                     parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
+                elif self.ref_classdef.auid == TYPEDEF_AUID:
                     parent.root.metadict.register_external_typedef(v)
                 else:
                     c = v.copy(root=parent.root, classdef_cache=cache)
-- 
2.43.0


From fec540271439eb552514cbc010955acc595a50fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 26/91] fix: weak reference lists cannot be copied into a file
 lacking their targets

---
 src/aaf2/properties.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 974b50b..a859dcf 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1094,6 +1094,19 @@ def resolve_weakref(p, ref):
     else:
         return p.parent.root.resovle_weakref(p.weakref_index, p.key_pid, ref)
 
+def copy_weakref_target(p, ref, root, target_property, cache):
+    """add a copy of the object ref refers to if not present in target_property"""
+    if ref in target_property:
+        return
+
+    v = resolve_weakref(p, ref)
+    if p.ref_classdef.auid == CLASSDEF_AUID:
+        root.metadict.register_external_classdef(v)
+    elif p.ref_classdef.auid == TYPEDEF_AUID:
+        root.metadict.register_external_typedef(v)
+    else:
+        target_property.append(v.copy(root=root, classdef_cache=cache))
+
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -1115,17 +1128,7 @@ class WeakRefProperty(Property):
             weakref_index = parent.root.weakref_index(p.pid_path)
             ref_parent, target_property = parent.root.weakref_prop(weakref_index)
 
-            # add property value if not present
-            if self.ref not in target_property:
-                v = self.value
-                if self.ref_classdef.auid == CLASSDEF_AUID:
-                    parent.root.metadict.register_external_classdef(v)
-                elif self.ref_classdef.auid == TYPEDEF_AUID:
-                    parent.root.metadict.register_external_typedef(v)
-                else:
-                    c = v.copy(root=parent.root, classdef_cache=cache)
-                    target_property.append(c)
-
+            copy_weakref_target(self, self.ref, parent.root, target_property, cache)
             p.value = target_property[self.ref]
 
         return p
@@ -1215,8 +1218,7 @@ class WeakRefArrayProperty(Property):
             weakref_index = parent.root.weakref_index(p.pid_path)
             ref_parent, target_property = parent.root.weakref_prop(weakref_index)
             for ref in self.references:
-                # copy property here if not present?
-                assert ref in target_property
+                copy_weakref_target(self, ref, parent.root, target_property, cache)
                 p.append(target_property[ref])
 
         return p
-- 
2.43.0


From 9212a25addcbfa06bf29ca5820a0511a9864343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 27/91] fix: assigning to a weak reference property

Assigning a list with an unsuitable object cleared the list before refusing
it, a generator left it empty, and an unset reference could not be read.
---
 src/aaf2/properties.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a859dcf..af265af 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1163,8 +1163,13 @@ class WeakRefProperty(Property):
     def ref_classdef(self):
         return self.typedef.ref_classdef
 
+    def release(self):
+        self.ref = None
+
     @property
     def value(self):
+        if self.ref is None:
+            return None
         return resolve_weakref(self, self.ref)
 
     @property
@@ -1306,8 +1311,7 @@ class WeakRefArrayProperty(Property):
             obj = resolve_weakref(self, key)
             yield (key, obj)
 
-    @writeonly
-    def extend(self, values):
+    def check_values(self, values):
         ref_classdef = self.ref_classdef
 
         # check values are the correct type
@@ -1317,6 +1321,12 @@ class WeakRefArrayProperty(Property):
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
+    @writeonly
+    def extend(self, values):
+        values = list(values)
+        ref_classdef = self.ref_classdef
+        self.check_values(values)
+
         if self.index_name is None:
             propdef = self.propertydef
             self.index_name = mangle_name(propdef.property_name, self.pid, 32-10)
@@ -1356,6 +1366,8 @@ class WeakRefArrayProperty(Property):
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From 8b0cf4a1d20d8db30e66a10dfe51e128b139e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 28/91] fix: attaching an object whose contents are attached
 elsewhere fails halfway

An object owned by two detached parents raised in the middle of attaching the
second one, which stayed partly attached.
---
 src/aaf2/properties.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index af265af..ff9c013 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -68,6 +68,24 @@ def writeonly(func):
     return func_wrapper
 
 
+def check_detached(parent, values):
+    """raise unless values, and everything they own, can be attached to parent"""
+    for value in values:
+        if value.dir:
+            raise AAFAttachError("Object already attached")
+
+    # the owned objects matter only when they end up in the file
+    if parent.dir:
+        seen = set()
+        for value in values:
+            for obj, streams in value.walk_references():
+                if obj.dir:
+                    raise AAFAttachError("Object already attached")
+                if id(obj) in seen:
+                    raise AAFAttachError("Object added more than once")
+                seen.add(id(obj))
+
+
 class Property(object):
     __slots__ = ('pid', 'format', 'version', 'data', 'parent', '_propertydef')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -402,8 +420,7 @@ class StrongRefProperty(Property):
             self.add_pid_entry()
             return
 
-        if value.dir:
-            raise AAFAttachError("Object already attached")
+        check_detached(self.parent, [value])
 
         if self.ref is None:
             propdef = self.propertydef
@@ -600,8 +617,7 @@ class StrongRefVectorProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
-        if value.dir:
-            raise AAFAttachError("Object already attached")
+        check_detached(self.parent, [value])
 
         obj = self.get(index, None)
         if obj:
@@ -661,8 +677,7 @@ class StrongRefVectorProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
-        if value.dir:
-            raise AAFAttachError("Object already attached")
+        check_detached(self.parent, [value])
 
         # clamp the same way list.insert does
         if index < 0:
@@ -700,13 +715,12 @@ class StrongRefVectorProperty(Property):
             if obj.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
-            if obj.dir and id(obj) not in member_ids:
-                raise AAFAttachError("Object already attached")
-
             if id(obj) in seen:
                 raise AAFAttachError("Object added more than once")
             seen.add(id(obj))
 
+        check_detached(self.parent, [obj for obj in values if id(obj) not in member_ids])
+
     @writeonly
     def extend(self, value):
         value = list(value)
@@ -962,10 +976,10 @@ class StrongRefSetProperty(Property):
                 raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
-            if item.dir and id(item) not in member_ids:
-                raise AAFAttachError("Object already attached")
             assert item.unique_key is not None
 
+        check_detached(self.parent, [obj for obj in values if id(obj) not in member_ids])
+
     @writeonly
     def extend(self, values):
         values = list(values)
-- 
2.43.0


From cf624480fea9f5307ba4090536c0be76b7fd75fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 29/91] fix: AUIDs hash unlike equal UUIDs, lack orderings and
 accept text with spaces

---
 src/aaf2/auid.py | 51 ++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/aaf2/auid.py b/src/aaf2/auid.py
index f0922f6..2762770 100644
--- a/src/aaf2/auid.py
+++ b/src/aaf2/auid.py
@@ -2,6 +2,9 @@ import uuid
 import struct
 import traceback
 
+AUID_DATA1_3 = struct.Struct(str('<IHH'))
+AUID_DATA4 = struct.Struct(str('>Q'))
+
 class AUID(object):
     """
     A higher performance UUID class that is more specialized for AAF.
@@ -18,6 +21,9 @@ class AUID(object):
             if len(hex) != 32:
                 raise ValueError('badly formed hexadecimal UUID string')
             b = bytearray.fromhex(hex)
+            # fromhex skips whitespace
+            if len(b) != 16:
+                raise ValueError('badly formed hexadecimal UUID string')
             self.bytes_le = bytearray(b[4-1::-1] + b[6-1:4-1:-1] + b[8-1:6-1:-1] + b[8:])
         elif bytes_be is not None:
             self.bytes_be = bytes_be
@@ -43,30 +49,9 @@ class AUID(object):
     @property
     def int(self):
         # done in big endian to match uuid.py
-        num  = self.bytes_le[15]
-        num += self.bytes_le[14] << 8
-        num += self.bytes_le[13] << 16
-        num += self.bytes_le[12] << 24
-        num += self.bytes_le[11] << 32
-        num += self.bytes_le[10] << 40
-        num += self.bytes_le[ 9] << 48
-        num += self.bytes_le[ 8] << 56
-
-        # num += self.data3 << 64
-        num += self.bytes_le[ 6] << 64
-        num += self.bytes_le[ 7] << 72
-
-        # num += self.data2 << 80
-        num += self.bytes_le[ 4] << 80
-        num += self.bytes_le[ 5] << 88
-
-        # num += self.data1 << 96
-        num += self.bytes_le[ 0] << 96
-        num += self.bytes_le[ 1] << 104
-        num += self.bytes_le[ 2] << 112
-        num += self.bytes_le[ 3] << 120
-
-        return num
+        data1, data2, data3 = AUID_DATA1_3.unpack_from(self.bytes_le, 0)
+        data4, = AUID_DATA4.unpack_from(self.bytes_le, 8)
+        return (data1 << 96) + (data2 << 80) + (data3 << 64) + data4
 
     @property
     def hex(self):
@@ -101,7 +86,8 @@ class AUID(object):
         return self.bytes_le[8:]
 
     def __hash__(self):
-        return hash(bytes(self.bytes_le))
+        # equal to the hash of the uuid.UUID it compares equal to
+        return hash(self.int)
 
     def __eq__(self, other):
         if isinstance(other, (AUID, uuid.UUID)):
@@ -113,6 +99,21 @@ class AUID(object):
             return self.int < other.int
         return NotImplemented
 
+    def __le__(self, other):
+        if isinstance(other, (AUID,)):
+            return self.int <= other.int
+        return NotImplemented
+
+    def __gt__(self, other):
+        if isinstance(other, (AUID,)):
+            return self.int > other.int
+        return NotImplemented
+
+    def __ge__(self, other):
+        if isinstance(other, (AUID,)):
+            return self.int >= other.int
+        return NotImplemented
+
     def __repr__(self):
         hex = '%032x' % self.int
         return '%s-%s-%s-%s-%s' % (
-- 
2.43.0


From 72f1eaf842fffe5ff87b792f9b04fbe43345a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:52 +0000
Subject: [PATCH 30/91] fix: rejected mob id values change the id or are
 accepted

---
 src/aaf2/mobid.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/mobid.py b/src/aaf2/mobid.py
index ee6ffe7..1728fe0 100644
--- a/src/aaf2/mobid.py
+++ b/src/aaf2/mobid.py
@@ -211,7 +211,7 @@ class MobID(object):
 
     @SMPTELabel.setter
     def SMPTELabel(self, value):
-        struct.pack_into(str('12B'), self.bytes_le, 0, *value)
+        self.bytes_le[0:12] = struct.pack(str('12B'), *value)
 
     @property
     def length(self):
@@ -251,7 +251,7 @@ class MobID(object):
 
     @Data1.setter
     def Data1(self, value):
-        struct.pack_into(str('<I'), self.bytes_le, 16, value)
+        self.bytes_le[16:20] = struct.pack(str('<I'), value)
 
     @property
     def Data2(self):
@@ -259,7 +259,7 @@ class MobID(object):
 
     @Data2.setter
     def Data2(self, value):
-        struct.pack_into(str('<H'), self.bytes_le, 20, value)
+        self.bytes_le[20:22] = struct.pack(str('<H'), value)
 
     @property
     def Data3(self):
@@ -267,7 +267,7 @@ class MobID(object):
 
     @Data3.setter
     def Data3(self, value):
-        struct.pack_into(str('<H'), self.bytes_le, 22, value)
+        self.bytes_le[22:24] = struct.pack(str('<H'), value)
 
     @property
     def Data4(self):
@@ -275,7 +275,7 @@ class MobID(object):
 
     @Data4.setter
     def Data4(self, value):
-        struct.pack_into(str('8B'), self.bytes_le, 24, *value)
+        self.bytes_le[24:32] = struct.pack(str('8B'), *value)
 
     def from_dict(self, d):
         """
@@ -323,6 +323,8 @@ class MobID(object):
     @int.setter
     def int(self, value):
         # NOTE: interpreted as big endian
+        if value < 0 or value >> 256:
+            raise ValueError("int is out of range (need a 256-bit value)")
         self.bytes_le = bytearray(bytes_from_int(value, 32, byte_order='big'))
 
     def __int__(self):
@@ -409,7 +411,8 @@ class MobID(object):
         s = str(value).lower()
         for item in ("urn:smpte:umid:", ".", '-', '0x'):
             s = s.replace(item, '')
-        assert len(s) == 64
+        if len(s) != 64 or any(c not in "0123456789abcdef" for c in s):
+            raise ValueError("badly formed UMID string: %s" % str(value))
 
         SMPTELabel = [0 for i in range(12)]
         start = 0
-- 
2.43.0


From 6017001089c75ce6d23f224271e7044544e07296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 31/91] fix: rationals that are not in lowest terms compare and
 calculate wrongly, large floats become invalid

---
 src/aaf2/rational.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/rational.py b/src/aaf2/rational.py
index d5357de..1efcdfa 100644
--- a/src/aaf2/rational.py
+++ b/src/aaf2/rational.py
@@ -36,10 +36,10 @@ class AAFRational(Fraction):
                 value = Fraction.from_float(numerator)
 
                 # make sure fraction can fit in a int32
-                value = value.limit_denominator(0x7FFFFFFF)
-                if value._numerator > 0x7FFFFFFF or value._numerator < -0x7FFFFFFF:
-                    value._denominator = int(value._denominator * (0x7FFFFFFF / float(value._numerator)))
-                    value._numerator = 0x7FFFFFFF
+                max_denominator = 0x7FFFFFFF
+                if abs(value) > 1:
+                    max_denominator = max(1, int(0x7FFFFFFF / abs(value)))
+                value = value.limit_denominator(max_denominator)
 
                 self._numerator = value._numerator
                 self._denominator = value._denominator
@@ -65,6 +65,7 @@ class AAFRational(Fraction):
                     denominator = 1
                     decimal = m.group('decimal')
                     if decimal:
+                        decimal = decimal.replace('_', '')
                         scale = 10**len(decimal)
                         numerator = numerator * scale + int(decimal)
                         denominator *= scale
@@ -109,3 +110,26 @@ class AAFRational(Fraction):
         self._numerator = numerator
         self._denominator = denominator
         return self
+
+def _reduced(value):
+    if isinstance(value, AAFRational):
+        return Fraction(value._numerator, value._denominator)
+    return value
+
+def _fraction_method(name):
+    func = getattr(Fraction, name)
+    def method(*args):
+        return func(*[_reduced(arg) for arg in args])
+    method.__name__ = str(name)
+    return method
+
+# Fraction expects its values to be in lowest terms
+for _name in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
+              '__truediv__', '__rtruediv__', '__div__', '__rdiv__',
+              '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__',
+              '__divmod__', '__rdivmod__', '__pow__', '__rpow__',
+              '__pos__', '__neg__', '__abs__', '__int__', '__trunc__', '__floor__', '__ceil__',
+              '__round__', '__hash__', '__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__',
+              'limit_denominator'):
+    if hasattr(Fraction, _name):
+        setattr(AAFRational, str(_name), _fraction_method(_name))
-- 
2.43.0


From 865c3df3838a65808bb4a991c5178347c34de746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 32/91] fix: creating an object within the arguments of another
 creation makes the wrong class

---
 src/aaf2/file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..32c7c54 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -13,6 +13,7 @@ from uuid import uuid4
 import sys
 import datetime
 import weakref
+from functools import partial
 from .utils import (
     read_u8,
     read_u16le,
@@ -32,11 +33,10 @@ class AAFFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        # the arguments of the call may create objects as well
+        return partial(self.from_name, name)
 
     def from_name(self, name, *args, **kwargs):
         classdef = self.root.metadict.lookup_classdef(name)
@@ -59,9 +59,6 @@ class AAFFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 class AAFObjectManager(object):
 
     def __init__(self, root):
-- 
2.43.0


From 2dc94fe339eae6b330826577d311f8b949c38859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 33/91] fix: a new slot can get the id of an existing one

---
 src/aaf2/mobs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..ee261b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -97,6 +97,7 @@ class Mob(core.AAFObject):
             for i, e in enumerate(slots + [None], start):
                 if i != e:
                     slot_id = i
+                    break
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From a75368285fe1dd617d29974481c864de2237a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 34/91] fix: wrong component at boundaries, zero length scopes
 and clips

---
 src/aaf2/components.py | 4 ++--
 src/aaf2/mobs.py       | 4 +++-
 src/aaf2/mobslots.py   | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..004399a 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -87,7 +87,7 @@ class Sequence(Segment):
         last_component = None
         last_index = None
 
-        if edit_unit <= 0:
+        if edit_unit < 0:
             return 0
 
         # this needs to go past target index to handle Transitions
@@ -98,7 +98,7 @@ class Sequence(Segment):
                     return index
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index
 
             last_component = component
diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ee261b1..e55f9b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -145,7 +145,9 @@ class Mob(core.AAFObject):
         clip.mob = self
         clip.slot = source_slot
         clip.start = start or 0
-        clip.length = length or max(source_slot.length - clip.start, 0)
+        if length is None:
+            length = max(source_slot.length - clip.start, 0)
+        clip.length = length
         return clip
 
     def dependant_mobs(self):
diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From 79d4db19fa6051881c58c76f0b550364cee853cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 35/91] fix: a key frame before the first one is inserted after
 it

---
 src/aaf2/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..bf5262a 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -238,10 +238,12 @@ class VaryingValue(Parameter):
         pointlist = self['PointList']
 
         if len(pointlist) > 0:
-            index = self.nearest_index(time)
+            index = self.nearest_index(cp.time)
             nearest = pointlist[index]
-            if float(nearest.time) == float(time):
+            if nearest.time == cp.time:
                 pointlist[index] = cp
+            elif nearest.time > cp.time:
+                pointlist.insert(index, cp)
             else:
                 pointlist.insert(index+1, cp)
         else:
-- 
2.43.0


From be094c6a7f69caacf889eae6f7bf67fd5694e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:14 +0000
Subject: [PATCH 36/91] fix: offset maps of a single frame or ending before the
 first key frame fail

---
 src/aaf2/interpolation.py | 1 +
 src/aaf2/misc.py          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/interpolation.py b/src/aaf2/interpolation.py
index 26b93d7..c200a9a 100644
--- a/src/aaf2/interpolation.py
+++ b/src/aaf2/interpolation.py
@@ -289,6 +289,7 @@ def mc_trapezoidal_integrate(value_at_func, a, b, n=5):
 def integrate_iter(value_at_func, start, end):
     # func is a value_at(time) function that takes a time arg
     pos = 0
+    t = start - 0.5
     for i in range(start, end-1):
         t = float(i)
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index bf5262a..6ac7656 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -411,7 +411,7 @@ def generate_offset_map(speed_map, start=0, end=None):
     offset_index = None
 
     inter_start = min(start, center)
-    inter_end = max(center,  end+1)
+    inter_end = max(center, end) + 1
 
     for i, (t,v) in enumerate(integrate_iter(speed_map.value_at, inter_start, inter_end)):
         time.append(t)
-- 
2.43.0


From 601c0d22f1a140713fcdbc5c9e38a642fd462268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 37/91] fix: text with a null character is stored truncated

---
 src/aaf2/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/utils.py b/src/aaf2/utils.py
index 4b901c9..6071309 100644
--- a/src/aaf2/utils.py
+++ b/src/aaf2/utils.py
@@ -85,6 +85,8 @@ def decode_utf16le(data):
         return data.decode('utf-16le', 'backslashreplace').split(u'\x00')[0]
 
 def encode_utf16le(data):
+    if u'\x00' in data:
+        raise ValueError("string contains a null character")
     return data.encode("utf-16le") + b"\x00\x00"
 
 def encode_u16le(value):
-- 
2.43.0


From 4aef16e5f7462ffda2de3c090e73fa534426c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 38/91] fix: fixed size arrays are stored with an extra element

---
 src/aaf2/types.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..390ec40 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -375,13 +375,7 @@ class TypeDefFixedArray(TypeDef):
             result += element_typedef.encode(item)
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
-            while bytes_left:
-                result += b'\0'
-                bytes_left -= 1
-
-        return result
+        return result.ljust(element_count * byte_size, b'\0')
 
 PID_VAR_TYPE = 0x0019
 
-- 
2.43.0


From 73e76aa7a653c9a2cda52565766fcb82af78fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 39/91] fix: string arrays cannot be assigned

---
 src/aaf2/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 390ec40..247ab2d 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -442,7 +442,8 @@ class TypeDefVarArray(TypeDef):
 
         element_typedef = self.element_typedef
 
-        if element_typedef.type_name == "Character":
+        #aafCharacter
+        if element_typedef.auid == AUID("01100100-0000-0000-060e-2b3401040101"):
             return encode_utf16_array(value)
 
         if isinstance(element_typedef, TypeDefInt):
-- 
2.43.0


From 5268b017b156a436e3c0f73cd295db775ead3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 40/91] fix: single byte strings are stored as UTF-16

---
 src/aaf2/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 247ab2d..e1bd357 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -542,10 +542,22 @@ class TypeDefString(TypeDef):
         if PID_STR_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_STR_TYPE].ref)
 
+    @property
+    def single_byte(self):
+        # aafISO7
+        typedef = self.element_typedef
+        return isinstance(typedef, TypeDefGenericCharacter) and typedef.size == 1
+
     def decode(self, data):
+        if self.single_byte:
+            return bytes(data).split(b'\x00')[0].decode('ascii', 'replace')
         return decode_utf16le(data)
 
     def encode(self, data):
+        if self.single_byte:
+            if u'\x00' in data:
+                raise ValueError("string contains a null character")
+            return data.encode('ascii') + b'\x00'
         return encode_utf16le(data)
 
 @register_class
-- 
2.43.0


From 057ca8792a756f27972d6427a9cfbdb85afa7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 41/91] fix: AUID and MobID properties accept each other's
 values

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index e1bd357..36ea2d5 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -698,10 +698,14 @@ class TypeDefRecord(TypeDef):
     def encode(self, data):
         # MobID
         if self.auid == MOBID_AUID:
+            if not isinstance(data, MobID):
+                raise TypeError("expected MobID not %s" % str(type(data)))
             return data.bytes_le
 
         # AUID
         if self.auid == AUID_AUID:
+            if not isinstance(data, (AUID, UUID)):
+                raise TypeError("expected AUID not %s" % str(type(data)))
             return data.bytes_le
 
         result = b""
-- 
2.43.0


From 6483d40eaa290356fe79c869d7a5e9a672224c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 42/91] fix: arrays and sets of renamed types or extendible
 enumerations cannot be read

---
 src/aaf2/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 36ea2d5..39c38fb 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -770,6 +770,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
@@ -834,6 +838,10 @@ class TypeDefExtEnum(TypeDef):
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
 
+    @property
+    def byte_size(self):
+        return 16
+
     @property
     def elements(self):
         element_names = list(iter_utf16_array(self.property_entries[PID_EXTENUM_NAMES].data))
-- 
2.43.0


From 32b1bbe1a5136f119d9f0bb7780dd61e8625573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 43/91] fix: class definitions never compare equal

---
 src/aaf2/metadict.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..20a1657 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -145,7 +145,13 @@ class ClassDef(core.AAFObject):
         return self
 
     def __eq__(self, other):
-        self.auid == other.auid
+        return isinstance(other, ClassDef) and self.auid == other.auid
+
+    def __ne__(self, other):
+        return not self == other
+
+    def __hash__(self):
+        return hash(self.auid)
 
     @property
     def auid(self):
-- 
2.43.0


From c1a9d9d161b68ada93b513b4d6b01b1841dcc633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 44/91] fix: copied type definitions get the name of their
 class, some cannot be copied

---
 src/aaf2/types.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 39c38fb..a6ecee4 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -327,7 +327,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -392,7 +392,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -473,7 +473,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -535,7 +535,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -601,7 +601,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -763,7 +763,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -817,7 +817,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
 
@@ -949,7 +949,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From b02d7b0a3d9cfc02c08ac425eac948ac2a79293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 45/91] fix: elements added to the enumerations of an existing
 file are not saved

---
 src/aaf2/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index a6ecee4..c71cb53 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,7 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        self.property_entries[PID_ENUM_VALUES].mark_modified()
 
     def decode(self, data):
 
@@ -837,6 +838,7 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        self.property_entries[PID_EXTENUM_VALUES].mark_modified()
 
     @property
     def byte_size(self):
-- 
2.43.0


From a868399f8939e69afc08d957089f5611daa423d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 46/91] fix: registering a property with a local number again
 fails or uses up numbers, taken numbers are accepted

---
 src/aaf2/metadict.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 20a1657..4048c9a 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -261,6 +261,8 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        elif pid >= 0x8000:
+            self.root.metadict.reserve_pid(pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
@@ -424,16 +426,7 @@ class MetaDictionary(core.AAFObject):
 
         if propertydefs:
             for prop_name, prop_args in propertydefs.items():
-                property_auid = prop_args[0]
-                pid = prop_args[1]
-
-                if pid is None:
-                    pid = self.next_free_pid()
-                elif pid and pid >= 0x8000:
-                    assert pid not in self.local_pids
-                    self.local_pids.add(pid)
-
-                c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
+                c.register_propertydef(prop_name, *prop_args)
 
         self.classdefs_by_name[name]   = c
         self.classdefs_by_auid[c.auid] = c
@@ -550,12 +543,18 @@ class MetaDictionary(core.AAFObject):
     def classdef(self):
         return self.classdefs_by_name['MetaDictionary']
 
+    def reserve_pid(self, pid):
+        if pid in self.local_pids:
+            raise ValueError("local pid 0x%04x is already in use" % pid)
+        self.local_pids.add(pid)
+
     def next_free_pid(self):
 
         while self.next_pid in self.local_pids:
             self.next_pid -= 1
-            if self.next_pid < 0x8000:
-                raise ValueError("ran out of local pids")
+
+        if self.next_pid < 0x8000:
+            raise ValueError("ran out of local pids")
 
         result = self.next_pid
         self.next_pid -= 1
-- 
2.43.0


From 930ee5ad8d32afe12a7fc2ce7d8f94fe0c0efd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:53 +0000
Subject: [PATCH 47/91] fix: registering a known class under another name fails

---
 src/aaf2/metadict.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 4048c9a..01266fe 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -417,10 +417,10 @@ class MetaDictionary(core.AAFObject):
             parent_classdef = self.lookup_classdef(parent)
             parent_auid = parent_classdef.auid
 
-        if name in self.classdefs_by_name:
+        if class_auid in self.classdefs_by_auid:
+            c = self.classdefs_by_auid[class_auid]
+        elif name in self.classdefs_by_name:
             c = self.classdefs_by_name[name]
-        elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
-- 
2.43.0


From 3ac722aea141c872425bf360e7160034cf4fcd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 48/91] fix: classes that refer to themselves cannot be copied
 to another file

---
 src/aaf2/metadict.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 01266fe..9f84d71 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -444,11 +444,21 @@ class MetaDictionary(core.AAFObject):
 
         # create typedef if missing
         if not typedef:
-            if isinstance(ext_typedef, (types.TypeDefStrongRef,
-                                        types.TypeDefWeakRef)):
-                # could this cause RecursionError?
-                classdef = ext_typedef.ref_classdef
-                self.register_external_classdef(classdef)
+            typedef = ext_typedef.copy(self.root)
+
+            # add it before anything it refers to, the classes it
+            # refers to can have properties of this type
+            self.typedefs_by_name[typedef.type_name] = typedef
+            self.typedefs_by_auid[typedef.auid] = typedef
+            self.typedefs_classes[typedef.auid] = typedef.__class__
+
+            if isinstance(ext_typedef, types.TypeDefStrongRef):
+                self.register_external_classdef(ext_typedef.ref_classdef)
+
+            elif isinstance(ext_typedef, types.TypeDefWeakRef):
+                self.register_external_classdef(ext_typedef.ref_classdef)
+                for classdef, propertydef in ext_typedef.propertydef_path[1:]:
+                    self.register_external_classdef(classdef)
 
             elif isinstance(ext_typedef, (types.TypeDefFixedArray,
                                           types.TypeDefVarArray,
@@ -465,14 +475,7 @@ class MetaDictionary(core.AAFObject):
             elif isinstance(ext_typedef, types.TypeDefRename):
                 self.register_external_typedef(ext_typedef.renamed_typedef)
 
-            elif isinstance(ext_typedef, types.TypeDefEnum):
-                self.register_external_typedef(ext_typedef.element_typedef)
-
-            typedef = ext_typedef.copy(self.root)
-
             self['TypeDefinitions'].append(typedef)
-            self.typedefs_by_name[typedef.type_name] = typedef
-            self.typedefs_by_auid[typedef.auid] = typedef
 
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
@@ -488,12 +491,12 @@ class MetaDictionary(core.AAFObject):
     def register_external_classdef(self, ext_classdef):
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
-        for c in class_chain[1:]:
+        for c in class_chain:
             classdef = self.lookup_classdef(c.auid)
             if not classdef:
                 classdef = self.register_classdef(c.class_name,
                                                   c.auid,
-                                                  c.parent.auid,
+                                                  c.parent_id,
                                                   c.concrete)
 
             for p in c.propertydefs:
-- 
2.43.0


From e1e189b4c8c04a9ffd6f683aa14739d86cfa7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:10 +0000
Subject: [PATCH 49/91] fix: local property numbers of the built in model can
 clash with those of a file, aliases refer to replaced classes

---
 src/aaf2/metadict.py | 87 ++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 9f84d71..f11e8e0 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -566,6 +566,12 @@ class MetaDictionary(core.AAFObject):
         return result
 
     def read_properties(self):
+        # the built in data model, before the file data model replaces it
+        model_propertydefs = {}
+        for classdef in self.classdefs_by_auid.values():
+            for pdef in classdef.propertydefs:
+                model_propertydefs[pdef.pid] = pdef.auid
+
         super(MetaDictionary, self).read_properties()
         for key, typedef in self['TypeDefinitions'].items():
             self.typedefs_by_name[typedef.type_name] = typedef
@@ -585,48 +591,51 @@ class MetaDictionary(core.AAFObject):
 
             classdef.propertydef_by_pid = propertydef_by_pid
 
+        # names the file doesn't use are still those of the built in data model
+        for name, classdef in self.classdefs_by_name.items():
+            self.classdefs_by_name[name] = self.classdefs_by_auid[classdef.auid]
+        for name, typedef in self.typedefs_by_name.items():
+            self.typedefs_by_name[name] = self.typedefs_by_auid[typedef.auid]
 
-        # add typedefs not defined by file data model
-        if self.root.writeable:
-            for key, typedef in self.typedefs_by_auid.items():
-                # skip root typedefs
-                if key in (AUID('05022800-0000-0000-060E-2B3401040101'),
-                           AUID('05022700-0000-0000-060E-2B3401040101')):
-                    continue
-
-                if key not in self['TypeDefinitions']:
-                    # this is super annoying, handle typedefs that have dynamic pids
-                    classdef = self.classdefs_by_auid.get(typedef.class_id)
-                    assert classdef
-                    for pdef in classdef['Properties'].values():
-                        if pdef.pid >= 0x8000:
-                            # if typedef has a dynamic pid might need to change it
-                            if pdef.pid in self.local_pids:
-                                old_pid = pdef.pid
-                                new_pid = self.next_free_pid()
-                                pdef.pid = new_pid
-
-                                prop = typedef.property_entries.pop(old_pid)
-                                prop.pid = new_pid
-                                typedef.property_entries[new_pid] = prop
-
-                    self['TypeDefinitions'].append(typedef)
-                    if classdef.auid not in self['ClassDefinitions']:
-                        self['ClassDefinitions'].append(classdef)
+        if not self.root.writeable:
+            return
 
         # add classdefs not defined by file data model
-        if self.root.writeable:
-            for key, classdef in self.classdefs_by_auid.items():
-                # skip root classdefs
-                if key in (AUID('b3b398a5-1c90-11d4-8053-080036210804'), ):
-                    continue
+        for key, classdef in self.classdefs_by_auid.items():
+            # skip root classdefs
+            if key in (AUID('b3b398a5-1c90-11d4-8053-080036210804'), ):
+                continue
 
-                if key not in self['ClassDefinitions']:
+            if key not in self['ClassDefinitions']:
 
-                    # handle any conflicting dynamic pids
-                    for pdef in classdef['Properties'].values():
-                        if pdef.pid >= 0x8000:
-                            if pdef.pid in self.local_pids:
-                                pdef.pid = self.next_free_pid()
+                # handle any conflicting dynamic pids
+                for pdef in classdef['Properties'].values():
+                    if pdef.pid >= 0x8000:
+                        if pdef.pid in self.local_pids:
+                            del classdef.propertydef_by_pid[pdef.pid]
+                            pdef.pid = self.next_free_pid()
+                            classdef.propertydef_by_pid[pdef.pid] = pdef
+                        else:
+                            self.local_pids.add(pdef.pid)
 
-                    self['ClassDefinitions'].append(classdef)
+                self['ClassDefinitions'].append(classdef)
+
+        # add typedefs not defined by file data model
+        for key, typedef in self.typedefs_by_auid.items():
+            # skip root typedefs
+            if key in (AUID('05022800-0000-0000-060E-2B3401040101'),
+                       AUID('05022700-0000-0000-060E-2B3401040101')):
+                continue
+
+            if key not in self['TypeDefinitions']:
+                # this is super annoying, handle typedefs that have dynamic pids
+                classdef = self.classdefs_by_auid.get(typedef.class_id)
+                assert classdef
+                for pid in list(typedef.property_entries):
+                    if pid >= 0x8000:
+                        pdef = classdef.lookup_propertydef(model_propertydefs[pid])
+                        prop = typedef.property_entries.pop(pid)
+                        prop.pid = pdef.pid
+                        typedef.property_entries[pdef.pid] = prop
+
+                self['TypeDefinitions'].append(typedef)
-- 
2.43.0


From 33ea520edb60f263d3853f53b74575d61bcb364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 50/91] fix: registering an existing type replaces its
 definition

---
 src/aaf2/metadict.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f11e8e0..ef3f35d 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -366,26 +366,19 @@ class MetaDictionary(core.AAFObject):
                 if not isinstance(args, (tuple,list)):
                     args = [args]
 
-                if cat == "extenums":
-                    if name in self.typedefs_by_name:
-                        t = self.typedefs_by_name[name]
-                        for element_value, element_name in args[1].items():
-                            t.register_element(element_name, AUID(element_value))
-                    else:
-                        t = types.TypeDefExtEnum(self.root, name, *args)
-                        properties.add2set(self, PID_TYPEDEFS, t.auid, t)
-                elif cat == "enums":
-                    if name in self.typedefs_by_name:
-                        t = self.typedefs_by_name[name]
-                        for element_value, element_name in args[2].items():
-                            t.register_element(element_name, element_value)
-                    else:
-                        t = types.TypeDefEnum(self.root, name, *args)
-                        properties.add2set(self, PID_TYPEDEFS, t.auid, t)
-                else:
+                t = self.typedefs_by_auid.get(AUID(args[0]), None)
+                if t is None and cat in ("extenums", "enums"):
+                    t = self.typedefs_by_name.get(name, None)
 
+                if t is None:
                     t = classobj(self.root, name, *args)
                     properties.add2set(self, PID_TYPEDEFS, t.auid, t)
+                elif cat == "extenums":
+                    for element_value, element_name in args[1].items():
+                        t.register_element(element_name, AUID(element_value))
+                elif cat == "enums":
+                    for element_value, element_name in args[2].items():
+                        t.register_element(element_name, element_value)
 
                 self.typedefs_by_name[name] = t
                 self.typedefs_by_auid[t.auid] = t
-- 
2.43.0


From 9bbfd53f6d25224f8260952992c369e677921e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 51/91] fix: copying to a file without definitions of a kind
 fails, copied empty collections cannot be saved

---
 src/aaf2/file.py       |  6 +++++-
 src/aaf2/properties.py | 10 +++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 32c7c54..3aebdab 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -287,7 +287,11 @@ class AAFFile(object):
             p = root.property_entries[pid]
             root = p.value
 
-        p = root.property_entries[path[-1]]
+        p = root.property_entries.get(path[-1], None)
+        if p is None:
+            # nothing has been added to it yet
+            propertydef = root.classdef.get_propertydef_from_pid(path[-1])
+            p = root[propertydef.property_name]
         return root, p
 
     def weakref_index(self, pid_path):
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index ff9c013..d5d05b4 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -508,9 +508,7 @@ class StrongRefVectorProperty(Property):
                 c = value.copy(dir_entry)
                 p.objects[i] = c
         else:
-            for i, value in enumerate(self):
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self])
 
         return p
 
@@ -825,9 +823,7 @@ class StrongRefSetProperty(Property):
                         dir_entry = parent.dir.makedir(ref)
                 p.objects[key] = value.copy(dir_entry)
         else:
-            for value in self.values():
-                c = value.copy(root=parent.root, classdef_cache=cache)
-                p.append(c)
+            p.extend([value.copy(root=parent.root, classdef_cache=cache) for value in self.values()])
 
         return p
 
@@ -1238,7 +1234,7 @@ class WeakRefArrayProperty(Property):
             ref_parent, target_property = parent.root.weakref_prop(weakref_index)
             for ref in self.references:
                 copy_weakref_target(self, ref, parent.root, target_property, cache)
-                p.append(target_property[ref])
+            p.extend([target_property[ref] for ref in self.references])
 
         return p
 
-- 
2.43.0


From c685aaef0edbb42a5a4ee90a3d6bd368b167ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 52/91] fix: parameters are copied to another file without
 their definition

---
 src/aaf2/misc.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 6ac7656..bb133b0 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -141,6 +141,17 @@ class Parameter(core.AAFObject):
     def unique_key(self):
         return self.unique_property.value
 
+    def copy(self, new_dir=None, root=None, classdef_cache=None):
+        new_obj = super(Parameter, self).copy(new_dir, root, classdef_cache)
+
+        # the definition is only referred to by id
+        if new_obj.root is not self.root:
+            parameterdef = self.parameterdef
+            if parameterdef and not new_obj.parameterdef:
+                new_obj.root.dictionary.register_def(parameterdef.copy(root=new_obj.root))
+
+        return new_obj
+
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
                                 self.__class__.__name__)
-- 
2.43.0


From 6855a90fd9318cbbd5b228587d6b4c48af7f90d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 53/91] fix: copies of collections with a different storage
 name are stored under another one

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d5d05b4..13e0ce7 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -492,7 +492,7 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
-- 
2.43.0


From d12c55887b53a4c56de55d38934ecff8776bee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 54/91] fix: refused comment, tagged value and parameter values
 leave a half made entry

---
 src/aaf2/misc.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index bb133b0..9a4eb3c 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -49,11 +49,13 @@ class TaggedValueHelper(object):
     def __setitem__(self, key, value):
         tag = self.get(key, None)
         if tag is None:
+            # nothing is added if either cannot be stored
             tag = self.p.parent.root.create.TaggedValue()
             tag['Name'].value = key
+            tag['Value'].value = value
             self.p.append(tag)
-
-        tag['Value'].value = value
+        else:
+            tag['Value'].value = value
 
 @register_class
 class TaggedValue(core.AAFObject):
@@ -90,9 +92,10 @@ class TaggedValue(core.AAFObject):
         if value_typedef is None:
             self.value = value
             return
-        self['Value'].add_pid_entry()
-        self['Value'].data = self['Value'].typedef.encode(value, value_typedef)
-        self['Value'].mark_modified()
+        p = self['Value']
+        p.data = p.typedef.encode(value, value_typedef)
+        p.add_pid_entry()
+        p.mark_modified()
 
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
@@ -190,11 +193,11 @@ class ConstantValue(Parameter):
 
     @value.setter
     def value(self, value):
-        self['Value'].add_pid_entry()
-        indirect_typedef = self['Value'].typedef
+        p = self['Value']
         parameter_typdef = self.typedef
-        self['Value'].data = indirect_typedef.encode(value, parameter_typdef)
-        self['Value'].mark_modified()
+        p.data = p.typedef.encode(value, parameter_typdef)
+        p.add_pid_entry()
+        p.mark_modified()
 
 
 @register_class
-- 
2.43.0


From 060f30ab47f594cd329371f0fa6b3007f431b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 55/91] fix: refused slot creation leaves an incomplete slot or
 a changed mob

---
 src/aaf2/mobs.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index e55f9b1..9bdeb2b 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -86,7 +86,8 @@ class Mob(core.AAFObject):
                 return slot
         raise IndexError("No SlotID: %s" % str(slot_id))
 
-    def create_timeline_slot(self, edit_rate, slot_id=None):
+    def new_timeline_slot(self, edit_rate, slot_id=None):
+        """create a slot for this mob that is not added to it yet"""
         slots = [slot.slot_id for slot in self.slots]
         slots.sort()
         if slot_id is None:
@@ -101,7 +102,10 @@ class Mob(core.AAFObject):
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-        slot = self.root.create.TimelineMobSlot(slot_id, edit_rate=edit_rate)
+        return self.root.create.TimelineMobSlot(slot_id, edit_rate=edit_rate)
+
+    def create_timeline_slot(self, edit_rate, slot_id=None):
+        slot = self.new_timeline_slot(edit_rate, slot_id)
         self.slots.append(slot)
         return slot
 
@@ -111,9 +115,9 @@ class Mob(core.AAFObject):
             `aaf2.components.Sequence` component. Timeline slots are for continuous,
             monotonically-changing media, like picture and sound.
         """
-        slot = self.create_timeline_slot(edit_rate, slot_id)
         sequence = self.root.create.Sequence(media_kind=media_kind)
         sequence['Components'].value = []
+        slot = self.create_timeline_slot(edit_rate, slot_id)
         slot.segment = sequence
         return slot
 
@@ -261,24 +265,31 @@ class SourceMob(Mob):
         return essencedata, slot
 
     def create_empty_slot(self, edit_rate=None, media_kind='picture', slot_id=None):
-        slot = self.create_timeline_slot(edit_rate, slot_id)
         clip = self.root.create.SourceClip(media_kind=media_kind)
+        slot = self.create_timeline_slot(edit_rate, slot_id)
         slot.segment = clip
 
         return slot
 
     def create_timecode_slot(self, edit_rate, timecode_fps, drop_frame=False, length=None):
+        timecode = self.root.create.Timecode(timecode_fps, drop=drop_frame, length=length)
         timecode_slot = self.create_timeline_slot(edit_rate)
-        timecode_slot.segment = self.root.create.Timecode(timecode_fps, drop=drop_frame, length=length)
+        timecode_slot.segment = timecode
         return timecode_slot
 
     def create_tape_slots(self, tape_name, edit_rate, timecode_fps, drop_frame=False, media_kind=None, length=None):
+        # make everything that could be refused before changing the mob
+        slot = self.new_timeline_slot(edit_rate, slot_id=1)
+        slot.segment = self.root.create.SourceClip(media_kind=media_kind)
+        slot.segment.length = int(float(AAFRational(edit_rate)) * 60 * 60 * 12)  # 12 hours
+        timecode = self.root.create.Timecode(timecode_fps, drop=drop_frame, length=length)
+
         self.name = tape_name
         self.descriptor = self.root.create.TapeDescriptor()
+        self.slots.append(slot)
 
-        slot = self.create_empty_slot(edit_rate, media_kind, slot_id=1)
-        slot.segment.length = int(float(AAFRational(edit_rate)) * 60 * 60 * 12)  # 12 hours
-        timecode_slot = self.create_timecode_slot(edit_rate, timecode_fps, drop_frame, length)
+        timecode_slot = self.create_timeline_slot(edit_rate)
+        timecode_slot.segment = timecode
 
         return slot, timecode_slot
 
-- 
2.43.0


From 0d9ba446307e6f868bff42c6bc586f28775c4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 56/91] fix: refused set assignment empties the set, reference
 to an object without id loses the reference

---
 src/aaf2/properties.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 13e0ce7..4e7ad85 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -974,6 +974,9 @@ class StrongRefSetProperty(Property):
                 raise AAFAttachError("Object is from a different root")
             assert item.unique_key is not None
 
+        if self.parent.dir and len(set(id(obj) for obj in values)) != len(values):
+            raise AAFAttachError("Object added more than once")
+
         check_detached(self.parent, [obj for obj in values if id(obj) not in member_ids])
 
     @writeonly
@@ -1199,6 +1202,9 @@ class WeakRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        if value.unique_key is None:
+            raise AAFPropertyError("cannot refer to an object without a unique id")
+
         if self.key_pid is None:
             self.key_pid = ref_classdef.unique_key_pid
         if self.key_size is None:
@@ -1330,6 +1336,8 @@ class WeakRefArrayProperty(Property):
                 raise TypeError("Invalid Value")
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
+            if item.unique_key is None:
+                raise AAFPropertyError("cannot refer to an object without a unique id")
 
     @writeonly
     def extend(self, values):
-- 
2.43.0


From 0a60d42879280b605b5ac82151f97ac997106d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 57/91] fix: a container opened for reading accepts edits and
 streams for writing

---
 src/aaf2/cfb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c2ae82d..7b782d5 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -241,6 +241,7 @@ class Stream(object):
             self.pos = min(orig_pos, len(realloc_data))
 
     def write(self, data):
+        self.storage.check_writeable()
         data_size = len(data)
         current_size = self.dir.byte_size
         new_size = max(self.tell() + data_size, current_size)
@@ -309,6 +310,7 @@ class Stream(object):
 
     def truncate(self, size=None):
         # print("trunc", self.dir.path())
+        self.storage.check_writeable()
         if size is None:
             size = self.pos
 
@@ -1851,6 +1853,10 @@ class CompoundFileBinary(object):
                 self.fat_freelist.insert(0, sid)
 
 
+    def check_writeable(self):
+        if self.mode in ("r", "rb"):
+            raise io.UnsupportedOperation("file readonly")
+
     def check_new_name(self, parent, name, entry=None):
         # 31 characters and a null terminator
         if not name or len(name.encode("utf-16le")) > 62:
@@ -1867,6 +1873,8 @@ class CompoundFileBinary(object):
 
     def create_dir_entry(self, path, dir_type='storage', class_id=None):
 
+        self.check_writeable()
+
         if self.exists(path):
             raise ValueError("%s already exists" % path)
 
@@ -1919,6 +1927,7 @@ class CompoundFileBinary(object):
         Removes both streams and storage DirEntry types from file.
         storage type entries need to be empty dirs.
         """
+        self.check_writeable()
 
         entry = self.find(path)
 
@@ -1944,6 +1953,8 @@ class CompoundFileBinary(object):
         """
         Removes directory structure, similar to shutil.rmtree.
         """
+        self.check_writeable()
+
         if self.find(path) is self.root:
             raise ValueError("can not remove root entry")
 
@@ -2140,6 +2151,8 @@ class CompoundFileBinary(object):
         """
         Moves ``DirEntry`` from src to dst
         """
+        self.check_writeable()
+
         src_entry = self.find(src)
         if src_entry is None:
             raise ValueError("src path does not exist: %s" % src)
@@ -2190,6 +2203,9 @@ class CompoundFileBinary(object):
     def open(self, path, mode='r'):
         """Open stream, returning ``Stream`` object"""
 
+        if mode != 'r':
+            self.check_writeable()
+
         entry = self.find(path)
         if entry is None:
             if mode == 'r':
-- 
2.43.0


From 6d6ad49edf2796ca1af799131e6bd5beb4fe0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:48 +0000
Subject: [PATCH 58/91] fix: a refused value of a tag or a constant replaces
 the value in memory

---
 src/aaf2/misc.py       | 8 ++------
 src/aaf2/properties.py | 5 +++++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 9a4eb3c..a2a16bf 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -93,9 +93,7 @@ class TaggedValue(core.AAFObject):
             self.value = value
             return
         p = self['Value']
-        p.data = p.typedef.encode(value, value_typedef)
-        p.add_pid_entry()
-        p.mark_modified()
+        p.set_data(p.typedef.encode(value, value_typedef))
 
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
@@ -195,9 +193,7 @@ class ConstantValue(Parameter):
     def value(self, value):
         p = self['Value']
         parameter_typdef = self.typedef
-        p.data = p.typedef.encode(value, parameter_typdef)
-        p.add_pid_entry()
-        p.mark_modified()
+        p.set_data(p.typedef.encode(value, parameter_typdef))
 
 
 @register_class
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 4e7ad85..19fcd2b 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -189,6 +189,11 @@ class Property(object):
         self.data = self.typedef.encode(value)
         self.add_pid_entry()
 
+    @writeonly
+    def set_data(self, data):
+        self.data = data
+        self.add_pid_entry()
+
     def add_pid_entry(self):
         if not self.pid in self.parent.property_entries:
             self.parent.property_entries[self.pid] = self
-- 
2.43.0


From ce9767c1dc3593aae1f152c5e937c26786be3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 59/91] fix: data model of a file opened for reading accepts
 new definitions

---
 src/aaf2/metadict.py | 12 ++++++++++++
 src/aaf2/types.py    |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index ef3f35d..3a774e1 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -13,6 +13,7 @@ from . import properties
 from .auid import AUID
 
 from . import core
+from .exceptions import AAFPropertyError
 from .utils import (register_class, read_u16le, decode_utf16le,
                     encode_utf16le, encode_u16le, str2auid,
                     AAFClaseID_dict, AAFClassName_dict)
@@ -248,6 +249,8 @@ class ClassDef(core.AAFObject):
         if p:
             return p
 
+        self.root.metadict.check_writeable()
+
         typedef = str2auid(typedef)
         if isinstance(typedef, AUID):
             typedef_auid = typedef
@@ -358,7 +361,13 @@ class MetaDictionary(core.AAFObject):
         self.register_typedef_model({'strongrefs': root_types})
         self.register_typedef_model(base_typedefs.__dict__)
 
+    def check_writeable(self):
+        # while the file is opened the built in data model is still set up
+        if self.dir and not self.root.writeable:
+            raise AAFPropertyError("file readonly")
+
     def register_typedef_model(self, typedef_model):
+        self.check_writeable()
 
         for cat, classobj in types.categories.items():
             for name, args in typedef_model.get(cat, {}).items():
@@ -397,6 +406,8 @@ class MetaDictionary(core.AAFObject):
         self.register_typedef_model(ext_typedefs.__dict__)
 
     def register_classdef(self, name, class_auid, parent, concrete, propertydefs=None):
+        self.check_writeable()
+
         if not isinstance(class_auid, AUID):
             class_auid = AUID(class_auid)
 
@@ -437,6 +448,7 @@ class MetaDictionary(core.AAFObject):
 
         # create typedef if missing
         if not typedef:
+            self.check_writeable()
             typedef = ext_typedef.copy(self.root)
 
             # add it before anything it refers to, the classes it
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index c71cb53..b7e5723 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -272,6 +272,8 @@ class TypeDefEnum(TypeDef):
             names.append(name)
             values.append(val)
 
+        self.root.metadict.check_writeable()
+
         names.append(element_name)
         values.append(element_value)
 
@@ -833,6 +835,8 @@ class TypeDefExtEnum(TypeDef):
             element_values.append(val)
             element_names.append(name)
 
+        self.root.metadict.check_writeable()
+
         element_names.append(element_name)
         element_values.append(element_auid)
 
-- 
2.43.0


From 997236169a46d4b518a77d31e4e324ba37e9c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 60/91] fix: dnx stream ending within a frame gives the cut
 frame as a whole one

---
 src/aaf2/video.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/video.py b/src/aaf2/video.py
index 2e96183..33b8d9d 100644
--- a/src/aaf2/video.py
+++ b/src/aaf2/video.py
@@ -237,4 +237,9 @@ def iter_dnx_stream(f):
         with BytesIO() as data:
             data.write(dnx_header)
             data.write(f.read(frame_size - 640))
-            yield data.getvalue()
+            packet = data.getvalue()
+
+        # the stream ends within this frame
+        if len(packet) != frame_size:
+            break
+        yield packet
-- 
2.43.0


From 810389328f2175545662ba50563f781481ee5516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 61/91] fix: a refused import leaves incomplete mobs in the
 file

---
 src/aaf2/mobs.py | 85 ++++++++++++++++++++++++++----------------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 9bdeb2b..99f89a9 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -207,10 +207,10 @@ class MasterMob(Mob):
 
         # create sourceMob and essencedata
         source_mob = self.root.create.SourceMob("%s.PHYS" % self.name)
-        self.root.content.mobs.append(source_mob)
 
         # import the essencedata
         source_slot = source_mob.import_dnxhd_essence(path, edit_rate, tape, length, offline)
+        self.root.content.mobs.append(source_mob)
 
         # create slot and clip that references source_mob slot
         slot = self.create_timeline_slot(edit_rate=edit_rate)
@@ -227,9 +227,9 @@ class MasterMob(Mob):
 
         # create sourceMob and essencedata
         source_mob = self.root.create.SourceMob("%s.PHYS" % self.name)
-        self.root.content.mobs.append(source_mob)
 
         source_slot = source_mob.import_audio_essence(path, edit_rate, tape, length, offline)
+        self.root.content.mobs.append(source_mob)
 
         # create slot and clip that references source_mob slot
         edit_rate = edit_rate or source_slot.edit_rate
@@ -352,48 +352,57 @@ class SourceMob(Mob):
         Import video essence from raw DNxHD/DNxHR stream
         """
 
-        essencedata, slot = self.create_essence(edit_rate, 'picture', offline=offline)
-
-        if tape:
-            slot.segment = tape
-
-        # create essence descriptor
-        descriptor = self.root.create.CDCIDescriptor()
-        self.descriptor = descriptor
-
-        # set minimal properties
-        descriptor['SampleRate'].value = edit_rate
-        descriptor['VideoLineMap'].value = [42, 0] # Not exactly sure what linemap is
-        descriptor['ContainerFormat'].value = self.root.dictionary.lookup_containerdef("AAF")
-        dnxhd_codec_auid = AUID("8ef593f6-9521-4344-9ede-b84e8cfdc7da")
-        descriptor['CodecDefinition'].value = self.root.dictionary.lookup_codecdef(dnxhd_codec_auid)
-
-        stream = None
-        if essencedata is not None:
-            # open essence stream
-            stream = essencedata.open('w')
-
         # open input file
         with io.open(path, 'rb', buffering=io.DEFAULT_BUFFER_SIZE) as f:
 
-            cid = None
-            for i, packet in enumerate(video.iter_dnx_stream(f), 1):
-                if cid is None:
-                    (cid, width, height, bitdepth, interlaced) = video.read_dnx_frame_header(packet)
-                    descriptor['StoredWidth'].value = width
-                    descriptor['StoredHeight'].value = height
-                    descriptor['ComponentWidth'].value = bitdepth
-                    descriptor['FrameLayout'].value = 'SeparateFields' if interlaced else 'FullFrame'
-                    descriptor['ImageAspectRatio'].value = "%d/%d" % (width, height)
-                    descriptor['FrameSampleSize'].value = len(packet)
-                    descriptor['Compression'].value = video.dnx_compression_auids[cid]
-                    descriptor['HorizontalSubsampling'].value = 2
-
+            # nothing is created unless there is a frame to import
+            packets = video.iter_dnx_stream(f)
+            packet = next(packets, None)
+            if packet is None:
+                raise ValueError("no DNxHD frame found: %s" % path)
+            (cid, width, height, bitdepth, interlaced) = video.read_dnx_frame_header(packet)
+            compression = video.dnx_compression_auids[cid]
+
+            essencedata, slot = self.create_essence(edit_rate, 'picture', offline=offline)
+
+            if tape:
+                slot.segment = tape
+
+            # create essence descriptor
+            descriptor = self.root.create.CDCIDescriptor()
+            self.descriptor = descriptor
+
+            # set minimal properties
+            descriptor['SampleRate'].value = edit_rate
+            descriptor['VideoLineMap'].value = [42, 0] # Not exactly sure what linemap is
+            descriptor['ContainerFormat'].value = self.root.dictionary.lookup_containerdef("AAF")
+            dnxhd_codec_auid = AUID("8ef593f6-9521-4344-9ede-b84e8cfdc7da")
+            descriptor['CodecDefinition'].value = self.root.dictionary.lookup_codecdef(dnxhd_codec_auid)
+
+            descriptor['StoredWidth'].value = width
+            descriptor['StoredHeight'].value = height
+            descriptor['ComponentWidth'].value = bitdepth
+            descriptor['FrameLayout'].value = 'SeparateFields' if interlaced else 'FullFrame'
+            descriptor['ImageAspectRatio'].value = "%d/%d" % (width, height)
+            descriptor['FrameSampleSize'].value = len(packet)
+            descriptor['Compression'].value = compression
+            descriptor['HorizontalSubsampling'].value = 2
+
+            stream = None
+            if essencedata is not None:
+                # open essence stream
+                stream = essencedata.open('w')
+
+            frames = 0
+            while packet is not None:
                 if stream is not None:
                     stream.write(packet)
+                frames += 1
+                packet = next(packets, None)
+
         # set descriptor and component lengths
-        slot.segment.length = length or i
-        descriptor.length = i
+        slot.segment.length = length or frames
+        descriptor.length = frames
 
         return slot
 
-- 
2.43.0


From 2abe19b6442c890e266039aad395a89cb109b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 62/91] fix: the length of imported audio is computed inexactly
 and not at all for edit rates like '24000/1001'

---
 src/aaf2/mobs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 99f89a9..efc3d90 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -10,7 +10,7 @@ import io
 
 from . import core
 from . mobid import MobID
-from . utils import register_class, rescale
+from . utils import register_class
 from . misc import TaggedValueHelper
 from . import essence
 from . import video
@@ -438,7 +438,7 @@ class SourceMob(Mob):
 
         # set lengths
         descriptor.length = frames
-        slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))
+        slot.segment.length = length or int(frames * AAFRational(edit_rate) / AAFRational(sample_rate))
 
         if essencedata is not None:
             stream = essencedata.open('w')
-- 
2.43.0


From 37555e9a66a1168db775f93d3ea062562542b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 63/91] fix: raw video ending within a frame gives the cut
 frame as a whole one

---
 src/aaf2/mobs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index efc3d90..c233b08 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -334,7 +334,8 @@ class SourceMob(Mob):
         with io.open(path, 'rb', buffering=io.DEFAULT_BUFFER_SIZE) as f:
             while True:
                 data = f.read(raw_frame_size)
-                if not data:
+                if not data or len(data) < raw_frame_size:
+                    # the source ends within a frame
                     break
                 stream.write(data)
                 if alignment_padding:
-- 
2.43.0


From 81bcd935b4f5deccf08c80d08067a1f5a9dfd04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 64/91] fix: linking an mxf file with a MPEG2 video descriptor
 fails with NameError

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..3284db7 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From 3e20ffff6999fc35fcac8a36d7110ca7f39773fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 65/91] fix: unknown (-1) or negative lengths and positions of
 an mxf file are read as unsigned and cannot be linked

---
 src/aaf2/mxf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 3284db7..a3e0e2c 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -351,13 +351,13 @@ class MXFComponent(MXFObject):
             if tag == 0x1001:
                 self.data['Components'] = decode_strong_ref_array(f)
             elif tag == 0x1201:
-                self.data['StartTime'] = read_u64be(f)
+                self.data['StartTime'] = read_s64be(f)
             elif tag == 0x1102:
                 self.data['SourceMobSlotID'] = read_u32be(f)
             elif tag == 0x1101:
                 self.data['SourceID'] = decode_mob_id(data)
             elif tag == 0x0202:
-                self.data['Length'] = read_u64be(f)
+                self.data['Length'] = read_s64be(f)
             elif tag == 0x0201:
                 self.data['DataDef'] = decode_datadef(data)
             elif tag == 0x1503:
@@ -365,7 +365,7 @@ class MXFComponent(MXFObject):
             elif tag == 0x1502:
                 self.data['FPS'] = read_u16be(f)
             elif tag == 0x1501:
-                self.data['Start'] = read_u64be(f)
+                self.data['Start'] = read_s64be(f)
             elif tag == 0x0501:
                 self.data['Choices'] = decode_strong_ref_array(f)
             elif tag == 0x0502:
@@ -379,9 +379,9 @@ class MXFComponent(MXFObject):
             elif tag == 0x0d04:
                 self.data['PhaseFrame'] = read_s32be(f)
             elif tag == 0x0e01:
-                self.data['RelativeScope'] = read_s32be(f)
+                self.data['RelativeScope'] = read_u32be(f)
             elif tag == 0x0e02:
-                self.data['RelativeSlot'] = read_s32be(f)
+                self.data['RelativeSlot'] = read_u32be(f)
 
 @register_mxf_class
 class MXFSequence(MXFComponent):
-- 
2.43.0


From 40fc4b6e6659994dcd97cd3b2ce11eb481647e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 66/91] fix: the extent of the header of an mxf file is taken
 from where its primer starts; short sets at its end were missed, an unknown
 (0) grid size failed

---
 src/aaf2/mxf.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index a3e0e2c..0daaca5 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -857,6 +857,7 @@ class MXFFile(object):
         self.local_tags = {}
         self.preface = None
         self.header_operation_pattern = None
+        self.header_byte_count = None
         self.header_partition_size = None
         self.path = path
         self.ama = False
@@ -870,6 +871,9 @@ class MXFFile(object):
                     break
 
                 if key == AUID("060e2b34-0205-0101-0d01-020101050100"):
+                    if self.header_byte_count is not None and self.header_partition_size is None:
+                        # the header byte counts start at the primer
+                        self.header_partition_size = f.tell() + self.header_byte_count
                     self.local_tags = self.read_primer(f, length)
                 elif key == AUID("060e2b34-0205-0101-0d01-020101020400"):
                     self.read_header(f, length)
@@ -915,12 +919,6 @@ class MXFFile(object):
 
         return mobs
 
-    def round_to_kag(self, pos, kag_size):
-        ret = (pos // kag_size) * kag_size
-        if ret == pos:
-            return pos
-        return pos + kag_size
-
 
     def read_header(self, f, length):
         major_version = read_u16be(f)
@@ -936,9 +934,7 @@ class MXFFile(object):
         body_sid = read_u32be(f)
         self.header_operation_pattern = read_auid_be(f)
 
-        self.header_partition_size = (self.round_to_kag(length, kag_size) +
-                                      self.round_to_kag(header_byte_count, kag_size) +
-                                      self.round_to_kag(index_byte_count, kag_size))
+        self.header_byte_count = header_byte_count + index_byte_count
 
     def read_primer(self, f, length):
 
-- 
2.43.0


From 5f95c47ecc8f590e1a56dedf07986fefa76a84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 67/91] fix: sequences of the file and master mobs of linked
 media have length 0

---
 src/aaf2/ama.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 22a6e2f..b8ad4b9 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -447,6 +447,7 @@ def create_media_link(f, path, metadata):
                 to_slot = to_mob.create_empty_sequence_slot(edit_rate=from_slot.edit_rate,
                                                             media_kind=from_clip.media_kind)
                 to_slot.segment.components.append(from_clip)
+                to_slot.segment.length = from_clip.length
 
                 if slot_kind == 'Sound':
                     to_slot['PhysicalTrackNumber'].value = sound_physical_track
-- 
2.43.0


From 302c5b21f08e37f47f4f640221f5cc716b6047df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 68/91] fix: linked media has slots for its first video and
 audio stream only

---
 src/aaf2/ama.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index b8ad4b9..39a72ac 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -119,13 +119,20 @@ class FormatInfo:
             yield StreamInfo(stream)
 
     @property
-    def first_sound_stream(self):
-        return next((stream for stream in self.streams if stream.is_sound), None)
+    def sound_streams(self):
+        return (stream for stream in self.streams if stream.is_sound)
+
+    @property
+    def picture_streams(self):
+        return (stream for stream in self.streams if stream.is_picture)
 
+    @property
+    def first_sound_stream(self):
+        return next(self.sound_streams, None)
 
     @property
     def first_picture_stream(self):
-        return next((stream for stream in self.streams if stream.is_picture), None)
+        return next(self.picture_streams, None)
 
     def create_descriptor(self, f, path):
         if self.metadata['format']['format_name'] in ('wav',):
@@ -415,16 +422,14 @@ def create_media_link(f, path, metadata):
     def tape_mob_for_format(name, format_info):
         tape_mob = f.create.SourceMob()
         tape_mob.name = name
-        picture = format_info.first_picture_stream
-        if picture is not None:
+        for picture in format_info.picture_streams:
             pix_slot = tape_mob.create_picture_slot(edit_rate=picture.edit_rate)
             pix_slot.segment.length = picture.length
             tape_source_clip = f.create.SourceClip(media_kind='picture')
             tape_source_clip.length = picture.length
             pix_slot.segment.components.append(tape_source_clip)
 
-        sound = format_info.first_sound_stream
-        if sound is not None:
+        for sound in format_info.sound_streams:
             for channel in range(sound.physical_track_count):
                 sound_slot = tape_mob.create_sound_slot(edit_rate=sound.edit_rate)
                 sound_slot.segment.length = sound.length
-- 
2.43.0


From a3f4a7fdc068f6f69ec22a51e084ebdb8986c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 69/91] fix: linking a wave or aiff file without a format
 header gives mobs that cannot be saved

---
 src/aaf2/ama.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 39a72ac..c417930 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -183,7 +183,10 @@ class FormatInfo:
         d = f.create.WAVEDescriptor()
         stream = self.first_sound_stream
         d['SampleRate'].value = stream.edit_rate
-        d['Summary'].value = get_wave_fmt(path)
+        summary = get_wave_fmt(path)
+        if summary is None:
+            raise ValueError("no wave format header found: %s" % path)
+        d['Summary'].value = summary
         d['Length'].value = stream.length
         d['ContainerFormat'].value = f.dictionary.lookup_containerdef("AAF")
         d['Locator'].append(create_network_locator(f, path))
@@ -193,7 +196,10 @@ class FormatInfo:
         d = f.create.AIFCDescriptor()
         stream = self.first_sound_stream
         d['SampleRate'].value = stream.edit_rate
-        d['Summary'].value = get_aifc_fmt(path)
+        summary = get_aifc_fmt(path)
+        if summary is None:
+            raise ValueError("no aiff format header found: %s" % path)
+        d['Summary'].value = summary
         d['Length'].value = stream.length
         d['ContainerFormat'].value = f.dictionary.lookup_containerdef("AAF")
         d['Locator'].append(create_network_locator(f, path))
-- 
2.43.0


From 4755bb4b2dea245e5ecf1baa3b4970b033820fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 70/91] fix: sample sizes and data rate of linked PCM audio are
 wrong

---
 src/aaf2/ama.py   | 5 +++--
 src/aaf2/audio.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index c417930..d905d3d 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -282,12 +282,13 @@ class StreamInfo:
         d['AudioSamplingRate'].value = self.edit_rate
 
         d['Channels'].value = self.physical_track_count
-        d['AverageBPS'].value = int(self.metadata['bit_rate'])
+        # bytes per second
+        d['AverageBPS'].value = int(self.metadata['bit_rate']) // 8
 
         bit_depth, block_align = audio.audio_format_sizes.get(self.metadata['sample_fmt'], (0, 0))
 
         d['QuantizationBits'].value = bit_depth
-        d['BlockAlign'].value = block_align
+        d['BlockAlign'].value = block_align * self.physical_track_count
 
         d['Length'].value = self.length
 
diff --git a/src/aaf2/audio.py b/src/aaf2/audio.py
index 62a3d43..f373290 100644
--- a/src/aaf2/audio.py
+++ b/src/aaf2/audio.py
@@ -20,6 +20,7 @@ pcm_profiles = {
 }
 
 audio_format_sizes = {
+'u8'    :  (8,  1),
 's16'   :  (16, 2),
 's32'   :  (32, 4),
 'flt'   :  (32, 4),
-- 
2.43.0


From fee228f9e769083e205944688deaa60f585f4176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 71/91] fix: depth and subsampling of less usual pixel formats
 of linked media are wrong

---
 src/aaf2/ama.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index d905d3d..d878018 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -313,8 +313,17 @@ class StreamInfo:
         elif pix_fmt.count('444'):
             h_samp = 1
             v_samp = 1
+        elif pix_fmt.count('440'):
+            h_samp = 1
+            v_samp = 2
+        elif pix_fmt.count('411'):
+            h_samp = 4
+            v_samp = 1
+        elif pix_fmt.count('410'):
+            h_samp = 4
+            v_samp = 4
 
-        for i in [8, 10, 12, 16]:
+        for i in [8, 9, 10, 12, 14, 16]:
             if pix_fmt.count("p%d" % i):
                 depth = i
                 break
-- 
2.43.0


From 2f7b1ae30e709efb5ce41d616f5b8ba991239142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 72/91] fix: a failed write in the middle of a directory change
 loses directory entries

---
 src/aaf2/cfb.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 7b782d5..90fe83b 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -671,8 +671,6 @@ class DirEntry(object):
             return
 
         self.storage.modified[self.dir_id] = self
-        if len(self.storage.modified) > 128:
-            self.storage.write_modified_dir_entries()
 
     def __lt__(self, other):
         if isinstance(other, DirEntry):
@@ -1525,6 +1523,12 @@ class CompoundFileBinary(object):
             end = start + element_count
             f.write(fat_table_struct.pack(*self.minifat[start:end]))
 
+    def limit_modified(self):
+        # only between changes, the directory tree is incomplete in the
+        # middle of them and would stay so if writing fails
+        if len(self.modified) > 128:
+            self.write_modified_dir_entries()
+
     def write_modified_dir_entries(self):
 
         f = self.f
@@ -1874,6 +1878,7 @@ class CompoundFileBinary(object):
     def create_dir_entry(self, path, dir_type='storage', class_id=None):
 
         self.check_writeable()
+        self.limit_modified()
 
         if self.exists(path):
             raise ValueError("%s already exists" % path)
@@ -1928,6 +1933,7 @@ class CompoundFileBinary(object):
         storage type entries need to be empty dirs.
         """
         self.check_writeable()
+        self.limit_modified()
 
         entry = self.find(path)
 
@@ -2205,6 +2211,7 @@ class CompoundFileBinary(object):
 
         if mode != 'r':
             self.check_writeable()
+            self.limit_modified()
 
         entry = self.find(path)
         if entry is None:
-- 
2.43.0


From eeb76e871112e772e1f08d4ab46da026357c8ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 73/91] fix: a tag can be given no name or no value, the file
 cannot be saved then

---
 src/aaf2/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index a2a16bf..1e71a7e 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -47,6 +47,9 @@ class TaggedValueHelper(object):
         self.p.append(value)
 
     def __setitem__(self, key, value):
+        if key is None or value is None:
+            raise ValueError("tag name and value cannot be None")
+
         tag = self.get(key, None)
         if tag is None:
             # nothing is added if either cannot be stored
-- 
2.43.0


From db136e91ba89ef0b3289276e495ffd78f368c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 74/91] fix: tags set through a map made before the first tag
 are lost

---
 src/aaf2/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 1e71a7e..be309ae 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -21,7 +21,12 @@ CubicInterpolator  = AUID("a04a5439-8a0e-4cb7-975f-a5b255866883")
 
 class TaggedValueHelper(object):
     def __init__(self, poperty_vector):
-        self.p = poperty_vector
+        self._p = poperty_vector
+
+    @property
+    def p(self):
+        # the object can have got the property since
+        return self._p.parent.property_entries.get(self._p.pid, self._p)
 
     def get(self, key, default=None):
         for item in self.p:
-- 
2.43.0


From 3cf40062588f24261fcd91e756c1f2b5096a5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 75/91] fix: listing the mobs a mob depends on never ends when
 the references have a cycle

---
 src/aaf2/mobs.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index c233b08..447b54c 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -159,28 +159,29 @@ class Mob(core.AAFObject):
             Yields all mobs that this mob is dependant on in depth first order.
         """
 
+        entered = set()
         visited = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
-            children_processed = True
+            if mob.mob_id in entered:
+                stack.pop(-1)
+                if mob.mob_id not in visited:
+                    visited.add(mob.mob_id)
+                    if mob is not self:
+                        yield mob
+                continue
 
+            # a mob on the way to itself is not entered again
+            entered.add(mob.mob_id)
             for obj, _ in mob.walk_references(topdown=True):
                 if isinstance(obj, SourceReference):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    if ref_mob.mob_id not in entered:
                         stack.append(ref_mob)
-                        children_processed = False
-
-            if children_processed:
-                stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
-                    if mob is not self:
-                        yield mob
 
     def __repr__(self):
         s = "%s.%s" % (self.__class__.__module__,
-- 
2.43.0


From 8743857bd03c401c995ef38f4674ced653717879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 76/91] fix: reading a stream with a damaged size allocates
 that size

---
 src/aaf2/cfb.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 90fe83b..3e180fe 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -142,6 +142,10 @@ class Stream(object):
         else:
             bytes_to_read = max(0, min(n, byte_size - self.tell()))
 
+        # before anything of a damaged size is allocated
+        if bytes_to_read and byte_size > len(self.fat_chain) * self.sector_size():
+            raise CompoundFileBinaryError("stream %s is larger than its sectors" % self.dir.name)
+
         result = bytearray(bytes_to_read)
         mv = memoryview(result)
 
-- 
2.43.0


From e19b9bc86e86328b3f8d29514683e11010b3c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 77/91] fix: walking a directory tree with a damaged link that
 leads back up does not end

---
 src/aaf2/cfb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 3e180fe..dda0e63 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2030,7 +2030,8 @@ class CompoundFileBinary(object):
             result[current.name] = current
             count += 1
 
-            if count > max_dirs_entries:
+            # an entry belongs to one directory, walking would not end otherwise
+            if count > max_dirs_entries or current.parent is not root:
                 raise CompoundFileBinaryError("corrupt folder structure")
 
             left = current.left()
-- 
2.43.0


From 66ed1639cbc82952853bbe53557e04e369589bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 78/91] fix: an entry of a damaged directory tree replaces
 another one of the same name

---
 src/aaf2/cfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index dda0e63..2513606 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2027,6 +2027,8 @@ class CompoundFileBinary(object):
 
         while stack:
             current = stack.pop()
+            if current.name in result:
+                raise CompoundFileBinaryError("corrupt folder structure")
             result[current.name] = current
             count += 1
 
-- 
2.43.0


From fcfd10a8cb5e737d5345ebb8eaaf75d4ee71f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 79/91] fix: names of storages of properties can be illegal or
 too long

A '/' in the name of a property lost its content, other special
characters are not allowed by the format, and characters outside of the
basic plane count twice.
---
 src/aaf2/utils.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/aaf2/utils.py b/src/aaf2/utils.py
index 6071309..60241e8 100644
--- a/src/aaf2/utils.py
+++ b/src/aaf2/utils.py
@@ -181,26 +181,35 @@ def bytes_from_int(num, length, byte_order='big'):
         raise ValueError('endianness must be "little" or "big"')
 
 
+def utf16_len(name):
+    return len(name.encode('utf-16-le')) // 2
+
 def squeeze_name(name, size):
-    if len(name) <= size:
+    # size is in utf-16 code units, characters are never cut in half
+    if utf16_len(name) <= size:
         return name
 
     half = size//2
-    new_name = ""
-    for i in range(size):
-        if i < half:
-            ch = name[i]
-        elif i == half:
-            ch = '-'
-        else:
-            ch = name[len(name) - (size-i)]
-        new_name += ch
-
-    return new_name
+    head = ""
+    for ch in name:
+        if utf16_len(head + ch) > half:
+            break
+        head += ch
+
+    tail = ""
+    for ch in reversed(name):
+        if utf16_len(ch + tail) > size - half - 1:
+            break
+        tail = ch + tail
+
+    return head + "-" + tail
 
 def mangle_name(name, pid, size):
     p = "%x" % pid
     max_size = size - len(p) - 1 -1
+    # not allowed in the names of storages and streams
+    for ch in '/\\:!':
+        name = name.replace(ch, '_')
     new_name = squeeze_name(name, max_size)
     return "%s-%s" % (new_name, p)
 
-- 
2.43.0


From 18c4eb6b24dde1898c35e983a869c3c2ebaf0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 80/91] fix: entries with characters outside of the basic plane
 are stored in the wrong order

---
 src/aaf2/cfb.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 2513606..e8a4bb7 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -475,6 +475,15 @@ def get_entry_path(root, entry, max_depth):
     return path
 
 
+def name_key(name):
+    """sort key of an entry name, the utf-16 code units count"""
+    upper = name.upper()
+    if len(upper) != len(name):
+        # only characters with a single character as upper case
+        upper = "".join(c.upper() if len(c.upper()) == 1 else c for c in name)
+    data = upper.encode('utf-16-be')
+    return (len(data), data)
+
 class DirEntry(object):
     __slots__ = ('storage', 'dir_id', 'parent', 'data', '_name', '__weakref__')
 
@@ -680,12 +689,8 @@ class DirEntry(object):
         if isinstance(other, DirEntry):
             other = other.name
 
-        if len(self.name) == len(other):
-            # compare not case senstive
-            return self.name.upper() < other.upper()
-        else:
-            # shorter names are always less then
-            return len(self.name) < len(other)
+        # not case senstive, shorter names are always less then
+        return name_key(self.name) < name_key(other)
 
     def __le__(self, other):
         if self == other:
@@ -706,9 +711,7 @@ class DirEntry(object):
 
         if isinstance(other, DirEntry):
             other = other.name
-        if len(self.name) == len(other):
-            return self.name.upper() == other.upper()
-        return False
+        return name_key(self.name) == name_key(other)
 
     def __getitem__(self, index):
         return self.left() if index == 0 else self.right()
-- 
2.43.0


From 54080f442c6c951213f2b7a32dace523b36aa255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 81/91] fix: local numbers of objects in collections are used
 twice

The next number stored in a file was used without a look at the numbers
in use, and after the last one the file could not be saved.
---
 src/aaf2/properties.py | 44 ++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 19fcd2b..1a25c6a 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -474,6 +474,30 @@ class StrongRefProperty(Property):
         self.objectref = weakref.ref(obj)
 
 
+MAX_LOCAL_KEY = 0xffffffff
+
+def free_local_key(prop, used):
+    """local key for the next element of a strong reference vector or set"""
+    if prop.next_free_key <= MAX_LOCAL_KEY:
+        return prop.next_free_key
+
+    # the last one was given away, reuse the ones of removed elements
+    used = set(used)
+    key = 0
+    while key in used:
+        key += 1
+    return key
+
+def take_local_key(prop, used):
+    key = free_local_key(prop, used)
+    if key == prop.next_free_key:
+        prop.next_free_key += 1
+    return key
+
+def check_next_free_key(prop, used):
+    """never give away a local key that is in use"""
+    prop.next_free_key = max([prop.next_free_key] + [key + 1 for key in used])
+
 class StrongRefVectorProperty(Property):
     __slots__ = ('references', 'next_free_key', 'last_free_key','objects', '_index_name')
 
@@ -555,13 +579,15 @@ class StrongRefVectorProperty(Property):
             pack_fmt = str("<%dI" % count)
             self.references = list(struct.unpack(pack_fmt, f.read(4 * count)))
 
+        check_next_free_key(self, self.references)
+
     @writeonly
     def write_index(self):
         s = self.parent.dir.touch(self.index_name + " index").open(mode='rw')
         with BytesIO() as f:
             count = len(self.references)
             write_u32le(f, count)
-            write_u32le(f, self.next_free_key)
+            write_u32le(f, free_local_key(self, self.references))
             write_u32le(f, self.last_free_key)
 
             for local_key in self.references:
@@ -687,7 +713,7 @@ class StrongRefVectorProperty(Property):
             index = max(0, len(self.references) + index)
         index = min(index, len(self.references))
 
-        self.references.insert(index, self.next_free_key)
+        self.references.insert(index, take_local_key(self, self.references))
 
         objects = {}
         objects[index] = value
@@ -698,7 +724,6 @@ class StrongRefVectorProperty(Property):
             else:
                 objects[key] = value
 
-        self.next_free_key += 1
         if self.attached:
             self.objects = weakref.WeakValueDictionary(objects)
         else:
@@ -732,9 +757,8 @@ class StrongRefVectorProperty(Property):
 
         for obj in value:
             i = len(self.references)
-            self.references.append(self.next_free_key)
+            self.references.append(take_local_key(self, self.references))
             self.objects[i] = obj
-            self.next_free_key += 1
 
         self.add_pid_entry()
         self.attach()
@@ -881,13 +905,15 @@ class StrongRefSetProperty(Property):
 
                 self.references[key] = local_key
 
+        check_next_free_key(self, self.references.values())
+
     @writeonly
     def write_index(self):
         s = self.parent.dir.touch(self.index_name + " index").open(mode='rw')
         with BytesIO() as f:
             count = len(self.references)
             write_u32le(f, count)
-            write_u32le(f, self.next_free_key)
+            write_u32le(f, free_local_key(self, self.references.values()))
             write_u32le(f, self.last_free_key)
 
             write_u16le(f, self.key_pid)
@@ -1010,8 +1036,7 @@ class StrongRefSetProperty(Property):
                 current.detach()
 
             if current_local_key is None:
-                self.references[key] = self.next_free_key
-                self.next_free_key += 1
+                self.references[key] = take_local_key(self, self.references.values())
 
             self.objects[key] = item
 
@@ -1545,8 +1570,7 @@ def add2set(self, pid, key, value):
         current.detach()
 
     if current_local_key is None:
-        prop.references[key] = prop.next_free_key
-        prop.next_free_key += 1
+        prop.references[key] = take_local_key(prop, prop.references.values())
 
     prop.objects[key] = value
 
-- 
2.43.0


From 3d9b5fc4f5257efb72547bad9d40678e3edebd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 82/91] fix: types and classes cannot be looked up by a
 standard UUID

---
 src/aaf2/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/utils.py b/src/aaf2/utils.py
index 60241e8..94f5ff5 100644
--- a/src/aaf2/utils.py
+++ b/src/aaf2/utils.py
@@ -6,6 +6,7 @@ from __future__ import (
     )
 
 import sys
+import uuid
 from struct import unpack, pack
 from . import auid
 
@@ -119,6 +120,9 @@ def str2auid(value):
     if value is None:
         return value
 
+    if isinstance(value, uuid.UUID):
+        return auid.AUID(value)
+
     if len(value) < 32:
         return value
 
-- 
2.43.0


From 87fa0ccf1b0980a37dab4d56a4826b446e1cdeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 83/91] fix: updating a dictionary fails if an operation of the
 other one has more parameters

---
 src/aaf2/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 2655eb5..aee151b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -278,4 +278,4 @@ class Dictionary(core.AAFObject):
                     for p in other_def.parameters:
                         param = self.lookup_parameterdef(p.auid)
                         if param.unique_key not in opdef.parameters:
-                            opdef.append(param)
+                            opdef.parameters.append(param)
-- 
2.43.0


From bb8938439d147c5f1c7875cc93ec501fbb15fd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 84/91] fix: full names of definitions are found in their own
 letter case only

---
 src/aaf2/dictionary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index aee151b..c90da0b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -27,6 +27,7 @@ def lookup_def(dictionary, name, instance_type, key):
     if isinstance(name, instance_type):
         return name
 
+    full_name = name.lower()
     name = short_name(name).lower()
 
     for key, value in dictionary[key].items():
@@ -34,6 +35,9 @@ def lookup_def(dictionary, name, instance_type, key):
         if name == value_name.lower():
             return value
 
+        if full_name == (value.name or '').lower():
+            return value
+
     raise Exception("No Definition: %s" % str(name))
 
 @register_class
-- 
2.43.0


From 3e28e3f4bb8e157c0dd0fa10e42f88be5e319af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:55 +0000
Subject: [PATCH 85/91] fix: media kinds and operations with an unknown id are
 accepted, the definition is removed then

---
 src/aaf2/components.py | 6 +++---
 src/aaf2/dictionary.py | 7 ++++++-
 src/aaf2/misc.py       | 3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 004399a..c8613b9 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -8,7 +8,7 @@ from __future__ import (
 from . import core
 from . utils import register_class
 from . mobid import MobID
-from . dictionary import DataDef
+from . dictionary import DataDef, require_def
 from .auid import AUID
 
 
@@ -45,7 +45,7 @@ class Component(core.AAFObject):
 
     @media_kind.setter
     def media_kind(self, value):
-        self.datadef = self.root.dictionary.lookup_datadef(value)
+        self.datadef = require_def(self.root.dictionary.lookup_datadef(value), value)
 
 
 class Segment(Component):
@@ -305,7 +305,7 @@ class OperationGroup(Segment):
 
     def __init__(self, operationdef, length=None, media_kind=None):
         super(OperationGroup, self).__init__(media_kind=media_kind, length=length)
-        self.operation = self.root.dictionary.lookup_operationdef(operationdef)
+        self.operation = require_def(self.root.dictionary.lookup_operationdef(operationdef), operationdef)
 
         if self.media_kind is None:
             self.media_kind = self.operation.media_kind
diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index c90da0b..0902d33 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -40,6 +40,11 @@ def lookup_def(dictionary, name, instance_type, key):
 
     raise Exception("No Definition: %s" % str(name))
 
+def require_def(definition, name):
+    if definition is None:
+        raise ValueError("No Definition: %s" % str(name))
+    return definition
+
 @register_class
 class DefinitionObject(core.AAFObject):
     class_id = AUID("0d010101-0101-1a00-060e-2b3402060101")
@@ -130,7 +135,7 @@ class OperationDef(DefinitionObject):
 
     @media_kind.setter
     def media_kind(self, value):
-        self.datadef = self.root.dictionary.lookup_datadef(value)
+        self.datadef = require_def(self.root.dictionary.lookup_datadef(value), value)
 
     @property
     def parameters(self):
diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index be309ae..8a047e5 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -10,6 +10,7 @@ import io
 from . import core
 from . utils import register_class
 from .auid import AUID
+from .dictionary import require_def
 from .rational import AAFRational
 from .interpolation import integrate_iter, lerp, cubic_interpolate, bezier_interpolate
 
@@ -215,7 +216,7 @@ class VaryingValue(Parameter):
             self.parameterdef = self.root.dictionary.lookup_parameterdef(parameterdef)
 
         if interperlationdef:
-            self.interpolationdef = self.root.dictionary.lookup_interperlationdef(interperlationdef)
+            self.interpolationdef = require_def(self.root.dictionary.lookup_interperlationdef(interperlationdef), interperlationdef)
 
     @property
     def interpolationdef(self):
-- 
2.43.0


From 61fa6659951e3f84a18e4622355cdb10dc3f1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 86/91] fix: a definition without a name is found by an empty
 name

---
 src/aaf2/dictionary.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 0902d33..97788d7 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -31,11 +31,14 @@ def lookup_def(dictionary, name, instance_type, key):
     name = short_name(name).lower()
 
     for key, value in dictionary[key].items():
-        value_name = value.short_name or ''
-        if name == value_name.lower():
+        value_name = value.name
+        if not value_name:
+            continue
+
+        if name and name == short_name(value_name).lower():
             return value
 
-        if full_name == (value.name or '').lower():
+        if full_name == value_name.lower():
             return value
 
     raise Exception("No Definition: %s" % str(name))
-- 
2.43.0


From db6c2b774cf979a777bf6707ee18c2cd2d12dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 87/91] fix: changing a member's id through the collection is
 not stored with the member

---
 src/aaf2/properties.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 1a25c6a..a302fe3 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -992,6 +992,7 @@ class StrongRefSetProperty(Property):
         self.objects[new_key] = obj
 
         obj.unique_property.data = new_key.bytes_le
+        obj.unique_property.mark_modified()
 
     def check_values(self, values, members=()):
         """raise unless all values could be added to a set holding members"""
-- 
2.43.0


From 29c5600bac1b2a868eba6d2cc9f842ff49db2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 88/91] fix: property data of more than 65535 bytes is
 accepted, the file cannot be saved then

---
 src/aaf2/misc.py       |  3 +--
 src/aaf2/properties.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 8a047e5..34093f3 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -247,8 +247,7 @@ class VaryingValue(Parameter):
         cp = self.root.create.ControlPoint()
         cp.time = time
 
-        cp['Value'].add_pid_entry()
-        cp['Value'].data = cp['Value'].typedef.encode(value, self.typedef)
+        cp['Value'].set_data(cp['Value'].typedef.encode(value, self.typedef))
         cp['Value'].mark_modified()
 
         if edit_hint:
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a302fe3..99ba363 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -54,6 +54,8 @@ ESSENCEDATA_MOBID_AUID = AUID("06010106-0100-0000-060e-2b3401010102")
 PARAMETER_DEFINITION_AUID = AUID("06010104-0104-0000-060e-2b3401010102")
 
 PROPERTY_VERSION=32
+# sizes are stored in two bytes
+MAX_PROPERTY_SIZE=0xFFFF
 sentinel = object()
 
 
@@ -186,12 +188,17 @@ class Property(object):
             else:
                 raise AAFPropertyError("cannot change unique property value of attached object")
 
-        self.data = self.typedef.encode(value)
+        self.data = self.check_size(self.typedef.encode(value))
         self.add_pid_entry()
 
+    def check_size(self, data):
+        if len(data) > MAX_PROPERTY_SIZE:
+            raise AAFPropertyError("property data too large: %d bytes" % len(data))
+        return data
+
     @writeonly
     def set_data(self, data):
-        self.data = data
+        self.data = self.check_size(data)
         self.add_pid_entry()
 
     def add_pid_entry(self):
-- 
2.43.0


From c70b7e89da632c5dcaf40f5539a70b668edf16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 89/91] fix: assigning the parameters of an operation group
 raises TypeError

---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index c8613b9..fa795db 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -324,7 +324,7 @@ class OperationGroup(Segment):
 
     @parameters.setter
     def parameters(self, value):
-        self['Parameters'] = value
+        self['Parameters'].value = value
 
     @property
     def segments(self):
-- 
2.43.0


From aa23a7157522c40f2a55e53e27a6ba648b68e50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 90/91] fix: an operation group of a sound operation is a
 picture one unless told

---
 src/aaf2/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index fa795db..c0a1a69 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -307,8 +307,8 @@ class OperationGroup(Segment):
         super(OperationGroup, self).__init__(media_kind=media_kind, length=length)
         self.operation = require_def(self.root.dictionary.lookup_operationdef(operationdef), operationdef)
 
-        if self.media_kind is None:
-            self.media_kind = self.operation.media_kind
+        if media_kind is None and self.operation.media_kind is not None:
+            self.datadef = self.operation.datadef
 
     @property
     def operation(self):
-- 
2.43.0


From e4f1a02ccb991f6a9f373153a147fa2656a27983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 91/91] fix: objects cannot be created with a name given by
 keyword

---
 src/aaf2/file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 3aebdab..f38abf9 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -38,15 +38,15 @@ class AAFFactory(object):
         # the arguments of the call may create objects as well
         return partial(self.from_name, name)
 
-    def from_name(self, name, *args, **kwargs):
-        classdef = self.root.metadict.lookup_classdef(name)
+    def from_name(self, class_name, *args, **kwargs):
+        classdef = self.root.metadict.lookup_classdef(class_name)
         if classdef is None:
-            raise ValueError("no class found with name: %s" % name)
+            raise ValueError("no class found with name: %s" % class_name)
 
         if not classdef.concrete:
-            raise ValueError("cannot initialize abstract class: %s" % name)
+            raise ValueError("cannot initialize abstract class: %s" % class_name)
 
-        classobj = self.root.metadict.lookup_class(name)
+        classobj = self.root.metadict.lookup_class(class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
-- 
2.43.0

