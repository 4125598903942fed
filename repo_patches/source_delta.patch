From b26df2612e89d84743b139b86a11eb5f876d5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 01/41] fix: keep the links of the free list when an index is
 rehashed

---
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 55a4517..4479f57 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -275,6 +275,10 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
                 entry = oldNexts[entry]; // the next entry in the old list
             }
         }
+        // carry over the links of the free list
+        for(int entry = freeList; entry != -1; entry = oldNexts[entry]) {
+            nexts[entry] = oldNexts[entry];
+        }
         modificationCount++;
     }
 
-- 
2.43.0


From e6217084fcefbfb13e958af631f572e84384e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 02/41] fix: copy the hash and equality functions in copyFrom

---
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 4479f57..e030eac 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -26,7 +26,9 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
 
     protected void copyFrom(final Base${type.name}Index${generics} source) {
         super.copyFrom(source);
-        
+        hashFunc = source.hashFunc;
+        equalFunc = source.equalFunc;
+
         // keys array should be big enough
         if(keys.length < source.keys.length ) {
             keys = ${type.name}Array.create(source.keys.length);
-- 
2.43.0


From 36e22453499af978f383a46c287af3794f1ef432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 03/41] fix: reset the key of an entry removed through the
 iterator

---
 .../java/com/bytefacets/collections/hash/BaseHash.java     | 7 +++----
 .../com/bytefacets/collections/hash/BaseKeyIndex.ftl       | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 3fb6e77..52e9b4e 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -114,6 +114,8 @@ abstract class BaseHash {
         }
     }
 
+    public abstract void freeReservedEntry(int entry);
+
     protected abstract void removeValue(int entry);
 
     protected abstract void growValues(int size);
@@ -254,11 +256,8 @@ abstract class BaseHash {
             }
 
             // released entry becomes head of free list
-            nexts[entry] = freeList;
-            freeList = entry;
+            freeReservedEntry(entry);
             size--;
-
-            removeValue(entry);
             isRemoved = true;
 
             internalModCount++;
diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index e030eac..060c6bb 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -141,6 +141,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      * whether or not you first reserved the entry. Calling this with active entries can corrupt
      * the collection.
      */
+    @Override
     public void freeReservedEntry(final int entry) {
         nexts[entry] = freeList;
         freeList = entry;
-- 
2.43.0


From d0b54fb5f7435db67d23ed678160d49b428aaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 04/41] fix: clear keys and values of reserved entries when no
 keys are left

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index 52e9b4e..f7f9271 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -72,7 +72,7 @@ abstract class BaseHash {
     }
 
     public void clear() {
-        if (size > 0) {
+        if (nextUnusedEntry > 0) {
             int lim;
 
             lim = Math.min(heads.length, maxHead + 1);
-- 
2.43.0


From 78b9b5892753c5226de956b13ca9480e1086b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 05/41] fix: clear counts as a modification for iterators

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index f7f9271..dacf3ff 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -85,7 +85,7 @@ abstract class BaseHash {
             clearValues();
             size = 0;
         }
-        modificationCount = 0;
+        modificationCount++;
         nextUnusedEntry = 0;
         freeList = -1;
         maxHead = 0;
-- 
2.43.0


From a00e8604ca63898c7b05d1574467841741ab7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 06/41] fix: reject NaN as a load factor

---
 .../src/main/java/com/bytefacets/collections/hash/BaseHash.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
index dacf3ff..c56eb6d 100644
--- a/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
+++ b/collections/src/main/java/com/bytefacets/collections/hash/BaseHash.java
@@ -31,7 +31,7 @@ abstract class BaseHash {
         if (initialCapacity <= 0 || initialCapacity > MAX_CAPACITY) {
             throw new IllegalArgumentException("Invalid initialCapacity: " + initialCapacity);
         }
-        if (loadFactor <= 0 || loadFactor > 1) {
+        if (!(loadFactor > 0 && loadFactor <= 1)) {
             throw new IllegalArgumentException("Invalid loadFactor: " + loadFactor);
         }
 
-- 
2.43.0


From e03ab878c01143a063d18704a08447ea0bd2c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 07/41] fix: removeAt throws IndexOutOfBoundsException for
 negative entries as documented

---
 .../templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 060c6bb..399926d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -102,7 +102,7 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      */
     @Override
     public void removeAt(final int entry) {
-        final int head = getHead(entry);
+        final int head = getHead(nexts[entry]);
         int prev = -1;
         for(int e = heads[head]; e >= 0; prev = e, e = nexts[e]) {
             if(e != entry) {
-- 
2.43.0


From f000097133ec5176c0c5462cd4237aff30960b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 08/41] fix: size the entry links of a Side for every inserted
 entry

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 3f542f0..2fe1d72 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -35,9 +35,9 @@ public final class Side {
 
     void insertEntry(final int key, final int entry) {
         ensureKey(key);
+        ensureEntry(entry);
         final int oldHead = heads[key];
         if (oldHead != UNSET) {
-            ensureEntry(entry);
             nexts[entry] = oldHead; // prepend
             prevs[oldHead] = entry;
         }
-- 
2.43.0


From f6c56c3626281b348b66fbe600271b4b0c9a95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 09/41] fix: unknown keys have no values and a zero count in a
 Mapping

---
 .../src/main/java/com/bytefacets/collections/bi/Side.java | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/Side.java b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
index 2fe1d72..e7def46 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/Side.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/Side.java
@@ -30,7 +30,7 @@ public final class Side {
         if (count == null) {
             throw new IllegalStateException("Counts are not tracked in this collection");
         }
-        return key < count.length ? count[key] : 0;
+        return key >= 0 && key < count.length ? count[key] : 0;
     }
 
     void insertEntry(final int key, final int entry) {
@@ -131,7 +131,11 @@ public final class Side {
         }
 
         public void reset() {
-            this.entry = heads[key];
+            if (key >= 0 && key < heads.length) {
+                this.entry = heads[key];
+            } else {
+                this.entry = UNSET;
+            }
         }
 
         @Override
-- 
2.43.0


From 5230b1d75f4e50a399961b3e5a5bdcc2ce7c4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 10/41] fix: removeAt of an inactive association entry changes
 nothing

---
 .../com/bytefacets/collections/bi/CompactOneToMany.java     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 4988ef5..7d7f389 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -72,13 +72,17 @@ public class CompactOneToMany {
     }
 
     /**
-     * Removes the association at the given entry.
+     * Removes the association at the given entry and returns the entry. If there is no association
+     * at the entry, it's a no-op and -1 is returned.
      *
      * @throws IndexOutOfBoundsException if entry is out of bounds on the underlying association
      *     array
      */
     public int removeAt(final int entry) {
         final long key = mappings.getKeyAt(entry);
+        if (mappings.lookupEntry(key) != entry) {
+            return -1;
+        }
         removeLeft(Pack.unpackHiInt(key), entry);
         removeRight(Pack.unpackLoInt(key), entry);
         mappings.removeAt(entry);
-- 
2.43.0


From 06ae2eaa7901976fbe9c95d2824fd840d60a27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 11/41] fix: entries never issued by a heap are not valid
 entries

---
 .../main/java/com/bytefacets/collections/heap/BaseHeap.java   | 4 ++--
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index da46966..d34bfa1 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -17,7 +17,7 @@ abstract class BaseHeap {
 
     protected BaseHeap(final int initialCapacity) {
         tree = IntArray.create(initialCapacity);
-        inverse = IntArray.create(initialCapacity);
+        inverse = IntArray.create(initialCapacity, -1);
     }
 
     public int peek() {
@@ -53,7 +53,7 @@ abstract class BaseHeap {
 
     protected void growHeap(final int capacity) {
         tree = IntArray.copyOf(tree, capacity);
-        inverse = IntArray.copyOf(inverse, capacity);
+        inverse = IntArray.copyOf(inverse, capacity, -1);
     }
 
     protected int calculateNewCapacity() {
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index de2fcf6..46a0727 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -73,7 +73,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     /** Clears the contents of the heap. */
     public void clear() {
         IntArray.fill(tree, IntType.DEFAULT);
-        IntArray.fill(inverse, IntType.DEFAULT);
+        IntArray.fill(inverse, -1);
         ${type.name}Array.fill(keys, defaultKey, 0, size);
         clearValues();
         freeCount = 0;
-- 
2.43.0


From ecca0712bff8c7f6475a367e3ff0b84bcc7073dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 12/41] fix: forEachEntry of a heap reaches entries above its
 size

---
 .../src/main/java/com/bytefacets/collections/heap/BaseHeap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index d34bfa1..6cbfb4b 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -40,7 +40,7 @@ abstract class BaseHeap {
     }
 
     public void forEachEntry(final IntConsumer entryConsumer) {
-        for (int entry = 0; entry < size; entry++) {
+        for (int entry = 0, len = size + freeCount; entry < len; entry++) {
             if (isValidEntry(entry)) {
                 entryConsumer.accept(entry);
             }
-- 
2.43.0


From 86ff4d7ac0da4a6750a8a1d5f938f3c9021c4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 13/41] fix: clear resets the keys and values of all heap
 entries

---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 46a0727..60551fb 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -74,7 +74,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     public void clear() {
         IntArray.fill(tree, IntType.DEFAULT);
         IntArray.fill(inverse, -1);
-        ${type.name}Array.fill(keys, defaultKey, 0, size);
+        ${type.name}Array.fill(keys, defaultKey);
         clearValues();
         freeCount = 0;
         size = 0;
diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index 35be3a9..6554e1b 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -91,6 +91,6 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
 
     @Override
     protected void clearValues() {
-        ${value.name}Array.fill(values, defaultValue, 0, size);
+        ${value.name}Array.fill(values, defaultValue);
     }
 }
-- 
2.43.0


From cf0b17a3e3711b6e3cc93d58bbed44c9663d94d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 14/41] fix: negative entries are not valid entries of a heap

---
 .../main/java/com/bytefacets/collections/heap/BaseHeap.java  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index 6cbfb4b..e5402ff 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -48,7 +48,10 @@ abstract class BaseHeap {
     }
 
     public boolean isValidEntry(final int entry) {
-        return (entry < inverse.length && inverse[entry] >= 0 && inverse[entry] < size);
+        return (entry >= 0
+                && entry < inverse.length
+                && inverse[entry] >= 0
+                && inverse[entry] < size);
     }
 
     protected void growHeap(final int capacity) {
-- 
2.43.0


From 9f3d7cde82bd05f878050893e4f01ad87fe96baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 15/41] fix: a heap created with no capacity can grow

---
 .../src/main/java/com/bytefacets/collections/heap/BaseHeap.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
index e5402ff..452e645 100755
--- a/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
+++ b/collections/src/main/java/com/bytefacets/collections/heap/BaseHeap.java
@@ -66,7 +66,7 @@ abstract class BaseHeap {
         }
 
         // come up with a new capacity according to the policy
-        final int newCapacity = capacity << 1; // e.g. double
+        final int newCapacity = Math.max(1, capacity << 1); // e.g. double
 
         if (newCapacity <= capacity) { // less-than in case of overflow
             throw cannotResize(getClass(), "int[]", capacity, capacity + 1);
-- 
2.43.0


From e530fc41f3fa8242b3312127850bd14ec8d50ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 16/41] fix: setDefaultValue throws the documented
 UnsupportedOperationException

---
 .../templates/com/bytefacets/collections/heap/KeyValueHeap.ftl  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
index 6554e1b..c66fed6 100755
--- a/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/KeyValueHeap.ftl
@@ -37,7 +37,7 @@ public class ${key.name}${value.name}Heap${generics} extends Base${key.name}Heap
      */
     public void setDefaultValue(final ${value.javaType} defaultValue) {
         if(size > 0) {
-            throw new RuntimeException("SetDefaultValue("+defaultValue+"): collection is not empty ("+getSize()+")" );
+            throw new UnsupportedOperationException("SetDefaultValue("+defaultValue+"): collection is not empty ("+getSize()+")" );
         }
         if(!${value.name}Type.EqImpl.areEqual(this.defaultValue, defaultValue)) {
             this.defaultValue = defaultValue;
-- 
2.43.0


From f8ad646edaa6325eeb8954bb1d05b72b64b1e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 17/41] fix: report the right numbers when a removed heap entry
 does not exist

---
 .../templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 60551fb..37f578e 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -108,7 +108,7 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         if(node == -1 || node >= size) {
             throw new InvalidEntryException(
                 String.format("Tried to remove entry that does not exist: entry=%d, node=%d, size=%d",
-                              size, entry, node, size));
+                              entry, node, size));
         }
 
         keys[entry] = defaultKey;
-- 
2.43.0


From 182e5f5bad4faf26a4e8b4291d2ab713510e8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 18/41] fix: derive the chunk mask from the rounded chunk size

---
 .../com/bytefacets/collections/store/KeyChunkMatrixStore.ftl    | 2 +-
 .../com/bytefacets/collections/store/KeyChunkStore.ftl          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 2c10cc9..54a8dfd 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -36,7 +36,7 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public ${type.name}ChunkMatrixStore(final int initialSize, final int chunkSize, final int numFields) {
         assertValidConfig(initialSize, chunkSize, numFields);
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
         final int rawSize = initialSize * numFields;
diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
index dc18933..1f585f7 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkStore.ftl
@@ -24,7 +24,7 @@ public final class ${type.name}ChunkStore${generics} implements ${type.name}Stor
 
     public ${type.name}ChunkStore(final int initialSize, final int chunkSize) {
         this.chunkSize = NumUtils.nextPowerOf2(chunkSize);
-        this.chunkMask = chunkSize - 1;
+        this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         final int requiredChunks = (int) Math.ceil((double)initialSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-- 
2.43.0


From cd6abfa08b501eb6dcfc414d4694f4fc545ecdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 19/41] fix: refuse rows of a matrix store which cannot be
 addressed

---
 .../collections/store/KeyChunkMatrixStore.ftl | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
index 54a8dfd..247f503 100644
--- a/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/store/KeyChunkMatrixStore.ftl
@@ -11,6 +11,8 @@ import com.bytefacets.collections.types.${type.name}Type;
 
 import java.util.Arrays;
 
+import static com.bytefacets.collections.exception.ResizeException.cannotResize;
+
 /**
  * A matrix store for ${type.javaType} values which are stored in array "chunks". Using chunks is
  * especially beneficial for resizing because only new chunks need to be allocated and the
@@ -39,10 +41,10 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         this.chunkMask = this.chunkSize - 1;
         this.shift = Long.numberOfTrailingZeros(this.chunkSize);
         this.numFields = numFields;
-        final int rawSize = initialSize * numFields;
+        final long rawSize = (long) initialSize * numFields;
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)this.chunkSize);
         this.chunks = new ${type.arrayType}[requiredChunks][this.chunkSize];
-        this.capacity = (chunks.length * this.chunkSize) / numFields;
+        this.capacity = (int) (((long) chunks.length * this.chunkSize) / numFields);
     }
 
     private void assertValidConfig(final int initialSize, final int chunkSize, final int numFields) {
@@ -67,6 +69,9 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
         if(row >= capacity) {
             return ${type.cast}${type.name}Type.DEFAULT;
         }
+        if(row < 0) {
+            throw new IndexOutOfBoundsException("Invalid row: " + row);
+        }
         final int absoluteIx = (row * numFields) + field;
         final int offset = absoluteIx & chunkMask;
         final int chunk = absoluteIx >> shift;
@@ -82,7 +87,10 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     public void set${type.name}(final int row, final int field, final ${type.javaType} value) {
         RangeCheckException.assertWithinRange(0, numFields - 1, field, "field");
         if(row >= capacity) {
-            grow(row+1);
+            grow(row);
+        }
+        if(row < 0) {
+            throw new IndexOutOfBoundsException("Invalid row: " + row);
         }
         final int absoluteIx = (row * numFields) + field;
         final int offset = absoluteIx & chunkMask;
@@ -101,13 +109,16 @@ public final class ${type.name}ChunkMatrixStore${generics} implements ${type.nam
     }
 
     private void grow(final int row) {
-        final int rawSize = row * numFields;
+        final long rawSize = (row + 1L) * numFields;
+        if(rawSize > Integer.MAX_VALUE) {
+            throw cannotResize(getClass(), "${type.arrayType}[][]", capacity, row);
+        }
         final int requiredChunks = (int) Math.ceil((double)rawSize / (double)chunkSize);
         final int oldLen = chunks.length;
         this.chunks = Arrays.copyOf(chunks, requiredChunks);
         for(int i = oldLen; i < chunks.length; i++) {
             chunks[i] = ${type.name}Array.create(chunkSize);
         }
-        this.capacity = (chunks.length * chunkSize) / numFields;
+        this.capacity = (int) (((long) chunks.length * chunkSize) / numFields);
     }
 }
-- 
2.43.0


From 802531c83092605d38da645c06639d8acba58c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 20/41] fix: growing an array beyond 2^30 elements does not
 loop forever

---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 66c14fc..0879c66 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -143,6 +143,9 @@ public final class ${type.name}Array {
         }
         while(newLength < necessarySize) {
             newLength <<= 1;
+            if(newLength <= 0) { // doubling overflowed
+                return necessarySize;
+            }
         }
         return newLength;
     }
-- 
2.43.0


From f6b26f68ed5c5250c199c02e48a61e67fe3e7dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 21/41] fix: resize keeps the component type of a generic array

---
 .../templates/com/bytefacets/collections/arrays/KeyArray.ftl  | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
index 0879c66..b2127f2 100644
--- a/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/arrays/KeyArray.ftl
@@ -56,9 +56,7 @@ public final class ${type.name}Array {
 </#if>
     /** Resizes the given array to the new size. There are no bounds checks. */
     public static ${generics} ${type.javaType}[] resize(final ${type.javaType}[] array, final int newSize) {
-        final ${type.javaType}[] dest = create(newSize);
-        System.arraycopy(array, 0, dest, 0, Math.min(array.length, newSize));
-        return dest;
+        return Arrays.copyOf(array, newSize);
     }
 
     /** Fills the section of the array with the given value. There are no bounds checks. */
-- 
2.43.0


From 23910c7767c541abf8f716d09ebbe562895d8c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 22/41] fix: clear of a hydra deque makes all entries available
 again

---
 .../templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index cedf239..d058b9d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -191,6 +191,7 @@ public final class ${type.name}HydraDeque${generics} {
         IntArray.fill(count, 0);
         ${type.name}Array.fill(values, ${type.name}Type.DEFAULT);
         freeList = -1;
+        maxEntry = -1;
         size = 0;
     }
 
-- 
2.43.0


From 3e11106a3fd70f13fb2325bc94992c123bc700cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 23/41] fix: iterating a negative list id of a hydra deque
 yields nothing

---
 .../com/bytefacets/collections/queue/KeyHydraDeque.ftl        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
index d058b9d..f9d9f79 100644
--- a/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/queue/KeyHydraDeque.ftl
@@ -244,7 +244,7 @@ public final class ${type.name}HydraDeque${generics} {
     private class ForwardIterator${generics} implements ${type.name}Iterator${generics} {
         private int entry;
         private void reset(final int listId) {
-            this.entry = listId >= heads.length ? -1 : heads[listId];
+            this.entry = listId < 0 || listId >= heads.length ? -1 : heads[listId];
         }
         @Override
         public ${type.javaType} next() {
@@ -265,7 +265,7 @@ public final class ${type.name}HydraDeque${generics} {
     private class ReverseIterator${generics} implements ${type.name}Iterator${generics} {
         private int entry;
         private void reset(final int listId) {
-            this.entry = listId >= tails.length ? -1 : tails[listId];
+            this.entry = listId < 0 || listId >= tails.length ? -1 : tails[listId];
         }
         @Override
         public ${type.javaType} next() {
-- 
2.43.0


From c25cf559a8a0a686bd6f2d2ebe82ec81b5402395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 24/41] fix: int comparators do not overflow

---
 .../java/com/bytefacets/collections/types/IntType.java | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/IntType.java b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
index 5e155d6..a279782 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/IntType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/IntType.java
@@ -21,10 +21,12 @@ public final class IntType {
         int compare(int a, int b);
     }
 
-    public static final Cmp Asc = (a, b) -> a - b;
-    public static final Cmp Desc = (a, b) -> b - a;
-    public static final Cmp AbsAsc = (a, b) -> Math.abs(a) - Math.abs(b);
-    public static final Cmp AbsDesc = (a, b) -> Math.abs(b) - Math.abs(a);
+    public static final Cmp Asc = Integer::compare;
+    public static final Cmp Desc = (a, b) -> Integer.compare(b, a);
+    public static final Cmp AbsAsc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Integer.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From 303a833b70f389886852c6f116acb13454f37180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 25/41] fix: compare the magnitude of Long.MIN_VALUE correctly

---
 .../java/com/bytefacets/collections/types/LongType.java     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/LongType.java b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
index 8bb56e7..34d50cd 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/LongType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/LongType.java
@@ -19,8 +19,10 @@ public final class LongType {
 
     public static final Cmp Asc = Long::compare;
     public static final Cmp Desc = (a, b) -> Long.compare(b, a);
-    public static final Cmp AbsAsc = (a, b) -> Long.compare(Math.abs(a), Math.abs(b));
-    public static final Cmp AbsDesc = (a, b) -> Long.compare(Math.abs(b), Math.abs(a));
+    public static final Cmp AbsAsc =
+            (a, b) -> Long.compareUnsigned(Math.abs(a), Math.abs(b));
+    public static final Cmp AbsDesc =
+            (a, b) -> Long.compareUnsigned(Math.abs(b), Math.abs(a));
 
     public static Cmp comparatorFor(final CompareMethod method) {
         return switch (method) {
-- 
2.43.0


From 288489e2a1c938e23c4ae1ace52ae65d6e9c3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 26/41] fix: double comparators order NaN

---
 .../java/com/bytefacets/collections/types/DoubleType.java     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index bfa5c45..8be0e2c 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -18,8 +18,8 @@ public final class DoubleType {
         int compare(double a, double b);
     }
 
-    public static final Cmp Asc = (a, b) -> (int) Math.signum(a - b);
-    public static final Cmp Desc = (a, b) -> (int) Math.signum(b - a);
+    public static final Cmp Asc = Double::compare;
+    public static final Cmp Desc = (a, b) -> Double.compare(b, a);
     public static final Cmp AbsAsc = (a, b) -> Asc.compare(Math.abs(a), Math.abs(b));
     public static final Cmp AbsDesc = (a, b) -> Desc.compare(Math.abs(a), Math.abs(b));
 
-- 
2.43.0


From 7e8e824a89e7d68aaf45c3c0add91d0adeb34d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 27/41] fix: object comparators accept null on either side

---
 .../java/com/bytefacets/collections/types/GenericType.java     | 3 +++
 .../main/java/com/bytefacets/collections/types/StringType.java | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
index d711da1..58cba2e 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/GenericType.java
@@ -34,6 +34,9 @@ public final class GenericType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         final Comparable aCmp = (Comparable) a;
         return aCmp.compareTo(b);
     }
diff --git a/collections/src/main/java/com/bytefacets/collections/types/StringType.java b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
index 618619a..23740db 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/StringType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/StringType.java
@@ -40,6 +40,9 @@ public final class StringType {
         if (a == null) {
             return 1;
         }
+        if (b == null) {
+            return -1;
+        }
         return method.compare(a, b);
     }
 
-- 
2.43.0


From 7132d2a7e90249f311e687c68dac1cf046b8349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 28/41] fix: CharType.convert accepts a Character

---
 .../main/java/com/bytefacets/collections/types/CharType.java   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/CharType.java b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
index 32f8ba7..f4c3fa3 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/CharType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/CharType.java
@@ -88,6 +88,9 @@ public final class CharType {
             return DEFAULT;
         }
         final Class<?> type = value.getClass();
+        if (Character.class.isAssignableFrom(type)) {
+            return (Character) value;
+        }
         if (Number.class.isAssignableFrom(type)) {
             return (char) ((Number) value).intValue();
         }
-- 
2.43.0


From 0f851f090b5b90a5977af4d1e2ad40eea9ece84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 29/41] fix: wait for a later millisecond even if the clock
 runs backwards

---
 .../src/main/java/com/bytefacets/collections/id/Snowflake.java  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index 1cf6cc7..f5fe850 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -94,7 +94,7 @@ public final class Snowflake {
     // Block and wait till next millisecond
     private long waitNextMillis(final long currentTimestamp) {
         long nextTimestamp = currentTimestamp;
-        while (nextTimestamp == lastTimestamp) {
+        while (nextTimestamp <= lastTimestamp) {
             nextTimestamp = timestamp();
         }
         return nextTimestamp;
-- 
2.43.0


From 90c9465a4be6a6a12debd952f408e8703a29f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 30/41] fix: keep the sequence when the clock fails while
 waiting

---
 .../main/java/com/bytefacets/collections/id/Snowflake.java   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
index f5fe850..9e4887d 100644
--- a/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
+++ b/collections/src/main/java/com/bytefacets/collections/id/Snowflake.java
@@ -66,11 +66,12 @@ public final class Snowflake {
         }
 
         if (currentTimestamp == lastTimestamp) {
-            sequence = (sequence + 1) & maxSequence;
-            if (sequence == 0) {
+            final long nextSequence = (sequence + 1) & maxSequence;
+            if (nextSequence == 0) {
                 // Sequence Exhausted, wait till next millisecond.
                 currentTimestamp = waitNextMillis(currentTimestamp);
             }
+            sequence = nextSequence;
         } else {
             // reset sequence to start with zero for the next millisecond
             sequence = 0;
-- 
2.43.0


From e05189402ff682828a2bbdf9b5226204d00cd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 31/41] fix: reject sort ranges whose end overflows

---
 .../bytefacets/collections/sort/KeyValueCompanionSort.ftl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index db0f7bc..4656885 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -17,14 +17,14 @@ public final class ${key.name}${value.name}CompanionSort {
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
         // Insertion sort on smallest arrays
-        if( off + len > pri.length )
+        if( off < 0 || len < 0 )
+            throw new IllegalArgumentException("offset or len is negative: offset="+off+" len="+len);
+        if( off > pri.length - len )
             throw new IllegalArgumentException(
                 "offset+len > primary.length: offset="+off+" len="+len+" array.length="+pri.length);
-        if( off + len > sec.length )
+        if( off > sec.length - len )
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
-        if( off < 0 || len < 0 )
-            throw new IllegalArgumentException("offset or len is negative: offset="+off+" len="+len);
 
 
         if( len < 7 ) {
-- 
2.43.0


From 8fa11773f38776628ca9b14b7c859221acc775f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 32/41] fix: companion sort overflowed the stack on orders with
 bad pivots

The recursion went as deep as the number of partitions, so an ascending
sort of a crafted int array of 50000 elements threw StackOverflowError.
Recurse into the smaller part only and carry on with the larger one.
---
 .../sort/KeyValueCompanionSort.ftl            | 101 +++++++++---------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
index 4656885..090669d 100644
--- a/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/sort/KeyValueCompanionSort.ftl
@@ -16,7 +16,6 @@ public final class ${key.name}${value.name}CompanionSort {
      * Sun's JDK QuickSort implementation with two arrays.
      */
     public static void sort(${key.arrayType}[] pri, ${value.arrayType}[] sec, int off, int len, ${key.name}Type.Cmp cmp) {
-        // Insertion sort on smallest arrays
         if( off < 0 || len < 0 )
             throw new IllegalArgumentException("offset or len is negative: offset="+off+" len="+len);
         if( off > pri.length - len )
@@ -26,62 +25,68 @@ public final class ${key.name}${value.name}CompanionSort {
             throw new IllegalArgumentException(
                 "offset+len > secondary.length: offset="+off+" len="+len+" array.length="+sec.length);
 
+        // Quicksort until the range is small enough for the insertion sort below
+        while( len >= 7 ) {
+            // Choose a partition element, v
+            int m = off + ( len >> 1 ); // Small arrays, middle element
+            if( len > 7 ) {
+                int l = off;
+                int n = off + len - 1;
+                if( len > 40 ) {
+                    // Big arrays, pseudomedian of 9
+                    int s = len / 8;
+                    l = med3( pri, l, l + s, l + 2 * s, cmp );
+                    m = med3( pri, m - s, m, m + s , cmp);
+                    n = med3( pri, n - 2 * s, n - s, n , cmp );
+                }
+                m = med3( pri, l, m, n , cmp); // Mid-size, med of 3
+            }
+            ${key.arrayType} v = pri[ m ];
 
-        if( len < 7 ) {
-            for( int i = off; i < len + off; i++ ) {
-                for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
-                    swap( pri, sec, j, j - 1 );
+            // Establish Invariant: v* (<v)* (>v)* v*
+            int a = off, b = a, c = off + len - 1, d = c;
+            while( true ) {
+                while( b <= c && cmp.compare( pri[ b ], v ) <= 0 ) {
+                    if( cmp.compare( pri[ b ], v ) == 0 )
+                        swap( pri, sec, a++, b );
+                    b++;
                 }
+                while( c >= b && cmp.compare( pri[ c ], v ) >= 0 ) {
+                    if( cmp.compare( pri[ c ], v ) == 0 )
+                        swap( pri, sec, c, d-- );
+                    c--;
+                }
+                if( b > c )
+                    break;
+                swap( pri, sec, b++, c-- );
             }
-            return;
-        }
 
-        // Choose a partition element, v
-        int m = off + ( len >> 1 ); // Small arrays, middle element
-        if( len > 7 ) {
-            int l = off;
-            int n = off + len - 1;
-            if( len > 40 ) {
-                // Big arrays, pseudomedian of 9
-                int s = len / 8;
-                l = med3( pri, l, l + s, l + 2 * s, cmp );
-                m = med3( pri, m - s, m, m + s , cmp);
-                n = med3( pri, n - 2 * s, n - s, n , cmp );
+            // Swap partition elements back to middle
+            int s, n = off + len;
+            s = Math.min( a - off, b - a );
+            vecswap( pri, sec, off, b - s, s );
+            s = Math.min( d - c, n - d - 1 );
+            vecswap( pri, sec, b, n - s, s );
+
+            // Recursively sort the smaller range of non-partition-elements and carry on with the
+            // larger one, so that the depth of the recursion stays logarithmic
+            final int low = b - a, high = d - c;
+            if( low < high ) {
+                sort( pri, sec, off, low, cmp );
+                off = n - high;
+                len = high;
+            } else {
+                sort( pri, sec, n - high, high, cmp );
+                len = low;
             }
-            m = med3( pri, l, m, n , cmp); // Mid-size, med of 3
         }
-        ${key.arrayType} v = pri[ m ];
 
-        // Establish Invariant: v* (<v)* (>v)* v*
-        int a = off, b = a, c = off + len - 1, d = c;
-        while( true ) {
-            while( b <= c && cmp.compare( pri[ b ], v ) <= 0 ) {
-                if( cmp.compare( pri[ b ], v ) == 0 )
-                    swap( pri, sec, a++, b );
-                b++;
-            }
-            while( c >= b && cmp.compare( pri[ c ], v ) >= 0 ) {
-                if( cmp.compare( pri[ c ], v ) == 0 )
-                    swap( pri, sec, c, d-- );
-                c--;
+        // Insertion sort on smallest arrays
+        for( int i = off; i < len + off; i++ ) {
+            for( int j = i; j > off && cmp.compare( pri[ j - 1 ], pri[ j ] ) > 0; j-- ) {
+                swap( pri, sec, j, j - 1 );
             }
-            if( b > c )
-                break;
-            swap( pri, sec, b++, c-- );
         }
-
-        // Swap partition elements back to middle
-        int s, n = off + len;
-        s = Math.min( a - off, b - a );
-        vecswap( pri, sec, off, b - s, s );
-        s = Math.min( d - c, n - d - 1 );
-        vecswap( pri, sec, b, n - s, s );
-
-        // Recursively sort non-partition-elements
-        if( ( s = b - a ) > 1 )
-            sort( pri, sec, off, s, cmp );
-        if( ( s = d - c ) > 1 )
-            sort( pri, sec, n - s, s, cmp );
     }
 
     /**
-- 
2.43.0


From ac5175811eda736f733a408f424e71a9dec1d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 33/41] fix: heap insert leaves the heap as it was when the
 comparator rejects the key

---
 .../collections/heap/BaseKeyHeap.ftl          | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 37f578e..a0e7f21 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -86,10 +86,12 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
      * The entry is a stable reference to the value.
      */
     public int insert(final ${type.javaType} key) {
-        // insert the new node as the bottom-rightmost leaf
+        // insert the new node as the bottom-rightmost leaf; find its place in the heap before
+        // anything changes in case the comparator rejects the key
         final int child = size;
+        final int node = findUp(child, key);
         final int entry = allocateEntry(key);
-        filterUp(child, key, entry); // place in the heap
+        moveUp(child, node, entry); // place in the heap
         return entry;
     }
 
@@ -188,7 +190,14 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         return t;
     }
 
-    protected int filterUp(int child, final ${type.arrayType} key, final int entry) {
+    protected int filterUp(final int child, final ${type.arrayType} key, final int entry) {
+        final int node = findUp(child, key);
+        moveUp(child, node, entry);
+        return node;
+    }
+
+    /** The node that the key belongs to on the way from the child to the root. */
+    private int findUp(int child, final ${type.arrayType} key) {
         while(child != 0) {
             // see if the child needs to move up by comparing to the parent
             final int parent = (child - 1) >> 1;
@@ -196,7 +205,15 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
             if(comp.compare(key, parentKey) >= 0) {
                 break; // we're ok here
             }
+            child = parent;
+        }
+        return child;
+    }
 
+    /** Puts the entry at the node, moving those from there to the child one level down. */
+    private void moveUp(int child, final int node, final int entry) {
+        while(child != node) {
+            final int parent = (child - 1) >> 1;
             tree[child] = tree[parent];
             inverse[tree[child]] = child;
             child = parent;
@@ -204,8 +221,6 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
 
         tree[child] = entry;
         inverse[entry] = child;
-
-        return child;
     }
 
     protected void filterDown(int parent, final ${type.arrayType} key, final int entry) {
-- 
2.43.0


From 62b66375155c8b86a6a2471739c5c70f3ca8c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 34/41] fix: heap resetKey rejects entries that are not active

---
 .../bytefacets/collections/heap/BaseKeyHeap.ftl    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index a0e7f21..955744e 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -137,10 +137,22 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
     /**
      * Resets the key for the given entry. This can be useful for timers, which may repeat:
      * the repeat can be accomplished by setting a new time, but the entry will remain stable.
+     *
+     * @throws InvalidEntryException if the entry was not active in the heap
+     * @throws RangeCheckException if the entry was outside the bounds of the underlying array
      */
     public void resetKey(final int entry, final ${type.javaType} newKey) {
+        RangeCheckException.assertWithinRange(0, inverse.length - 1, entry, "entry");
+
+        final int node = inverse[entry];
+        if(node == -1 || node >= size) {
+            throw new InvalidEntryException(
+                String.format("Tried to reset key of entry that does not exist: entry=%d, node=%d, size=%d",
+                              entry, node, size));
+        }
+
         keys[entry] = newKey;
-        filterDown(filterUp(inverse[entry], newKey, entry), newKey, entry);
+        filterDown(filterUp(node, newKey, entry), newKey, entry);
     }
 
     /**
-- 
2.43.0


From 0250bffcff412ba609525edac3fb0e2fec38a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 35/41] fix: heap resetKey leaves the heap as it was when the
 comparator rejects the key

---
 .../collections/heap/BaseKeyHeap.ftl          | 38 +++++++++++++++----
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
index 955744e..889f0fc 100644
--- a/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/heap/BaseKeyHeap.ftl
@@ -151,8 +151,16 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
                               entry, node, size));
         }
 
-        keys[entry] = newKey;
-        filterDown(filterUp(node, newKey, entry), newKey, entry);
+        // find the new place before anything changes in case the comparator rejects the key
+        final int upNode = findUp(node, newKey);
+        if(upNode != node) {
+            keys[entry] = newKey;
+            moveUp(node, upNode, entry);
+        } else {
+            final int downNode = findDown(node, newKey);
+            keys[entry] = newKey;
+            moveDown(node, downNode, entry);
+        }
     }
 
     /**
@@ -235,7 +243,12 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
         inverse[entry] = child;
     }
 
-    protected void filterDown(int parent, final ${type.arrayType} key, final int entry) {
+    protected void filterDown(final int parent, final ${type.arrayType} key, final int entry) {
+        moveDown(parent, findDown(parent, key), entry);
+    }
+
+    /** The node that the key belongs to on the way from the parent to the leaves. */
+    private int findDown(int parent, final ${type.arrayType} key) {
         int child;
         // while parent is not a leaf node...
         while((child = (parent << 1) + 1) < size) {
@@ -255,14 +268,23 @@ public abstract class Base${type.name}Heap${generics} extends BaseHeap {
             if(comp.compare(key, childKey) < 0) {
                 break; // we're ok here
             }
-
-            tree[parent] = tree[child];
-            inverse[tree[parent]] = parent;
             parent = child;
         }
+        return parent;
+    }
 
-        tree[parent] = entry;
-        inverse[entry] = parent;
+    /** Puts the entry at the node, moving those from there to the parent one level up. */
+    private void moveDown(final int parent, final int node, final int entry) {
+        int moving = entry;
+        for(int child = node; ; child = (child - 1) >> 1) {
+            final int displaced = tree[child];
+            tree[child] = moving;
+            inverse[moving] = child;
+            if(child == parent) {
+                break;
+            }
+            moving = displaced;
+        }
     }
 
     protected void growKeys(final int capacity) {
-- 
2.43.0


From 708617c2e9d116b946665b979b7d866f1d4ee4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 36/41] fix: removeAtAndReserve of an entry without a key does
 not remove an equal key elsewhere

---
 .../collections/hash/BaseKeyIndex.ftl          | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index 399926d..c4f14bf 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -102,6 +102,10 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      */
     @Override
     public void removeAt(final int entry) {
+        removeAt(entry, true);
+    }
+
+    private void removeAt(final int entry, final boolean free) {
         final int head = getHead(nexts[entry]);
         int prev = -1;
         for(int e = heads[head]; e >= 0; prev = e, e = nexts[e]) {
@@ -116,7 +120,12 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
                 nexts[prev] = next;
             }
 
-            freeReservedEntry(e);
+            if(free) {
+                freeReservedEntry(e);
+            } else {
+                nexts[e] = -1;
+                // leave key and value set
+            }
             size--;
             modificationCount++;
 
@@ -129,10 +138,13 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
      * useful in compound operations where you might process the key again, or just encounter a new
      * key, but don't want to re-allocate the entry. Once you're ready to allow the reallocation
      * of the entry, use the freeReservedEntry method. If you don't free the reserved entry later,
-     * the set will never use the entry again, and result in a memory leek.
+     * the set will never use the entry again, and result in a memory leek. If there is no key at
+     * the entry, it's a no-op.
+     *
+     * @throws IndexOutOfBoundsException if the entry is outside the bounds of the underlying array
      */
     public void removeAtAndReserve(final int entry) {
-        remove(${type.cast}keys[entry], false);
+        removeAt(entry, false);
     }
 
     /**
-- 
2.43.0


From b8e8cd87b3ff1e4f4744a92dc7751acad9558f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 37/41] fix: removeAtAndReserve of an entry without an
 association does not change others

---
 .../java/com/bytefacets/collections/bi/CompactOneToMany.java | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 7d7f389..8feef04 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -139,10 +139,15 @@ public class CompactOneToMany {
      * the entry, use the freeReservedEntry method. If you don't free the reserved entry later, the
      * set will never use the entry again, and result in a memory leek.
      *
+     * <p>If there is no association at the entry, it's a no-op.
+     *
      * @throws IndexOutOfBoundsException if the entry is out of bounds
      */
     public void removeAtAndReserve(final int entry) {
         final long key = mappings.getKeyAt(entry);
+        if (mappings.lookupEntry(key) != entry) {
+            return;
+        }
         mappings.removeAtAndReserve(entry);
         removeLeft(Pack.unpackHiInt(key), entry);
         removeRight(Pack.unpackLoInt(key), entry);
-- 
2.43.0


From 08f0eb8ef112613e8ecf63790768bc0c44d32687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 38/41] fix: put with a negative key does not leave half of the
 association behind

---
 .../com/bytefacets/collections/bi/CompactManyToMany.java | 8 ++++++++
 .../com/bytefacets/collections/bi/CompactOneToMany.java  | 9 +++++++++
 2 files changed, 17 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
index ac24ad9..9da4ad6 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactManyToMany.java
@@ -27,6 +27,14 @@ public final class CompactManyToMany extends CompactOneToMany {
         rightMapping = new Mapping(right, this::getLeftAt);
     }
 
+    @Override
+    protected void assertValidKeys(final int leftKey, final int rightKey) {
+        super.assertValidKeys(leftKey, rightKey);
+        if (rightKey < 0) {
+            throw new IndexOutOfBoundsException("Invalid right key: " + rightKey);
+        }
+    }
+
     @Override
     protected void insertRight(final int rightKey, final int entry) {
         right.insertEntry(rightKey, entry);
diff --git a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
index 8feef04..6384df8 100644
--- a/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
+++ b/collections/src/main/java/com/bytefacets/collections/bi/CompactOneToMany.java
@@ -40,8 +40,11 @@ public class CompactOneToMany {
     /**
      * Registers an association between leftKey and rightKey, returning the stable entry of the
      * association. If the association is already present, the existing entry is returned.
+     *
+     * @throws IndexOutOfBoundsException if a key that is used as an array offset is negative
      */
     public int put(final int leftKey, final int rightKey) {
+        assertValidKeys(leftKey, rightKey);
         final long key = Pack.packToLong(leftKey, rightKey);
         final int before = mappings.size();
         final int entry = mappings.add(key);
@@ -164,6 +167,12 @@ public class CompactOneToMany {
         mappings.freeReservedEntry(entry);
     }
 
+    protected void assertValidKeys(final int leftKey, final int rightKey) {
+        if (leftKey < 0) {
+            throw new IndexOutOfBoundsException("Invalid left key: " + leftKey);
+        }
+    }
+
     protected void insertLeft(final int leftKey, final int entry) {
         left.insertEntry(leftKey, entry);
     }
-- 
2.43.0


From 6b219c57ced1a1194d0cf526f23ff2ef1a02420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:34 +0000
Subject: [PATCH 39/41] fix: a copy of a small collection keeps its lists short
 as it grows

---
 .../templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
index c4f14bf..6e94441 100644
--- a/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
+++ b/collections/src/main/templates/com/bytefacets/collections/hash/BaseKeyIndex.ftl
@@ -38,7 +38,8 @@ abstract class Base${type.name}Index${generics} extends BaseHash implements ${ty
         
         System.arraycopy(source.keys, 0, keys, 0, source.keys.length);
 
-        capacity = keys.length;
+        // the other arrays may be larger, but it's the number of heads that keeps the lists short
+        capacity = heads.length;
         capThreshold = (int) (capacity * loadFactor);
     }
 
-- 
2.43.0


From b5c7cd8a3316033d9628ca27bdb174f39689e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:56 +0000
Subject: [PATCH 40/41] fix: the error for an absent float key names that key,
 not its expansion to double

---
 .../collections/exception/KeyNotFoundException.java           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/src/main/java/com/bytefacets/collections/exception/KeyNotFoundException.java b/collections/src/main/java/com/bytefacets/collections/exception/KeyNotFoundException.java
index d1bbf81..872ddad 100644
--- a/collections/src/main/java/com/bytefacets/collections/exception/KeyNotFoundException.java
+++ b/collections/src/main/java/com/bytefacets/collections/exception/KeyNotFoundException.java
@@ -23,6 +23,10 @@ public final class KeyNotFoundException extends RuntimeException {
         super("Long Key not found: " + key);
     }
 
+    public KeyNotFoundException(final float key) {
+        super("Float Key not found: " + key);
+    }
+
     public KeyNotFoundException(final double key) {
         super("Double Key not found: " + key);
     }
-- 
2.43.0


From 83604686801ccb53c3d007dbf7d631f594737c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:56 +0000
Subject: [PATCH 41/41] fix: a refused conversion to float or double is
 reported as such, not as one to long

---
 .../main/java/com/bytefacets/collections/types/DoubleType.java  | 2 +-
 .../main/java/com/bytefacets/collections/types/FloatType.java   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
index 8be0e2c..5b605d2 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/DoubleType.java
@@ -113,6 +113,6 @@ public final class DoubleType {
             return (short) (((Boolean) value) ? 1 : 0);
         }
         throw new IllegalArgumentException(
-                String.format("Could not convert to long: %s (%s)", value, type.getName()));
+                String.format("Could not convert to double: %s (%s)", value, type.getName()));
     }
 }
diff --git a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
index 7b28a26..552fd5f 100644
--- a/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
+++ b/collections/src/main/java/com/bytefacets/collections/types/FloatType.java
@@ -112,6 +112,6 @@ public final class FloatType {
             return (short) (((Boolean) value) ? 1 : 0);
         }
         throw new IllegalArgumentException(
-                String.format("Could not convert to long: %s (%s)", value, type.getName()));
+                String.format("Could not convert to float: %s (%s)", value, type.getName()));
     }
 }
-- 
2.43.0

