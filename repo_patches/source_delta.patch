From 93d5ebe71be95a678c2be692075f08357c8c5fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 01/51] fix: pcas must not fail because of the dirty bit nor
 hand it to its caller

---
 include/persistence.hpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/persistence.hpp b/include/persistence.hpp
index 9ab0f17..cd4ea2d 100644
--- a/include/persistence.hpp
+++ b/include/persistence.hpp
@@ -94,13 +94,30 @@ static U pcas_read(std::atomic<U> *address)
 template <class U>
 static bool pcas(std::atomic<U> *address, U &oldVal, U newVal)
 {
-    U oldValCopy = oldVal;
-    // Ensure the field is persisted.
-    pcas_read<U>(address);
-    // Attempt to CAS.
-    bool ret = address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag));
-    assert((ret && oldValCopy == oldVal) || (!ret && oldValCopy != oldVal));
-    return ret;
+    const U expected = oldVal;
+    while (true)
+    {
+        // Ensure the field is persisted.
+        pcas_read<U>(address);
+        // Attempt to CAS.
+        oldVal = expected;
+        if (address->compare_exchange_strong(oldVal, (U)((uintptr_t)newVal | DirtyFlag)))
+        {
+            return true;
+        }
+        // The dirty bit says whether a value is persisted. It is not part of the value.
+        if (((uintptr_t)oldVal & DirtyFlag) != 0)
+        {
+            // The caller will act on what we found, so it has to be persisted first.
+            persist(address, oldVal);
+            oldVal = (U)((uintptr_t)oldVal & ~DirtyFlag);
+        }
+        // Only fail because of a different value, never because of the dirty bit.
+        if (oldVal != expected)
+        {
+            return false;
+        }
+    }
 }
 
 #endif
-- 
2.43.0


From 5423569667b9fd822002fffc02e53a51763442a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 02/51] fix: remove reports whether the key was present

---
 containers/cliffMap/hashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index d97a9a3..9ddb089 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -916,7 +916,7 @@ public:
     }
     bool remove(Key key)
     {
-        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD);
+        return putIfMatch(key, VTOMBSTONE, NO_MATCH_OLD) != VINITIAL;
     }
     // Remove key with specified value.
     bool remove(Key key, Value value)
-- 
2.43.0


From 640563d85f44b0e77a52f8d135aee31198059e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 03/51] fix: an update that moves on to a newer table keeps its
 update function

---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 9ddb089..009c1b0 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -1125,7 +1125,7 @@ public:
                 }
                 // Try again in the new table.
                 // This is a recursive call.
-                return putIfMatch(newTable, key, newVal, oldVal);
+                return putIfMatch(newTable, key, newVal, oldVal, CAS);
 #else
                 // The key is not present.
                 return VINITIAL;
@@ -1161,7 +1161,7 @@ public:
         {
             // Copy the slot and retry in the new table.
             // This is a recursive call to the new table.
-            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+            return this->putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
         }
 #endif
         // Update the existing table.
@@ -1222,7 +1222,7 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
-                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal);
+                return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
             // Otherwise retry our put.
-- 
2.43.0


From 8df26d81303726c6477aeefb02473926690a0bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 04/51] fix: the size of the map is not lost when it changes
 during a resize

---
 containers/cliffMap/hashMap.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 009c1b0..202d4bb 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -308,7 +308,7 @@ public:
                 // Total capacity of the current table.
                 size_t oldLen = table->len;
                 // Current number of KV pairs stored in the table.
-                size_t size = this->size.load();
+                size_t size = hashMap->count.load();
                 // An initial size estimate.
                 size_t newSize = size;
 
@@ -859,6 +859,7 @@ public:
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
+            count.store(tables[0]->chm.size.load());
 
             // Ensure we use unique file names.
             fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
@@ -895,8 +896,7 @@ public:
     // This number is really only meaningful if the size is not being changed by other threads.
     size_t size()
     {
-        Table *table = this->table.load();
-        return table->chm.size.load();
+        return count.load();
     }
     bool isEmpty()
     {
@@ -1201,12 +1201,12 @@ public:
                     // If we removed an initial or tombstone value with a non-tombstone.
                     if ((V == VINITIAL || V == VTOMBSTONE) && newVal != VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(1);
+                        count.fetch_add(1);
                     }
                     // If we removed a non-initial and non-tombstone value with a tombstone.
                     else if (!(V == VINITIAL || V == VTOMBSTONE) && newVal == VTOMBSTONE)
                     {
-                        table->chm.size.fetch_add(-1);
+                        count.fetch_add(-1);
                     }
                 }
                 // If we replaced an initial value when we had expected a non-initial value, return the tombstone sentinel.
@@ -1322,6 +1322,9 @@ public:
 private:
     // The structure that stores the top table.
     std::atomic<Table *> table;
+    // The number of active KV pairs.
+    // Shared by all tables, since both the old and the new table can be updated during a resize.
+    std::atomic<size_t> count{0};
 };
 
 // size_t keys and values.
-- 
2.43.0


From a030336afe07f8ad976737db4f86825b1e24db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 05/51] fix: a late table copy must not bring back a pair that
 was removed or overwritten since

---
 containers/cliffMap/hashMap.hpp | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 202d4bb..6ea5ed3 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -78,6 +78,8 @@ class ConcurrentHashMap
     static Key KTOMBSTONE;
     // Primed tombstone. Marked to prevent any updates to the location, used for resizing.
     static Value TOMBPRIME;
+    // Primed initial value. Like a primed tombstone, but nothing was ever placed in the location.
+    static Value EMPTYPRIME;
 
     // Heuristics for resizing.
     // Consider a reprobes heuristic, or some alternative, to indicate when to resize and gather statistics on key distribution.
@@ -163,14 +165,15 @@ public:
                 while (!isMarked((uintptr_t)oldVal, MigrationFlag))
                 {
                     // If there isn't a usable value to migrate, replace it with a tombprime. Otherwise, mark it.
-                    Value mark = (oldVal == VINITIAL || oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
+                    // NOTE: A marked initial value is an emptyprime.
+                    Value mark = (oldVal == VTOMBSTONE) ? TOMBPRIME : (Value)setMark((uintptr_t)oldVal, MigrationFlag);
                     // Attempt the CAS.
                     Value actualVal = CASvalue(oldTable, idx, oldVal, mark);
                     // If we succeeded.
                     if (actualVal == oldVal)
                     {
                         // If we replaced an empty spot.
-                        if (mark == TOMBPRIME)
+                        if (mark == TOMBPRIME || mark == EMPTYPRIME)
                         {
                             // We are already done.
                             return true;
@@ -189,7 +192,7 @@ public:
                 // We have successfully marked the value.
 
                 // If we marked with a tombstone.
-                if (oldVal == TOMBPRIME)
+                if (oldVal == TOMBPRIME || oldVal == EMPTYPRIME)
                 {
                     // No need to migrate a value. We are done.
                     return false;
@@ -687,12 +690,12 @@ public:
                     }
 
                     // Anything that's not a sentinel.
-                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME)
+                    if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME && V != EMPTYPRIME)
                     {
                         table->chm.size.fetch_add(1);
                     }
                     // Anything left that's not a tombstone.
-                    else if (V != VTOMBSTONE && V != TOMBPRIME)
+                    else if (V != VTOMBSTONE && V != TOMBPRIME && V != EMPTYPRIME)
                     {
                         table->chm.slots.fetch_add(1);
                     }
@@ -810,7 +813,8 @@ public:
                     // If the value is a tombstone, initial value, or migrated.
                     if (val == VTOMBSTONE ||
                         val == VINITIAL ||
-                        val == TOMBPRIME)
+                        val == TOMBPRIME ||
+                        val == EMPTYPRIME)
                     {
                         // Then migration for this value is complete.
                         continue;
@@ -1144,6 +1148,13 @@ public:
         }
 
 #ifdef RESIZE
+        // A table copy arrived late. This table is migrating too, and the slot was already used.
+        // Another thread completed the copy, and it may have been overwritten or removed since.
+        if (oldVal == VINITIAL && isMarked((uintptr_t)V, MigrationFlag) && V != EMPTYPRIME)
+        {
+            return V;
+        }
+
         // Consider allocating a newer table for placement.
         // If a new table hasn't already been allocated.
         if (newTable == nullptr &&
@@ -1222,6 +1233,11 @@ public:
             // If a primed value was is present (placed by us or someone else), re-run put on the new table.
             if (isMarked((uintptr_t)table->value(idx), MigrationFlag))
             {
+                // A late table copy is already done if the slot was used. (See above.)
+                if (oldVal == VINITIAL && table->value(idx) != EMPTYPRIME)
+                {
+                    return table->value(idx);
+                }
                 return putIfMatch(table->chm.copySlotAndCheck(this, table, idx, oldVal == VINITIAL), key, newVal, oldVal, CAS);
             }
 #endif
@@ -1258,6 +1274,9 @@ public:
         case TOMBPRIME:
             stream << "TOMBPRIME";
             break;
+        case EMPTYPRIME:
+            stream << "EMPTYPRIME";
+            break;
         case MATCH_ANY:
             stream << "MATCH_ANY";
             break;
@@ -1316,7 +1335,7 @@ public:
     // If it is reserved, then it serves a special purpose as a sentinel.
     static bool isValueReserved(Value value)
     {
-        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
+        return value == VINITIAL || value == VTOMBSTONE || value == TOMBPRIME || value == EMPTYPRIME || value == MATCH_ANY || value == NO_MATCH_OLD;
     }
 
 private:
@@ -1356,6 +1375,8 @@ Value ConcurrentHashMap<Key, Value, Hash>::VTOMBSTONE = ((((size_t)1 << 62) - 2)
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::TOMBPRIME = (size_t)setMark(VTOMBSTONE, MigrationFlag);
 template <typename Key, typename Value, class Hash>
+Value ConcurrentHashMap<Key, Value, Hash>::EMPTYPRIME = (size_t)setMark(VINITIAL, MigrationFlag);
+template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::MATCH_ANY = ((((size_t)1 << 62) - 3) << BITS_MARKED);
 template <typename Key, typename Value, class Hash>
 Value ConcurrentHashMap<Key, Value, Hash>::NO_MATCH_OLD = ((((size_t)1 << 62) - 4) << BITS_MARKED);
-- 
2.43.0


From eb763c5498844889540b971ef65cf1adb7e20ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 06/51] fix: a thread helping a resize must not wait for a
 stalled helper

---
 containers/cliffMap/hashMap.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 6ea5ed3..1f6e091 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -459,6 +459,15 @@ public:
                     // Move on to the next chunk of work.
                     copyIdx += MIN_COPY_WORK;
 
+                    // If we have panicked and walked the whole table, then every slot has been migrated.
+                    // Don't wait for stalled threads to report the slots they migrated.
+                    if (panicStart != -1 && copyIdx >= panicStart + oldLen)
+                    {
+                        Table *expected = oldTable;
+                        hashMap->table.compare_exchange_strong(expected, newTable);
+                        return;
+                    }
+
                     // Stop working after just doing the bare minimum amount of work.
                     // NOTE: This can be commented out to instead keep taking on additional chunks of work until the whole resize process is complete.
                     // if (!copyAll && panicStart == -1)
-- 
2.43.0


From 3b5c22eb5861599ecbc8608b7fa9d57b8d255265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 07/51] fix: a resizer that lost the race releases the table it
 created

---
 containers/cliffMap/hashMap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index 1f6e091..a3bbae9 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -365,8 +365,9 @@ public:
                 else
                 {
                     // Failure means some other thread succeeded.
-                    // Free the allocated memory.
+                    // Free the allocated memory and delete the file, so that recovery doesn't find it.
                     munmapTable(newTable);
+                    std::remove(filename.c_str());
                     // And get the table that was placed.
                     newTable = this->newTable.load();
                     // The new table should never be NULL.
@@ -764,8 +765,7 @@ public:
         }
         static bool munmapTable(Table *table)
         {
-            size_t size = table->chm.size.load();
-            bool ret = (munmap(table, (sizeof(KVpair) * size)) != 0);
+            bool ret = (munmap(table->pairs, (sizeof(KVpair) * table->len)) == 0);
             delete table;
             return ret;
         }
-- 
2.43.0


From 0befd0c17cf3d1f10d478ab13878aaa505de1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 08/51] fix: tables are created in the directory that recovery
 reads

---
 containers/cliffMap/hashMap.hpp | 35 +++++++++++----------------------
 containers/ucfMap.hpp           |  5 +++--
 2 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index a3bbae9..adbfdd6 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -353,7 +353,7 @@ public:
                 // Using a shared counter means more contention, but guaranteed file ordering.
                 size_t count = fileNameCounter.fetch_add(1);
                 // Allocate the new table.
-                std::string filename = getOrderedFileName(count);
+                std::string filename = getOrderedFileName(hashMap->fileDir, count);
                 newTable = mmapTable(true, newSize, size, filename.c_str());
 
                 // Attempt to CAS the new table.
@@ -558,9 +558,9 @@ public:
             return oldValueRef;
         }
         // TODO: Grab count and store in CHM.
-        static std::string getOrderedFileName(size_t count)
+        static std::string getOrderedFileName(const std::string &fileDir, size_t count)
         {
-            return "/mnt/pmem/pm1/tables/" + std::to_string(count) + ".dat";
+            return fileDir + "/" + std::to_string(count) + ".dat";
         }
         // Take a full table name with path and keep only the associated number.
         static size_t numFromName(const char *source)
@@ -605,12 +605,11 @@ public:
             // Return the integer.
             return ret;
         }
-        static Table *mmapTable(bool newTable, size_t tableCapacity, size_t existingSize = 0, const char *constFileName = NULL)
+        // fileName is the name and location of our persistent memory file for this table.
+        static Table *mmapTable(bool newTable, size_t tableCapacity, size_t existingSize, const char *fileName)
         {
-            // This is the name and location of our persistent memory file for this table.
-            std::string filenameString;
-            const char *fileName;
-            size_t count;
+            // Get count from file name.
+            size_t count = Table::numFromName(fileName);
             // This will hold the file descriptor of our memory mapped file.
             int fd;
             // This will hold the memory address of our memory mapped table.
@@ -618,20 +617,6 @@ public:
             // The table we ultimately return.
             Table *table = NULL;
 
-            // If a filename wasn't provided, get one ourselves.
-            if (constFileName == NULL)
-            {
-                count = fileNameCounter.fetch_add(1);
-                filenameString = Table::getOrderedFileName(count);
-                fileName = filenameString.c_str();
-            }
-            else
-            {
-                fileName = constFileName;
-                // Get count from file name.
-                count = Table::numFromName(fileName);
-            }
-
             // If we want to map a new file.
             if (newTable)
             {
@@ -773,6 +758,7 @@ public:
 
     // Constructor.
     ConcurrentHashMap(const char *fileDir, size_t size = Table::MIN_SIZE, bool reconstruct = true)
+        : fileDir(fileDir)
     {
         // Recovery.
         if (reconstruct)
@@ -881,7 +867,8 @@ public:
         {
             // Alternative approach: just make a table, bypassing recovery.
             // Allocate a new, mmapped table.
-            Table *table = Table::mmapTable(!reconstruct, size, 0);
+            std::string filename = Table::getOrderedFileName(this->fileDir, fileNameCounter.fetch_add(1));
+            Table *table = Table::mmapTable(!reconstruct, size, 0, filename.c_str());
             // Store the table.
             this->table.store(table);
         }
@@ -1353,6 +1340,8 @@ private:
     // The number of active KV pairs.
     // Shared by all tables, since both the old and the new table can be updated during a resize.
     std::atomic<size_t> count{0};
+    // The directory where the tables live.
+    const std::string fileDir;
 };
 
 // size_t keys and values.
diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 78a07f5..5c8e82d 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -48,8 +48,9 @@ namespace ucf
         container_type(const TestOptions &opt, bool reconstruct = false)
         {
             const size_t realcapacity = 1 << opt.capacity;
-            const char *path = opt.filename.c_str();
-            c = new ConcurrentHashMap<KeyT, ValT>(path, realcapacity, reconstruct);
+            // The tables are kept in a directory next to the persistent file.
+            const std::string path = (std::filesystem::path(opt.filename).parent_path() / "tables").string();
+            c = new ConcurrentHashMap<KeyT, ValT>(path.c_str(), realcapacity, reconstruct);
             if (c == nullptr)
                 throw std::runtime_error("could not allocate");
             return;
-- 
2.43.0


From 3e67b771748562d90bbdd9358fb78f2ffa705937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 09/51] fix: mapping a new table never reuses or exposes a
 stale or partial file

---
 containers/cliffMap/hashMap.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index adbfdd6..f4c1b6a 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -620,15 +620,14 @@ public:
             // If we want to map a new file.
             if (newTable)
             {
-                // Try to open an existing hash table.
-                fd = open(fileName, O_RDWR);
+                // Report table doesn't exist.
+                fd = -1;
             }
             // If we want to map an existing file.
             else
             {
                 // We will open the existing file.
-                // Report table doesn't exist.
-                fd = -1;
+                fd = open(fileName, O_RDWR);
             }
 
             // If we opened an existing file, just map the data.
@@ -700,7 +699,9 @@ public:
             else
             {
                 // Create and open the file.
-                fd = open(fileName, O_RDWR | O_CREAT, S_IRUSR | S_IWUSR);
+                // It gets its real name when it is complete, so recovery never finds a partial table.
+                const std::string tmpName = std::string(fileName) + ".tmp";
+                fd = open(tmpName.c_str(), O_RDWR | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR);
                 if (fd == -1)
                 {
                     // Error.
@@ -737,6 +738,12 @@ public:
                 // Persist all keys and values.
                 // Everything else can be inferred upon recovery.
                 PERSIST(pairs, sizeof(KVpair) * tableCapacity);
+                if (std::rename(tmpName.c_str(), fileName) == -1)
+                {
+                    // Error.
+                    std::cerr << "Failed to rename the file." << std::endl;
+                    throw std::runtime_error("cannot create or open file");
+                }
                 // Allocate our table.
                 // We pass in the location of our KV pairs to assign them to the structure.
                 // We pass in the size of the table to assign the length.
-- 
2.43.0


From 1bd4d63772739201ec631aeaeb902f0297797c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 10/51] fix: recovery maps the tables that exist, keeps every
 pair and starts from a usable state

---
 containers/cliffMap/hashMap.hpp | 99 ++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index f4c1b6a..eccb2b0 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -670,18 +670,8 @@ public:
                     Value V = table->value(i);
                     Key K = table->key(i);
 
-                    // While we're at it, check for inconsistent table entries.
-                    // THis is the only situation I've come up with where we could have a problem with partial persists.
-                    if (K != KINITIAL && V == VINITIAL)
-                    {
-                        // If the key has been set but the value hasn't, then we have an incomplete insert on our hands.
-                        // Just make it a tombstone since we don't know what value it should have been.
-                        Table::CASvalue(table, i, VINITIAL, VTOMBSTONE);
-                        // Update the replaced value for subsequent use in this loop.
-                        V = table->value(i);
-                        // We should always succeed. We are running sequentially, after all.
-                        assert(V == VTOMBSTONE);
-                    }
+                    // NOTE: If the key has been set but the value hasn't, then an insert or a table copy did not complete.
+                    // Leave it that way. The key is absent, and a table copy that is still due can place the value here.
 
                     // Anything that's not a sentinel.
                     if (V != VINITIAL && V != VTOMBSTONE && V != TOMBPRIME && V != EMPTYPRIME)
@@ -772,26 +762,35 @@ public:
         {
             std::vector<std::string> tableNames;
             std::vector<Table *> tables;
-            std::string lastTableName;
 
             // Get the table names.
             std::filesystem::path path = fileDir;
             for (auto &p : std::filesystem::directory_iterator(path))
             {
-                const std::string filenameStr = p.path().filename().string();
-                if (p.is_regular_file())
+                if (p.is_regular_file() && p.path().extension() == ".dat")
                 {
-                    tableNames.push_back(filenameStr);
+                    tableNames.push_back(p.path().string());
+                }
+                // A table whose creation did not complete.
+                else if (p.is_regular_file() && p.path().extension() == ".tmp")
+                {
+                    std::remove(p.path().c_str());
                 }
             }
 
-            // Sort the tables by name.
+            // Sort the tables by number, which is the order of their creation.
             std::sort(tableNames.begin(), tableNames.end(),
-                      [](std::string a, std::string b)
+                      [](const std::string &a, const std::string &b)
                       {
-                          return a.compare(b) < 0;
+                          return Table::numFromName(a.c_str()) < Table::numFromName(b.c_str());
                       });
 
+            // Ensure we use unique file names.
+            if (!tableNames.empty() && fileNameCounter.load() <= Table::numFromName(tableNames.back().c_str()))
+            {
+                fileNameCounter.store(Table::numFromName(tableNames.back().c_str()) + 1);
+            }
+
             // For each table.
             // Map the table.
             // Check if the table is empty or migrated.
@@ -800,18 +799,16 @@ public:
                 // Allocate an mmapped table.
                 Table *table = Table::mmapTable(!reconstruct, size, 0, (*it).c_str());
 
-                // If the table is empty, deallocate it and continue.
-                if (table->chm.size.load() == 0)
-                {
-                    Table::munmapTable(table);
-                }
-
-                // If the table is fully migrated, deallocate it and continue.
+                // Check for values that were placed, and for non-migrated values.
+                bool empty = true;
                 bool migrationDone = true;
-                // Check for non-migrated values.
                 for (size_t i = 0; i < table->len; i++)
                 {
-                    ValT val = table->value(i);
+                    Value val = table->value(i);
+                    if (val != VINITIAL)
+                    {
+                        empty = false;
+                    }
                     // If the value is a tombstone, initial value, or migrated.
                     if (val == VTOMBSTONE ||
                         val == VINITIAL ||
@@ -829,8 +826,9 @@ public:
                         break;
                     }
                 }
-                // If this table was fully migrated.
-                if (migrationDone)
+                // If this table was never used, or if it was fully migrated.
+                // NOTE: While an older table remains, the sentinels of this table tell which of the older values are outdated.
+                if (empty || (migrationDone && tables.empty()))
                 {
                     // Deallocate it.
                     Table::munmapTable(table);
@@ -845,7 +843,12 @@ public:
                     // Migration is incomplete. Add it to our list.
                     tables.push_back(table);
                 }
-                lastTableName = *it;
+            }
+            // If there is nothing to recover, then start with a new table.
+            if (tables.empty())
+            {
+                std::string filename = Table::getOrderedFileName(this->fileDir, fileNameCounter.fetch_add(1));
+                tables.push_back(Table::mmapTable(true, size, 0, filename.c_str()));
             }
             // Now that tables are filtered out, perform migrations (or just link tables together).
             Table *oldTable = NULL;
@@ -865,10 +868,38 @@ public:
             // Store the lowest table with an incomplete migration, as the base.
             // Might as well not migrate during recovery, since we lose out on parallel migration performance.
             this->table.store(tables[0]);
-            count.store(tables[0]->chm.size.load());
 
-            // Ensure we use unique file names.
-            fileNameCounter.store(Table::numFromName(lastTableName.c_str()));
+            // If the newest table was migrating, then the table it was migrating to was still empty. Replace it.
+            for (size_t i = 0; i < newTable->len; i++)
+            {
+                if (isMarked((uintptr_t)newTable->value(i), MigrationFlag))
+                {
+                    newTable->chm.resize(this, newTable);
+                    break;
+                }
+            }
+            // Complete the copies that were in progress, and count the pairs.
+            size_t pairCount = 0;
+            for (Table *t = tables[0]; t != nullptr; t = t->chm.newTable.load())
+            {
+                for (size_t i = 0; i < t->len; i++)
+                {
+                    Value val = t->value(i);
+                    if (val == VINITIAL || val == VTOMBSTONE || val == TOMBPRIME || val == EMPTYPRIME)
+                    {
+                        continue;
+                    }
+                    if (isMarked((uintptr_t)val, MigrationFlag))
+                    {
+                        t->chm.copySlotAndCheck(this, t, i, true);
+                    }
+                    else
+                    {
+                        pairCount++;
+                    }
+                }
+            }
+            count.store(pairCount);
         }
         else
         {
-- 
2.43.0


From f6df1d2b4058497a8f42c5983c991709b9abf740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 11/51] fix: a map created without recovery starts empty and
 stays apart from older tables

---
 containers/cliffMap/hashMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index eccb2b0..b4d93a3 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -904,6 +904,14 @@ public:
         else
         {
             // Alternative approach: just make a table, bypassing recovery.
+            // The tables of an older map must not become part of this one when it is recovered.
+            for (auto &p : std::filesystem::directory_iterator(fileDir))
+            {
+                if (p.is_regular_file() && (p.path().extension() == ".dat" || p.path().extension() == ".tmp"))
+                {
+                    std::remove(p.path().c_str());
+                }
+            }
             // Allocate a new, mmapped table.
             std::string filename = Table::getOrderedFileName(this->fileDir, fileNameCounter.fetch_add(1));
             Table *table = Table::mmapTable(!reconstruct, size, 0, filename.c_str());
-- 
2.43.0


From 7155f21e49352368f95f4e721ef71bcd4809e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 12/51] fix: a value is persisted before its operation returns
 or the next table depends on it

---
 containers/cliffMap/hashMap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/containers/cliffMap/hashMap.hpp b/containers/cliffMap/hashMap.hpp
index b4d93a3..8dde168 100644
--- a/containers/cliffMap/hashMap.hpp
+++ b/containers/cliffMap/hashMap.hpp
@@ -172,6 +172,8 @@ public:
                     // If we succeeded.
                     if (actualVal == oldVal)
                     {
+                        // The new table takes over from here, so the mark must be persisted first.
+                        oldTable->value(idx);
                         // If we replaced an empty spot.
                         if (mark == TOMBPRIME || mark == EMPTYPRIME)
                         {
@@ -1247,6 +1249,8 @@ public:
             // If we succeeded.
             if (actualValue == V)
             {
+                // Persist the new value before anything depends on it.
+                table->value(idx);
                 // Adjust the size counters for the table.
                 // If this was a table copy, do nothing.
                 if (oldVal != VINITIAL)
-- 
2.43.0


From 25c6e3a16ff6da12cb37ddaa23154c2226b11fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 13/51] fix: ucf insert reports whether the key was added, like
 the other containers

---
 containers/ucfMap.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/containers/ucfMap.hpp b/containers/ucfMap.hpp
index 5c8e82d..363dfcf 100644
--- a/containers/ucfMap.hpp
+++ b/containers/ucfMap.hpp
@@ -17,7 +17,9 @@ namespace ucf
             //assert((shiftedEl >> ConcurrentHashMap<KeyT, ValT>::BITS_MARKED) == el);
 
             ValT x = c->put(shiftedEl, shiftedEl);
-            return x == shiftedEl;
+            // Like in the other containers: did we add the key?
+            // A reserved value means that there was none before.
+            return ConcurrentHashMap<KeyT, ValT>::isValueReserved(x);
         }
 
         bool erase(ValT el)
-- 
2.43.0


From 80d995fef409a909b9d61f272033d0c519f350bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 14/51] fix: the stl container reads its map only under the
 lock

---
 containers/stlMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/containers/stlMap.hpp b/containers/stlMap.hpp
index 9d10f83..ec38759 100644
--- a/containers/stlMap.hpp
+++ b/containers/stlMap.hpp
@@ -38,6 +38,7 @@ namespace stl
 
         ValT get(KeyT el)
         {
+            guard_type g(global_lock);
             try
             {
                 return c->at(el);
@@ -50,6 +51,7 @@ namespace stl
 
         size_t count()
         {
+            guard_type g(global_lock);
             return c->size();
         }
 
-- 
2.43.0


From 14ce8993c39271a7820375c09aa66b869e1dc243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 15/51] fix: copying or assigning a hash state gives a usable,
 independent copy

---
 hashing/xxhash.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index 91f22fc..cf56c76 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -1917,10 +1917,8 @@ namespace xxh
 			v4 = seed - detail::PRIME<bit_mode>(1);
 		};
 
-		hash_state_t operator=(hash_state_t<bit_mode> &other)
-		{
-			memcpy(this, &other, sizeof(hash_state_t<bit_mode>));
-		}
+		hash_state_t(const hash_state_t &other) = default;
+		hash_state_t &operator=(const hash_state_t &other) = default;
 
 		void reset(uint_t<bit_mode> seed = 0)
 		{
@@ -2093,9 +2091,24 @@ namespace xxh
 		}
 
 	public:
-		hash3_state_t operator=(hash3_state_t &other)
+		hash3_state_t(const hash3_state_t &other)
+		{
+			*this = other;
+		}
+
+		hash3_state_t &operator=(const hash3_state_t &other)
 		{
-			memcpy(this, &other, sizeof(hash3_state_t));
+			if (this != &other)
+			{
+				memcpy(this, &other, sizeof(hash3_state_t));
+
+				if (other.secret == other.customSecret)
+				{ /* generated from the seed: use our own copy of it */
+					secret = customSecret;
+				}
+			}
+
+			return *this;
 		}
 
 		hash3_state_t(uint64_t seed = 0)
-- 
2.43.0


From 6f6c4ef0a2a58b89b5d4517b9ad7dffe36454ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 16/51] fix: streamed XXH3 hashes the bytes before a short last
 stripe when they were not buffered

---
 hashing/xxhash.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashing/xxhash.hpp b/hashing/xxhash.hpp
index cf56c76..f781d1b 100644
--- a/hashing/xxhash.hpp
+++ b/hashing/xxhash.hpp
@@ -2052,6 +2052,9 @@ namespace xxh
 					consume_stripes(acc, nbStripesSoFar, internal_buffer_stripes, input, accWidth);
 					input += internal_buffer_size;
 				} while (input <= limit);
+
+				/* the last partial stripe may reach back into the input that was not buffered */
+				memcpy(buffer + sizeof(buffer) - detail3::stripe_len, input - detail3::stripe_len, detail3::stripe_len);
 			}
 
 			if (input < bEnd)
-- 
2.43.0


From 4d0eead8aea053677abffba1d0c888dee490c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 17/51] fix: PMwCAS defines the flags and the thread number it
 uses

---
 include/KCAS/define.hpp | 4 ++++
 include/KCAS/pmwcas.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/KCAS/define.hpp b/include/KCAS/define.hpp
index 7d5186f..601ea75 100644
--- a/include/KCAS/define.hpp
+++ b/include/KCAS/define.hpp
@@ -3,6 +3,7 @@
 
 #include <atomic>
 #include <cassert>
+#include <chrono>
 #include <cstddef>
 #include <iostream>
 #include <unordered_set>
@@ -14,6 +15,9 @@ inline const size_t NUM_OPS = 10000;
 
 typedef std::chrono::nanoseconds TIME_UNIT;
 
+// The number of the current thread. Determines which descriptors it uses.
+thread_local size_t localThreadNum;
+
 // A test array. We attempt to perform PMwCAS on the words contained within this array.
 // TODO: To test recovery, we must persist the array itself.
 alignas(8) std::atomic<uintptr_t> array[ARRAY_SIZE];
diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index cadc9a5..f1dba39 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -23,6 +23,11 @@
 #include "../persistence.hpp"
 #include "../marking.hpp"
 
+// These bits mark descriptor references, next to the DirtyFlag.
+// They must match the layout of DescRef.
+static const uintptr_t PMwCASFlag = 2;
+static const uintptr_t RDCSSFlag = 4;
+
 thread_local size_t helps = 0;
 thread_local size_t opsDone = 0;
 
@@ -995,4 +1000,4 @@ private:
     }
 };
 
-#endif
\ No newline at end of file
+#endif
\ No newline at end of file
-- 
2.43.0


From 4019799db90a7def16f2b55678030629aacad641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 18/51] fix: every participant of a PMwCAS acts on the status
 that was decided

---
 include/KCAS/pmwcas.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index f1dba39..6560174 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -659,6 +659,8 @@ public:
         CASField<typename KCASDescriptor::Mutable>(desc, mOld, mNew, &KCASDescriptors[desc.tid].mutables, success);
         // Persist the Mutable. Only happens if we succeeded.
         persist(&KCASDescriptors[desc.tid].mutables, mNew);
+        // Another thread may have decided differently. Everyone must act on the status that was decided.
+        st = readField<typename KCASDescriptor::Mutable>(desc, &KCASDescriptors[desc.tid].mutables, success).status;
         // If the descriptor changed from under us, then the PMwCAS is already over.
         if (!success)
         {
-- 
2.43.0


From 6b728921c39836c22bc4b82a043b7b362596d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 19/51] fix: a PMwCAS does not finish while a helper can still
 place its descriptor

---
 include/KCAS/pmwcas.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index 6560174..81fa3e9 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -689,6 +689,15 @@ public:
             {
                 break;
             }
+            // A helper may be about to place our descriptor, having seen the status before it was decided.
+            // Don't finish before it did that or can no longer do it. Otherwise, the descriptor would be left behind.
+            if ((uintptr_t)rval & RDCSSFlag)
+            {
+                CompleteInstall((DescRef)rval);
+                // Look at the same word again.
+                i--;
+                continue;
+            }
 
             // If we failed because the descriptor was already persisted.
             if ((uintptr_t)rval == ((uintptr_t)desc | PMwCASFlag))
-- 
2.43.0


From 45ac1033639aad0644531b6cc03a9916cffdd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 20/51] fix: a PMwCAS descriptor is persistent before it
 becomes valid

---
 include/KCAS/pmwcas.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index 81fa3e9..21dcb8f 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -418,8 +418,8 @@ public:
             assert(desc->words[j].address(baseAddress) != NULL);
         }
 
-        // Flush the descriptor.
-        PERSIST_FLUSH_ONLY(desc, sizeof(KCASDescriptor));
+        // Flush and fence the descriptor. It must not become valid before its contents are persisted.
+        PERSIST(desc, sizeof(KCASDescriptor));
         // Update the sequence number again.
         m.seq++;
         m.isDirty = true;
@@ -469,8 +469,8 @@ public:
         // Validate the descriptor.
         assert(desc->address(baseAddress) != NULL);
 
-        // Flush the descriptor.
-        PERSIST_FLUSH_ONLY(desc, sizeof(WordDescriptor));
+        // Flush and fence the descriptor. It must not become valid before its contents are persisted.
+        PERSIST(desc, sizeof(WordDescriptor));
         // Update the sequence number again.
         m.seq++;
         m.isDirty = true;
-- 
2.43.0


From d9a353881c82ddaa72fffdcd9a869affd26b8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 21/51] fix: the descriptor of a word is reused only after its
 replacement is persistent

---
 include/KCAS/pmwcas.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index 21dcb8f..e0c3bb5 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -855,6 +855,9 @@ private:
             {
                 // Finish the installation of our own descriptor.
                 CompleteInstall(desc);
+                // Persist what replaced it. This descriptor is reused for the next word,
+                // so recovery could not complete it any more.
+                pcas_read(wordDescriptors[desc.tid].address(baseAddress));
             }
 
             break;
-- 
2.43.0


From 2519c206ee1987f119fb3a9bc2701f0f6da0a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 22/51] fix: recovery completes every unfinished PMwCAS, also a
 decided one

---
 include/KCAS/pmwcas.hpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index e0c3bb5..83c6185 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -970,24 +970,25 @@ private:
 
                 continue;
             }
-            // If the KCAS is incomplete.
-            if (pcas_read<typename KCASDescriptor::Mutable>(&KCASDescriptors[i].mutables).status == Undecided)
-            {
-                // Make a fake descriptor so we can run PMwCAS on it.
-                DescRef desc;
-                desc.tid = i;
-                desc.seq = pcas_read<typename KCASDescriptor::Mutable>(&KCASDescriptors[i].mutables).seq;
-                desc.isRDCSS = false;
-                desc.isKCAS = true;
-                desc.isDirty = false;
-                // Try to complete it.
-                PMwCAS(desc);
-            }
+            // The KCAS may be incomplete, even if its status has been decided.
+            // Make a fake descriptor so we can run PMwCAS on it.
+            DescRef desc;
+            desc.tid = i;
+            desc.seq = pcas_read<typename KCASDescriptor::Mutable>(&KCASDescriptors[i].mutables).seq;
+            desc.isRDCSS = false;
+            desc.isKCAS = true;
+            desc.isDirty = false;
+            // Try to complete it.
+            PMwCAS(desc);
+        }
+        // Only now are all KCAS finished, including those that share words with each other.
+        for (size_t i = 0; i < P; i++)
+        {
             // Make sure none of the words within the KCAS still have descriptors placed.
-            for (size_t i = 0; i < KCASDescriptors[i].count; i++)
+            for (size_t j = 0; j < KCASDescriptors[i].count; j++)
             {
                 // Get the memory location of the word.
-                DescRef ref = pcas_read(KCASDescriptors[i].words[i].address(baseAddress));
+                DescRef ref = pcas_read(KCASDescriptors[i].words[j].address(baseAddress));
 
                 // Check for descriptors.
 
@@ -1002,7 +1003,7 @@ private:
                     // Try to complete it.
                     CompleteInstall(ref);
                     // Update the contents.
-                    ref = pcas_read(KCASDescriptors[i].words[i].address(baseAddress));
+                    ref = pcas_read(KCASDescriptors[i].words[j].address(baseAddress));
                 }
 
                 // There should be no descriptors.
-- 
2.43.0


From 16446d475fab973c23aeab61c105458a7c45a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 23/51] fix: a new PMwCAS manager replaces older descriptors
 persistently

---
 include/KCAS/pmwcas.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/KCAS/pmwcas.hpp b/include/KCAS/pmwcas.hpp
index 83c6185..e45a8db 100755
--- a/include/KCAS/pmwcas.hpp
+++ b/include/KCAS/pmwcas.hpp
@@ -359,6 +359,8 @@ public:
 
             wordDescriptors[i].mutables.store(m);
         }
+        // The file may hold the descriptors of an older manager. They must not be recovered.
+        PERSIST(map, length);
         return;
     }
     // Gets the sequnce number regardless of descriptor type.
-- 
2.43.0


From fa696b9ecedf8116ebea94d1c4150febba4b8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 24/51] fix: a key inserted while a whole growth of clevel_hash
 passes by is not lost

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 1bdde1f..c65a51b 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1061,10 +1061,10 @@ RETRY_INSERT:
 		{
 			if (CAS(&(e->off), old_e.raw(), created.p.raw()))
 			{
-				if (!m->is_resizing && meta(my_pool_uuid)->is_resizing &&
-					level_num == 0)
+				if (m_copy != meta && level_num == 0)
 				{
-					// Resizing may occur during the insert. Hence, redo the
+					// Resizing may occur during the insert (and may even be
+					// finished, without this level). Hence, redo the
 					// insertion to avoid missing the new item. The possible
 					// duplication will be fixed in future updates and deletes.
 					pop.persist(&(meta.off), sizeof(uint64_t));
-- 
2.43.0


From f8dafb7a6b5d6f890d59bc4ddd4bd7141adfd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 25/51] fix: clevel_hash's erase frees the entry after its last
 slot is cleared

---
 .../libpmemobj++/experimental/clevel_hash.hpp | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index c65a51b..c95e461 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1107,6 +1107,16 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 	partial_t partial = get_partial(hv);
 	difference_type expand_bucket_old;
 	bool succ_deletion = false;
+	// The deleted item. Several slots can refer to it (see insert), so that
+	// it is freed after the last of them.
+	KV_entry_ptr_t deleted = nullptr;
+	auto free_deleted = [&]() {
+		if (deleted.get_offset() != 0)
+		{
+			PMEMoid oid = deleted.raw_ptr(my_pool_uuid);
+			pmemobj_free(&oid);
+		}
+	};
 
 	while(true)
 	{
@@ -1138,9 +1148,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 							pop.persist(&(f_b.slots[j].p.off), sizeof(uint64_t));
 							succ_deletion = true;
 
-							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-							pmemobj_free(&oid);
-
+							if (tmp.p.get_offset() != deleted.get_offset())
+							{
+								free_deleted();
+								deleted = tmp.p;
+							}
 
 				// Instead of redoing the delete to guarantee the deletion is
 				// successful, we apply context checking to avoid unnecessary
@@ -1178,9 +1190,11 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 							pop.persist(&(s_b.slots[j].p.off), sizeof(uint64_t));
 							succ_deletion = true;
 
-							PMEMoid oid = tmp.p.raw_ptr(my_pool_uuid);
-							pmemobj_free(&oid);
-
+							if (tmp.p.get_offset() != deleted.get_offset())
+							{
+								free_deleted();
+								deleted = tmp.p;
+							}
 
 				// Instead of redoing the delete to guarantee the deletion is
 				// successful, we apply context checking to avoid unnecessary
@@ -1208,7 +1222,10 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::erase(
 
 		// Context checking.
 		if (m_copy == meta)
+		{
+			free_deleted();
 			return ret(succ_deletion);
+		}
 	} // end while(true)
 
 }
-- 
2.43.0


From b92e3e2e6c7dabb8f7ac22ca330debe442fcc30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 26/51] fix: clevel_hash's resizers stop when another has
 already finished the growth

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index c95e461..f4cd4a5 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1379,7 +1379,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::expand(
 				m = static_cast<level_meta *>(m_copy(my_pool_uuid));
 				cl = m->first_level.get_address(my_pool_uuid);
 
-				if (cl->capacity >= new_capacity && m->is_resizing)
+				if (cl->capacity >= new_capacity)
 				{
 					// CAS fails because other threads help updating meta
 					delete_persistent_atomic<level_meta>(tmp_meta[t_id]);
@@ -1429,7 +1429,7 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::expand(
 					m = static_cast<level_meta *>(m_copy(my_pool_uuid));
 					cl = m->first_level.get_address(my_pool_uuid);
 
-					if (cl->capacity >= new_capacity && m->is_resizing)
+					if (cl->capacity >= new_capacity)
 					{
 						// CAS fails because other threads help updating meta
 						delete_persistent_atomic<level_meta>(tmp_meta[t_id]);
-- 
2.43.0


From fae0cc7f0d874904ce7939beda254cce45d2b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 27/51] fix: a helper of a clevel_hash resize waits for the
 capacity of the next level

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index f4cd4a5..3787bec 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1396,7 +1396,8 @@ clevel_hash<Key, T, Hash, KeyEqual, HashPower>::expand(
 
 		if (meta == m_copy)
 		{
-			size_type new_capacity = cl->capacity;
+			size_type new_capacity =
+				cl->up.get_address(my_pool_uuid)->capacity;
 
 			// Update the first_level and is_resizing in the metadata.
 			while (true)
-- 
2.43.0


From 3e2773d681144c30052a0d745fcdf81e40cb0397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 28/51] fix: threads of the clevel container use their own
 buffers, none beyond the end

---
 containers/levelMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/containers/levelMap.hpp b/containers/levelMap.hpp
index f9e2dae..c88c624 100644
--- a/containers/levelMap.hpp
+++ b/containers/levelMap.hpp
@@ -45,7 +45,8 @@ namespace clevel
             assert(map != nullptr);
 
             // NOTE: id appears unused. Just pass in the key.
-            auto r = map->insert(value_type(val, val), localThreadNum, static_cast<size_t>(val));
+            // Thread 0 is the map's own thread, which expands it.
+            auto r = map->insert(value_type(val, val), localThreadNum + 1, static_cast<size_t>(val));
             return (!r.found);
         }
 
@@ -111,7 +112,7 @@ namespace clevel
                 pmem::obj::transaction::manual tx(pop);
 
                 proot->cons = pmem::obj::make_persistent<root::map_type>();
-                proot->cons->set_thread_num(1);
+                proot->cons->set_thread_num(opt.numthreads + 1);
 
                 pmem::obj::transaction::commit();
             }
-- 
2.43.0


From 867f3c6f51c5ef8643fc5f1bfc5cb92a71d3fe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 29/51] fix: a key inserted while two growths of clevel_hash
 pass by is not lost

---
 include/libpmemobj++/experimental/clevel_hash.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/experimental/clevel_hash.hpp b/include/libpmemobj++/experimental/clevel_hash.hpp
index 3787bec..a2093fb 100644
--- a/include/libpmemobj++/experimental/clevel_hash.hpp
+++ b/include/libpmemobj++/experimental/clevel_hash.hpp
@@ -1061,10 +1061,16 @@ RETRY_INSERT:
 		{
 			if (CAS(&(e->off), old_e.raw(), created.p.raw()))
 			{
-				if (m_copy != meta && level_num == 0)
+				level_ptr_t li = m->last_level;
+				for (uint64_t i = 0; i < level_num; i++)
+					li = li.get_address(my_pool_uuid)->up;
+				level_meta_ptr_t m_now(meta);
+				if (m_now != m_copy && li.get_address(my_pool_uuid)->capacity <=
+					static_cast<level_meta *>(m_now(my_pool_uuid))
+						->last_level.get_address(my_pool_uuid)->capacity)
 				{
-					// Resizing may occur during the insert (and may even be
-					// finished, without this level). Hence, redo the
+					// The level has become the lowest, which may be emptied,
+					// or has been removed during the insert. Hence, redo the
 					// insertion to avoid missing the new item. The possible
 					// duplication will be fixed in future updates and deletes.
 					pop.persist(&(meta.off), sizeof(uint64_t));
-- 
2.43.0


From 07407c8ca16c4320ee2b1d97ee0c0fe5b1b8cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 30/51] fix: inserting a copy of an own element into a vector
 inserts its value

---
 include/libpmemobj++/container/vector.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 2067322..46fabdf 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1599,9 +1599,18 @@ vector<T>::insert(const_iterator pos, size_type count, const value_type &value)
 	size_type idx = static_cast<size_type>(std::distance(cbegin(), pos));
 
 	transaction::run(pb, [&] {
+		/*
+		 * value might be a reference to underlying array element. This
+		 * reference can be invalidated after internal_insert() call.
+		 * Hence, we must cache value_type object in temp_value.
+		 */
+		detail::temp_value<value_type, noexcept(T(value))> tmp(value);
+
+		auto &tmp_ref = tmp.get();
+
 		internal_insert(
-			idx, single_element_iterator<value_type>(&value, 0),
-			single_element_iterator<value_type>(&value, count));
+			idx, single_element_iterator<value_type>(&tmp_ref, 0),
+			single_element_iterator<value_type>(&tmp_ref, count));
 	});
 
 	return iterator(&_data[static_cast<difference_type>(idx)]);
-- 
2.43.0


From 74797c697b0c3e22519b53a5b51cdd9d133b1bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 31/51] fix: vector::push_back of an own element does not read
 the array it replaced

---
 include/libpmemobj++/container/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 46fabdf..0a2dac3 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1792,12 +1792,22 @@ vector<T>::emplace_back(Args &&... args)
 
 	transaction::run(pb, [&] {
 		if (_size == _capacity) {
+			/*
+			 * args might be references to underlying array
+			 * elements, which realloc() moves and frees. Hence, we
+			 * must cache value_type object in temp_value.
+			 */
+			detail::temp_value<value_type,
+					   noexcept(T(
+						   std::forward<Args>(args)...))>
+				tmp(std::forward<Args>(args)...);
+
 			realloc(get_recommended_capacity(_size + 1));
+			construct_at_end(1, std::move(tmp.get()));
 		} else {
 			add_data_to_tx(size(), 1);
+			construct_at_end(1, std::forward<Args>(args)...);
 		}
-
-		construct_at_end(1, std::forward<Args>(args)...);
 	});
 
 	return back();
-- 
2.43.0


From b110e5a4a815ea04434eac1f9d5bf5eee37bc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 32/51] fix: vector::erase destroys the elements it removes

---
 include/libpmemobj++/container/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 0a2dac3..a457a2f 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1888,7 +1888,8 @@ vector<T>::erase(const_iterator first, const_iterator last)
 
 		std::move(move_begin, move_end, dest);
 
-		_size -= count;
+		/* Destroy the elements which are not in use anymore */
+		shrink(_size - count);
 	});
 
 	return iterator(&_data[static_cast<difference_type>(idx)]);
-- 
2.43.0


From ea001d1b0e75e26874bebdbfb83ca6084ab2171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 33/51] fix: vector::resize to the capacity is not ignored, its
 new elements are persisted

---
 include/libpmemobj++/container/vector.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index a457a2f..935cd16 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -1988,6 +1988,8 @@ vector<T>::resize(size_type count)
 		else {
 			if (_capacity < count)
 				realloc(count);
+			else
+				add_data_to_tx(_size, count - _size);
 			construct_at_end(count - _size);
 		}
 	});
@@ -2014,7 +2016,7 @@ template <typename T>
 void
 vector<T>::resize(size_type count, const value_type &value)
 {
-	if (_capacity == count)
+	if (_size == count)
 		return;
 
 	pool_base pb = get_pool();
@@ -2022,9 +2024,20 @@ vector<T>::resize(size_type count, const value_type &value)
 		if (count <= _size)
 			shrink(count);
 		else {
+			/*
+			 * value might be a reference to underlying array
+			 * element, which realloc() moves and frees. Hence, we
+			 * must cache value_type object in temp_value.
+			 */
+			detail::temp_value<value_type, noexcept(T(value))> tmp(
+				value);
+			const value_type &tmp_ref = tmp.get();
+
 			if (_capacity < count)
 				realloc(count);
-			construct_at_end(count - _size, value);
+			else
+				add_data_to_tx(_size, count - _size);
+			construct_at_end(count - _size, tmp_ref);
 		}
 	});
 }
-- 
2.43.0


From a5f8f23befaa86ab6a35e5400d711a62f31ff673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 34/51] fix: inserting nothing into a vector does not construct
 its last element over itself

---
 include/libpmemobj++/container/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 935cd16..2e9ffdb 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -2289,7 +2289,7 @@ template <typename T>
 void
 vector<T>::move_elements_backward(pointer first, pointer last, pointer d_last)
 {
-	while (first != last && d_last >= cend())
+	while (first != last && d_last > cend())
 		detail::create<value_type>(--d_last, std::move(*(--last)));
 
 	if (first != last)
@@ -2355,6 +2355,9 @@ vector<T>::internal_insert(size_type idx, InputIt first, InputIt last)
 
 	auto count = static_cast<size_type>(std::distance(first, last));
 
+	if (count == 0)
+		return;
+
 	if (_capacity >= size() + count) {
 		pointer dest =
 			&_data[static_cast<difference_type>(size() + count)];
-- 
2.43.0


From 980470e3cbe32d79da8007f735716f73f6feb9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 35/51] fix: an exception in the constructor of an object which
 contains a vector can be caught

---
 include/libpmemobj++/container/vector.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/libpmemobj++/container/vector.hpp b/include/libpmemobj++/container/vector.hpp
index 2e9ffdb..d3deac8 100644
--- a/include/libpmemobj++/container/vector.hpp
+++ b/include/libpmemobj++/container/vector.hpp
@@ -861,6 +861,13 @@ vector<T>::assign(const std::vector<T> &other)
 template <typename T>
 vector<T>::~vector()
 {
+	/*
+	 * A constructor of an object which contains the vector failed and the
+	 * transaction is already aborted, the memory was freed by the rollback.
+	 */
+	if (pmemobj_tx_stage() == TX_STAGE_ONABORT)
+		return;
+
 	free_data();
 }
 
-- 
2.43.0


From f3b8a8dda6aa0a882b2cc7acca14f9dcb8c598e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 36/51] fix: inserting a copy of an own element into a
 segment_vector inserts its value

---
 include/libpmemobj++/container/segment_vector.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/segment_vector.hpp b/include/libpmemobj++/container/segment_vector.hpp
index 9f09219..da94f3f 100644
--- a/include/libpmemobj++/container/segment_vector.hpp
+++ b/include/libpmemobj++/container/segment_vector.hpp
@@ -1982,9 +1982,16 @@ segment_vector<T, Policy>::insert(const_iterator pos, size_type count,
 
 	pool_base pb = get_pool();
 	transaction::run(pb, [&] {
+		/*
+		 * value might be a reference to an element of this container,
+		 * insert_gap() moves the elements. Hence, we must cache
+		 * value_type object in temp_value.
+		 */
+		detail::temp_value<value_type, noexcept(T(value))> tmp(value);
+
 		insert_gap(idx, count);
 		for (size_type i = idx; i < idx + count; ++i)
-			get(i) = std::move(value);
+			get(i) = static_cast<const T &>(tmp.get());
 	});
 
 	return iterator(this, idx);
-- 
2.43.0


From d3234b9a7f61625258522eddf0cbf08d18453811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 37/51] fix: a large basic_string can be inserted into itself

---
 .../libpmemobj++/container/basic_string.hpp   | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index 3b48125..a773ff2 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -2269,30 +2269,24 @@ basic_string<CharT, Traits>::insert(const_iterator pos, InputIt first,
 			set_sso_size(new_size);
 			sso_data()._data[new_size] = value_type('\0');
 		} else {
-			if (is_sso_used()) {
-				/* 1) Cache C-style string in case of
-				 * self-insert, because it will be destroyed
-				 * when switching from sso to large string.
-				 *
-				 * 2) We cache in std::vector instead of
-				 * std::string because of overload deduction
-				 * ambiguity on Windows
-				 */
-				std::vector<value_type> str(first, last);
+			/* 1) Cache C-style string in case of
+			 * self-insert, because it will be destroyed
+			 * when switching from sso to large string or moved
+			 * when making place in the large string.
+			 *
+			 * 2) We cache in std::vector instead of
+			 * std::string because of overload deduction
+			 * ambiguity on Windows
+			 */
+			std::vector<value_type> str(first, last);
 
+			if (is_sso_used())
 				sso_to_large(new_size);
-				non_sso_data().insert(
-					non_sso_data().begin() +
-						static_cast<difference_type>(
-							index),
-					str.begin(), str.end());
-			} else {
-				non_sso_data().insert(
-					non_sso_data().begin() +
-						static_cast<difference_type>(
-							index),
-					first, last);
-			}
+
+			non_sso_data().insert(
+				non_sso_data().begin() +
+					static_cast<difference_type>(index),
+				str.begin(), str.end());
 		}
 	});
 
-- 
2.43.0


From 3c7067838da65db775763539827b2d78c9228f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 38/51] fix: a large basic_string which was moved from is a
 valid empty string

---
 include/libpmemobj++/container/basic_string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index a773ff2..ceae403 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -4009,6 +4009,10 @@ basic_string<CharT, Traits>::assign_large_data(basic_string &&other)
 
 	non_sso_data() = std::move(other.non_sso_data());
 
+	/* other has no memory for the null character now, switch it to sso */
+	detail::destroy<non_sso_type>(other.non_sso_data());
+	other.enable_sso();
+
 	return non_sso_data().data();
 }
 
-- 
2.43.0


From 021d13b2fb83d482067c7db1862d31503da1a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 39/51] fix: characters removed from a short basic_string come
 back when the transaction aborts

---
 include/libpmemobj++/container/basic_string.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/libpmemobj++/container/basic_string.hpp b/include/libpmemobj++/container/basic_string.hpp
index ceae403..172e965 100644
--- a/include/libpmemobj++/container/basic_string.hpp
+++ b/include/libpmemobj++/container/basic_string.hpp
@@ -4128,6 +4128,13 @@ template <typename CharT, typename Traits>
 void
 basic_string<CharT, Traits>::set_sso_size(size_type new_size)
 {
+	/*
+	 * add_sso_to_tx() does not snapshot elements behind the current size.
+	 * Those which are removed now have to be snapshotted before that.
+	 */
+	if (is_sso_used() && new_size < get_sso_size())
+		add_sso_to_tx(new_size + 1, get_sso_size() - new_size);
+
 	sso._size = new_size | _sso_mask;
 }
 
-- 
2.43.0


From 4e64398e83c956cf1567a2416565095e4132a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 40/51] fix: concurrent_hash_map: operator== and != did not
 compile

They called equal_range(), which does not exist.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index de1c7c8..1abcb63 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -3441,13 +3441,10 @@ operator==(const concurrent_hash_map<Key, T, Hash, KeyEqual, MutexType,
 		i_end(a.end());
 
 	typename concurrent_hash_map<Key, T, Hash, KeyEqual, MutexType,
-				     ScopedLockType>::const_iterator j,
-		j_end(b.end());
+				     ScopedLockType>::const_accessor acc;
 
 	for (; i != i_end; ++i) {
-		j = b.equal_range(i->first).first;
-
-		if (j == j_end || !(i->second == j->second))
+		if (!b.find(acc, i->first) || !(i->second == acc->second))
 			return false;
 	}
 
-- 
2.43.0


From 570c890c9c9c3e8c2d326025eed1a2b85fae2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:31 +0000
Subject: [PATCH 41/51] fix: concurrent_hash_map: construction and assignment
 from a range or list with equal keys stored both

A key was then in the map twice: size() and iteration disagreed with find(), and erase() left the other one.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index 1abcb63..241ffda 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -3419,6 +3419,10 @@ concurrent_hash_map<Key, T, Hash, KeyEqual, MutexType,
 
 		assert(b->is_rehashed(std::memory_order_relaxed));
 
+		/* the first one of equal keys counts, as for insert() */
+		if (search_bucket(first->first, b))
+			continue;
+
 		detail::persistent_pool_ptr<node> p;
 		insert_new_node(b, p, *first);
 	}
-- 
2.43.0


From 39514759371a773d72238dc6a771913d1d86c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 42/51] fix: concurrent_hash_map: destroying a map after
 free_data() dereferenced a null pointer

free_data() is documented to be called before the destructor, which calls it again: the thread data is gone by then.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index 241ffda..ffc967f 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -2316,6 +2316,10 @@ public:
 	void
 	free_data()
 	{
+		/* already done */
+		if (this->tls_ptr == nullptr)
+			return;
+
 		auto pop = get_pool_base();
 
 		transaction::run(pop, [&] {
-- 
2.43.0


From bc14094b4d77ad290b36b5446a74da4a684c08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 43/51] fix: concurrent_hash_map: swap() left the size counted
 at the last start in the old map

After a swap and a restart both maps (and a map that was move-constructed) had a wrong size.
---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index ffc967f..b04b999 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -1376,6 +1376,7 @@ public:
 
 			/* Swap consistent size */
 			std::swap(this->tls_ptr, table.tls_ptr);
+			this->on_init_size.swap(table.on_init_size);
 
 			for (size_type i = 0; i < embedded_buckets; ++i)
 				this->my_embedded_segment[i].node_list.swap(
-- 
2.43.0


From 46b7aab893608e2d89fc598a5f4453ffa7bb9218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 44/51] fix: concurrent_hash_map: an aborted swap() left the
 size and mask of the other map changed

---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index b04b999..e0c4673 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -1367,6 +1367,8 @@ public:
 			 */
 			transaction::snapshot((size_t *)&this->my_mask);
 			transaction::snapshot((size_t *)&this->my_size);
+			transaction::snapshot((size_t *)&table.my_mask);
+			transaction::snapshot((size_t *)&table.my_size);
 
 			this->mask() = table.mask().exchange(
 				this->mask(), std::memory_order_relaxed);
-- 
2.43.0


From 3fa2e333e2616d17844a3433da84d9f4a66453fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:49 +0000
Subject: [PATCH 45/51] fix: concurrent_hash_map: assignment lost the old
 contents when it failed or was interrupted

clear() and the copy were separate transactions, so that a crash, an exception or lack of memory in between left the map
empty or with a part of the new contents.
---
 .../container/concurrent_hash_map.hpp          | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index e0c4673..701fda6 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -2256,8 +2256,12 @@ public:
 	operator=(const concurrent_hash_map &table)
 	{
 		if (this != &table) {
-			clear();
-			internal_copy(table);
+			pool_base pop = get_pool_base();
+
+			transaction::run(pop, [&] {
+				clear();
+				internal_copy(table);
+			});
 		}
 
 		return *this;
@@ -2277,11 +2281,15 @@ public:
 	concurrent_hash_map &
 	operator=(std::initializer_list<value_type> il)
 	{
-		clear();
+		pool_base pop = get_pool_base();
 
-		reserve(il.size());
+		transaction::run(pop, [&] {
+			clear();
 
-		internal_copy(il.begin(), il.end());
+			reserve(il.size());
+
+			internal_copy(il.begin(), il.end());
+		});
 
 		return *this;
 	}
-- 
2.43.0


From e10f65ab46972982efba451fc38c882a1157b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 46/51] fix: persistent_ptr: make pointer_to compile again

The private constructor which pointer_to uses passes a raw pointer to
persistent_ptr_base, which has no such constructor.
---
 include/libpmemobj++/persistent_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/persistent_ptr.hpp b/include/libpmemobj++/persistent_ptr.hpp
index 9e61a5b..22276dc 100644
--- a/include/libpmemobj++/persistent_ptr.hpp
+++ b/include/libpmemobj++/persistent_ptr.hpp
@@ -608,7 +608,8 @@ protected:
 	 * pointer_traits<persistent_ptr>::pointer_to to be able to create
 	 * valid pointers. This is used in libstdc++'s std::vector::insert().
 	 */
-	persistent_ptr(element_type *vptr, int) : persistent_ptr_base(vptr)
+	persistent_ptr(element_type *vptr, int)
+	    : persistent_ptr_base(pmemobj_oid(vptr))
 	{
 		if (OID_IS_NULL(oid)) {
 			oid.pool_uuid_lo = std::numeric_limits<decltype(
-- 
2.43.0


From 22785db00245094b49112e0ca4d3fb60cc910aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 47/51] fix: persistent_ptr: keep a null pointer null when
 converting to a base

The offset of the base within the derived class was added to the offset
of a null pointer too, so that the result was neither null nor valid.
---
 include/libpmemobj++/persistent_ptr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libpmemobj++/persistent_ptr.hpp b/include/libpmemobj++/persistent_ptr.hpp
index 22276dc..d8e1394 100644
--- a/include/libpmemobj++/persistent_ptr.hpp
+++ b/include/libpmemobj++/persistent_ptr.hpp
@@ -293,8 +293,9 @@ public:
 	persistent_ptr(persistent_ptr<U> const &r) noexcept
 	    : persistent_ptr_base(r.oid)
 	{
-		this->oid.off +=
-			static_cast<std::uint64_t>(calculate_offset<U>());
+		if (!OID_IS_NULL(this->oid))
+			this->oid.off += static_cast<std::uint64_t>(
+				calculate_offset<U>());
 		verify_type();
 	}
 
-- 
2.43.0


From 8c0f09b253a997b464c4d949ff708bcaa4204352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 48/51] fix: allocator: snapshot the whole object before
 destroying it

object_traits::destroy took a snapshot of sizeof(p), the size of the
pointer, so that what a destructor changes beyond the first 16 bytes was
not restored when the transaction was aborted.
---
 include/libpmemobj++/allocator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/allocator.hpp b/include/libpmemobj++/allocator.hpp
index 4673272..52af0f6 100644
--- a/include/libpmemobj++/allocator.hpp
+++ b/include/libpmemobj++/allocator.hpp
@@ -140,7 +140,8 @@ public:
 	{
 		/* XXX should we allow modifications outside of tx? */
 		if (pmemobj_tx_stage() == TX_STAGE_WORK) {
-			pmemobj_tx_add_range_direct((void *)p.get(), sizeof(p));
+			pmemobj_tx_add_range_direct((void *)p.get(),
+						    sizeof(value_type));
 		}
 
 		detail::destroy<value_type>(*p);
-- 
2.43.0


From ee78c1f068740f5c0ca605c2508ed43466597d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 49/51] fix: allocator: throw when an allocation fails

allocate() returned a null pointer, which no caller checks, from a
transaction that had already been aborted.
---
 include/libpmemobj++/allocator.hpp | 34 +++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/libpmemobj++/allocator.hpp b/include/libpmemobj++/allocator.hpp
index 52af0f6..1f14968 100644
--- a/include/libpmemobj++/allocator.hpp
+++ b/include/libpmemobj++/allocator.hpp
@@ -248,6 +248,7 @@ public:
 	 * @param[in] cnt the number of objects to allocate memory for.
 	 *
 	 * @throw transaction_scope_error if called outside of a transaction.
+	 * @throw transaction_alloc_error on transactional allocation failure.
 	 */
 	pointer
 	allocate(size_type cnt, const_void_pointer = 0)
@@ -257,8 +258,21 @@ public:
 				"refusing to allocate memory outside of transaction scope");
 
 		/* allocate raw memory, no object construction */
-		return pmemobj_tx_alloc(sizeof(value_type) * cnt,
-					detail::type_num<T>());
+		pointer ptr = pmemobj_tx_alloc(sizeof(value_type) * cnt,
+					       detail::type_num<T>());
+
+		if (ptr == nullptr) {
+			if (errno == ENOMEM)
+				throw pmem::transaction_out_of_memory(
+					"Failed to allocate persistent memory object")
+					.with_pmemobj_errormsg();
+			else
+				throw pmem::transaction_alloc_error(
+					"Failed to allocate persistent memory object")
+					.with_pmemobj_errormsg();
+		}
+
+		return ptr;
 	}
 
 	/**
@@ -349,6 +363,7 @@ public:
 	 * @param[in] cnt the number of bytes to be allocated.
 	 *
 	 * @throw transaction_scope_error if called outside of a transaction.
+	 * @throw transaction_alloc_error on transactional allocation failure.
 	 */
 	pointer
 	allocate(size_type cnt, const_pointer = 0)
@@ -358,7 +373,20 @@ public:
 				"refusing to allocate memory outside of transaction scope");
 
 		/* allocate raw memory, no object construction */
-		return pmemobj_tx_alloc(1 /* void size */ * cnt, 0);
+		pointer ptr = pmemobj_tx_alloc(1 /* void size */ * cnt, 0);
+
+		if (ptr == nullptr) {
+			if (errno == ENOMEM)
+				throw pmem::transaction_out_of_memory(
+					"Failed to allocate persistent memory object")
+					.with_pmemobj_errormsg();
+			else
+				throw pmem::transaction_alloc_error(
+					"Failed to allocate persistent memory object")
+					.with_pmemobj_errormsg();
+		}
+
+		return ptr;
 	}
 
 	/**
-- 
2.43.0


From 726edb11251e3319bfc2dd4c94cd02e42486caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 50/51] fix: vector, segment_vector: running out of memory
 while a temporary element exists terminated the program

---
 include/libpmemobj++/detail/temp_value.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/detail/temp_value.hpp b/include/libpmemobj++/detail/temp_value.hpp
index f22ec2d..2a78343 100644
--- a/include/libpmemobj++/detail/temp_value.hpp
+++ b/include/libpmemobj++/detail/temp_value.hpp
@@ -108,7 +108,9 @@ struct temp_value<
 
 	~temp_value()
 	{
-		pmem::obj::delete_persistent<T>(ptr);
+		/* An aborted transaction has already undone the allocation. */
+		if (pmemobj_tx_stage() == TX_STAGE_WORK)
+			pmem::obj::delete_persistent<T>(ptr);
 	}
 
 	T &
-- 
2.43.0


From 8e6d39bda921fff479d66cccd387c2edbab49a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:07 +0000
Subject: [PATCH 51/51] fix: concurrent_hash_map: an insertion threw although
 the element was inserted when the table could not grow

---
 include/libpmemobj++/container/concurrent_hash_map.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libpmemobj++/container/concurrent_hash_map.hpp b/include/libpmemobj++/container/concurrent_hash_map.hpp
index 701fda6..88e4cdb 100644
--- a/include/libpmemobj++/container/concurrent_hash_map.hpp
+++ b/include/libpmemobj++/container/concurrent_hash_map.hpp
@@ -3198,7 +3198,14 @@ concurrent_hash_map<Key, T, Hash, KeyEqual, MutexType,
 		result->my_hash = h;
 	}
 
-	check_growth(m, new_size);
+	try {
+		check_growth(m, new_size);
+	} catch (const std::bad_alloc &) {
+		/* The element is already in the map, which has only not grown.
+		 * A failed transaction has to be reported, though. */
+		if (pmemobj_tx_stage() != TX_STAGE_NONE)
+			throw;
+	}
 
 	return inserted;
 }
-- 
2.43.0

