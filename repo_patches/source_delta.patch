From 058fb4547a997df96a86a7629a58e63c2022bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 1/5] fix: string table does not cache the empty string for ids
 which are not allocated yet

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..b2a7cd4 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -76,6 +76,10 @@ class StringTable::StringTableImpl {
     if (cache_.exists(id))
       return cache_.get(id);
 
+    // NOTE unknown id should not be cached as it can be allocated later
+    if (id >= offsets_.size())
+      return std::make_shared<std::string>();
+
     std::string str;
     readString(id, str);
     cache_.put(id, std::move(str));
-- 
2.43.0


From 7b467c47a8a8d5426ce5cf9f9dbcb6564a2e0a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 2/5] fix: restored bitmap can be extended, empty bitmap file
 has no entries

---
 core/src/index/BitmapStream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..ed471e7 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -4,14 +4,17 @@ using namespace utymap::index;
 
 void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
-  BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key)))
   {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
-    bitset.read(in);
+    BitmapIndex::Bitset stored;
+    stored.read(in);
+    // NOTE position of the last marker is not restored, so bits cannot be appended to stored bitset: rebuild it.
+    BitmapIndex::Bitset bitset;
+    for (auto i = stored.begin(); i != stored.end(); ++i)
+      bitset.set(*i);
     bitmap.emplace(key, bitset);
-  } while (in);
+  }
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
-- 
2.43.0


From 38e3ec4c92686e2d1cb1ba15abfd83450bb690a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 3/5] fix: text search respects or-terms which are absent in
 quad key

---
 core/src/index/BitmapIndex.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index c453d4b..822041c 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -54,8 +54,11 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
           bitset = b.logicalor(bitset);
         }, [](){ return true; });
 
+        // NOTE result of "or" terms has to be respected even if none of them is present in quad key
+        bool isConstrained = !orTerms.empty();
         applyOperation(andTerms, bitmap, [&](const Bitset &b) {
-          if (bitset.sizeInBits() == 0) {
+          if (!isConstrained) {
+            isConstrained = true;
             bitset = b;
             return;
           }
-- 
2.43.0


From 886664bea4f2e4d44c42a0464e022c71cc62c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 4/5] fix: persistent store does not rely on stream position
 left by previous operation

---
 core/src/index/PersistentElementStore.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..55142f5 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -116,17 +116,19 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void store(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    // NOTE read position depends on previous searches
+    quadKeyData->dataFile->seekg(0, std::ios::end);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
+
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
     // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
 
     // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
     ElementStream::write(*quadKeyData->dataFile, element);
 
     // write element search data
@@ -149,6 +151,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
         (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
 
-- 
2.43.0


From 9afb7f19713c1f0e64fb09101653629729eb4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 5/5] fix: search in persistent store does not create files of
 quad key without data

---
 core/src/index/PersistentElementStore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 55142f5..d4c3105 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -150,6 +150,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
+    // No elements for this quad key
+    if (!hasData(quadKey)) return;
+
     const auto &quadKeyData = getQuadKeyData(quadKey);
     quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-- 
2.43.0

