From d9f55e881fc512164b923efe76b67b17f5f3e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 01/49] fix: report failures of request setup through the error
 callback

Level of detail validation and string registration ran before the guarded
section, so their exceptions crossed the C interface.
---
 core/shared/Search.hpp  |  8 ++++----
 core/shared/Storage.hpp | 45 ++++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index 6584be8..fe1823b 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -28,11 +28,11 @@ public:
                      OnElementLoaded *elementCallback,         // element callback
                      OnError *errorCallback,                   // error callback
                      utymap::CancellationToken *cancellationToken) {
-    utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
-                             utymap::GeoCoordinate(maxLatitude, maxLongitude));
-    utymap::LodRange lodRange(startLod, endLod);
-    ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
     ::safeExecute([&]() {
+      utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
+                               utymap::GeoCoordinate(maxLatitude, maxLongitude));
+      utymap::LodRange lodRange(startLod, endLod);
+      ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
       context_.geoStore.search(notTerms, andTerms, orTerms, bbox, lodRange, elementVisitor, *cancellationToken);
     }, errorCallback);
   }
diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 750c241..06afab4 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -36,8 +36,8 @@ public:
                   utymap::CancellationToken *cancelToken) {
     utymap::BoundingBox bbox(utymap::GeoCoordinate(minLat, minLon),
                              utymap::GeoCoordinate(maxLat, maxLon));
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, bbox, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -50,8 +50,8 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -69,6 +69,28 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
+    ::safeExecute([&]() {
+      addElement(key, styleFile, id, vertices, vertexLength, tags, tagLength, startLod, endLod, *cancellationToken);
+    }, errorCallback);
+  }
+
+  /// Checks whether data is present in any registered stores for given quad key.
+  bool hasData(int tileX, int tileY, int levelOfDetail) const {
+    return context_.geoStore.hasData(utymap::QuadKey(levelOfDetail, tileX, tileY));
+  }
+
+private:
+  /// Creates element from raw data and adds it to store.
+  void addElement(const char *key,
+                  const char *styleFile,
+                  std::uint64_t id,
+                  const double *vertices,
+                  int vertexLength,
+                  const char **tags,
+                  int tagLength,
+                  int startLod,
+                  int endLod,
+                  const utymap::CancellationToken &cancelToken) {
     utymap::LodRange lod(startLod, endLod);
     std::vector<utymap::entities::Tag> elementTags;
     elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
@@ -84,7 +106,7 @@ public:
       node.id = id;
       node.tags = elementTags;
       node.coordinate = utymap::GeoCoordinate(vertices[0], vertices[1]);
-      addToStore(key, styleFile, node, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, node, lod, cancelToken);
       return;
     }
 
@@ -100,33 +122,24 @@ public:
       area.id = id;
       area.coordinates = coordinates;
       area.tags = elementTags;
-      addToStore(key, styleFile, area, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, area, lod, cancelToken);
     }
     else {
       utymap::entities::Way way;
       way.id = id;
       way.coordinates = coordinates;
       way.tags = elementTags;
-      addToStore(key, styleFile, way, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, way, lod, cancelToken);
     }
   }
 
-  /// Checks whether data is present in any registered stores for given quad key.
-  bool hasData(int tileX, int tileY, int levelOfDetail) const {
-    return context_.geoStore.hasData(utymap::QuadKey(levelOfDetail, tileX, tileY));
-  }
-
-private:
   /// Adds element to store.
   void addToStore(const char *key,
                   const char *styleFile,
                   const utymap::entities::Element &element,
                   const utymap::LodRange &range,
-                  OnError *errorCallback,
-                  utymap::CancellationToken *cancelToken) {
-    safeExecute([&]() {
-      context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), *cancelToken);
-    }, errorCallback);
+                  const utymap::CancellationToken &cancelToken) {
+    context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), cancelToken);
   }
 
   /// Gets id for the string.
-- 
2.43.0


From 9312b7fd7cae1eda54349a7877841f11d7b475d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 02/49] fix: guard the style provider registry against
 concurrent requests

---
 core/shared/Application.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/shared/Application.hpp b/core/shared/Application.hpp
index 7e36fd6..6ac5c8c 100644
--- a/core/shared/Application.hpp
+++ b/core/shared/Application.hpp
@@ -11,6 +11,8 @@
 #include "heightmap/SrtmElevationProvider.hpp"
 #include "mapcss/MapCssParser.hpp"
 
+#include <mutex>
+
 /// Composes object graph and exposes functionality as API.
 class Application {
  public:
@@ -41,6 +43,7 @@ class Application {
  private:
   /// Gets registered style provider by its style path.
   const utymap::mapcss::StyleProvider &getStyleProvider(const std::string &stylePath) {
+    std::lock_guard<std::mutex> lock(styleLock_);
     auto pair = styleProviders_.find(stylePath);
     if (pair != styleProviders_.end())
       return *pair->second;
@@ -75,6 +78,7 @@ class Application {
   utymap::heightmap::FlatElevationProvider flatEleProvider_;
   utymap::heightmap::SrtmElevationProvider srtmEleProvider_;
   utymap::heightmap::GridElevationProvider gridEleProvider_;
+  std::mutex styleLock_;
   std::unordered_map<std::string, std::unique_ptr<const utymap::mapcss::StyleProvider>> styleProviders_;
 
   Configuration configuration_;
-- 
2.43.0


From 718c4c53f25d33a205ff3b3b2480b735bf3bc25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 03/49] fix: do not modify shared canvas filters on lookup

---
 core/src/mapcss/StyleProvider.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 940ea2f..c565a03 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -418,9 +418,13 @@ Style StyleProvider::forElement(const Element &element, int levelOfDetails) cons
 
 Style StyleProvider::forCanvas(int levelOfDetails) const {
   Style style({}, pimpl_->stringTable);
-  for (const auto &filter : pimpl_->filters.canvases[levelOfDetails]) {
-    for (const auto &declaration : filter.declarations) {
-      style.put(*declaration);
+  // NOTE lookup should not modify filters as they are shared between requests
+  auto filters = pimpl_->filters.canvases.find(levelOfDetails);
+  if (filters != pimpl_->filters.canvases.end()) {
+    for (const auto &filter : filters->second) {
+      for (const auto &declaration : filter.declarations) {
+        style.put(*declaration);
+      }
     }
   }
   return std::move(style);
-- 
2.43.0


From 6038a66bb8a3b53924e7583174583955cb5aa567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 04/49] fix: look up gradients under the lock which guards
 their insertion

---
 core/src/mapcss/StyleProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index c565a03..dacfbec 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -285,12 +285,12 @@ class StyleProvider::StyleProviderImpl {
   }
 
   const ColorGradient &getGradient(const std::string &key) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto gradientPair = gradients.find(key);
     if (gradientPair==gradients.end()) {
       auto gradient = utymap::utils::GradientUtils::parseGradient(key);
       if (gradient->empty())
         throw MapCssException("Invalid gradient: " + key);
-      std::lock_guard<std::mutex> lock(lock_);
       gradients.emplace(key, std::move(gradient));
       gradientPair = gradients.find(key);
     }
-- 
2.43.0


From 9dc0dff105c18b3d3321aadd499ef00c71c18a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 05/49] fix: serialise access to element store data shared by
 concurrent requests

---
 core/src/index/BitmapIndex.cpp            |  2 ++
 core/src/index/BitmapIndex.hpp            |  7 +++-
 core/src/index/InMemoryElementStore.cpp   | 38 ++++++++++++++------
 core/src/index/PersistentElementStore.cpp | 42 ++++++++++++++---------
 4 files changed, 62 insertions(+), 27 deletions(-)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index c453d4b..503dbf1 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -45,6 +45,7 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
   for (int lod = query.range.start; lod <= query.range.end; ++lod) {
     utymap::utils::GeoUtils::visitTileRange(query.boundingBox, lod,
       [&](const QuadKey &quadKey, const BoundingBox&) {
+        std::unique_lock<std::mutex> lock(dataLock_);
         if (!hasData(quadKey)) return;
 
         auto& bitmap = getBitmap(quadKey);
@@ -69,6 +70,7 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
           bitset = b.logicalxor(bitset).logicaland(bitset);
         }, [](){ return true; });
 
+        lock.unlock();
         for (auto i = bitset.begin(); i != bitset.end(); ++i) {
           notify(quadKey, static_cast<std::uint32_t >(*i), visitor);
         }
diff --git a/core/src/index/BitmapIndex.hpp b/core/src/index/BitmapIndex.hpp
index b63b8ad..a43e148 100644
--- a/core/src/index/BitmapIndex.hpp
+++ b/core/src/index/BitmapIndex.hpp
@@ -8,6 +8,7 @@
 #include "entities/Element.hpp"
 
 #include <ewah/ewah.h>
+#include <mutex>
 #include <unordered_map>
 
 namespace utymap {
@@ -38,7 +39,7 @@ class BitmapIndex {
 
   virtual ~BitmapIndex() = default;
 
-  /// Adds element into index
+  /// Adds element into index. Should be called with data lock held.
   void add(const utymap::entities::Element &element,
            const utymap::QuadKey &quadKey,
            const std::uint32_t order);
@@ -63,6 +64,10 @@ class BitmapIndex {
   /// Checks whether data exist for given quad key.
   virtual bool hasData(const utymap::QuadKey& quadKey) const = 0;
 
+  /// Guards bitmaps and data they refer to. It is held by the index while it uses
+  /// bitmap and while it checks for data, but not while it notifies visitor.
+  mutable std::mutex dataLock_;
+
  private:
   /// Gets tokens from element.
   std::vector<std::uint32_t> tokenize(const utymap::entities::Element &element);
diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index e804289..89ca61e 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -50,6 +50,11 @@ class InMemoryStringIndex : public BitmapIndex {
       elementsMap_(elementsMap),
       bitmaps_() {}
 
+  /// Gets mutex which guards both bitmaps and elements.
+  std::mutex &getLock() const {
+    return dataLock_;
+  }
+
   void erase(const utymap::QuadKey &quadKey) override {
     bitmaps_.erase(quadKey);
   }
@@ -58,11 +63,7 @@ class InMemoryStringIndex : public BitmapIndex {
   void notify(const utymap::QuadKey& quadKey,
               const std::uint32_t order,
               ElementVisitor &visitor) override {
-    auto elements = elementsMap_.find(quadKey);
-    if (elements==elementsMap_.end())
-      throw std::domain_error("Cannot find element in memory while searching text!");
-
-    elements->second.at(order)->accept(visitor);
+    getElement(quadKey, order)->accept(visitor);
   }
 
   Bitmap &getBitmap(const utymap::QuadKey &quadKey) override {
@@ -74,6 +75,15 @@ class InMemoryStringIndex : public BitmapIndex {
   }
 
  private:
+  std::shared_ptr<Element> getElement(const utymap::QuadKey &quadKey, const std::uint32_t order) const {
+    std::lock_guard<std::mutex> lock(dataLock_);
+    auto elements = elementsMap_.find(quadKey);
+    if (elements==elementsMap_.end())
+      throw std::domain_error("Cannot find element in memory while searching text!");
+
+    return elements->second.at(order);
+  }
+
   const ElementMap &elementsMap_;
   Bitmaps bitmaps_;
 };
@@ -98,22 +108,29 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   void search(const utymap::QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    auto it = begin(quadKey);
-    // No elements for this quad key
-    if (it == end())
-      return;
+    Elements elements;
+    {
+      std::lock_guard<std::mutex> lock(stringIndex_.getLock());
+      auto it = begin(quadKey);
+      // No elements for this quad key
+      if (it == end())
+        return;
+      elements = it->second;
+    }
 
-    for (const auto &element : it->second) {
+    for (const auto &element : elements) {
       if (cancelToken.isCancelled()) break;
       element->accept(visitor);
     }
   }
 
   bool hasData(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::mutex> lock(stringIndex_.getLock());
     return elementsMap_.find(quadKey)!=elementsMap_.end();
   }
 
   void store(const utymap::entities::Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(stringIndex_.getLock());
     auto &elements = elementsMap_[quadKey];
 
     stringIndex_.add(element, quadKey, static_cast<std::uint32_t>(elements.size()));
@@ -122,6 +139,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
   void erase(const utymap::QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(stringIndex_.getLock());
     elementsMap_.erase(quadKey);
     stringIndex_.erase(quadKey);
   }
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..54f0812 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -55,7 +55,6 @@ struct QuadKeyData {
 
   BitmapData& getBitmap() const {
     if (bitmapData_->data.empty()) {
-      // TODO not thread safe!
       std::fstream bitmapFile;
       bitmapFile.open(bitmapData_->path, std::ios::in | std::ios::binary);
       BitmapStream::read(bitmapFile, bitmapData_->data);
@@ -104,7 +103,6 @@ private:
 
 using Cache = utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator>;
 
-// TODO improve thread safety!
 class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  public:
   PersistentElementStoreImpl(const std::string &dataPath,
@@ -115,6 +113,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     cache_(12) {}
 
   void store(const Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(dataLock_);
     const auto &quadKeyData = getQuadKeyData(quadKey);
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
@@ -149,17 +148,12 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
-    auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
+    auto count = getCount(*quadKeyData);
 
-    quadKeyData->indexFile->seekg(0, std::ios::beg);
     for (std::uint32_t i = 0; i < count; ++i) {
       if (cancelToken.isCancelled()) break;
 
-      auto entry = readIndexEntry(*quadKeyData);
-      quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-      ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry ))->accept(visitor);
+      readElement(*quadKeyData, i)->accept(visitor);
     }
   }
 
@@ -169,6 +163,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void erase(const utymap::QuadKey &quadKey) override {
+    std::lock_guard<std::mutex> dataLock(dataLock_);
     auto quadKeyData = getQuadKeyData(quadKey);
     {
       std::lock_guard<std::mutex> lock(lock_);
@@ -182,6 +177,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::mutex> lock(lock_);
     cache_.clear();
   }
 
@@ -190,13 +186,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               const std::uint32_t order,
               ElementVisitor &visitor) override {
     auto quadKeyData = getQuadKeyData(quadKey);
-    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
-
-    quadKeyData->indexFile->seekg(offset, std::ios::beg);
-    auto entry = readIndexEntry(*quadKeyData);
-    quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
-
-    ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry))->accept(visitor);
+    readElement(*quadKeyData, order)->accept(visitor);
   }
 
   Bitmap& getBitmap(const utymap::QuadKey& quadKey) override {
@@ -226,6 +216,26 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     return ss.str();
   }
 
+  /// Gets amount of elements stored for given quad key.
+  std::uint32_t getCount(const QuadKeyData &quadKeyData) {
+    std::lock_guard<std::mutex> lock(dataLock_);
+    quadKeyData.indexFile->seekg(0, std::ios::end);
+    return static_cast<std::uint32_t>(quadKeyData.indexFile->tellg() /
+        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
+  }
+
+  /// Reads element with given store order.
+  std::unique_ptr<Element> readElement(const QuadKeyData &quadKeyData, const std::uint32_t order) {
+    std::lock_guard<std::mutex> lock(dataLock_);
+    auto offset = order * (sizeof(std::uint64_t) + sizeof(std::uint32_t));
+
+    quadKeyData.indexFile->seekg(offset, std::ios::beg);
+    auto entry = readIndexEntry(quadKeyData);
+    quadKeyData.dataFile->seekg(std::get<1>(entry), std::ios::beg);
+
+    return ElementStream::read(*quadKeyData.dataFile, std::get<0>(entry));
+  }
+
   /// Reads element info from index.
   std::tuple<std::uint64_t, std::uint32_t> readIndexEntry(const QuadKeyData &quadKeyData) {
     std::uint64_t id;
-- 
2.43.0


From 5b77d3c0cf923543c0ae287e88de751a4e8a19b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:12 +0000
Subject: [PATCH 06/49] fix: take sizes and offsets of element files at their
 end, write data before its index entry

---
 core/src/index/PersistentElementStore.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 54f0812..49b2f15 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -115,19 +115,20 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void store(const Element &element, const QuadKey &quadKey) {
     std::lock_guard<std::mutex> lock(dataLock_);
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    // NOTE current positions depend on what was read last: move them to the end to get sizes
+    quadKeyData->dataFile->seekg(0, std::ios::end);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
+    // write element data
+    ElementStream::write(*quadKeyData->dataFile, element);
+
     // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
 
-    // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
-    ElementStream::write(*quadKeyData->dataFile, element);
-
     // write element search data
     add(element, quadKey, order);
     // TODO we always clean/write the whole file here.
-- 
2.43.0


From 7d5756b06de7b2822af3d4b3e55cdec83b71f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:04 +0000
Subject: [PATCH 07/49] fix: stop text search when its request is cancelled

---
 core/src/index/BitmapIndex.cpp            | 7 ++++++-
 core/src/index/BitmapIndex.hpp            | 4 +++-
 core/src/index/InMemoryElementStore.cpp   | 2 +-
 core/src/index/PersistentElementStore.cpp | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index 503dbf1..bd32592 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -36,7 +36,9 @@ void BitmapIndex::add(const Element &element, const utymap::QuadKey &quadKey, co
   }
 }
 
-void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visitor) {
+void BitmapIndex::search(const BitmapIndex::Query &query,
+                         ElementVisitor &visitor,
+                         const utymap::CancellationToken &cancelToken) {
   Ids andTerms, orTerms, notTerms;
   tokenize(query.andTerms, andTerms);
   tokenize(query.orTerms, orTerms);
@@ -45,6 +47,8 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
   for (int lod = query.range.start; lod <= query.range.end; ++lod) {
     utymap::utils::GeoUtils::visitTileRange(query.boundingBox, lod,
       [&](const QuadKey &quadKey, const BoundingBox&) {
+        if (cancelToken.isCancelled()) return;
+
         std::unique_lock<std::mutex> lock(dataLock_);
         if (!hasData(quadKey)) return;
 
@@ -72,6 +76,7 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
 
         lock.unlock();
         for (auto i = bitset.begin(); i != bitset.end(); ++i) {
+          if (cancelToken.isCancelled()) return;
           notify(quadKey, static_cast<std::uint32_t >(*i), visitor);
         }
       });
diff --git a/core/src/index/BitmapIndex.hpp b/core/src/index/BitmapIndex.hpp
index a43e148..7b3cd6f 100644
--- a/core/src/index/BitmapIndex.hpp
+++ b/core/src/index/BitmapIndex.hpp
@@ -2,6 +2,7 @@
 #define INDEX_BITMAPINDEX_HPP_DEFINED
 
 #include "BoundingBox.hpp"
+#include "CancellationToken.hpp"
 #include "LodRange.hpp"
 #include "StringTable.hpp"
 #include "QuadKey.hpp"
@@ -46,7 +47,8 @@ class BitmapIndex {
 
   /// Performs search for relevant data match query.
   void search(const Query &query,
-              utymap::entities::ElementVisitor &visitor);
+              utymap::entities::ElementVisitor &visitor,
+              const utymap::CancellationToken &cancelToken = utymap::CancellationToken());
 
   /// Erases all data from given quad key.
   virtual void erase(const utymap::QuadKey &quadKey) = 0;
diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index 89ca61e..2fdd5ab 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -102,7 +102,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
-    stringIndex_.search(query, filter);
+    stringIndex_.search(query, filter, cancelToken);
   }
 
   void search(const utymap::QuadKey &quadKey,
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 49b2f15..bfcc079 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -142,7 +142,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
-    BitmapIndex::search(query, filter);
+    BitmapIndex::search(query, filter, cancelToken);
   }
 
   void search(const QuadKey &quadKey,
-- 
2.43.0


From 9946df9a8c426aa5f9c55d120d4aa4c3bceac2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 08/49] fix: do not dereference nodes missing in osm data

---
 core/src/formats/osm/OsmDataVisitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index ff98906..d95e7b5 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -31,8 +31,13 @@ void OsmDataVisitor::visitWay(std::uint64_t id, std::vector<std::uint64_t> &node
   std::vector<GeoCoordinate> coordinates;
   coordinates.reserve(nodeIds.size());
   for (auto nodeId : nodeIds) {
-    coordinates.push_back(context_.nodeMap[nodeId]->coordinate);
+    // NOTE extracts may refer to nodes they do not contain
+    auto nodePair = context_.nodeMap.find(nodeId);
+    if (nodePair!=context_.nodeMap.end())
+      coordinates.push_back(nodePair->second->coordinate);
   }
+  if (coordinates.empty()) return;
+
   auto size = coordinates.size();
   if (size > 3 && coordinates[0]==coordinates[size - 1]) {
     coordinates.pop_back();
-- 
2.43.0


From 32dc1e486a0a9bd74a75216b54b587558baffc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 09/49] fix: resolve every relation once and ignore members
 which lead back to it

---
 core/src/formats/osm/BuildingProcessor.hpp |  8 ++++----
 core/src/formats/osm/OsmDataVisitor.cpp    | 17 ++++++++++++-----
 core/src/formats/osm/OsmDataVisitor.hpp    |  5 ++++-
 core/src/formats/osm/RelationProcessor.hpp | 14 +++++++++-----
 4 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/core/src/formats/osm/BuildingProcessor.hpp b/core/src/formats/osm/BuildingProcessor.hpp
index 8801232..d2ce34d 100644
--- a/core/src/formats/osm/BuildingProcessor.hpp
+++ b/core/src/formats/osm/BuildingProcessor.hpp
@@ -19,7 +19,7 @@ class BuildingProcessor {
   BuildingProcessor(utymap::entities::Relation &relation,
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context), resolve_(resolve) {
   }
 
@@ -40,8 +40,8 @@ class BuildingProcessor {
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    resolve_(*rel->second);
-    addToRelation(rel->second, role);
+    if (resolve_(*rel->second))
+      addToRelation(rel->second, role);
   }
 
  private:
@@ -58,7 +58,7 @@ class BuildingProcessor {
   utymap::entities::Relation &relation_;
   const utymap::formats::RelationMembers &members_;
   utymap::formats::OsmDataContext &context_;
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index d95e7b5..1dbbc62 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -82,13 +82,17 @@ bool OsmDataVisitor::hasTag(const std::string &key,
   return utymap::utils::hasTag(stringTable_.getId(key), stringTable_.getId(value), tags);
 }
 
-void OsmDataVisitor::resolve(Relation &relation) {
-  if (cancelToken_.isCancelled()) return;
+bool OsmDataVisitor::resolve(Relation &relation) {
+  if (cancelToken_.isCancelled()) return false;
 
   auto membersPair = relationMembers_.find(relation.id);
-  // already resolved
-  if (relation.elements.size()==membersPair->second.size())
-    return;
+  if (membersPair==relationMembers_.end())
+    return false;
+
+  // already resolved or, if the value is false, refers to itself through its members
+  auto state = resolved_.emplace(relation.id, false);
+  if (!state.second)
+    return state.first->second;
 
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
@@ -99,6 +103,9 @@ void OsmDataVisitor::resolve(Relation &relation) {
   else {
     RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
   }
+
+  resolved_[relation.id] = true;
+  return true;
 }
 
 utymap::BoundingBox OsmDataVisitor::complete() {
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 93eea1a..4ff60a8 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -39,7 +39,9 @@ class OsmDataVisitor final {
  private:
 
   bool hasTag(const std::string &key, const std::string &value, const std::vector<utymap::entities::Tag> &tags) const;
-  void resolve(utymap::entities::Relation &relation);
+
+  /// Resolves relation members once. Returns false if relation should not be used as a member.
+  bool resolve(utymap::entities::Relation &relation);
 
   const utymap::index::StringTable &stringTable_;
   std::function<bool(utymap::entities::Element &)> add_;
@@ -47,6 +49,7 @@ class OsmDataVisitor final {
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
+  std::unordered_map<std::uint64_t, bool> resolved_;
 };
 
 }
diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 3c2a0b2..5ede79a 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -19,7 +19,7 @@ class RelationProcessor final {
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
                     std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap,
-                    std::function<void(utymap::entities::Relation &)> resolve)
+                    std::function<bool(utymap::entities::Relation &)> resolve)
       : relation_(relation), members_(members), context_(context),
         relationMembersMap_(relationMembersMap), resolve_(resolve) {
   }
@@ -47,8 +47,8 @@ class RelationProcessor final {
     if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
       return;
 
-    resolve_(*rel->second);
-    relation_.elements.push_back(rel->second);
+    if (resolve_(*rel->second))
+      relation_.elements.push_back(rel->second);
   }
 
  private:
@@ -68,7 +68,11 @@ class RelationProcessor final {
   bool hasReferenceToParent(const utymap::entities::Relation &rel) {
     auto parentId = relation_.id;
 
-    auto members = relationMembersMap_.find(rel.id)->second;
+    auto membersPair = relationMembersMap_.find(rel.id);
+    if (membersPair==relationMembersMap_.end())
+      return false;
+
+    const auto &members = membersPair->second;
     auto it = std::find_if(members.begin(), members.end(),
                            [&parentId](const utymap::formats::RelationMember &m) {
                              return m.refId==parentId;
@@ -83,7 +87,7 @@ class RelationProcessor final {
 
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap_;
 
-  std::function<void(utymap::entities::Relation &)> resolve_;
+  std::function<bool(utymap::entities::Relation &)> resolve_;
 };
 
 }
-- 
2.43.0


From 9c1b9f2bd788dc7ca0b51e909be03da14608668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 10/49] fix: validate sizes and indices read from pbf files,
 release inflate state on failure

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 42 ++++++++++++++++++-----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index eb6c0c3..dbb7b1f 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -64,7 +64,7 @@ class OsmPbfParser final {
     // little endian to big endian
     sz = (((sz & 0xff) << 24) + ((sz & 0xff00) << 8) + ((sz & 0xff0000) >> 8) + ((sz >> 24) & 0xff));
 
-    if (sz > MaxBlobHeaderSize)
+    if (sz < 0 || sz > MaxBlobHeaderSize)
       throw std::domain_error("Blob header size is bigger than allowed");
 
     stream.read(buffer_.data(), sz);
@@ -82,7 +82,7 @@ class OsmPbfParser final {
 
     std::int32_t sz = header.datasize();
 
-    if (sz > MaxUncompressedBlobSize)
+    if (sz < 0 || sz > MaxUncompressedBlobSize)
       throw std::domain_error("Blob size is bigger then allowed");
 
     if (!stream.read(buffer_.data(), sz))
@@ -94,7 +94,9 @@ class OsmPbfParser final {
     // uncompressed
     if (blob.has_raw()) {
       sz = static_cast<std::int32_t>(blob.raw().size());
-      memcpy(unpack_buffer_.data(), buffer_.data(), sz);
+      if (sz > MaxUncompressedBlobSize)
+        throw std::domain_error("Blob size is bigger then allowed");
+      memcpy(unpack_buffer_.data(), blob.raw().data(), sz);
       return sz;
     }
 
@@ -105,6 +107,8 @@ class OsmPbfParser final {
       z.next_in = (unsigned char *) blob.zlib_data().c_str();
       z.avail_in = sz;
       z.next_out = reinterpret_cast<unsigned char *>(unpack_buffer_.data());
+      if (blob.raw_size() < 0 || blob.raw_size() > MaxUncompressedBlobSize)
+        throw std::domain_error("Blob size is bigger then allowed");
       z.avail_out = blob.raw_size();
       z.zalloc = Z_NULL;
       z.zfree = Z_NULL;
@@ -113,8 +117,10 @@ class OsmPbfParser final {
       if (inflateInit(&z)!=Z_OK)
         throw std::domain_error("Failed to init zlib stream");
 
-      if (inflate(&z, Z_FINISH)!=Z_STREAM_END)
+      if (inflate(&z, Z_FINISH)!=Z_STREAM_END) {
+        inflateEnd(&z);
         throw std::domain_error("Failed to inflate zlib stream");
+      }
 
       if (inflateEnd(&z)!=Z_OK)
         throw std::domain_error("Failed to deinit zlib stream");
@@ -158,6 +164,9 @@ class OsmPbfParser final {
 
         int current_kv = 0;
 
+        if (dn.lat_size()!=dn.id_size() || dn.lon_size()!=dn.id_size())
+          throw std::domain_error("Dense nodes have different amount of ids and coordinates");
+
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
           lat += 0.000000001*(primblock.lat_offset() + (primblock.granularity()*dn.lat(i)));
@@ -166,11 +175,13 @@ class OsmPbfParser final {
           Tags tags;
           tags.reserve(2);
           while (current_kv < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
+            if (current_kv + 1 >= dn.keys_vals_size())
+              throw std::domain_error("Dense node tag has no value");
             auto key = dn.keys_vals(current_kv);
             auto val = dn.keys_vals(current_kv + 1);
             Tag tag;
-            tag.key = primblock.stringtable().s(key);
-            tag.value = primblock.stringtable().s(val);
+            tag.key = getString(primblock, key);
+            tag.value = getString(primblock, val);
             current_kv += 2;
             tags.push_back(tag);
           }
@@ -198,6 +209,9 @@ class OsmPbfParser final {
 
       for (int i = 0; i < pg.relations_size(); ++i) {
         OSMPBF::Relation rel = pg.relations(i);
+        if (rel.types_size()!=rel.memids_size() || rel.roles_sid_size()!=rel.memids_size())
+          throw std::domain_error("Relation has different amount of members, types and roles");
+
         uint64_t id = 0;
         RelationMembers refs;
         refs.reserve(rel.memids_size());
@@ -206,7 +220,7 @@ class OsmPbfParser final {
           RelationMember member;
           member.refId = id;
           member.type = parseType(rel, l);
-          member.role = primblock.stringtable().s(rel.roles_sid(l));
+          member.role = getString(primblock, rel.roles_sid(l));
           refs.push_back(member);
         }
 
@@ -227,15 +241,25 @@ class OsmPbfParser final {
     }
   }
 
+  /// Gets string from string table of the block by index specified in the file.
+  static const std::string &getString(const OSMPBF::PrimitiveBlock &primblock, std::int64_t index) {
+    if (index < 0 || index >= primblock.stringtable().s_size())
+      throw std::domain_error("String index is out of string table");
+    return primblock.stringtable().s(static_cast<int>(index));
+  }
+
   template<typename T>
   void setTags(const T &object, const OSMPBF::PrimitiveBlock &primblock, Tags &tags) {
+    if (object.vals_size()!=object.keys_size())
+      throw std::domain_error("Element has different amount of tag keys and values");
+
     tags.reserve(object.keys_size());
     for (int i = 0; i < object.keys_size(); ++i) {
       Tag tag;
       auto key = object.keys(i);
       auto val = object.vals(i);
-      tag.key = primblock.stringtable().s(key);
-      tag.value = primblock.stringtable().s(val);
+      tag.key = getString(primblock, key);
+      tag.value = getString(primblock, val);
       tags.push_back(tag);
     }
   }
-- 
2.43.0


From 5e3795443240db11e6bdcb6c6213ca0d5e23e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 11/49] fix: release shape file resources when reading fails

---
 core/src/formats/shape/ShapeParser.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 914eb20..de3bb0b 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -9,6 +9,7 @@
 #include "shapefile/shapefil.h"
 
 #include <iostream>
+#include <memory>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -24,6 +25,7 @@ class ShapeParser final {
     SHPHandle shpFile = SHPOpen(path.c_str(), "rb");
     if (shpFile==NULL)
       throw std::domain_error("Cannot open shp file.");
+    std::unique_ptr<SHPInfo, void (*)(SHPHandle)> shpGuard(shpFile, SHPClose);
 
     int shapeType, entityCount;
     double adfMinBound[4], adfMaxBound[4];
@@ -32,6 +34,7 @@ class ShapeParser final {
     DBFHandle dbfFile = DBFOpen(path.c_str(), "rb");
     if (dbfFile==NULL)
       throw std::domain_error("Cannot open dbf file.");
+    std::unique_ptr<DBFInfo, void (*)(DBFHandle)> dbfGuard(dbfFile, DBFClose);
 
     if (DBFGetFieldCount(dbfFile)==0)
       throw std::domain_error("There are no fields in dbf table.");
@@ -43,15 +46,11 @@ class ShapeParser final {
       SHPObject *shape = SHPReadObject(shpFile, k);
       if (shape==NULL)
         throw std::domain_error("Unable to read shape:" + utymap::utils::toString(k));
+      std::unique_ptr<SHPObject, void (*)(SHPObject *)> shapeGuard(shape, SHPDestroyObject);
 
       Tags tags = parseTags(dbfFile, k);
       visitShape(*shape, tags, visitor);
-
-      SHPDestroyObject(shape);
     }
-
-    DBFClose(dbfFile);
-    SHPClose(shpFile);
   }
 
  private:
-- 
2.43.0


From 9902c823b965341da804522e1dd935e5f93e8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:58 +0000
Subject: [PATCH 12/49] fix: handle shapes without vertices or parts

---
 core/src/formats/shape/ShapeParser.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index de3bb0b..b21461a 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -119,6 +119,11 @@ class ShapeParser final {
       return;
     }
 
+    if (shape.nVertices < 1) {
+      std::cerr << "Arc type has no vertices.";
+      return;
+    }
+
     std::vector<utymap::GeoCoordinate> coordinates;
     coordinates.reserve(static_cast<std::size_t>(shape.nVertices));
     for (int i = 0; i < shape.nVertices; ++i) {
@@ -133,8 +138,8 @@ class ShapeParser final {
     members.reserve(static_cast<std::size_t>(shape.nParts));
     std::size_t coordIndex = 0;
     for (std::size_t i = 0, partNum = 0; i < shape.nVertices; ++i) {
-      int startIndex = shape.panPartStart[partNum];
-      if (partNum < shape.nParts && startIndex==i) {
+      if (partNum < shape.nParts && shape.panPartStart[partNum]==i) {
+        int startIndex = shape.panPartStart[partNum];
         coordIndex = static_cast<std::size_t>(partNum);
         members.push_back(PolygonMember());
         // TODO check inner/outer? Check whether this flag is true for closed polygon only
@@ -145,6 +150,8 @@ class ShapeParser final {
         members[coordIndex].coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
         ++partNum;
       }
+      if (members.empty())
+        throw std::domain_error("Polygon has vertices outside of its parts.");
       members[coordIndex].coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
     }
     visitor.visitRelation(members, tags);
-- 
2.43.0


From 71a40f4c94bd0cb730dc507670281696e765a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 13/49] fix: end mesh cache session on every exit and only by
 its owner

---
 core/src/builders/CacheBuilder.hpp | 18 ++++++++++---
 core/src/builders/MeshCache.cpp    | 42 +++++++++++++++++++-----------
 core/src/builders/MeshCache.hpp    |  4 +--
 3 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/core/src/builders/CacheBuilder.hpp b/core/src/builders/CacheBuilder.hpp
index 98f0538..58e353f 100644
--- a/core/src/builders/CacheBuilder.hpp
+++ b/core/src/builders/CacheBuilder.hpp
@@ -49,14 +49,24 @@ class CacheBuilder final : public ElementBuilder {
 
   void complete() override {
     builder_->complete();
-    if (cacheContext_) {
-      meshCache_.unwrap(*cacheContext_);
-      cacheContext_.release();
-    }
+    endSession(true);
+  }
+
+  ~CacheBuilder() {
+    // NOTE building is interrupted, so cached data is not completed.
+    endSession(false);
   }
 
  private:
+  void endSession(bool isCompleted) {
+    if (!cacheContext_ || isSessionEnded_) return;
+
+    isSessionEnded_ = true;
+    meshCache_.unwrap(*cacheContext_, isCompleted);
+  }
+
   MeshCache &meshCache_;
+  bool isSessionEnded_ = false;
   std::unique_ptr<BuilderContext> cacheContext_;
   std::unique_ptr<ElementBuilder> builder_;
 };
diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 1bce9f2..8d72b61 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -30,7 +30,10 @@ class MeshCache::MeshCacheImpl {
     auto filePath = getFilePath(context);
 
     std::lock_guard<std::mutex> lock(lock_);
-    return isCacheHit(context.quadKey, filePath) ? context : wrap(context, filePath);
+    // NOTE only one request at a time can cache the same quadkey: others are processed without cache.
+    return cachingQuads_.find(context.quadKey)!=cachingQuads_.end() || isCacheHit(context.quadKey, filePath)
+      ? context
+      : wrap(context, filePath);
   }
 
   bool fetch(const BuilderContext &context) {
@@ -47,25 +50,28 @@ class MeshCache::MeshCacheImpl {
     return true;
   }
 
-  void unwrap(const BuilderContext &context) {
+  void unwrap(const BuilderContext &context, bool isCompleted) {
     std::lock_guard<std::mutex> lock(lock_);
 
     auto entry = cachingQuads_.find(context.quadKey);
 
-    if (entry==cachingQuads_.end()) return;
+    // NOTE caching session can be finished only by the request which started it.
+    if (entry==cachingQuads_.end() || entry->second.owner!=&context.cancelToken) return;
 
-    if (entry->second->good()) {
-      if (context.cancelToken.isCancelled()) {
+    auto &file = *entry->second.file;
+
+    if (file.good()) {
+      if (!isCompleted || context.cancelToken.isCancelled()) {
         // NOTE no guarantee that all data was processed and saved.
         // So it is better to delete the whole file
-        entry->second->close();
+        file.close();
         // TODO any smarter option?
-        if (!entry->second->fail())
+        if (!file.fail())
           std::remove(getFilePath(context).c_str());
       } else {
-        entry->second->seekg(0, std::ios::beg);
-        *entry->second << static_cast<char>(1);
-        entry->second->close();
+        file.seekg(0, std::ios::beg);
+        file << static_cast<char>(1);
+        file.close();
       }
     }
 
@@ -73,6 +79,12 @@ class MeshCache::MeshCacheImpl {
   }
 
  private:
+  /// Represents caching which is in progress.
+  struct Session {
+    std::shared_ptr<std::fstream> file;
+    /// Identifies the request which started caching.
+    const CancellationToken *owner;
+  };
 
   /// Checks whether the data associated with given context is already cached on disk.
   bool isCacheHit(const QuadKey &quadKey, const std::string &filePath) const {
@@ -100,7 +112,7 @@ class MeshCache::MeshCacheImpl {
     // NOTE marker that processing in progress
     *file << static_cast<char>(0);
 
-    cachingQuads_.insert({context.quadKey, file});
+    cachingQuads_.insert({context.quadKey, Session{file, &context.cancelToken}});
 
     return BuilderContext(
         context.quadKey,
@@ -157,7 +169,7 @@ class MeshCache::MeshCacheImpl {
   static bool isGood(std::istream& stream) {
     if (!stream.good()) return false;
 
-    char status;
+    char status = 0;
     stream >> status;
     return status == 1;
   }
@@ -165,7 +177,7 @@ class MeshCache::MeshCacheImpl {
   const std::string dataPath_;
   const std::string extension_;
   std::mutex lock_;
-  std::map<QuadKey, std::shared_ptr<std::fstream>, QuadKey::Comparator> cachingQuads_;
+  std::map<QuadKey, Session, QuadKey::Comparator> cachingQuads_;
 };
 
 MeshCache::MeshCache(const std::string &directory, const std::string &extension) :
@@ -180,8 +192,8 @@ bool MeshCache::fetch(const BuilderContext &context) const {
   return isEnabled_ && pimpl_->fetch(context);
 }
 
-void MeshCache::unwrap(const BuilderContext &context) const {
-  pimpl_->unwrap(context);
+void MeshCache::unwrap(const BuilderContext &context, bool isCompleted) const {
+  pimpl_->unwrap(context, isCompleted);
 }
 
 MeshCache::~MeshCache() {}
diff --git a/core/src/builders/MeshCache.hpp b/core/src/builders/MeshCache.hpp
index e848b3a..7838b4d 100644
--- a/core/src/builders/MeshCache.hpp
+++ b/core/src/builders/MeshCache.hpp
@@ -33,8 +33,8 @@ class MeshCache final {
   /// Fetches data from cache. Returns true if operation is successful
   bool fetch(const BuilderContext &context) const;
 
-  /// Releases context.
-  void unwrap(const BuilderContext &context) const;
+  /// Releases context. Cached data is discarded if it is not completed.
+  void unwrap(const BuilderContext &context, bool isCompleted = true) const;
 
   ~MeshCache();
 
-- 
2.43.0


From fa8e9c345f96fb897a3ea87ec2f7600b45f49f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 14/49] fix: look up elevation data under the lock which guards
 its loading

---
 core/src/heightmap/GridElevationProvider.hpp | 43 +++++++++-----------
 core/src/heightmap/SrtmElevationProvider.hpp | 15 +++----
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 29a6b14..786c38a 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -46,31 +46,29 @@ class GridElevationProvider final : public ElevationProvider {
 
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    auto data = data_.find(quadKey);
-    if (data==data_.end()) {
-      preload(quadKey);
-      data = data_.find(quadKey);
-    }
+    std::lock_guard<std::mutex> lock(lock_);
+
+    const auto &data = getData(quadKey);
 
-    int resolution = data->second.resolution;
+    int resolution = data.resolution;
 
-    int x = static_cast<int>(longitude*Scale) - data->second.xStart;
-    int y = static_cast<int>(latitude*Scale) - data->second.yStart;
+    int x = static_cast<int>(longitude*Scale) - data.xStart;
+    int y = static_cast<int>(latitude*Scale) - data.yStart;
 
-    int x0 = clamp(x/data->second.xStep, 0, resolution);
-    int y0 = clamp(y/data->second.yStep, 0, resolution);
+    int x0 = clamp(x/data.xStep, 0, resolution);
+    int y0 = clamp(y/data.yStep, 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data->second.xStep)/data->second.xStep;
-    double dy = static_cast<double>(y - y0*data->second.yStep)/data->second.yStep;
+    double dx = static_cast<double>(x - x0*data.xStep)/data.xStep;
+    double dy = static_cast<double>(y - y0*data.yStep)/data.yStep;
 
     int cellSize = resolution + 1;
-    int height2 = data->second.heights[x0 + y0*cellSize];
-    int height0 = data->second.heights[x0 + y1*cellSize];
-    int height3 = data->second.heights[x1 + y0*cellSize];
-    int height1 = data->second.heights[x1 + y1*cellSize];
+    int height2 = data.heights[x0 + y0*cellSize];
+    int height0 = data.heights[x0 + y1*cellSize];
+    int height3 = data.heights[x1 + y0*cellSize];
+    int height1 = data.heights[x1 + y1*cellSize];
 
     // Bilinear interpolation
     // h0------------h1
@@ -90,12 +88,11 @@ class GridElevationProvider final : public ElevationProvider {
     return std::max(lower, std::min(n, upper));
   }
 
-  /// Preloads data for given quadkey.
-  void preload(const utymap::QuadKey &quadKey) const {
-    std::lock_guard<std::mutex> lock(lock_);
-
-    if (data_.find(quadKey)!=data_.end())
-      return;
+  /// Gets data for given quadkey, loads it if necessary. Lock should be acquired by caller.
+  const EleData &getData(const utymap::QuadKey &quadKey) const {
+    auto entry = data_.find(quadKey);
+    if (entry!=data_.end())
+      return entry->second;
 
     std::string filePath = getFilePath(quadKey);
     std::fstream file(filePath);
@@ -124,7 +121,7 @@ class GridElevationProvider final : public ElevationProvider {
     data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
     data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
 
-    data_.emplace(quadKey, std::move(data));
+    return data_.emplace(quadKey, std::move(data)).first->second;
   }
 
   std::string getFilePath(const QuadKey &quadKey) const {
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 2a308e2..be5457d 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -59,12 +59,8 @@ class SrtmElevationProvider final : public ElevationProvider {
 
  private:
 
-  void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
-    std::lock_guard<std::mutex> lock(lock_);
-
-    if (cells_.find(hgtCellKey)!=cells_.end())
-      return;
-
+  /// Loads cells which cover given quadkey. Lock should be acquired by caller.
+  void preload(const utymap::QuadKey &quadKey) const {
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
     int minLat = static_cast<int>(bbox.minPoint.latitude);
     int minLon = static_cast<int>(bbox.minPoint.longitude);
@@ -95,10 +91,15 @@ class SrtmElevationProvider final : public ElevationProvider {
     double secondsLon = (longitude - lonDec)*3600;
 
     HgtCellKey hgtCellKey(latDec, lonDec);
+
+    std::lock_guard<std::mutex> lock(lock_);
+
     auto cellPtr = cells_.find(hgtCellKey);
     if (cellPtr==cells_.end()) {
-      preload(quadKey, hgtCellKey);
+      preload(quadKey);
       cellPtr = cells_.find(hgtCellKey);
+      if (cellPtr==cells_.end())
+        throw std::domain_error("Coordinate does not belong to cells of its quadkey.");
     }
 
     const auto &cell = cellPtr->second;
-- 
2.43.0


From 943a346fee05b1a315c5a1bd1e30db99e80948c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 15/49] fix: order elevation cells consistently

---
 core/src/heightmap/SrtmElevationProvider.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index be5457d..c02b722 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -27,7 +27,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     HgtCellKey(int lat, int lon) : lat(lat), lon(lon) {}
 
     bool operator<(const HgtCellKey &other) const {
-      return lat < other.lat || (other.lat >= lat && lon < other.lon);
+      return lat < other.lat || (lat==other.lat && lon < other.lon);
     }
   };
 
-- 
2.43.0


From c07b5595f5627474a2a4074455aaf25338324806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 16/49] fix: reject unknown element stores instead of
 registering empty ones

---
 core/src/index/GeoStore.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 382be60..803e692 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -31,7 +31,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    const auto &elementStore = getStore(storeKey);
     elementStore->store(element, range, styleProvider);
   }
 
@@ -40,7 +40,7 @@ class GeoStore::GeoStoreImpl final {
            const QuadKey &quadKey,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    const auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, quadKey, styleProvider);
     });
@@ -54,7 +54,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    const auto &elementStore = getStore(storeKey);
     auto bbox = add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, range, styleProvider);
     });
@@ -69,7 +69,7 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    const auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
       return elementStore->store(element, bbox, range, styleProvider);
     });
@@ -150,6 +150,13 @@ class GeoStore::GeoStoreImpl final {
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
+  const std::unique_ptr<ElementStore> &getStore(const std::string &storeKey) const {
+    auto store = storeMap_.find(storeKey);
+    if (store==storeMap_.end())
+      throw std::invalid_argument("Unknown element store: " + storeKey);
+    return store->second;
+  }
+
   static FormatType getFormatTypeFromPath(const std::string &path) {
     if (utymap::utils::endsWith(path, "pbf"))
       return FormatType::Pbf;
-- 
2.43.0


From cf581a1c2bf779268048579bc02717b502c83b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 17/49] fix: do not evict element data while another request
 uses it

---
 core/src/index/PersistentElementStore.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index bfcc079..1d6f26f 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -123,11 +123,14 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
     // write element data
+    // NOTE files are flushed as quad key data can be evicted from cache and opened again
     ElementStream::write(*quadKeyData->dataFile, element);
+    quadKeyData->dataFile->flush();
 
     // write element index
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
+    quadKeyData->indexFile->flush();
 
     // write element search data
     add(element, quadKey, order);
@@ -148,7 +151,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    const auto &quadKeyData = getQuadKeyData(quadKey);
+    auto quadKeyData = getQuadKeyDataSafe(quadKey);
     auto count = getCount(*quadKeyData);
 
     for (std::uint32_t i = 0; i < count; ++i) {
@@ -178,6 +181,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::mutex> dataLock(dataLock_);
     std::lock_guard<std::mutex> lock(lock_);
     cache_.clear();
   }
@@ -186,7 +190,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   void notify(const utymap::QuadKey& quadKey,
               const std::uint32_t order,
               ElementVisitor &visitor) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
+    auto quadKeyData = getQuadKeyDataSafe(quadKey);
     readElement(*quadKeyData, order)->accept(visitor);
   }
 
@@ -195,7 +199,13 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
  private:
-  /// Gets quad key data.
+  /// Gets quad key data: it may evict other data from cache, so nobody should use that in the meantime.
+  std::shared_ptr<QuadKeyData> getQuadKeyDataSafe(const QuadKey& quadKey) {
+    std::lock_guard<std::mutex> lock(dataLock_);
+    return getQuadKeyData(quadKey);
+  }
+
+  /// Gets quad key data. Should be called with data lock held.
   std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
     std::lock_guard<std::mutex> lock(lock_);
 
-- 
2.43.0


From 3852c805d70de5ea9565bd4c83f3276bbfd1eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 18/49] fix: report unknown roof and facade types instead of
 dereferencing a failed lookup

---
 core/src/builders/buildings/BuildingBuilder.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index f780cd0..7b042cd 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -1,3 +1,4 @@
+#include "Exceptions.hpp"
 #include "GeoCoordinate.hpp"
 #include "builders/MeshContext.hpp"
 #include "entities/Node.hpp"
@@ -295,7 +296,11 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
     double roofHeight = roofMeshContext.style.getValue(RoofHeightKey);
     auto direction = roofMeshContext.style.getString(RoofDirectionKey);
 
-    auto roofBuilder = RoofBuilderFactoryMap.find(roofType)->second(context_, roofMeshContext);
+    auto roofFactory = RoofBuilderFactoryMap.find(roofType);
+    if (roofFactory==RoofBuilderFactoryMap.end())
+      throw MapCssException("Invalid roof type: " + roofType);
+
+    auto roofBuilder = roofFactory->second(context_, roofMeshContext);
     roofBuilder->setHeight(roofHeight);
     roofBuilder->setMinHeight(elevation + height);
     roofBuilder->setColorNoiseFreq(0);
@@ -335,7 +340,11 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
                                                         id_);
 
     auto facadeType = facadeMeshContext.style.getString(FacadeTypeKey);
-    auto facadeBuilder = FacadeBuilderFactoryMap.find(facadeType)->second(context_, facadeMeshContext);
+    auto facadeFactory = FacadeBuilderFactoryMap.find(facadeType);
+    if (facadeFactory==FacadeBuilderFactoryMap.end())
+      throw MapCssException("Invalid facade type: " + facadeType);
+
+    auto facadeBuilder = facadeFactory->second(context_, facadeMeshContext);
 
     facadeBuilder->setHeight(height);
     facadeBuilder->setMinHeight(elevation);
-- 
2.43.0


From 1d0d5173480d3e06c769ee85dc9f3c49007e2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:26 +0000
Subject: [PATCH 19/49] fix: ignore multipolygon rings which contain each other

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index a0e46bc..461f628 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -229,6 +229,9 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
       break;
     }
 
+    // NOTE every ring is contained by another one (e.g. they are equal): cannot find out which one is outer
+    if (outer==nullptr) return;
+
     // find inner rings of that ring
     CoordinateSequences inners;
     for (auto ring = rings.begin(); ring!=rings.end();) {
-- 
2.43.0


From ad3d625f208f68e3f2f263844b3faaad0906b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 20/49] fix: do not read points of empty contours and outlines

---
 core/src/builders/buildings/BuildingBuilder.cpp          | 6 ++++++
 core/src/builders/buildings/roofs/MansardRoofBuilder.hpp | 2 +-
 core/src/builders/terrain/TerraGenerator.cpp             | 5 ++---
 core/src/math/Polygon.hpp                                | 2 ++
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index 7b042cd..a133222 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -258,6 +258,12 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
   }
 
   void build(const Element &element, const Style &style) {
+    // NOTE nothing can be built if none of outlines has points.
+    if (polygon_->points.size() < 2) {
+      polygon_.reset();
+      return;
+    }
+
     auto geoCoordinate = GeoCoordinate(polygon_->points[1], polygon_->points[0]);
 
     double height = style.getValue(StyleConsts::HeightKey());
diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index 2babcd0..d687284 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -47,7 +47,7 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
     offset.Execute(solution, -(min/10)*Scale);
 
     // NOTE: this is unexpected result for algorithm below, fallback to flat roof.
-    if (solution.size()!=1 || solution[0].size()!=path.size()) {
+    if (solution.size()!=1 || solution[0].empty() || solution[0].size()!=path.size()) {
       return FlatRoofBuilder::build(polygon);
     }
 
diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index e9dbe44..48cac0d 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -84,11 +84,10 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
 }
 
 std::vector<Vector2> TerraGenerator::restoreGeometry(const IntPath &geometry) const {
-  auto lastItemIndex = geometry.size() - 1;
   std::vector<utymap::math::Vector2> points;
   points.reserve(geometry.size());
-  for (std::size_t i = 0; i <= lastItemIndex; i++)
-    splitter_.split(geometry[i], geometry[i==lastItemIndex ? 0 : i + 1], points);
+  for (std::size_t i = 0; i < geometry.size(); i++)
+    splitter_.split(geometry[i], geometry[i + 1==geometry.size() ? 0 : i + 1], points);
 
   return std::move(points);
 }
diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index 9f7d71b..6dd5883 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -39,6 +39,8 @@ class Polygon final {
 
  private:
   void addContour(const std::vector<Vector2> &contour, bool isHole) {
+    if (contour.empty()) return;
+
     auto count = contour.size();
     if (contour[0]==contour[count - 1])
       count--;
-- 
2.43.0


From 6135b306238da87a808278cf8d7c51b30e829876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 21/49] fix: handle ways without coordinates

---
 core/shared/Storage.hpp                        | 3 +++
 core/src/builders/misc/LampBuilder.cpp         | 2 +-
 core/src/builders/poi/TreeBuilder.cpp          | 2 +-
 core/src/formats/osm/MultipolygonProcessor.cpp | 3 ++-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 06afab4..6497c55 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -116,6 +116,9 @@ private:
       coordinates.push_back(utymap::GeoCoordinate(vertices[i], vertices[i + 1]));
     }
 
+    if (coordinates.empty())
+      throw std::invalid_argument("Element has no vertices.");
+
     // Way or Area
     if (coordinates[0] == coordinates[coordinates.size() - 1]) {
       utymap::entities::Area area;
diff --git a/core/src/builders/misc/LampBuilder.cpp b/core/src/builders/misc/LampBuilder.cpp
index db01c32..05c6e70 100644
--- a/core/src/builders/misc/LampBuilder.cpp
+++ b/core/src/builders/misc/LampBuilder.cpp
@@ -44,7 +44,7 @@ void LampBuilder::visitWay(const utymap::entities::Way &way) {
 
   LSystemGenerator::generate(context_, style, lampMesh, center, 0);
 
-  for (std::size_t i = 0; i < way.coordinates.size() - 1; ++i) {
+  for (std::size_t i = 0; i + 1 < way.coordinates.size(); ++i) {
     const auto &p0 = way.coordinates[i];
     const auto &p1 = way.coordinates[i + 1];
 
diff --git a/core/src/builders/poi/TreeBuilder.cpp b/core/src/builders/poi/TreeBuilder.cpp
index b4b797e..3514b3d 100644
--- a/core/src/builders/poi/TreeBuilder.cpp
+++ b/core/src/builders/poi/TreeBuilder.cpp
@@ -43,7 +43,7 @@ void TreeBuilder::visitWay(const utymap::entities::Way &way) {
 
   double treeStepInMeters = style.getValue(TreeStepKey);
 
-  for (std::size_t i = 0; i < way.coordinates.size() - 1; ++i) {
+  for (std::size_t i = 0; i + 1 < way.coordinates.size(); ++i) {
     const auto &p0 = way.coordinates[i];
     const auto &p1 = way.coordinates[i + 1];
     utymap::utils::copyMeshAlong(context_.quadKey,
diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index 461f628..d97ed3e 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -109,7 +109,8 @@ void MultipolygonProcessor::process() {
         coordinates = areaPair->second->coordinates;
 
         // NOTE make coordinates to be closed ring
-        coordinates.push_back(coordinates[0]);
+        if (!coordinates.empty())
+          coordinates.push_back(coordinates[0]);
 
         // NOTE merge tags to relation
         // hasNoTags prevents the case where relation has members with their own tags
-- 
2.43.0


From e3fe2dbc0cb82295c36d10ef9757dd5f669488d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 22/49] fix: handle empty style values, identifier rules
 without condition and short colors

---
 core/src/mapcss/Style.hpp         | 3 +++
 core/src/mapcss/StyleProvider.cpp | 3 +++
 core/src/utils/GradientUtils.cpp  | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/core/src/mapcss/Style.hpp b/core/src/mapcss/Style.hpp
index 89e4914..a962549 100644
--- a/core/src/mapcss/Style.hpp
+++ b/core/src/mapcss/Style.hpp
@@ -137,6 +137,9 @@ struct Style final {
 
     const auto &declaration = get(keyId);
     const auto &rawValue = declaration.value();
+    if (rawValue.empty())
+      return 0;
+
     char dimen = rawValue[rawValue.size() - 1];
 
     if (dimen=='m') {
diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index dacfbec..2ceed85 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -317,6 +317,9 @@ class StyleProvider::StyleProviderImpl {
 
   /// Adds rule for element with specific id.
   void addIdentifierRule(const Selector &selector, const std::vector<Declaration> &declarations) {
+    if (selector.conditions.empty())
+      throw utymap::MapCssException("Identifier rule has no conditions.");
+
     auto filter = IdentifierFilter();
     addDeclarations(declarations, [&](std::shared_ptr<const StyleDeclaration> declaration) {
       auto id = utymap::utils::lexicalCast<std::uint64_t>(selector.conditions[0].value);
diff --git a/core/src/utils/GradientUtils.cpp b/core/src/utils/GradientUtils.cpp
index ae2b972..fb4c693 100644
--- a/core/src/utils/GradientUtils.cpp
+++ b/core/src/utils/GradientUtils.cpp
@@ -229,6 +229,13 @@ inline Color fromName(const std::string &colorStr) {
 
 /// Gets integer representation of color from color string.
 inline Color fromHex(const std::string &colorStr) {
+  // NOTE short form, e.g. #fff
+  if (colorStr.size()==4)
+    return Color(hexToInt(colorStr[1])*17, hexToInt(colorStr[2])*17, hexToInt(colorStr[3])*17, 255);
+
+  if (colorStr.size() < 7)
+    throw utymap::MapCssException("Invalid color: " + colorStr);
+
   auto r = hexToInt(colorStr[2]) + hexToInt(colorStr[1])*16;
   auto g = hexToInt(colorStr[4]) + hexToInt(colorStr[3])*16;
   auto b = hexToInt(colorStr[6]) + hexToInt(colorStr[5])*16;
-- 
2.43.0


From ecb2954e5c5544b427b20757f8b432bd43d548fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 23/49] fix: ignore turtle restore without saved state

---
 core/src/lsys/Turtle3d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index 34ea2d9..0aeaa57 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -71,6 +71,9 @@ void Turtle3d::save() {
 }
 
 void Turtle3d::restore() {
+  // NOTE there is no saved state, e.g. due to unbalanced rules.
+  if (states_.empty()) return;
+
   state_ = states_.top();
   states_.pop();
 }
-- 
2.43.0


From 3dfab92bb9186d3abd1f9453f54cb0943cd3f042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:18 +0000
Subject: [PATCH 24/49] fix: write strings to disk before index entries which
 refer to them

---
 core/src/index/StringTable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..a3a0088 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -101,13 +101,16 @@ class StringTable::StringTableImpl {
     std::uint32_t offset = static_cast<std::uint32_t>(dataFile_.tellg());
 
     // write string
+    // NOTE files are flushed as stored elements refer to their strings.
     dataFile_.seekp(0, ios::end);
     dataFile_ << data.c_str() << '\0';
+    dataFile_.flush();
 
     // write index entry
     indexFile_.seekp(0, ios::end);
     indexFile_.write(reinterpret_cast<char *>(&hash), sizeof(hash));
     indexFile_.write(reinterpret_cast<char *>(&offset), sizeof(offset));
+    indexFile_.flush();
 
     map_[hash].push_back(nextId_);
     offsets_.push_back(offset);
-- 
2.43.0


From 52866e637d4f17c8d46e6a5a9d064c3900ba054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 25/49] fix: sort tags of elements added by application

---
 core/shared/Storage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 6497c55..f959ff5 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -99,6 +99,8 @@ private:
       auto valueId = getStringId(tags[i + 1]);
       elementTags.push_back(utymap::entities::Tag(keyId, valueId));
     }
+    // NOTE: tags should be sorted to speed up mapcss styling
+    std::sort(elementTags.begin(), elementTags.end());
 
     // Node
     if (vertexLength / 2 == 1) {
-- 
2.43.0


From 6ba114e4938c3bd2b39737943bef67e44be2c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:25 +0000
Subject: [PATCH 26/49] fix: release memory of triangulation when filling a
 mesh fails

---
 core/src/builders/MeshBuilder.cpp | 60 +++++++++++++++++--------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 7a115ca..4a10ea6 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -20,6 +20,38 @@ namespace {
 // NOTE triangle library is not thread safe.
 std::mutex lock_;
 
+/// Releases memory allocated for output of triangle library.
+class TriangulateGuard final {
+ public:
+  explicit TriangulateGuard(triangulateio &io) : io_(io) {
+    io_.pointlist = nullptr;
+    io_.pointattributelist = nullptr;
+    io_.pointmarkerlist = nullptr;
+    io_.trianglelist = nullptr;
+    io_.triangleattributelist = nullptr;
+    io_.trianglearealist = nullptr;
+    io_.segmentlist = nullptr;
+    io_.segmentmarkerlist = nullptr;
+  }
+
+  TriangulateGuard(const TriangulateGuard &) = delete;
+  TriangulateGuard &operator=(const TriangulateGuard &) = delete;
+
+  ~TriangulateGuard() {
+    free(io_.pointlist);
+    free(io_.pointattributelist);
+    free(io_.pointmarkerlist);
+    free(io_.trianglelist);
+    free(io_.triangleattributelist);
+    free(io_.trianglearealist);
+    free(io_.segmentlist);
+    free(io_.segmentmarkerlist);
+  }
+
+ private:
+  triangulateio &io_;
+};
+
 /// Creates texture mapping function.
 std::function<Vector2(double, double)> createMapFunc(const MeshBuilder::AppearanceOptions &appearanceOptions,
                                                      const BoundingBox &bbox) {
@@ -131,11 +163,7 @@ void MeshBuilder::addPolygon(Mesh &mesh,
   in.segmentmarkerlist = nullptr;
   in.pointmarkerlist = nullptr;
 
-  mid.pointlist = nullptr;
-  mid.pointmarkerlist = nullptr;
-  mid.trianglelist = nullptr;
-  mid.segmentlist = nullptr;
-  mid.segmentmarkerlist = nullptr;
+  TriangulateGuard midGuard(mid);
 
   {
     std::lock_guard<std::mutex> lock(lock_);
@@ -145,7 +173,6 @@ void MeshBuilder::addPolygon(Mesh &mesh,
   // do not refine mesh if area is not set.
   if (std::abs(geometryOptions.area) < std::numeric_limits<double>::epsilon()) {
     fillMesh(&mid, quadKey_, bbox_, mesh, eleProvider_, geometryOptions, appearanceOptions);
-    mid.trianglearealist = nullptr;
   } else {
 
     mid.trianglearealist = static_cast<REAL *>(malloc(mid.numberoftriangles*sizeof(REAL)));
@@ -154,11 +181,7 @@ void MeshBuilder::addPolygon(Mesh &mesh,
     }
 
     triangulateio out;
-    out.pointlist = nullptr;
-    out.pointattributelist = nullptr;
-    out.trianglelist = nullptr;
-    out.triangleattributelist = nullptr;
-    out.pointmarkerlist = nullptr;
+    TriangulateGuard outGuard(out);
 
     std::string triOptions = "prazPQ";
     for (int i = 0; i < geometryOptions.segmentSplit; i++) {
@@ -171,22 +194,7 @@ void MeshBuilder::addPolygon(Mesh &mesh,
     }
 
     fillMesh(&out, quadKey_, bbox_, mesh, eleProvider_, geometryOptions, appearanceOptions);
-
-    free(out.pointlist);
-    free(out.pointattributelist);
-    free(out.trianglelist);
-    free(out.triangleattributelist);
-    free(out.pointmarkerlist);
   }
-
-  free(in.pointmarkerlist);
-
-  free(mid.pointlist);
-  free(mid.pointmarkerlist);
-  free(mid.trianglelist);
-  free(mid.trianglearealist);
-  free(mid.segmentlist);
-  free(mid.segmentmarkerlist);
 }
 
 void MeshBuilder::addPlane(Mesh &mesh,
-- 
2.43.0


From e4cbcf1922d36357756bbab510aa678e1f2f1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:25 +0000
Subject: [PATCH 27/49] fix: forget the application after it was deleted

---
 core/shared/ExportLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index ded0428..52ed448 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -18,6 +18,7 @@ extern "C"
 /************* Lifecycle API *****************/
 void EXPORT_API disconnect() {
   delete applicationPtr;
+  applicationPtr = nullptr;
 }
 
 void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
-- 
2.43.0


From 44ad83ebf3a3e50b886b73f504391ce8aa708fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 28/49] fix: report failed reads of stored data instead of
 using undefined values

---
 core/src/builders/MeshCache.cpp           |  3 ++-
 core/src/index/BitmapStream.cpp           | 10 ++++-----
 core/src/index/ElementStream.cpp          | 26 ++++++++++++++++-------
 core/src/index/MeshStream.cpp             | 11 +++++-----
 core/src/index/PersistentElementStore.cpp | 11 ++++++++--
 core/src/index/StringTable.cpp            |  2 ++
 6 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 8d72b61..48c8701 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -159,7 +159,8 @@ class MeshCache::MeshCacheImpl {
         context.meshCallback(MeshStream::read(file));
       else if (type==ElementType) {
         std::uint64_t id;
-        file.read(reinterpret_cast<char *>(&id), sizeof(id));
+        if (!file.read(reinterpret_cast<char *>(&id), sizeof(id)))
+          throw std::domain_error("Cannot read cache.");
         context.elementCallback(*ElementStream::read(file, id));
       } else
         throw std::invalid_argument("Cannot read cache.");
diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..b7b8885 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -4,14 +4,14 @@ using namespace utymap::index;
 
 void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
-  BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
-  {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key))) {
+    BitmapIndex::Bitset bitset;
     bitset.read(in);
+    // NOTE ignore entry which is not complete
+    if (!in) break;
     bitmap.emplace(key, bitset);
-  } while (in);
+  }
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
diff --git a/core/src/index/ElementStream.cpp b/core/src/index/ElementStream.cpp
index ba95909..ec03024 100644
--- a/core/src/index/ElementStream.cpp
+++ b/core/src/index/ElementStream.cpp
@@ -6,6 +6,8 @@
 #include "index/ElementStream.hpp"
 #include "utils/CoreUtils.hpp"
 
+#include <stdexcept>
+
 using namespace utymap;
 using namespace utymap::entities;
 using namespace utymap::index;
@@ -17,6 +19,13 @@ const char WayType = 1;
 const char AreaType = 2;
 const char RelationType = 3;
 
+/// Reads value from stream.
+template<typename T>
+void readValue(std::istream &stream, T &value) {
+  if (!stream.read(reinterpret_cast<char *>(&value), sizeof(value)))
+    throw std::domain_error("Unable to read element data.");
+}
+
 std::ostream &operator<<(std::ostream &stream, const Tag &tag) {
   stream.write(reinterpret_cast<const char *>(&tag.key), sizeof(tag.key));
   stream.write(reinterpret_cast<const char *>(&tag.value), sizeof(tag.value));
@@ -24,8 +33,8 @@ std::ostream &operator<<(std::ostream &stream, const Tag &tag) {
 }
 
 std::istream &operator>>(std::istream &stream, Tag &tag) {
-  stream.read(reinterpret_cast<char *>(&tag.key), sizeof(tag.key));
-  stream.read(reinterpret_cast<char *>(&tag.value), sizeof(tag.value));
+  readValue(stream, tag.key);
+  readValue(stream, tag.value);
   return stream;
 }
 
@@ -36,8 +45,8 @@ std::ostream &operator<<(std::ostream &stream, const utymap::GeoCoordinate &coor
 }
 
 std::istream &operator>>(std::istream &stream, utymap::GeoCoordinate &coordinate) {
-  stream.read(reinterpret_cast<char *>(&coordinate.latitude), sizeof(coordinate.latitude));
-  stream.read(reinterpret_cast<char *>(&coordinate.longitude), sizeof(coordinate.longitude));
+  readValue(stream, coordinate.latitude);
+  readValue(stream, coordinate.longitude);
   return stream;
 }
 
@@ -53,7 +62,7 @@ std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
 template<typename T>
 std::istream &operator>>(std::istream &stream, std::vector<T> &data) {
   std::uint16_t size = 0;
-  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  readValue(stream, size);
   data.resize(size);
   for (size_t i = 0; i < size; ++i)
     stream >> data[i];
@@ -97,7 +106,8 @@ class ElementReader final {
 
   std::unique_ptr<Element> read() const {
     char elementType;
-    stream_ >> elementType;
+    if (!(stream_ >> elementType))
+      throw std::domain_error("Unable to read element type.");
 
     switch (elementType) {
       case NodeType:return readNode();
@@ -132,11 +142,11 @@ class ElementReader final {
     stream_ >> relation->tags;
 
     std::uint16_t elementSize = 0;
-    stream_.read(reinterpret_cast<char *>(&elementSize), sizeof(elementSize));
+    readValue(stream_, elementSize);
 
     for (std::uint16_t i = 0; i < elementSize; ++i) {
       std::uint64_t id;
-      stream_.read(reinterpret_cast<char *>(&id), sizeof(id));
+      readValue(stream_, id);
       auto element = read();
       element->id = id;
       relation->elements.push_back(std::move(element));
diff --git a/core/src/index/MeshStream.cpp b/core/src/index/MeshStream.cpp
index 48ac508..52f78a1 100644
--- a/core/src/index/MeshStream.cpp
+++ b/core/src/index/MeshStream.cpp
@@ -1,6 +1,7 @@
 #include "index/MeshStream.hpp"
 
 #include <cstdint>
+#include <stdexcept>
 
 using namespace utymap::index;
 using namespace utymap::math;
@@ -10,16 +11,15 @@ namespace {
 template<typename T>
 T read(std::istream &stream) {
   T data;
-  stream.read(reinterpret_cast<char *>(&data), sizeof(data));
+  if (!stream.read(reinterpret_cast<char *>(&data), sizeof(data)))
+    throw std::domain_error("Unable to read mesh data.");
   return data;
 }
 
 /// Restores double from float.
 template<>
 double read<double>(std::istream &stream) {
-  float data;
-  stream.read(reinterpret_cast<char *>(&data), sizeof(data));
-  return data;
+  return read<float>(stream);
 }
 
 template<typename T>
@@ -45,8 +45,7 @@ std::ostream &operator<<(std::ostream &stream, const std::vector<T> &data) {
 
 template<typename T>
 std::istream &operator>>(std::istream &stream, std::vector<T> &data) {
-  std::uint32_t size = 0;
-  stream.read(reinterpret_cast<char *>(&size), sizeof(size));
+  auto size = read<std::uint32_t>(stream);
   data.resize(size);
   for (size_t i = 0; i < size; ++i)
     data[i] = read<T>(stream);
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 1d6f26f..c5acdbd 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -209,8 +209,13 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (cache_.exists(quadKey))
-      return cache_.get(quadKey);
+    if (cache_.exists(quadKey)) {
+      auto quadKeyData = cache_.get(quadKey);
+      // NOTE forget about failures of previous operations
+      quadKeyData->dataFile->clear();
+      quadKeyData->indexFile->clear();
+      return quadKeyData;
+    }
 
     cache_.put(quadKey, std::move(QuadKeyData(getFilePath(quadKey, DataFileExtension),
                                               getFilePath(quadKey, IndexFileExtension),
@@ -253,6 +258,8 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     std::uint32_t offset;
     quadKeyData.indexFile->read(reinterpret_cast<char *>(&id), sizeof(id));
     quadKeyData.indexFile->read(reinterpret_cast<char *>(&offset), sizeof(offset));
+    if (!*quadKeyData.indexFile)
+      throw std::domain_error("Unable to read index entry.");
     return std::make_tuple(id, offset);
   }
 
diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index a3a0088..66537c5 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -39,6 +39,8 @@ class StringTable::StringTableImpl {
         std::uint32_t hash, offset;
         indexFile_.read(reinterpret_cast<char *>(&hash), sizeof(hash));
         indexFile_.read(reinterpret_cast<char *>(&offset), sizeof(offset));
+        if (!indexFile_)
+          throw std::domain_error("Unable to read string index.");
         offsets_.push_back(offset);
         map_[hash].push_back(i);
       }
-- 
2.43.0


From 9241d97f651f6a38db7c5fd6629f2625b2e4f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 29/49] fix: report files which cannot be opened

---
 core/src/index/GeoStore.cpp               | 8 ++++++++
 core/src/index/PersistentElementStore.cpp | 4 +++-
 core/src/index/StringTable.cpp            | 9 +++++++++
 core/src/mapcss/MapCssParser.cpp          | 2 ++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 803e692..fd9aef4 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -91,6 +91,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Xml: {
         OsmXmlParser<OsmDataVisitor> parser;
         std::ifstream xmlFile(path);
+        ensureOpened(xmlFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(xmlFile, visitor);
         return visitor.complete();
@@ -99,6 +100,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Pbf: {
         OsmPbfParser<OsmDataVisitor> parser;
         std::ifstream pbfFile(path, std::ios::in | std::ios::binary);
+        ensureOpened(pbfFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(pbfFile, visitor);
         return visitor.complete();
@@ -107,6 +109,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Json: {
         OsmJsonParser<OsmDataVisitor> parser(stringTable_);
         std::ifstream jsonFile(path);
+        ensureOpened(jsonFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(jsonFile, visitor);
         return visitor.complete();
@@ -147,6 +150,11 @@ class GeoStore::GeoStoreImpl final {
   }
 
  private:
+  static void ensureOpened(const std::ifstream &file, const std::string &path) {
+    if (!file.good())
+      throw std::invalid_argument(std::string("Cannot open file:") + path);
+  }
+
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index c5acdbd..9db09fd 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -118,6 +118,8 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     // NOTE current positions depend on what was read last: move them to the end to get sizes
     quadKeyData->dataFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->seekg(0, std::ios::end);
+    if (!*quadKeyData->dataFile || !*quadKeyData->indexFile)
+      throw std::domain_error("Cannot open files of quadkey to store element.");
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
@@ -235,7 +237,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   /// Gets amount of elements stored for given quad key.
   std::uint32_t getCount(const QuadKeyData &quadKeyData) {
     std::lock_guard<std::mutex> lock(dataLock_);
-    quadKeyData.indexFile->seekg(0, std::ios::end);
+    if (!quadKeyData.indexFile->seekg(0, std::ios::end)) return 0;
     return static_cast<std::uint32_t>(quadKeyData.indexFile->tellg() /
         (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
   }
diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index 66537c5..9925a50 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -5,6 +5,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <stdexcept>
 #include <unordered_map>
 
 using std::ios;
@@ -25,6 +26,9 @@ class StringTable::StringTableImpl {
       map_(),
       offsets_(),
       cache_(1024) {
+    if (!indexFile_ || !dataFile_)
+      throw std::domain_error("Cannot open string table: " + indexPath);
+
     nextId_ = static_cast<std::uint32_t>(indexFile_.tellg()/(sizeof(std::uint32_t)*2));
     if (nextId_ > 0) {
       std::uint32_t count = nextId_;
@@ -91,6 +95,8 @@ class StringTable::StringTableImpl {
   void readString(std::uint32_t id, std::string &data) {
     if (id < offsets_.size()) {
       std::uint32_t offset = offsets_[id];
+      // NOTE forget about failures of previous operations
+      dataFile_.clear();
       dataFile_.seekg(offset, ios::beg);
       std::getline(dataFile_, data, '\0');
     }
@@ -99,7 +105,10 @@ class StringTable::StringTableImpl {
   /// Writes string to index.
   void writeString(std::uint32_t hash, const std::string &data) {
     // get offset as file size
+    dataFile_.clear();
     dataFile_.seekg(0, ios::end);
+    if (!dataFile_)
+      throw std::domain_error("Cannot write string data.");
     std::uint32_t offset = static_cast<std::uint32_t>(dataFile_.tellg());
 
     // write string
diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 759f7a3..396a77f 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -180,6 +180,8 @@ struct ImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator>> {
  private:
   void readImport(const std::string &url) const {
     std::ifstream importFile(directory + url);
+    if (!importFile.good())
+      throw utymap::MapCssException(std::string("Cannot find:") + directory + url);
     std::string content((std::istreambuf_iterator<char>(importFile)), std::istreambuf_iterator<char>());
     // NOTE indirected recursion: caller must ensure that there is no recursive import.
     ::parse(directory, content.begin(), content.end(), stylesheet);
-- 
2.43.0


From 92da4294cecfcc69414612ec9299a073a5840a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 30/49] fix: do not write index entries for data which could
 not be written

---
 core/src/index/PersistentElementStore.cpp | 3 ++-
 core/src/index/StringTable.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 9db09fd..3cba16a 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -127,7 +127,8 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     // write element data
     // NOTE files are flushed as quad key data can be evicted from cache and opened again
     ElementStream::write(*quadKeyData->dataFile, element);
-    quadKeyData->dataFile->flush();
+    if (!quadKeyData->dataFile->flush())
+      throw std::domain_error("Cannot write element data.");
 
     // write element index
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index 9925a50..93d8316 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -115,7 +115,8 @@ class StringTable::StringTableImpl {
     // NOTE files are flushed as stored elements refer to their strings.
     dataFile_.seekp(0, ios::end);
     dataFile_ << data.c_str() << '\0';
-    dataFile_.flush();
+    if (!dataFile_.flush())
+      throw std::domain_error("Cannot write string data.");
 
     // write index entry
     indexFile_.seekp(0, ios::end);
-- 
2.43.0


From 583bf313746d620c055658f98cba72835a27b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 31/49] fix: check steps and sizes of styles and elevation data
 before dividing by them

---
 core/src/builders/generators/WallGenerator.hpp | 6 ++++--
 core/src/builders/misc/LampBuilder.cpp         | 2 +-
 core/src/builders/terrain/LineGridSplitter.hpp | 4 ++++
 core/src/heightmap/GridElevationProvider.hpp   | 5 +++++
 core/src/utils/MeshUtils.hpp                   | 2 ++
 5 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/generators/WallGenerator.hpp b/core/src/builders/generators/WallGenerator.hpp
index 0a4be41..6e40e9e 100644
--- a/core/src/builders/generators/WallGenerator.hpp
+++ b/core/src/builders/generators/WallGenerator.hpp
@@ -59,13 +59,15 @@ class WallGenerator : public AbstractGenerator {
 
     auto size = static_cast<std::size_t>(std::distance(begin_, end_) - 1);
     auto fullLength = length_ + gap_;
-    auto ratio = length_/fullLength;
+    // NOTE whole distance is one segment if length is not specified.
+    bool hasLength = fullLength > 0;
+    auto ratio = hasLength ? length_/fullLength : 1;
     for (std::size_t i = 0; i < size; ++i) {
       const auto &p0 = *(begin_ + i);
       const auto &p1 = *(begin_ + i + 1);
 
       double distanceInMeters = utymap::utils::GeoUtils::distance(p0, p1);
-      int count = std::max(static_cast<int>(distanceInMeters/fullLength), 1);
+      int count = hasLength ? std::max(static_cast<int>(distanceInMeters/fullLength), 1) : 1;
 
       auto start = p0;
       for (int j = 1; j <= count; ++j) {
diff --git a/core/src/builders/misc/LampBuilder.cpp b/core/src/builders/misc/LampBuilder.cpp
index 05c6e70..4acc74a 100644
--- a/core/src/builders/misc/LampBuilder.cpp
+++ b/core/src/builders/misc/LampBuilder.cpp
@@ -49,7 +49,7 @@ void LampBuilder::visitWay(const utymap::entities::Way &way) {
     const auto &p1 = way.coordinates[i + 1];
 
     double distanceInMeters = GeoUtils::distance(p0, p1);
-    int count = static_cast<int>(distanceInMeters/stepInMeters);
+    int count = stepInMeters > 0 ? static_cast<int>(distanceInMeters/stepInMeters) : 0;
     if (count==0) continue;
 
     // way is transformed to area with offsetting.
diff --git a/core/src/builders/terrain/LineGridSplitter.hpp b/core/src/builders/terrain/LineGridSplitter.hpp
index 2cbf368..f7e3fd1 100644
--- a/core/src/builders/terrain/LineGridSplitter.hpp
+++ b/core/src/builders/terrain/LineGridSplitter.hpp
@@ -8,6 +8,7 @@
 #include <cmath>
 #include <cstdint>
 #include <limits>
+#include <stdexcept>
 
 namespace utymap {
 namespace builders {
@@ -38,6 +39,9 @@ class LineGridSplitter final {
   }
 
   void setParams(double scale, double step) {
+    if (!(step > 0))
+      throw std::invalid_argument("Grid cell size should be positive.");
+
     scale_ = scale;
     step_ = step;
   }
diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 786c38a..e3e3939 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -116,10 +116,15 @@ class GridElevationProvider final : public ElevationProvider {
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
 
     data.resolution = static_cast<int>(std::sqrt(data.heights.size())) - 1;
+    if (data.resolution < 1)
+      throw std::domain_error("Not enough elevation data in:" + filePath);
+
     data.xStart = static_cast<int>(bbox.minPoint.longitude*Scale);
     data.yStart = static_cast<int>(bbox.minPoint.latitude*Scale);
     data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
     data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
+    if (data.xStep < 1 || data.yStep < 1)
+      throw std::domain_error("Too much elevation data in:" + filePath);
 
     return data_.emplace(quadKey, std::move(data)).first->second;
   }
diff --git a/core/src/utils/MeshUtils.hpp b/core/src/utils/MeshUtils.hpp
index 5140a7c..73d8956 100644
--- a/core/src/utils/MeshUtils.hpp
+++ b/core/src/utils/MeshUtils.hpp
@@ -46,6 +46,8 @@ inline void copyMeshAlong(const utymap::QuadKey &quadKey, const utymap::GeoCoord
                           const utymap::GeoCoordinate &p1, const utymap::GeoCoordinate &p2,
                           const utymap::math::Mesh &source, utymap::math::Mesh &destination, double stepInMeters,
                           const utymap::heightmap::ElevationProvider &eleProvider) {
+  if (!(stepInMeters > 0)) return;
+
   double distanceInMeters = GeoUtils::distance(p1, p2);
   int count = static_cast<int>(distanceInMeters/stepInMeters);
 
-- 
2.43.0


From 4237f8a35b28c27f56b0ab8ad8dca10f26901b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 32/49] fix: let an empty rectangle grow to points with
 negative coordinates

---
 core/src/math/Rectangle.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/math/Rectangle.hpp b/core/src/math/Rectangle.hpp
index 1550dd7..d72c456 100644
--- a/core/src/math/Rectangle.hpp
+++ b/core/src/math/Rectangle.hpp
@@ -5,6 +5,7 @@
 #include "math/Vector2.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <vector>
 
 namespace utymap {
@@ -19,8 +20,8 @@ struct Rectangle final {
   Rectangle()
       : Rectangle(std::numeric_limits<double>::max(),
                   std::numeric_limits<double>::max(),
-                  std::numeric_limits<double>::min(),
-                  std::numeric_limits<double>::min()) {
+                  std::numeric_limits<double>::lowest(),
+                  std::numeric_limits<double>::lowest()) {
   }
 
   Rectangle(double xMin, double yMin, double xMax, double yMax) :
-- 
2.43.0


From 138dc62c69bef746084358bdf0a7ef32231520ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 33/49] fix: a multipolygon which misses a way is incomplete
 even if a relation has the same id

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index d97ed3e..ed5d530 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -118,11 +118,7 @@ void MultipolygonProcessor::process() {
         if (member.role=="outer" && hasNoTags)
           mergeTags(areaPair->second->tags);
       } else {
-        auto relationPair = context_.relationMap.find(member.refId);
-        if (relationPair==context_.relationMap.end())
-          return; //  NOTE cannot fill relation: incomplete data
-
-        resolve_(*relationPair->second);
+        return; //  NOTE cannot fill relation: incomplete data
       }
     }
 
-- 
2.43.0


From cf062b4ab99c92a9b911528600ddc3bd4eab12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 34/49] fix: a turtle draws with the style it restored

---
 core/src/builders/generators/LSystemGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/generators/LSystemGenerator.cpp b/core/src/builders/generators/LSystemGenerator.cpp
index 68c4ce0..ab29d5b 100644
--- a/core/src/builders/generators/LSystemGenerator.cpp
+++ b/core/src/builders/generators/LSystemGenerator.cpp
@@ -94,6 +94,11 @@ class DickTurtle : public Turtle3d {
     updateStyles();
   }
 
+  void restore() override {
+    Turtle3d::restore();
+    updateStyles();
+  }
+
  private:
   void addSphere() {
     icoSphereGenerator_
-- 
2.43.0


From a878d22d9e3e34a135c49653b977f2ff51c84a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 35/49] fix: every rule for an element id is applied, not only
 the first one

---
 core/src/mapcss/StyleProvider.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 2ceed85..d30e248 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -327,8 +327,10 @@ class StyleProvider::StyleProviderImpl {
     });
 
     for (int i = selector.zoom.start; i <= selector.zoom.end; ++i) {
-      for (const auto &filterPair : filter)
-        filters.elements[i].emplace(filterPair);
+      for (const auto &filterPair : filter) {
+        auto &declarations = filters.elements[i][filterPair.first];
+        declarations.insert(declarations.end(), filterPair.second.begin(), filterPair.second.end());
+      }
     }
   }
 
-- 
2.43.0


From c5612eb4f1341533187f56b3d3e9857e3c046e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 36/49] fix: offsets of strings are not cut to 32 bits

---
 core/src/index/StringTable.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index 93d8316..c5081d8 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -4,6 +4,7 @@
 #include "utils/LruCache.hpp"
 
 #include <fstream>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <unordered_map>
@@ -109,7 +110,10 @@ class StringTable::StringTableImpl {
     dataFile_.seekg(0, ios::end);
     if (!dataFile_)
       throw std::domain_error("Cannot write string data.");
-    std::uint32_t offset = static_cast<std::uint32_t>(dataFile_.tellg());
+    const auto size = static_cast<std::uint64_t>(dataFile_.tellg());
+    if (size > std::numeric_limits<std::uint32_t>::max())
+      throw std::domain_error("String data is too large.");
+    std::uint32_t offset = static_cast<std::uint32_t>(size);
 
     // write string
     // NOTE files are flushed as stored elements refer to their strings.
-- 
2.43.0


From 9b3476e08f3f42fa8049c5205b76615c76ebdf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 37/49] fix: no string id is given out whose index entry could
 not be written

---
 core/src/index/StringTable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index c5081d8..c84e229 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -126,7 +126,8 @@ class StringTable::StringTableImpl {
     indexFile_.seekp(0, ios::end);
     indexFile_.write(reinterpret_cast<char *>(&hash), sizeof(hash));
     indexFile_.write(reinterpret_cast<char *>(&offset), sizeof(offset));
-    indexFile_.flush();
+    if (!indexFile_.flush())
+      throw std::domain_error("Cannot write string index.");
 
     map_[hash].push_back(nextId_);
     offsets_.push_back(offset);
-- 
2.43.0


From 753ee154fad79119a2e31f6c9be4df978e2a6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 38/49] fix: the back side of a triangle refers to its own
 vertices

---
 core/src/builders/MeshBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 4a10ea6..2422f29 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -255,8 +255,7 @@ void MeshBuilder::addTriangle(Mesh &mesh,
   addVertex(mesh, v2, color, ++startIndex, uv2);
 
   if (geometryOptions.hasBackSide) {
-    // TODO check indices
-    addVertex(mesh, v2, color, startIndex, uv0);
+    addVertex(mesh, v2, color, ++startIndex, uv0);
     addVertex(mesh, v1, color, ++startIndex, uv1);
     addVertex(mesh, v0, color, ++startIndex, uv2);
   }
-- 
2.43.0


From 5fe48b3e61569544dd0a31c7f7a0a39fb5b3ea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 39/49] fix: sides of a region are covered by a texture record
 of the mesh they are added to

---
 core/src/builders/terrain/TerraGenerator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index 48cac0d..c5bce25 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -80,6 +80,8 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
     if (isOnBorder(p1) && isOnBorder(p2)) continue;
 
     context_.meshBuilder.addPlane(mesh_, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
+    // NOTE polygon itself might be added to other mesh.
+    context_.meshBuilder.writeTextureMappingInfo(mesh_, regionContext.appearanceOptions);
   }
 }
 
-- 
2.43.0


From 1efa9c96880be72b91827e632d042997c54e25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 40/49] fix: the tag of a style tells element types and
 neighbouring items apart

---
 core/src/mapcss/StyleProvider.cpp | 32 ++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index d30e248..5c94542 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -47,12 +47,25 @@ struct FilterCollection final {
   IdentifierFilterMap elements;
 };
 
+/// Ends an item of the tag.
+const char TagItemEnd = '\x1F';
+/// Ends a list of items or lists of the tag.
+const char TagListEnd = '\x1E';
+
+/// Alters tag with single item.
+void addTo(std::string &tag, const std::string &item) {
+  // NOTE without end mark, different sequences of items could be joined to the same text.
+  tag.append(item);
+  tag.push_back(TagItemEnd);
+}
+
 /// Alters tag with value specific for passed style declarations.
 void addTo(std::string &tag, const StyleDeclarations &styles) {
   for (const auto &style :styles) {
-    tag.append(utymap::utils::toString(style->key()));
-    tag.append(utymap::utils::toString(style->value()));
+    addTo(tag, utymap::utils::toString(style->key()));
+    addTo(tag, style->value());
   }
+  tag.push_back(TagListEnd);
 }
 
 void addTo(std::string &tag, const OpType &type) {
@@ -73,27 +86,32 @@ void addTo(std::string &tag, const OpType &type) {
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    addTo(tag, utymap::utils::toString(pair.first));
     for (const auto &filter : pair.second) {
       for (const auto &cond : filter.conditions) {
-        tag.append(utymap::utils::toString(cond.key));
+        addTo(tag, utymap::utils::toString(cond.key));
         addTo(tag, cond.type);
-        tag.append(utymap::utils::toString(cond.value));
+        addTo(tag, utymap::utils::toString(cond.value));
       }
+      tag.push_back(TagListEnd);
       addTo(tag, filter.declarations);
     }
+    tag.push_back(TagListEnd);
   }
+  tag.push_back(TagListEnd);
 }
 
 /// Alters tag with value specific for passed filter map.
 void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
   for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
+    addTo(tag, utymap::utils::toString(pair.first));
     for (const auto &id : pair.second) {
-      tag.append(utymap::utils::toString(id.first));
+      addTo(tag, utymap::utils::toString(id.first));
       addTo(tag, id.second);
     }
+    tag.push_back(TagListEnd);
   }
+  tag.push_back(TagListEnd);
 }
 
 /// Gets hash for given filter collection.
-- 
2.43.0


From d2ce4c1aa6084c30402fdb7b1b59464430143012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 41/49] fix: reading a compressed bitmap restores the position
 of its last marker word

---
 core/lib/ewah/ewah.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/lib/ewah/ewah.h b/core/lib/ewah/ewah.h
index 6b3d987..24aedb6 100644
--- a/core/lib/ewah/ewah.h
+++ b/core/lib/ewah/ewah.h
@@ -1129,6 +1129,14 @@ void EWAHBoolArray<uword>::read(std::istream &in, const bool savesizeinbits) {
   if (buffersize > 0)
     in.read(reinterpret_cast<char *>(&buffer[0]),
             static_cast<std::streamsize>(sizeof(uword) * buffersize));
+  // restore position of the last marker word
+  lastRLW = 0;
+  while (lastRLW < buffersize) {
+    const size_t next = lastRLW + 1 + static_cast<size_t>(
+        RunningLengthWord<uword>::getNumberOfLiteralWords(buffer[lastRLW]));
+    if (next >= buffersize) break;
+    lastRLW = next;
+  }
 }
 
 template <class uword>
-- 
2.43.0


From 801bf0deb5f4dede8e8ec540e65a4fa817ead96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 42/49] fix: the one byte boolean returned by hasData is read
 as one byte

---
 unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs | 1 +
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
index 5833a6e..336f1d6 100644
--- a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
+++ b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
@@ -261,6 +261,7 @@ namespace Assets.Scripts.Core.Interop
             string[] tags, int tagLength, int startLod, int endLod, OnError errorHandler, IntPtr cancelToken);
 
         [DllImport("UtyMap.Shared")]
+        [return: MarshalAs(UnmanagedType.I1)]
         private static extern bool hasData(int tileX, int tileY, int levelOfDetails);
 
         #endregion
diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 52d0ace..c11f031 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -491,6 +491,7 @@ namespace UtyMap.Unity.Data
             string[] tags, int tagLength, int startLod, int endLod, OnError errorHandler, IntPtr cancelToken);
 
         [DllImport("UtyMap.Shared")]
+        [return: MarshalAs(UnmanagedType.I1)]
         private static extern bool hasData(int tileX, int tileY, int levelOfDetails);
 
         #endregion
-- 
2.43.0


From 5c4596b745870b0f2ede18c7329622fdc9e76779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 43/49] fix: native functions and callbacks are declared with
 the C calling convention

---
 .../Core/Interop/MapDataLibrary.Common.cs     | 26 +++++++++----------
 .../Core/Interop/MapDataLibrary.Il2Cpp.cs     |  5 ++++
 .../UtyMap.Unity/Data/MapDataLibrary.cs       | 26 +++++++++----------
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
index 336f1d6..9dcd09d 100644
--- a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
+++ b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
@@ -222,45 +222,45 @@ namespace Assets.Scripts.Core.Interop
 
         #region Lifecycle API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void connect(string stringPath, OnError errorHandler);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void disconnect();
 
         #endregion
 
         #region Configuration API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void enableMeshCache(int enabled);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void registerStylesheet(string path, OnNewDirectory directoryHandler);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void registerInMemoryStore(string key);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void registerPersistentStore(string key, string path, OnNewDirectory directoryHandler);
 
         #endregion
 
         #region Storage API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void addDataInRange(string key, string stylePath, string path, int startLod, int endLod,
             OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void addDataInQuadKey(string key, string stylePath, string path, int tileX, int tileY, int lod,
             OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void addDataInElement(string key, string stylePath, long id, double[] vertices, int vertexLength,
             string[] tags, int tagLength, int startLod, int endLod, OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         [return: MarshalAs(UnmanagedType.I1)]
         private static extern bool hasData(int tileX, int tileY, int levelOfDetails);
 
@@ -268,17 +268,17 @@ namespace Assets.Scripts.Core.Interop
 
         #region Search API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void getDataByQuadKey(int tag, string stylePath, int tileX, int tileY, int levelOfDetails, int eleDataType,
             OnMeshBuilt meshBuiltHandler, OnElementLoaded elementLoadedHandler, OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void getDataByText(int tag, string notTerms, string andTerms, string orTerms,
             double minLatitude, double minLogitude, double maxLatitude, double maxLogitude,
             int startLod, int endLod,
             OnElementLoaded elementLoadedHandler, OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern double getElevationByQuadKey(int tileX, int tileY, int levelOfDetails, int eleDataType, double latitude, double longitude);
 
         #endregion
diff --git a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Il2Cpp.cs b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Il2Cpp.cs
index 007990f..1102c98 100644
--- a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Il2Cpp.cs
+++ b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Il2Cpp.cs
@@ -1,6 +1,7 @@
 ﻿using System;
 using System.Collections.Generic;
 using System.IO;
+using System.Runtime.InteropServices;
 using Assets.Scripts.Core.Plugins;
 using UtyMap.Unity;
 using UtyMap.Unity.Infrastructure.Diagnostic;
@@ -57,8 +58,10 @@ namespace Assets.Scripts.Core.Interop
             return observable;
         }
 
+        [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
         private delegate void OnNewDirectory(string directory);
 
+        [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
         private delegate void OnMeshBuilt(int tag, string name,
             IntPtr vertexPtr, int vertexCount,
             IntPtr trianglePtr, int triangleCount,
@@ -66,11 +69,13 @@ namespace Assets.Scripts.Core.Interop
             IntPtr uvPtr, int uvCount,
             IntPtr uvMapPtr, int uvMapCount);
 
+        [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
         private delegate void OnElementLoaded(int tag, long id,
             IntPtr tagPtr, int tagCount,
             IntPtr vertexPtr, int vertexCount,
             IntPtr stylePtr, int styleCount);
 
+        [UnmanagedFunctionPointer(CallingConvention.Cdecl)]
         private delegate void OnError(string message);
 
         [AOT.MonoPInvokeCallback(typeof(OnError))]
diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index c11f031..b2b700f 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -452,45 +452,45 @@ namespace UtyMap.Unity.Data
 
         #region Lifecycle API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void connect(string stringPath, OnError errorHandler);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void disconnect();
 
         #endregion
 
         #region Configuration API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void enableMeshCache(int enabled);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void registerStylesheet(string path, OnNewDirectory directoryHandler);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void registerInMemoryStore(string key);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void registerPersistentStore(string key, string path, OnNewDirectory directoryHandler);
 
         #endregion
 
         #region Storage API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void addDataInRange(string key, string stylePath, string path, int startLod, int endLod,
             OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void addDataInQuadKey(string key, string stylePath, string path, int tileX, int tileY, int lod,
             OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void addDataInElement(string key, string stylePath, long id, double[] vertices, int vertexLength,
             string[] tags, int tagLength, int startLod, int endLod, OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         [return: MarshalAs(UnmanagedType.I1)]
         private static extern bool hasData(int tileX, int tileY, int levelOfDetails);
 
@@ -498,17 +498,17 @@ namespace UtyMap.Unity.Data
 
         #region Search API
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void getDataByQuadKey(int tag, string stylePath, int tileX, int tileY, int levelOfDetails, int eleDataType,
             OnMeshBuilt meshBuiltHandler, OnElementLoaded elementLoadedHandler, OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern void getDataByText(int tag, string notTerms, string andTerms, string orTerms,
             double minLatitude, double minLogitude, double maxLatitude, double maxLogitude,
             int startLod, int endLod,
             OnElementLoaded elementLoadedHandler, OnError errorHandler, IntPtr cancelToken);
 
-        [DllImport("UtyMap.Shared")]
+        [DllImport("UtyMap.Shared", CallingConvention = CallingConvention.Cdecl)]
         private static extern double getElevationByQuadKey(int tileX, int tileY, int levelOfDetails, int eleDataType, double latitude, double longitude);
 
         #endregion
-- 
2.43.0


From 9010146a2573dbd14f62592c0ecf930ea3ce27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 44/49] fix: numbers exchanged with servers and configuration
 do not depend on the user's culture

---
 .../demo/Assets/Scripts/Core/Plugins/PlaceElementBuilder.cs  | 3 ++-
 unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs    | 5 +++--
 .../UtyMap.Unity/Infrastructure/Config/CodeConfigSection.cs  | 5 +++--
 .../UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs        | 4 ++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/unity/demo/Assets/Scripts/Core/Plugins/PlaceElementBuilder.cs b/unity/demo/Assets/Scripts/Core/Plugins/PlaceElementBuilder.cs
index 8187e58..10b1998 100644
--- a/unity/demo/Assets/Scripts/Core/Plugins/PlaceElementBuilder.cs
+++ b/unity/demo/Assets/Scripts/Core/Plugins/PlaceElementBuilder.cs
@@ -1,5 +1,6 @@
 ﻿using System;
 using System.Collections.Generic;
+using System.Globalization;
 using System.Linq;
 using System.Text.RegularExpressions;
 using UnityEngine;
@@ -94,7 +95,7 @@ namespace Assets.Scripts.Core.Plugins
         private float GetMinHeight(Element element)
         {
             return element.Styles.ContainsKey("min-height")
-                ? float.Parse(element.Styles["min-height"])
+                ? float.Parse(element.Styles["min-height"], CultureInfo.InvariantCulture)
                 : 0;
         }
 
diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 6698658..3349752 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -98,7 +98,7 @@ namespace UtyMap.Unity.Geocoding
         public void OnNext(Tuple<GeoCoordinate, float> value)
         {
             var coordinate = value.Item1;
-            var url = String.Format("{0}format=json&lat={1}&lon={2}",
+            var url = String.Format(CultureInfo.InvariantCulture, "{0}format=json&lat={1}&lon={2}",
                 _reverseSearchPath, coordinate.Latitude, coordinate.Longitude);
 
             _networkService
@@ -132,7 +132,8 @@ namespace UtyMap.Unity.Geocoding
         private static GeoCoordinate ParseGeoCoordinate(string latStr, string lonStr)
         {
             double latitude, longitude;
-            if (double.TryParse(latStr, out latitude) && double.TryParse(lonStr, out longitude))
+            if (double.TryParse(latStr, NumberStyles.Float, CultureInfo.InvariantCulture, out latitude) &&
+                double.TryParse(lonStr, NumberStyles.Float, CultureInfo.InvariantCulture, out longitude))
                 return new GeoCoordinate(latitude, longitude);
             return default(GeoCoordinate);
         }
diff --git a/unity/library/UtyMap.Unity/Infrastructure/Config/CodeConfigSection.cs b/unity/library/UtyMap.Unity/Infrastructure/Config/CodeConfigSection.cs
index 85e1703..9acdb35 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Config/CodeConfigSection.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Config/CodeConfigSection.cs
@@ -1,5 +1,6 @@
 ﻿using System;
 using System.Collections.Generic;
+using System.Globalization;
 using UtyDepend.Config;
 
 namespace UtyMap.Unity.Infrastructure.Config
@@ -54,7 +55,7 @@ namespace UtyMap.Unity.Infrastructure.Config
         {
             var key = GetKey(xpath);
             if (_keyValueMap.ContainsKey(key))
-                return _keyValueMap[key].ToString();
+                return Convert.ToString(_keyValueMap[key], CultureInfo.InvariantCulture);
             return defaultValue;
         }
 
@@ -69,7 +70,7 @@ namespace UtyMap.Unity.Infrastructure.Config
         public float GetFloat(string xpath, float defaultValue)
         {
             float value;
-            return float.TryParse(GetString(xpath, null), out value) ? value : defaultValue;
+            return float.TryParse(GetString(xpath, null), NumberStyles.Float, CultureInfo.InvariantCulture, out value) ? value : defaultValue;
         }
 
         /// <inheritdoc />
diff --git a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
index 7e98c7f..33059bb 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Formats/SimpleJSON.cs
@@ -122,7 +122,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
             get
             {
                 float v = 0.0f;
-                if (float.TryParse(Value,out v))
+                if (float.TryParse(Value, NumberStyles.Float | NumberStyles.AllowThousands, CultureInfo.InvariantCulture, out v))
                     return v;
                 return 0.0f;
             }
@@ -136,7 +136,7 @@ namespace UtyMap.Unity.Infrastructure.Formats
             get
             {
                 double v = 0.0;
-                if (double.TryParse(Value,out v))
+                if (double.TryParse(Value, NumberStyles.Float | NumberStyles.AllowThousands, CultureInfo.InvariantCulture, out v))
                     return v;
                 return 0.0;
             }
-- 
2.43.0


From a37044a66a83d4d562ee8fa5397283989fb14297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 45/49] fix: observers of tiles are told about a tile whose
 data had to be imported

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 2b1fad6..81d8ab8 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -69,7 +69,9 @@ namespace UtyMap.Unity.Data
                     else
                         // NOTE store data in the first registered store
                         AddTo(_storageKeys.First(), value.Item2, value.Item1.Stylesheet, value.Item1.QuadKey, value.Item1.CancelationToken)
-                            .Subscribe(progress => { }, () => _mapDataLibrary.Get(value.Item1, _dataObservers));
+                            .Subscribe(progress => { }, () => _mapDataLibrary
+                                .Get(value.Item1, _dataObservers)
+                                .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(value.Item1))));
                 });
         }
 
-- 
2.43.0


From af180910193d31e97a234b20ceba793e8435484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:05 +0000
Subject: [PATCH 46/49] fix: a response which cannot be processed does not
 leave an empty data file

---
 .../library/UtyMap.Unity/Data/MapDataProvider.cs  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index f2be3bf..4670136 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -107,6 +107,15 @@ namespace UtyMap.Unity.Data
             stream.Write(bytes, 0, bytes.Length);
         }
 
+        private byte[] GetContent(byte[] bytes)
+        {
+            using (var stream = new MemoryStream())
+            {
+                WriteBytes(stream, bytes);
+                return stream.ToArray();
+            }
+        }
+
         private void MakeTileRequest(Queue<Tile> queue, IList<Tile> tiles)
         {
             foreach (var tile in tiles)
@@ -131,8 +140,12 @@ namespace UtyMap.Unity.Data
                     lock (_lockObj)
                     {
                         if (!_fileSystemService.Exists(filePath))
+                        {
+                            // NOTE file should not be created if response cannot be processed.
+                            var content = GetContent(bytes);
                             using (var stream = _fileSystemService.WriteStream(filePath))
-                                WriteBytes(stream, bytes);
+                                stream.Write(content, 0, content.Length);
+                        }
                     }
                     Notify(new Tuple<Tile, string>(value, filePath));
                 });
-- 
2.43.0


From e030e88991436367da44b5505c474f8694ed438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 47/49] fix: registration of stylesheets and enumeration of
 SafeHashSet are synchronized

---
 .../Scripts/Core/Interop/MapDataLibrary.Common.cs    | 12 ++++++++----
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs    | 12 ++++++++----
 .../Infrastructure/Primitives/SafeHashSet.cs         | 11 ++++++++++-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
index 9dcd09d..50d4366 100644
--- a/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
+++ b/unity/demo/Assets/Scripts/Core/Interop/MapDataLibrary.Common.cs
@@ -207,11 +207,15 @@ namespace Assets.Scripts.Core.Interop
         {
             var stylePath = _pathResolver.Resolve(stylesheet.Path);
 
-            if (_stylePaths.Contains(stylePath))
-                return stylePath;
+            // NOTE tiles are requested from different threads
+            lock (_stylePaths)
+            {
+                if (_stylePaths.Contains(stylePath))
+                    return stylePath;
 
-            _stylePaths.Add(stylePath);
-            registerStylesheet(stylePath, OnCreateDirectory);
+                registerStylesheet(stylePath, OnCreateDirectory);
+                _stylePaths.Add(stylePath);
+            }
 
             return stylePath;
         }
diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index b2b700f..436537b 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -306,11 +306,15 @@ namespace UtyMap.Unity.Data
         {
             var stylePath = _pathResolver.Resolve(stylesheet.Path);
 
-            if (_stylePaths.Contains(stylePath))
-                return stylePath;
+            // NOTE tiles are requested from different threads
+            lock (_stylePaths)
+            {
+                if (_stylePaths.Contains(stylePath))
+                    return stylePath;
 
-            _stylePaths.Add(stylePath);
-            registerStylesheet(stylePath, CreateDirectory);
+                registerStylesheet(stylePath, CreateDirectory);
+                _stylePaths.Add(stylePath);
+            }
 
             return stylePath;
         }
diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs
index 4faff98..16356f8 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/SafeHashSet.cs
@@ -29,7 +29,16 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// <inheritdoc />
         public IEnumerator<T> GetEnumerator()
         {
-            return _hashSet.GetEnumerator();
+            try
+            {
+                _lock.EnterReadLock();
+                // NOTE snapshot: set might be changed while caller enumerates it
+                return new List<T>(_hashSet).GetEnumerator();
+            }
+            finally
+            {
+                if (_lock.IsReadLockHeld) _lock.ExitReadLock();
+            }
         }
 
         /// <inheritdoc />
-- 
2.43.0


From 9e39bf490b2b0e3240615827f1cd781d74140931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 48/49] fix: lists of observers are not modified while other
 threads notify them

---
 .../UtyMap.Unity/Data/MapDataProvider.cs      |  7 ++++--
 .../library/UtyMap.Unity/Data/MapDataStore.cs | 25 ++++++++++++-------
 .../Geocoding/NominatimGeocoder.cs            | 14 ++++++++---
 .../UtyMap.Unity/Geocoding/UtyMapGeocoder.cs  | 16 ++++++++----
 4 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index 4670136..8277f69 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -17,7 +17,9 @@ namespace UtyMap.Unity.Data
     /// <summary> Generalzes subscription processing. </summary>
     internal abstract class MapDataProvider : IMapDataProvider
     {
-        private readonly List<IObserver<Tuple<Tile, string>>> _observers = new List<IObserver<Tuple<Tile, string>>>();
+        // NOTE list is used by other threads: it is replaced, never modified.
+        private readonly object _observersLock = new object();
+        private List<IObserver<Tuple<Tile, string>>> _observers = new List<IObserver<Tuple<Tile, string>>>();
 
         public abstract void OnNext(Tile value);
         public abstract void Configure(IConfigSection configSection);
@@ -35,7 +37,8 @@ namespace UtyMap.Unity.Data
         public virtual IDisposable Subscribe(IObserver<Tuple<Tile, string>> observer)
         {
             // TODO handle unsubscribe
-            _observers.Add(observer);
+            lock (_observersLock)
+                _observers = new List<IObserver<Tuple<Tile, string>>>(_observers) { observer };
             return Disposable.Empty;
         }
 
diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 81d8ab8..05862de 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -46,10 +46,12 @@ namespace UtyMap.Unity.Data
         private readonly IMapDataProvider _mapDataProvider;
         private readonly IMapDataLibrary _mapDataLibrary;
 
-        private readonly List<string> _storageKeys = new List<string>();
-        private readonly List<IObserver<MapData>> _dataObservers = new List<IObserver<MapData>>();
-        private readonly List<IObserver<Tile>> _tileObservers = new List<IObserver<Tile>>();
-        private readonly List<IObserver<Element>> _elementObservers = new List<IObserver<Element>>();
+        // NOTE lists are used by other threads: they are replaced, never modified.
+        private readonly object _lockObj = new object();
+        private List<string> _storageKeys = new List<string>();
+        private List<IObserver<MapData>> _dataObservers = new List<IObserver<MapData>>();
+        private List<IObserver<Tile>> _tileObservers = new List<IObserver<Tile>>();
+        private List<IObserver<Element>> _elementObservers = new List<IObserver<Element>>();
 
         [Dependency]
         public MapDataStore(IMapDataProvider mapDataProvider, IMapDataLibrary mapDataLibrary)
@@ -80,14 +82,16 @@ namespace UtyMap.Unity.Data
         /// <inheritdoc />
         public void Register(string storageKey)
         {
-            _storageKeys.Add(storageKey);
+            lock (_lockObj)
+                _storageKeys = new List<string>(_storageKeys) { storageKey };
             _mapDataLibrary.Register(storageKey);
         }
 
         /// <inheritdoc />
         public void Register(string storageKey, string dataPath)
         {
-            _storageKeys.Add(storageKey);
+            lock (_lockObj)
+                _storageKeys = new List<string>(_storageKeys) { storageKey };
             _mapDataLibrary.Register(storageKey, dataPath);
         }
 
@@ -144,21 +148,24 @@ namespace UtyMap.Unity.Data
         /// <summary> Subscribes on mesh/element data loaded events. </summary>
         public IDisposable Subscribe(IObserver<MapData> observer)
         {
-            _dataObservers.Add(observer);
+            lock (_lockObj)
+                _dataObservers = new List<IObserver<MapData>>(_dataObservers) { observer };
             return Disposable.Empty;
         }
 
         /// <summary> Subscribes on tile fully load event. </summary>
         public IDisposable Subscribe(IObserver<Tile> observer)
         {
-            _tileObservers.Add(observer);
+            lock (_lockObj)
+                _tileObservers = new List<IObserver<Tile>>(_tileObservers) { observer };
             return Disposable.Empty;
         }
 
         /// <summary> Subscribes on element search event. </summary>
         public IDisposable Subscribe(IObserver<Element> observer)
         {
-            _elementObservers.Add(observer);
+            lock (_lockObj)
+                _elementObservers = new List<IObserver<Element>>(_elementObservers) { observer };
             return Disposable.Empty;
         }
 
diff --git a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
index 3349752..fdaaa1c 100644
--- a/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/NominatimGeocoder.cs
@@ -28,6 +28,8 @@ namespace UtyMap.Unity.Geocoding
         private string _searchPath;
         private string _reverseSearchPath;
 
+        // NOTE list is used by other threads: it is replaced, never modified.
+        private readonly object _observersLock = new object();
         private List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
 
         [Dependency]
@@ -39,14 +41,16 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         public IDisposable Subscribe(IObserver<GeocoderResult> observer)
         {
-            _observers.Add(observer);
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>(_observers) { observer };
             return Disposable.Empty;
         }
 
         /// <inheritdoc />
         void IObserver<Tuple<string, BoundingBox>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -58,7 +62,8 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         void IObserver<Tuple<GeoCoordinate, float>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -149,7 +154,8 @@ namespace UtyMap.Unity.Geocoding
         public void Dispose()
         {
             _observers.ForEach(o => o.OnCompleted());
-            _observers.Clear();
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
     }
 }
diff --git a/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs b/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs
index 36bfce8..40a6ca1 100644
--- a/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs
+++ b/unity/library/UtyMap.Unity/Geocoding/UtyMapGeocoder.cs
@@ -15,7 +15,9 @@ namespace UtyMap.Unity.Geocoding
         private readonly string _andTerms = "addr street housenumber";
         private readonly string _orTerms = "";
 
-        private readonly List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
+        // NOTE list is used by other threads: it is replaced, never modified.
+        private readonly object _observersLock = new object();
+        private List<IObserver<GeocoderResult>> _observers = new List<IObserver<GeocoderResult>>();
         private readonly IDisposable _subscription;
 
         /// <summary> Expected address tags. </summary>
@@ -40,14 +42,16 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         public IDisposable Subscribe(IObserver<GeocoderResult> observer)
         {
-            _observers.Add(observer);
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>(_observers) { observer };
             return Disposable.Empty;
         }
 
         /// <inheritdoc />
         void IObserver<Tuple<string, BoundingBox>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -59,7 +63,8 @@ namespace UtyMap.Unity.Geocoding
         /// <inheritdoc />
         void IObserver<Tuple<GeoCoordinate, float>>.OnCompleted()
         {
-            _observers.Clear();
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>();
         }
 
         /// <inheritdoc />
@@ -110,7 +115,8 @@ namespace UtyMap.Unity.Geocoding
         public void Dispose()
         {
             _observers.ForEach(o => o.OnCompleted());
-            _observers.Clear();
+            lock (_observersLock)
+                _observers = new List<IObserver<GeocoderResult>>();
             _subscription.Dispose();
         }
     }
-- 
2.43.0


From 53f3dcc63627ec6678621a74f722328086c78e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 49/49] fix: height of a plane's texture is scaled at the
 latitude of the plane, not at its elevation

---
 core/src/builders/MeshBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 2422f29..a3a8442 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -222,7 +222,7 @@ void MeshBuilder::addPlane(Mesh &mesh, const Vector3 &p1, const Vector3 &p2,
   double size = bbox_.width()/appearanceOptions.textureScale;
   // NOTE cannot use original vertices as y is not normalized
   double scaleX = Vector2::distance(Vector2(p2.x, p2.z), Vector2(p1.x, p1.z))/size;
-  double scaleY = GeoUtils::getOffset(GeoCoordinate(p1.y, p1.x), geometryOptions.heightOffset)/size;
+  double scaleY = GeoUtils::getOffset(GeoCoordinate(p1.z, p1.x), geometryOptions.heightOffset)/size;
 
   const auto topP1 = Vector3(p1.x, p1.y + geometryOptions.heightOffset, p1.z);
   const auto topP2 = Vector3(p2.x, p2.y + geometryOptions.heightOffset, p2.z);
-- 
2.43.0

