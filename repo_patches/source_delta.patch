From 00044492cd53f47c0375c656e20308842020b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 01/76] fix: do not cache empty string for id which is not yet
 assigned

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index b73e003..6f12922 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -76,6 +76,10 @@ class StringTable::StringTableImpl {
     if (cache_.exists(id))
       return cache_.get(id);
 
+    // NOTE do not cache unknown id: it can be assigned later.
+    if (id >= offsets_.size())
+      return std::make_shared<std::string>();
+
     std::string str;
     readString(id, str);
     cache_.put(id, std::move(str));
-- 
2.43.0


From a69701d9c35035348924cdba2e75f5d7c0388ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 02/76] fix: do not index garbage when bitmap file of a tile is
 absent or read to its end

---
 core/src/index/BitmapStream.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/src/index/BitmapStream.cpp b/core/src/index/BitmapStream.cpp
index a88714a..c626202 100644
--- a/core/src/index/BitmapStream.cpp
+++ b/core/src/index/BitmapStream.cpp
@@ -6,12 +6,10 @@ void BitmapStream::read(std::istream &in, BitmapIndex::Bitmap &bitmap) {
   std::uint32_t key;
   BitmapIndex::Bitset bitset;
   in.seekg(0, std::ios::beg);
-  do
-  {
-    in.read(reinterpret_cast<char *>(&key), sizeof(key));
+  while (in.read(reinterpret_cast<char *>(&key), sizeof(key))) {
     bitset.read(in);
     bitmap.emplace(key, bitset);
-  } while (in);
+  }
 }
 
 void BitmapStream::write(std::ostream &out, const BitmapIndex::Bitmap &bitmap) {
-- 
2.43.0


From fb03aee87db941c943dfe949f8847ea24ee30814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 03/76] fix: persistent store appends and counts at the end of
 tile files regardless of earlier searches

---
 core/src/index/PersistentElementStore.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index d3f659c..1a2c9ab 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -116,17 +116,18 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
 
   void store(const Element &element, const QuadKey &quadKey) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    // NOTE current positions might be changed by search
+    quadKeyData->dataFile->seekg(0, std::ios::end);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto offset = static_cast<std::uint32_t>(quadKeyData->dataFile->tellg());
     auto fileSize = quadKeyData->indexFile->tellg();
     auto order = static_cast<std::uint32_t>(fileSize / (sizeof(element.id) + sizeof(offset)));
 
     // write element index
-    quadKeyData->indexFile->seekg(0, std::ios::end);
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
     quadKeyData->indexFile->write(reinterpret_cast<const char *>(&offset), sizeof(offset));
 
     // write element data
-    quadKeyData->dataFile->seekg(0, std::ios::end);
     ElementStream::write(*quadKeyData->dataFile, element);
 
     // write element search data
@@ -149,6 +150,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
     const auto &quadKeyData = getQuadKeyData(quadKey);
+    quadKeyData->indexFile->seekg(0, std::ios::end);
     auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
         (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
 
-- 
2.43.0


From af8112c3238d6fce07f5462b38d10b22f2d4cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 04/76] fix: text search with optional terms returns nothing
 where none of them matches

---
 core/src/index/BitmapIndex.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/index/BitmapIndex.cpp b/core/src/index/BitmapIndex.cpp
index c453d4b..32bedae 100644
--- a/core/src/index/BitmapIndex.cpp
+++ b/core/src/index/BitmapIndex.cpp
@@ -49,14 +49,17 @@ void BitmapIndex::search(const BitmapIndex::Query &query, ElementVisitor &visito
 
         auto& bitmap = getBitmap(quadKey);
         Bitset bitset;
+        // NOTE empty result of previous operation is not the same as its absence.
+        bool hasResult = !orTerms.empty();
 
         applyOperation(orTerms, bitmap, [&](const Bitset &b) {
           bitset = b.logicalor(bitset);
         }, [](){ return true; });
 
         applyOperation(andTerms, bitmap, [&](const Bitset &b) {
-          if (bitset.sizeInBits() == 0) {
+          if (!hasResult) {
             bitset = b;
+            hasResult = true;
             return;
           }
           bitset = b.logicaland(bitset);
-- 
2.43.0


From b9a50da78c095ddb7d9f10d8efb8a7918ebeeae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 05/76] fix: restore append position of a bitmap read from
 stream

---
 core/lib/ewah/ewah.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/ewah/ewah.h b/core/lib/ewah/ewah.h
index 6b3d987..d3e71d7 100644
--- a/core/lib/ewah/ewah.h
+++ b/core/lib/ewah/ewah.h
@@ -1129,6 +1129,11 @@ void EWAHBoolArray<uword>::read(std::istream &in, const bool savesizeinbits) {
   if (buffersize > 0)
     in.read(reinterpret_cast<char *>(&buffer[0]),
             static_cast<std::streamsize>(sizeof(uword) * buffersize));
+  // restore position of the last marker word: it is used to append new bits
+  lastRLW = 0;
+  for (size_t i = 0; i < buffer.size();
+       i += RunningLengthWord<uword>::getNumberOfLiteralWords(buffer[i]) + 1)
+    lastRLW = i;
 }
 
 template <class uword>
-- 
2.43.0


From 4c7c56d5653e82cac2fcad14e25da288ad0ba251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:52 +0000
Subject: [PATCH 06/76] fix: merge declarations of all element rules for the
 same id

---
 core/src/mapcss/StyleProvider.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 940ea2f..783a3a5 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -324,8 +324,10 @@ class StyleProvider::StyleProviderImpl {
     });
 
     for (int i = selector.zoom.start; i <= selector.zoom.end; ++i) {
-      for (const auto &filterPair : filter)
-        filters.elements[i].emplace(filterPair);
+      for (const auto &filterPair : filter) {
+        auto &styles = filters.elements[i][filterPair.first];
+        styles.insert(styles.end(), filterPair.second.begin(), filterPair.second.end());
+      }
     }
   }
 
-- 
2.43.0


From c847329290fc68af785621b71e0ad39665bdbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:09 +0000
Subject: [PATCH 07/76] fix: gradient returns color of its last stop behind it

---
 core/src/mapcss/ColorGradient.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/mapcss/ColorGradient.hpp b/core/src/mapcss/ColorGradient.hpp
index 132e44b..b89d0ae 100644
--- a/core/src/mapcss/ColorGradient.hpp
+++ b/core/src/mapcss/ColorGradient.hpp
@@ -3,6 +3,7 @@
 
 #include "mapcss/Color.hpp"
 
+#include <algorithm>
 #include <cstdint>
 #include <vector>
 #include <utility>
@@ -47,7 +48,8 @@ class ColorGradient final {
 
     double timeA = pairA.first;
     double timeB = pairB.first;
-    double mu = index==0 ? 0 : (time - timeA)/(timeB - timeA);
+    // NOTE use color of the last stop behind it
+    double mu = index==0 ? 0 : std::min(1., (time - timeA)/(timeB - timeA));
 
     return interpolate(pairA.second, pairB.second, mu);
   }
-- 
2.43.0


From 2bef2db306f4cf34cab2b581c5205d193a8ea1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 08/76] fix: turtle pitches around its right axis and rolls
 around its direction

---
 core/src/lsys/Turtle3d.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index 34ea2d9..7b5a76d 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -31,19 +31,19 @@ void Turtle3d::turnAround() {
 }
 
 void Turtle3d::pitchUp() {
-  state_.direction = createRotation(angle_)*state_.direction;
+  state_.direction = Quaternion::fromAngleAxis(angle_, state_.right)*state_.direction;
 }
 
 void Turtle3d::pitchDown() {
-  state_.direction = createRotation(-angle_)*state_.direction;
+  state_.direction = Quaternion::fromAngleAxis(-angle_, state_.right)*state_.direction;
 }
 
 void Turtle3d::rollLeft() {
-  state_.right = createRotation(-angle_)*state_.right;
+  state_.right = Quaternion::fromAngleAxis(-angle_, state_.direction)*state_.right;
 }
 
 void Turtle3d::rollRight() {
-  state_.right = createRotation(angle_)*state_.right;
+  state_.right = Quaternion::fromAngleAxis(angle_, state_.direction)*state_.right;
 }
 
 void Turtle3d::increment() {
-- 
2.43.0


From 8109912b6fcdbbbf9f2a03869a103101fd80cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 09/76] fix: restoring turtle state which was not saved is an
 error

---
 core/src/lsys/Turtle3d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/lsys/Turtle3d.cpp b/core/src/lsys/Turtle3d.cpp
index 7b5a76d..c2cb832 100644
--- a/core/src/lsys/Turtle3d.cpp
+++ b/core/src/lsys/Turtle3d.cpp
@@ -2,6 +2,8 @@
 #include "lsys/LSystem.hpp"
 #include "utils/MathUtils.hpp"
 
+#include <stdexcept>
+
 using namespace utymap::lsys;
 using namespace utymap::math;
 
@@ -71,6 +73,9 @@ void Turtle3d::save() {
 }
 
 void Turtle3d::restore() {
+  if (states_.empty())
+    throw std::domain_error("Turtle has no saved state to restore.");
+
   state_ = states_.top();
   states_.pop();
 }
-- 
2.43.0


From db68161dea6f259d97c1baaa3091d2992fd3e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 10/76] fix: restoring turtle state restores its style too

---
 core/src/builders/generators/LSystemGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/src/builders/generators/LSystemGenerator.cpp b/core/src/builders/generators/LSystemGenerator.cpp
index 68c4ce0..ab29d5b 100644
--- a/core/src/builders/generators/LSystemGenerator.cpp
+++ b/core/src/builders/generators/LSystemGenerator.cpp
@@ -94,6 +94,11 @@ class DickTurtle : public Turtle3d {
     updateStyles();
   }
 
+  void restore() override {
+    Turtle3d::restore();
+    updateStyles();
+  }
+
  private:
   void addSphere() {
     icoSphereGenerator_
-- 
2.43.0


From fb182b6bb711aea7b7bd158b16d529409b64990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 11/76] fix: do not extend sign of low byte of srtm height

---
 core/src/heightmap/SrtmElevationProvider.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 2a308e2..d1f6e69 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -6,6 +6,7 @@
 #include "utils/GeoUtils.hpp"
 
 #include <cmath>
+#include <cstdint>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -142,7 +143,9 @@ class SrtmElevationProvider final : public ElevationProvider {
 
   static int readPx(const HgtCell &cell, int y, int x) {
     int pos = cell.offset + 2*(x - cell.totalPx*y);
-    return (cell.data[pos]) << 8 | (cell.data[pos + 1]);
+    // NOTE big endian signed 16 bit value: sign has to be taken only from the whole value.
+    return static_cast<std::int16_t>(static_cast<unsigned char>(cell.data[pos]) << 8 |
+        static_cast<unsigned char>(cell.data[pos + 1]));
   }
 
   static HgtCell readCell(const std::string &path) {
-- 
2.43.0


From 0974b5063c587b76dead9cf8855cd09dfecc76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 12/76] fix: find srtm cell and offset inside it south of
 equator and west of greenwich

---
 core/src/heightmap/SrtmElevationProvider.hpp | 26 +++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index d1f6e69..7ab8e31 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -5,6 +5,7 @@
 #include "heightmap/ElevationProvider.hpp"
 #include "utils/GeoUtils.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstdint>
 #include <fstream>
@@ -67,10 +68,10 @@ class SrtmElevationProvider final : public ElevationProvider {
       return;
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-    int minLat = static_cast<int>(bbox.minPoint.latitude);
-    int minLon = static_cast<int>(bbox.minPoint.longitude);
-    int maxLat = static_cast<int>(bbox.maxPoint.latitude);
-    int maxLon = static_cast<int>(bbox.maxPoint.longitude);
+    int minLat = static_cast<int>(std::floor(bbox.minPoint.latitude));
+    int minLon = static_cast<int>(std::floor(bbox.minPoint.longitude));
+    int maxLat = static_cast<int>(std::floor(bbox.maxPoint.latitude));
+    int maxLon = static_cast<int>(std::floor(bbox.maxPoint.longitude));
 
     int latDiff = maxLat - minLat;
     int lonDiff = maxLon - minLon;
@@ -89,8 +90,9 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
-    int latDec = static_cast<int>(latitude);
-    int lonDec = static_cast<int>(longitude);
+    // NOTE cells are named by their south west corner.
+    int latDec = static_cast<int>(std::floor(latitude));
+    int lonDec = static_cast<int>(std::floor(longitude));
 
     double secondsLat = (latitude - latDec)*3600;
     double secondsLon = (longitude - lonDec)*3600;
@@ -116,8 +118,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     // (sec)    0        3   x  (lon)
 
     //both values are [0; totalPx - 1] (totalPx reserved for interpolating)
-    int y = static_cast<int>(secondsLat/cell.secondsPerPx);
-    int x = static_cast<int>(secondsLon/cell.secondsPerPx);
+    int y = std::min(static_cast<int>(secondsLat/cell.secondsPerPx), cell.totalPx - 2);
+    int x = std::min(static_cast<int>(secondsLon/cell.secondsPerPx), cell.totalPx - 2);
 
     //get norther and easter points
     int height2 = readPx(cell, y, x);
@@ -126,8 +128,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     int height1 = readPx(cell, y + 1, x + 1);
 
     //ratio where X lays
-    double dy = std::fmod(secondsLat, cell.secondsPerPx)/cell.secondsPerPx;
-    double dx = std::fmod(secondsLon, cell.secondsPerPx)/cell.secondsPerPx;
+    double dy = secondsLat/cell.secondsPerPx - y;
+    double dx = secondsLon/cell.secondsPerPx - x;
 
     // Bilinear interpolation
     // h0------------h1
@@ -179,9 +181,9 @@ class SrtmElevationProvider final : public ElevationProvider {
     std::ostringstream stream;
     stream << dataPath_
            << std::setfill('0')
-           << (key.lat > 0 ? 'N' : 'S')
+           << (key.lat >= 0 ? 'N' : 'S')
            << std::setw(2) << std::abs(key.lat) << std::setw(0)
-           << (key.lon > 0 ? 'E' : 'W')
+           << (key.lon >= 0 ? 'E' : 'W')
            << std::setw(3) << std::abs(key.lon)
            << ".hgt";
     return stream.str();
-- 
2.43.0


From 71237acf6d0d9678b9b6656b419cb88b61823e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 13/76] fix: load srtm cell which covers requested location
 instead of all cells of its tile

---
 core/src/heightmap/SrtmElevationProvider.hpp | 33 ++++----------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 7ab8e31..35b6634 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -1,9 +1,7 @@
 #ifndef HEIGHTMAP_SRTMELEVATIONPROVIDER_HPP_DEFINED
 #define HEIGHTMAP_SRTMELEVATIONPROVIDER_HPP_DEFINED
 
-#include "BoundingBox.hpp"
 #include "heightmap/ElevationProvider.hpp"
-#include "utils/GeoUtils.hpp"
 
 #include <algorithm>
 #include <cmath>
@@ -52,44 +50,25 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   double getElevation(const utymap::QuadKey &quadKey, const utymap::GeoCoordinate &coordinate) const override {
-    return getElevationImpl(quadKey, coordinate.latitude, coordinate.longitude);
+    return getElevationImpl(coordinate.latitude, coordinate.longitude);
   }
 
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    return getElevationImpl(quadKey, latitude, longitude);
+    return getElevationImpl(latitude, longitude);
   }
 
  private:
 
-  void preload(const utymap::QuadKey &quadKey, HgtCellKey &hgtCellKey) const {
+  void preload(const HgtCellKey &hgtCellKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
     if (cells_.find(hgtCellKey)!=cells_.end())
       return;
 
-    BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-    int minLat = static_cast<int>(std::floor(bbox.minPoint.latitude));
-    int minLon = static_cast<int>(std::floor(bbox.minPoint.longitude));
-    int maxLat = static_cast<int>(std::floor(bbox.maxPoint.latitude));
-    int maxLon = static_cast<int>(std::floor(bbox.maxPoint.longitude));
-
-    int latDiff = maxLat - minLat;
-    int lonDiff = maxLon - minLon;
-
-    for (int j = 0; j <= latDiff; j++)
-      for (int i = 0; i <= lonDiff; i++) {
-        HgtCellKey cellKey(minLat + j, minLon + i);
-
-        if (cells_.find(cellKey)!=cells_.end())
-          continue;
-
-        std::string path = getFilePath(cellKey);
-        HgtCell cell = readCell(path);
-        cells_.emplace(cellKey, readCell(path));
-      }
+    cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey)));
   }
 
-  double getElevationImpl(const utymap::QuadKey &quadKey, double latitude, double longitude) const {
+  double getElevationImpl(double latitude, double longitude) const {
     // NOTE cells are named by their south west corner.
     int latDec = static_cast<int>(std::floor(latitude));
     int lonDec = static_cast<int>(std::floor(longitude));
@@ -100,7 +79,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     HgtCellKey hgtCellKey(latDec, lonDec);
     auto cellPtr = cells_.find(hgtCellKey);
     if (cellPtr==cells_.end()) {
-      preload(quadKey, hgtCellKey);
+      preload(hgtCellKey);
       cellPtr = cells_.find(hgtCellKey);
     }
 
-- 
2.43.0


From 546215321bc55c610ecef0839b94a8bc04841ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 14/76] fix: do not create srtm file which is absent

---
 core/src/heightmap/SrtmElevationProvider.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 35b6634..d7130f0 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -130,7 +130,7 @@ class SrtmElevationProvider final : public ElevationProvider {
   }
 
   static HgtCell readCell(const std::string &path) {
-    std::fstream file(path, std::ios::in | std::ios::out | std::ios::binary | std::ios::app);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     file.seekg(0, std::ios::end);
     auto size = file.tellg();
 
-- 
2.43.0


From 591627bd443bddd8767d151fe72359a44b1717b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 15/76] fix: do not round cell size of elevation grid

---
 core/src/heightmap/GridElevationProvider.hpp | 30 +++++++++-----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 29a6b14..8829845 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -23,17 +23,15 @@ namespace heightmap {
 class GridElevationProvider final : public ElevationProvider {
   /// Holds elevation data information.
   struct EleData {
-    int xStart = 0;
-    int yStart = 0;
-    int xStep = 0;
-    int yStep = 0;
+    double xStart = 0;
+    double yStart = 0;
+    double xStep = 0;
+    double yStep = 0;
     int resolution = 0;
 
     std::vector<int> heights;
   };
 
-  const double Scale = 1E7;
-
  public:
   GridElevationProvider(const std::string& indexPath) :
       dataPath_(indexPath + "/data/") {
@@ -54,17 +52,17 @@ class GridElevationProvider final : public ElevationProvider {
 
     int resolution = data->second.resolution;
 
-    int x = static_cast<int>(longitude*Scale) - data->second.xStart;
-    int y = static_cast<int>(latitude*Scale) - data->second.yStart;
+    double x = longitude - data->second.xStart;
+    double y = latitude - data->second.yStart;
 
-    int x0 = clamp(x/data->second.xStep, 0, resolution);
-    int y0 = clamp(y/data->second.yStep, 0, resolution);
+    int x0 = clamp(static_cast<int>(x/data->second.xStep), 0, resolution);
+    int y0 = clamp(static_cast<int>(y/data->second.yStep), 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = static_cast<double>(x - x0*data->second.xStep)/data->second.xStep;
-    double dy = static_cast<double>(y - y0*data->second.yStep)/data->second.yStep;
+    double dx = x/data->second.xStep - x0;
+    double dy = y/data->second.yStep - y0;
 
     int cellSize = resolution + 1;
     int height2 = data->second.heights[x0 + y0*cellSize];
@@ -119,10 +117,10 @@ class GridElevationProvider final : public ElevationProvider {
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
 
     data.resolution = static_cast<int>(std::sqrt(data.heights.size())) - 1;
-    data.xStart = static_cast<int>(bbox.minPoint.longitude*Scale);
-    data.yStart = static_cast<int>(bbox.minPoint.latitude*Scale);
-    data.xStep = static_cast<int>(bbox.width()/data.resolution*Scale);
-    data.yStep = static_cast<int>(bbox.height()/data.resolution*Scale);
+    data.xStart = bbox.minPoint.longitude;
+    data.yStart = bbox.minPoint.latitude;
+    data.xStep = bbox.width()/data.resolution;
+    data.yStep = bbox.height()/data.resolution;
 
     data_.emplace(quadKey, std::move(data));
   }
-- 
2.43.0


From b499b3c290e503b8acce8407f0055086f9fbf5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 16/76] fix: report elevation grid without cells

---
 core/src/heightmap/GridElevationProvider.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 8829845..94698b7 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -111,7 +111,7 @@ class GridElevationProvider final : public ElevationProvider {
 
     data.heights.shrink_to_fit();
 
-    if (data.heights.empty())
+    if (data.heights.size() < 4)
       throw std::domain_error("Cannot get elevation data from:" + filePath);
 
     BoundingBox bbox = utymap::utils::GeoUtils::quadKeyToBoundingBox(quadKey);
-- 
2.43.0


From e6be679d8d79dd2336727bd6fcba02ad9327cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 17/76] fix: keep part of a way which crosses a tile without
 having points inside it

---
 core/src/index/ElementGeometryClipper.cpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 1668028..538dad7 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -19,26 +19,14 @@ const double Scale = 1E7;
 
 using PointLocation = utymap::index::ElementGeometryClipper::PointLocation;
 
-template<typename T, typename std::enable_if<std::is_same<T, Way>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &, const BoundingBox &, bool allOutside) {
-  return !allOutside;
-}
-
-template<typename T, typename std::enable_if<std::is_same<T, Area>::value, std::size_t>::type = 0>
-bool areConnected(const BoundingBox &quadKeyBbox, const BoundingBox &elementBbox, bool allOutside) {
-  return quadKeyBbox.intersects(elementBbox);
-}
-
 template<typename T>
 PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, IntPath &elementShape) {
   elementShape.reserve(element.coordinates.size());
   bool allInside = true;
-  bool allOutside = true;
   BoundingBox elementBbox;
   for (const GeoCoordinate &coord : element.coordinates) {
     bool contains = quadKeyBbox.contains(coord);
     allInside &= contains;
-    allOutside &= !contains;
     elementBbox.expand(coord);
 
     auto x = static_cast<cInt>(coord.longitude*Scale);
@@ -47,7 +35,7 @@ PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, Int
   }
 
   return allInside ? PointLocation::AllInside :
-         (areConnected<T>(quadKeyBbox, elementBbox, allOutside) ? PointLocation::Mixed : PointLocation::AllOutside);
+         (quadKeyBbox.intersects(elementBbox) ? PointLocation::Mixed : PointLocation::AllOutside);
 }
 
 template<typename T>
-- 
2.43.0


From 6cfd876bb847c5d355f079235581a725b34f9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 18/76] fix: do not lose clipped node on border of tile

---
 core/src/index/ElementGeometryClipper.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index 538dad7..b454b16 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -19,6 +19,11 @@ const double Scale = 1E7;
 
 using PointLocation = utymap::index::ElementGeometryClipper::PointLocation;
 
+/// Checks whether coordinate is inside of bounding box or on its border.
+bool containsOrTouches(const BoundingBox &bbox, const GeoCoordinate &coordinate) {
+  return bbox.intersects(BoundingBox(coordinate, coordinate));
+}
+
 template<typename T>
 PointLocation checkElement(const BoundingBox &quadKeyBbox, const T &element, IntPath &elementShape) {
   elementShape.reserve(element.coordinates.size());
@@ -137,7 +142,7 @@ struct RelationVisitor : public ElementVisitor {
   }
 
   void visitNode(const Node &node) override {
-    if (bbox_.contains(node.coordinate)) {
+    if (containsOrTouches(bbox_, node.coordinate)) {
       ensureRelation();
       relation->elements.push_back(std::make_shared<Node>(node));
     }
@@ -214,7 +219,7 @@ void ElementGeometryClipper::clipAndCall(const Element &element) {
 }
 
 void ElementGeometryClipper::visitNode(const Node &node) {
-  if (quadKeyBbox_.contains(node.coordinate))
+  if (containsOrTouches(quadKeyBbox_, node.coordinate))
     callback_(node, quadKey_);
 }
 
-- 
2.43.0


From bd587716cc57988fcceed80bf0f7074b69988f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:29 +0000
Subject: [PATCH 19/76] fix: clip ways along and across borders of tile without
 losing or inventing parts

---
 core/src/index/ElementGeometryClipper.cpp | 96 ++++++++++++++++++-----
 1 file changed, 77 insertions(+), 19 deletions(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index b454b16..c81b641 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -8,6 +8,9 @@
 #include "index/ElementStore.hpp"
 #include "index/ElementGeometryClipper.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 using namespace utymap;
 using namespace utymap::entities;
 using namespace utymap::mapcss;
@@ -69,11 +72,73 @@ IntPath createPathFromBoundingBox(const BoundingBox &quadKeyBbox) {
   return std::move(rect);
 }
 
+/// Limits range [start, end] of segment's parameter to the part where its coordinate is between min and max.
+void limitRange(cInt from, cInt to, cInt min, cInt max, double &start, double &end) {
+  if (from==to) {
+    if (from < min || from > max) end = -1;
+    return;
+  }
+  double first = static_cast<double>(min - from)/(to - from);
+  double second = static_cast<double>(max - from)/(to - from);
+  start = std::max(start, std::min(first, second));
+  end = std::min(end, std::max(first, second));
+}
+
+/// Gets coordinate of the point on segment.
+cInt getCoordinate(cInt from, cInt to, cInt min, cInt max, double position) {
+  auto value = static_cast<cInt>(std::round(from + position*(to - from)));
+  return std::max(min, std::min(max, value));
+}
+
+/// Clips polyline, parts are built from its last point to the first one.
+IntPaths clipPolyline(const IntPath &line, const IntPath &rect) {
+  const IntPoint &min = rect[0], &max = rect[2];
+  IntPaths parts;
+  for (auto i = line.size(); i > 1; --i) {
+    const IntPoint &from = line[i - 1], &to = line[i - 2];
+    double start = 0, end = 1;
+    limitRange(from.X, to.X, min.X, max.X, start, end);
+    limitRange(from.Y, to.Y, min.Y, max.Y, start, end);
+    if (start >= end) continue;
+
+    IntPoint points[2] = {from, to};
+    for (auto index = 0; index < 2; ++index) {
+      double position = index==0 ? start : end;
+      if (position > 0 && position < 1)
+        points[index] = IntPoint(getCoordinate(from.X, to.X, min.X, max.X, position),
+                                 getCoordinate(from.Y, to.Y, min.Y, max.Y, position));
+    }
+    if (points[0]==points[1]) continue;
+
+    if (parts.empty() || parts.back().back()!=points[0])
+      parts.push_back(IntPath(1, points[0]));
+    parts.back().push_back(points[1]);
+  }
+  return parts;
+}
+
+/// Clips geometry of area.
+IntPaths clipPath(Clipper &clipper, const BoundingBox &, const Area &, const IntPath &shape) {
+  PolyTree solution;
+  addSubject(clipper, shape);
+  executeIntersection(clipper, solution);
+  clipper.removeSubject();
+
+  IntPaths parts;
+  for (PolyNode *node = solution.GetFirst(); node!=nullptr; node = node->GetNext())
+    parts.push_back(node->Contour);
+  return parts;
+}
+
+/// Clips geometry of way.
+IntPaths clipPath(Clipper &, const BoundingBox &bbox, const Way &, const IntPath &shape) {
+  return clipPolyline(shape, createPathFromBoundingBox(bbox));
+}
+
 template<typename T>
 std::shared_ptr<Element> clipElement(Clipper &clipper,
                                      const BoundingBox &bbox,
-                                     const T &element,
-                                     bool isClosed) {
+                                     const T &element) {
   IntPath elementShape;
   PointLocation pointLocation = checkElement(bbox, element, elementShape);
   // 1. all geometry inside current quadkey: no need to truncate.
@@ -86,35 +151,28 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
     return nullptr;
   }
 
-  PolyTree solution;
-  addSubject(clipper, elementShape, isClosed);
-  executeIntersection(clipper, solution);
-  clipper.removeSubject();
-
-  std::size_t count = static_cast<std::size_t>(solution.Total());
+  IntPaths parts = clipPath(clipper, bbox, element, elementShape);
 
   // 3. way intersects border only once: store a copy with clipped geometry
-  if (count==1) {
+  if (parts.size()==1) {
     auto clippedElement = std::make_shared<T>();
     clippedElement->id = element.id;
     clippedElement->tags = element.tags;
-    setCoordinates(*clippedElement, solution.GetFirst()->Contour);
-    
+    setCoordinates(*clippedElement, parts[0]);
+
     return clippedElement;
   }
   // 4. in this case, result should be stored as relation (collection of ways)
-  if (count > 1) {
+  if (parts.size() > 1) {
     auto relation = std::make_shared<Relation>();
     relation->id = element.id;
-    relation->elements.reserve(count);
-    PolyNode *polyNode = solution.GetFirst();
-    while (polyNode) {
+    relation->elements.reserve(parts.size());
+    for (const auto &part : parts) {
       auto clippedElement = std::make_shared<T>();
       clippedElement->id = 0;
       clippedElement->tags = element.tags;
-      setCoordinates(*clippedElement, polyNode->Contour);
+      setCoordinates(*clippedElement, part);
       relation->elements.push_back(clippedElement);
-      polyNode = polyNode->GetNext();
     }
     return relation;
   }
@@ -124,11 +182,11 @@ std::shared_ptr<Element> clipElement(Clipper &clipper,
 }
 
 std::shared_ptr<Element> clipWay(Clipper &clipper, const BoundingBox &bbox, const Way &way) {
-  return clipElement(clipper, bbox, way, false);
+  return clipElement(clipper, bbox, way);
 }
 
 std::shared_ptr<Element> clipArea(Clipper &clipper, const BoundingBox &bbox, const Area &area) {
-  return clipElement(clipper, bbox, area, true);
+  return clipElement(clipper, bbox, area);
 }
 
 std::shared_ptr<Element> clipRelation(Clipper &clipper,
-- 
2.43.0


From 8e4570ed0f49598b2ba404b424fda4451591dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 20/76] fix: mark hole of polygon by a point which is inside of
 it for sure

---
 core/src/math/Polygon.hpp | 86 ++++++++++++++-------------------------
 1 file changed, 31 insertions(+), 55 deletions(-)

diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index 9f7d71b..e31a6eb 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -3,6 +3,9 @@
 
 #include "Rectangle.hpp"
 
+#include <algorithm>
+#include <vector>
+
 namespace utymap {
 namespace math {
 
@@ -70,67 +73,40 @@ class Polygon final {
     }
   }
 
-  /// Tries to find point in polygon.
+  /// Tries to find point which is strictly inside polygon: it is the center of the widest polygon's
+  /// part on horizontal line which goes through the middle of the biggest gap between points.
   static bool findPointInPolygon(const std::vector<Vector2> &contour, Vector2 &point) {
-    Rectangle bounds;
-    bounds.expand(contour);
-
-    auto length = contour.size();
-    int limit = 8;
-
-    Vector2 a, b; // Current edge.
-    if (contour.size()==3) {
-      point = Vector2((contour[0].x + contour[1].x + contour[2].x)/3,
-                      (contour[0].y + contour[1].y + contour[2].y)/3);
-      return true;
-    }
-
-    for (std::size_t i = 0; i < length; i++) {
-      a = contour[i];
-      b = contour[(i + 1)%length];
-
-      double cx = (a.x + b.x)/2;
-      double cy = (a.y + b.y)/2;
-
-      double dx = (b.y - a.y)/1.374;
-      double dy = (a.x - b.x)/1.374;
-
-      for (int j = 1; j <= limit; j++) {
-        // Search to the right of the segment.
-        point.x = cx + dx/j;
-        point.y = cy + dy/j;
-
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
-
-        // Search on the other side of the segment.
-        point.x = cx - dx/j;
-        point.y = cy - dy/j;
-
-        if (bounds.contains(point) && isPointInPolygon(point, contour))
-          return true;
-      }
+    if (contour.size() < 3)
+      return false;
+
+    std::vector<double> values;
+    for (const auto &p : contour)
+      values.push_back(p.y);
+    point.y = getGapCenter(values, 1);
+
+    values.clear();
+    for (std::size_t i = 0, j = contour.size() - 1; i < contour.size(); j = i++) {
+      const auto &a = contour[i];
+      const auto &b = contour[j];
+      if ((a.y > point.y)!=(b.y > point.y))
+        values.push_back(a.x + (point.y - a.y)/(b.y - a.y)*(b.x - a.x));
     }
+    if (values.empty())
+      return false;
 
-    return false;
+    point.x = getGapCenter(values, 2);
+    return true;
   }
 
-  /// Checks whether point in polygon using ray casting algorithm
-  static bool isPointInPolygon(const Vector2 &point, const std::vector<Vector2> &poly) {
-    bool inside = false;
-    double x = point.x;
-    double y = point.y;
-    auto count = poly.size();
-
-    for (std::size_t i = 0, j = count - 1; i < count; i++) {
-      if (((poly[i].y < y && poly[j].y >= y) || (poly[j].y < y && poly[i].y >= y))
-          && (poly[i].x <= x || poly[j].x <= x)) {
-        inside ^= (poly[i].x + (y - poly[i].y)/(poly[j].y - poly[i].y)*(poly[j].x - poly[i].x) < x);
-      }
-      j = i;
+  /// Gets center of the biggest gap between sorted values, gaps are checked with given step.
+  static double getGapCenter(std::vector<double> &values, std::size_t step) {
+    std::sort(values.begin(), values.end());
+    std::size_t index = 0;
+    for (std::size_t i = step; i + 1 < values.size(); i += step) {
+      if (values[i + 1] - values[i] > values[index + 1] - values[index])
+        index = i;
     }
-
-    return inside;
+    return values[index] + (values[index + 1] - values[index])/2;
   }
 };
 
-- 
2.43.0


From d4286df8dfe370a29f259206aa8a6d187495d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 21/76] fix: wrong indices of triangle's back side

---
 core/src/builders/MeshBuilder.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 7a115ca..63a47e2 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -247,10 +247,9 @@ void MeshBuilder::addTriangle(Mesh &mesh,
   addVertex(mesh, v2, color, ++startIndex, uv2);
 
   if (geometryOptions.hasBackSide) {
-    // TODO check indices
-    addVertex(mesh, v2, color, startIndex, uv0);
+    addVertex(mesh, v2, color, ++startIndex, uv2);
     addVertex(mesh, v1, color, ++startIndex, uv1);
-    addVertex(mesh, v0, color, ++startIndex, uv2);
+    addVertex(mesh, v0, color, ++startIndex, uv0);
   }
 }
 
-- 
2.43.0


From dd509b8dbb805db660476be2b8503d12cfc43990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 22/76] fix: wrong extent of rectangle with negative
 coordinates

---
 core/src/math/Rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/math/Rectangle.hpp b/core/src/math/Rectangle.hpp
index 1550dd7..26fc82d 100644
--- a/core/src/math/Rectangle.hpp
+++ b/core/src/math/Rectangle.hpp
@@ -19,8 +19,8 @@ struct Rectangle final {
   Rectangle()
       : Rectangle(std::numeric_limits<double>::max(),
                   std::numeric_limits<double>::max(),
-                  std::numeric_limits<double>::min(),
-                  std::numeric_limits<double>::min()) {
+                  std::numeric_limits<double>::lowest(),
+                  std::numeric_limits<double>::lowest()) {
   }
 
   Rectangle(double xMin, double yMin, double xMax, double yMax) :
-- 
2.43.0


From 4126bb1b7417b0d63a3851dedc793afca94a9da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 23/76] fix: do not triangulate polygon without three different
 points

---
 core/src/builders/MeshBuilder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index 63a47e2..bed830b 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -9,6 +9,7 @@
 #include "utils/GradientUtils.hpp"
 
 #include <mutex>
+#include <set>
 
 using namespace utymap;
 using namespace utymap::builders;
@@ -50,6 +51,17 @@ void ensureMeshCapacity(Mesh &mesh, std::size_t pointCount, std::size_t triCount
   mesh.uvs.reserve(mesh.uvs.size() + pointCount*2);
 }
 
+/// Checks whether polygon has enough different points to be triangulated.
+bool canTriangulate(const Polygon &polygon) {
+  std::set<std::pair<double, double>> points;
+  for (std::size_t i = 0; i + 1 < polygon.points.size(); i += 2) {
+    points.insert(std::make_pair(polygon.points[i], polygon.points[i + 1]));
+    if (points.size() > 2)
+      return true;
+  }
+  return false;
+}
+
 /// Fills mesh with all data needed to render object correctly outside core library.
 void fillMesh(triangulateio *io, QuadKey quadKey, const BoundingBox &bbox, Mesh &mesh,
               const ElevationProvider &eleProvider,
@@ -117,6 +129,10 @@ void MeshBuilder::addPolygon(Mesh &mesh,
                              Polygon &polygon,
                              const GeometryOptions &geometryOptions,
                              const AppearanceOptions &appearanceOptions) const {
+  // NOTE triangle library crashes if there are less than three different points.
+  if (!canTriangulate(polygon))
+    return;
+
   triangulateio in, mid;
 
   in.numberofpoints = static_cast<int>(polygon.points.size()/2);
-- 
2.43.0


From a59554d6b56d033621771995b0ae11f20f2499bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 24/76] fix: skip building with degenerated outline

---
 core/src/builders/buildings/BuildingBuilder.cpp | 6 ++++++
 core/src/math/Polygon.hpp                       | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index f780cd0..5da1dc1 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -257,6 +257,12 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
   }
 
   void build(const Element &element, const Style &style) {
+    // NOTE outline might be degenerated.
+    if (polygon_->outers.empty() || polygon_->points.size() < 6) {
+      polygon_.reset();
+      return;
+    }
+
     auto geoCoordinate = GeoCoordinate(polygon_->points[1], polygon_->points[0]);
 
     double height = style.getValue(StyleConsts::HeightKey());
diff --git a/core/src/math/Polygon.hpp b/core/src/math/Polygon.hpp
index e31a6eb..2c81126 100644
--- a/core/src/math/Polygon.hpp
+++ b/core/src/math/Polygon.hpp
@@ -42,6 +42,9 @@ class Polygon final {
 
  private:
   void addContour(const std::vector<Vector2> &contour, bool isHole) {
+    if (contour.empty())
+      return;
+
     auto count = contour.size();
     if (contour[0]==contour[count - 1])
       count--;
-- 
2.43.0


From 524c4ce5cd1452b38cd44cb8e20a9e05e209641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 25/76] fix: build mansard roof on its footprint only

---
 .../buildings/roofs/MansardRoofBuilder.hpp    | 58 ++++++++++++++-----
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
index 2babcd0..48da58a 100644
--- a/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/MansardRoofBuilder.hpp
@@ -22,6 +22,11 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
   }
 
   void build(utymap::math::Polygon &polygon) override {
+    // NOTE only one simple polygon is supported.
+    if (polygon.outers.size()!=1 || !polygon.inners.empty()) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
     utymap::math::ClipperOffset offset;
     utymap::math::IntPath path;
     path.reserve(polygon.points.size()/2);
@@ -51,7 +56,15 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
       return FlatRoofBuilder::build(polygon);
     }
 
-    build(polygon, solution[0], findFirstIndex(solution[0][0], polygon));
+    if (utymap::math::getOrientation(solution[0])!=utymap::math::getOrientation(path))
+      std::reverse(solution[0].begin(), solution[0].end());
+
+    auto index = findFirstIndex(solution[0], path);
+    if (!hasParallelSides(solution[0], path, index)) {
+      return FlatRoofBuilder::build(polygon);
+    }
+
+    build(polygon, solution[0], index*2);
   }
 
  private:
@@ -59,9 +72,6 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
   void build(const utymap::math::Polygon &polygon,
              utymap::math::IntPath &offsetShape,
              std::size_t index) {
-    if (!utymap::math::getOrientation(offsetShape))
-      std::reverse(offsetShape.begin(), offsetShape.end());
-
     // build top
     utymap::math::Polygon topShape(offsetShape.size(), 0);
     std::vector<utymap::math::Vector2> topShapeVertices;
@@ -115,25 +125,45 @@ class MansardRoofBuilder final : public FlatRoofBuilder {
     }
   }
 
-  std::size_t findFirstIndex(const utymap::math::IntPoint &p,
-                             const utymap::math::Polygon &polygon) const {
-    utymap::math::Vector2 point(p.X/Scale, p.Y/Scale);
-
-    std::size_t index = 0, size = polygon.points.size()/2;
+  /// Finds point of the outline which corresponds to the first point of offset shape.
+  std::size_t findFirstIndex(const utymap::math::IntPath &offsetShape,
+                             const utymap::math::IntPath &outline) const {
+    std::size_t index = 0, size = outline.size();
     double minDistance = std::numeric_limits<double>::max();
+    for (std::size_t i = 0; i < size; ++i) {
+      double distance = 0;
+      for (std::size_t j = 0; j < size; ++j) {
+        const auto &p1 = outline[(i + j)%size];
+        const auto &p2 = offsetShape[j];
+        distance += utymap::math::Vector2::distance(utymap::math::Vector2(p1.X/Scale, p1.Y/Scale),
+                                                    utymap::math::Vector2(p2.X/Scale, p2.Y/Scale));
+      }
 
-    for (std::size_t i = 0; i < size; i += 2) {
-      double distance = utymap::math::Vector2::distance(point,
-                                                        utymap::math::Vector2(polygon.points[i],
-                                                                              polygon.points[i + 1]));
       if (distance < minDistance) {
         minDistance = distance;
         index = i;
       }
     }
-
     return index;
   }
+
+  /// Checks that every side of offset shape corresponds to a side of the outline starting from given index.
+  bool hasParallelSides(const utymap::math::IntPath &offsetShape,
+                        const utymap::math::IntPath &outline,
+                        std::size_t index) const {
+    std::size_t size = outline.size();
+    for (std::size_t i = 0; i < size; ++i) {
+      if (getDirection(outline, (index + i)%size).dot(getDirection(offsetShape, i)) < 0.99)
+        return false;
+    }
+    return true;
+  }
+
+  utymap::math::Vector2 getDirection(const utymap::math::IntPath &path, std::size_t index) const {
+    const auto &p1 = path[index];
+    const auto &p2 = path[(index + 1)%path.size()];
+    return utymap::math::Vector2(static_cast<double>(p2.X - p1.X), static_cast<double>(p2.Y - p1.Y)).normalized();
+  }
 };
 
 }
-- 
2.43.0


From c7686ac2e64361283b622be066c9cac97fc9e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:48 +0000
Subject: [PATCH 26/76] fix: use flat roof where skillion roof has several
 outlines or holes

---
 core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp b/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
index 6187fed..190ec82 100644
--- a/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
+++ b/core/src/builders/buildings/roofs/SkillionRoofBuilder.hpp
@@ -48,6 +48,9 @@ class SkillionRoofBuilder : public FlatRoofBuilder {
 
   /// Tries to build skillion roof. So far we support only one simple polygon.
   bool buildSkillion(utymap::math::Polygon &polygon) const {
+    if (polygon.outers.size()!=1 || !polygon.inners.empty())
+      return false;
+
     // get direction vector
     const auto grad = utymap::utils::deg2Rad(direction_);
     const auto direction = utymap::math::Vector2(std::sin(grad), std::cos(grad)).normalized();
-- 
2.43.0


From 1673046db1b2956d9c4d1fa7a6457ef748299a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 27/76] fix: do not add elevation to pillars of a line twice

---
 core/src/builders/misc/BarrierBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index 081898b..fc7f47e 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -99,8 +99,9 @@ void BarrierBuilder::buildPillar(const T &element, Iterator begin, Iterator end,
   Mesh mesh(utymap::utils::getMeshName(MeshNamePrefix, element));
   CylinderGenerator generator(context_, meshContext);
   generator
+      // NOTE elevation of replicated pillars is set when mesh is copied.
       .setCenter(Vector3(begin->longitude,
-                         context_.eleProvider.getElevation(context_.quadKey, *begin),
+                         size==1 ? context_.eleProvider.getElevation(context_.quadKey, *begin) : 0,
                          begin->latitude))
       .setSize(Vector3(radius.x, height, radius.z))
       .setMaxSegmentHeight(5)
-- 
2.43.0


From 8bd1d8e90bf87ccc15af17d9bbd8a1e2e8ed5e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 28/76] fix: close barrier around an area

---
 core/src/builders/misc/BarrierBuilder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/misc/BarrierBuilder.cpp b/core/src/builders/misc/BarrierBuilder.cpp
index fc7f47e..e3100ef 100644
--- a/core/src/builders/misc/BarrierBuilder.cpp
+++ b/core/src/builders/misc/BarrierBuilder.cpp
@@ -30,7 +30,12 @@ void BarrierBuilder::visitWay(const Way &way) {
 }
 
 void BarrierBuilder::visitArea(const Area &area) {
-  build(area, area.coordinates.begin(), area.coordinates.end());
+  // NOTE area is closed, but its first coordinate is normally not repeated.
+  auto geometry = area.coordinates;
+  if (geometry.size() > 2 && !(geometry.front()==geometry.back()))
+    geometry.push_back(geometry.front());
+
+  build(area, geometry.begin(), geometry.end());
 }
 
 void BarrierBuilder::visitRelation(const Relation &relation) {
-- 
2.43.0


From 1c187eb0cded82f623bf7b3bba7781a5cf35f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 29/76] fix: build solid wall if length of its parts is not
 specified

---
 core/src/builders/generators/WallGenerator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/generators/WallGenerator.hpp b/core/src/builders/generators/WallGenerator.hpp
index 0a4be41..5dec99a 100644
--- a/core/src/builders/generators/WallGenerator.hpp
+++ b/core/src/builders/generators/WallGenerator.hpp
@@ -59,13 +59,14 @@ class WallGenerator : public AbstractGenerator {
 
     auto size = static_cast<std::size_t>(std::distance(begin_, end_) - 1);
     auto fullLength = length_ + gap_;
-    auto ratio = length_/fullLength;
+    // NOTE build solid wall if length is not specified.
+    auto ratio = length_ > 0 ? length_/fullLength : 1;
     for (std::size_t i = 0; i < size; ++i) {
       const auto &p0 = *(begin_ + i);
       const auto &p1 = *(begin_ + i + 1);
 
       double distanceInMeters = utymap::utils::GeoUtils::distance(p0, p1);
-      int count = std::max(static_cast<int>(distanceInMeters/fullLength), 1);
+      int count = length_ > 0 ? std::max(static_cast<int>(distanceInMeters/fullLength), 1) : 1;
 
       auto start = p0;
       for (int j = 1; j <= count; ++j) {
-- 
2.43.0


From c40ce7bde0db2c0b1ccc81c7e2794c42815f67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 30/76] fix: trees and lamps along a way without points

---
 core/src/builders/misc/LampBuilder.cpp | 2 +-
 core/src/builders/poi/TreeBuilder.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/misc/LampBuilder.cpp b/core/src/builders/misc/LampBuilder.cpp
index db01c32..05c6e70 100644
--- a/core/src/builders/misc/LampBuilder.cpp
+++ b/core/src/builders/misc/LampBuilder.cpp
@@ -44,7 +44,7 @@ void LampBuilder::visitWay(const utymap::entities::Way &way) {
 
   LSystemGenerator::generate(context_, style, lampMesh, center, 0);
 
-  for (std::size_t i = 0; i < way.coordinates.size() - 1; ++i) {
+  for (std::size_t i = 0; i + 1 < way.coordinates.size(); ++i) {
     const auto &p0 = way.coordinates[i];
     const auto &p1 = way.coordinates[i + 1];
 
diff --git a/core/src/builders/poi/TreeBuilder.cpp b/core/src/builders/poi/TreeBuilder.cpp
index b4b797e..3514b3d 100644
--- a/core/src/builders/poi/TreeBuilder.cpp
+++ b/core/src/builders/poi/TreeBuilder.cpp
@@ -43,7 +43,7 @@ void TreeBuilder::visitWay(const utymap::entities::Way &way) {
 
   double treeStepInMeters = style.getValue(TreeStepKey);
 
-  for (std::size_t i = 0; i < way.coordinates.size() - 1; ++i) {
+  for (std::size_t i = 0; i + 1 < way.coordinates.size(); ++i) {
     const auto &p0 = way.coordinates[i];
     const auto &p1 = way.coordinates[i + 1];
     utymap::utils::copyMeshAlong(context_.quadKey,
-- 
2.43.0


From b55f6d7f3868df0c474da6548c452a72990a7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 31/76] fix: build parts of clipped element once if it is
 stored more than once

---
 core/src/builders/QuadKeyBuilder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index d41a915..f49acb9 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -36,8 +36,9 @@ class BuilderElementVisitor : public ElementVisitor {
 
   void visitRelation(const Relation &relation) override {
     if (relation.tags.empty()) {
-      // processing clipped element
-      ids_.insert(relation.id);
+      // processing clipped element which might be stored more than once
+      if (relation.id!=0 && !ids_.insert(relation.id).second)
+        return;
       for (const auto &element : relation.elements)
         visitElement(*element);
     } else
-- 
2.43.0


From 6b7dc2f2366676d848969642ef517c0242868505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 32/76] fix: build elements of different types with the same id

---
 core/src/builders/QuadKeyBuilder.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index f49acb9..2aba63c 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -3,6 +3,7 @@
 #include "builders/QuadKeyBuilder.hpp"
 
 #include <set>
+#include <typeindex>
 
 using namespace utymap;
 using namespace utymap::builders;
@@ -37,7 +38,7 @@ class BuilderElementVisitor : public ElementVisitor {
   void visitRelation(const Relation &relation) override {
     if (relation.tags.empty()) {
       // processing clipped element which might be stored more than once
-      if (relation.id!=0 && !ids_.insert(relation.id).second)
+      if (relation.elements.empty() || (relation.id!=0 && !ids_.insert(getKey(*relation.elements[0], relation.id)).second))
         return;
       for (const auto &element : relation.elements)
         visitElement(*element);
@@ -58,7 +59,7 @@ class BuilderElementVisitor : public ElementVisitor {
 
     if (canBuild(element, style)) {
 
-      ids_.insert(element.id);
+      ids_.insert(getKey(element, element.id));
 
       for (const auto &name : style.getBuilders()) {
         element.accept(getBuilder(name));
@@ -68,7 +69,12 @@ class BuilderElementVisitor : public ElementVisitor {
 
   bool canBuild(const Element &element, const Style &style) {
     // check do we know how to build it and prevent multiple building
-    return !style.empty() && (element.id==0 || ids_.find(element.id)==ids_.end());
+    return !style.empty() && (element.id==0 || ids_.find(getKey(element, element.id))==ids_.end());
+  }
+
+  /// Gets key of element: ids are unique only inside the same element type.
+  static std::pair<std::type_index, std::uint64_t> getKey(const Element &element, std::uint64_t id) {
+    return std::make_pair(std::type_index(typeid(element)), id);
   }
 
   ElementBuilder &getBuilder(const std::string &name) {
@@ -89,7 +95,7 @@ class BuilderElementVisitor : public ElementVisitor {
 
   const BuilderContext &context_;
   BuilderFactoryMap &builderFactoryMap_;
-  std::set<std::uint64_t> ids_;
+  std::set<std::pair<std::type_index, std::uint64_t>> ids_;
   std::unordered_map<std::string, std::unique_ptr<ElementBuilder>> builders_;
 };
 }
-- 
2.43.0


From f9556f160cb90b23ff0cb94277b5ba75c82ad4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 33/76] fix: empty mesh cache file is not a valid one

---
 core/src/builders/MeshCache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 1bce9f2..c2224e7 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -157,7 +157,8 @@ class MeshCache::MeshCacheImpl {
   static bool isGood(std::istream& stream) {
     if (!stream.good()) return false;
 
-    char status;
+    // NOTE file is empty if process died before the marker is written.
+    char status = 0;
     stream >> status;
     return status == 1;
   }
-- 
2.43.0


From e4279927e88182e232c60ae2b72088b22586b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 34/76] fix: only owner of mesh cache file finishes it, failed
 build leaves no entry

---
 core/src/builders/CacheBuilder.hpp |  10 ++-
 core/src/builders/MeshCache.cpp    | 125 +++++++++++++++++------------
 core/src/builders/MeshCache.hpp    |   3 +
 3 files changed, 84 insertions(+), 54 deletions(-)

diff --git a/core/src/builders/CacheBuilder.hpp b/core/src/builders/CacheBuilder.hpp
index 98f0538..b8d3cd6 100644
--- a/core/src/builders/CacheBuilder.hpp
+++ b/core/src/builders/CacheBuilder.hpp
@@ -21,6 +21,12 @@ class CacheBuilder final : public ElementBuilder {
       ElementBuilder(context),
       meshCache_(meshCache) {}
 
+  /// Abandons caching if build is not completed.
+  ~CacheBuilder() {
+    if (cacheContext_)
+      meshCache_.abandon(*cacheContext_);
+  }
+
   void prepare() override {
     if (meshCache_.fetch(context_))
       builder_ = utymap::utils::make_unique<EmptyBuilder>(context_);
@@ -49,10 +55,8 @@ class CacheBuilder final : public ElementBuilder {
 
   void complete() override {
     builder_->complete();
-    if (cacheContext_) {
+    if (cacheContext_)
       meshCache_.unwrap(*cacheContext_);
-      cacheContext_.release();
-    }
   }
 
  private:
diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index c2224e7..405ad3c 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -4,6 +4,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <unordered_set>
 
 using namespace utymap;
 using namespace utymap::builders;
@@ -15,12 +16,38 @@ using namespace utymap::utils;
 namespace {
 const char ElementType = 0;
 const char MeshType = 1;
+
+/// Writes mesh into cache file before it is passed to original callback.
+struct MeshWriter final {
+  std::shared_ptr<std::fstream> file;
+  BuilderContext::MeshCallback callback;
+  const CancellationToken &token;
+
+  void operator()(const Mesh &mesh) const {
+    if (token.isCancelled()) return;
+    *file << MeshType;
+    MeshStream::write(*file, mesh);
+    callback(mesh);
+  }
+};
+
+/// Writes element into cache file before it is passed to original callback.
+struct ElementWriter final {
+  std::shared_ptr<std::fstream> file;
+  BuilderContext::ElementCallback callback;
+  const CancellationToken &token;
+
+  void operator()(const Element &element) const {
+    if (token.isCancelled()) return;
+    *file << ElementType;
+    file->write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
+    ElementStream::write(*file, element);
+    callback(element);
+  }
+};
 }
 
 class MeshCache::MeshCacheImpl {
-  using MeshCallback = BuilderContext::MeshCallback;
-  using ElementCallback = BuilderContext::ElementCallback;
-
  public:
   explicit MeshCacheImpl(const std::string &dataPath, const std::string &extension) :
       dataPath_(dataPath),
@@ -30,7 +57,8 @@ class MeshCache::MeshCacheImpl {
     auto filePath = getFilePath(context);
 
     std::lock_guard<std::mutex> lock(lock_);
-    return isCacheHit(context.quadKey, filePath) ? context : wrap(context, filePath);
+    // NOTE if caching is already in progress, only the first one is allowed to write.
+    return isInProgress(filePath) || isCacheHit(filePath) ? context : wrap(context, filePath);
   }
 
   bool fetch(const BuilderContext &context) {
@@ -38,7 +66,7 @@ class MeshCache::MeshCacheImpl {
 
     {
       std::lock_guard<std::mutex> lock(lock_);
-      if (!isCacheHit(context.quadKey, filePath))
+      if (isInProgress(filePath) || !isCacheHit(filePath))
         return false;
     }
 
@@ -47,38 +75,45 @@ class MeshCache::MeshCacheImpl {
     return true;
   }
 
-  void unwrap(const BuilderContext &context) {
+  void unwrap(const BuilderContext &context, bool isCompleted) {
+    // NOTE only context which writes the file can finish it.
+    auto writer = context.meshCallback.target<MeshWriter>();
+    if (writer==nullptr) return;
+
+    auto filePath = getFilePath(context);
+    auto &file = *writer->file;
+
     std::lock_guard<std::mutex> lock(lock_);
 
-    auto entry = cachingQuads_.find(context.quadKey);
-
-    if (entry==cachingQuads_.end()) return;
-
-    if (entry->second->good()) {
-      if (context.cancelToken.isCancelled()) {
-        // NOTE no guarantee that all data was processed and saved.
-        // So it is better to delete the whole file
-        entry->second->close();
-        // TODO any smarter option?
-        if (!entry->second->fail())
-          std::remove(getFilePath(context).c_str());
-      } else {
-        entry->second->seekg(0, std::ios::beg);
-        *entry->second << static_cast<char>(1);
-        entry->second->close();
+    if (!file.is_open()) return;
+
+    if (isCompleted && !context.cancelToken.isCancelled()) {
+      if (file.good()) {
+        file.seekg(0, std::ios::beg);
+        file << static_cast<char>(1);
       }
+      file.close();
+    } else {
+      // NOTE no guarantee that all data was processed and saved.
+      // So it is better to delete the whole file
+      file.close();
+      // TODO any smarter option?
+      std::remove(filePath.c_str());
     }
 
-    cachingQuads_.erase(entry);
+    cachingFiles_.erase(filePath);
   }
 
  private:
 
+  /// Checks whether caching of given file is in progress.
+  /// In this case, we let app to behaviour as there is no cache at all
+  bool isInProgress(const std::string &filePath) const {
+    return cachingFiles_.find(filePath)!=cachingFiles_.end();
+  }
+
   /// Checks whether the data associated with given context is already cached on disk.
-  bool isCacheHit(const QuadKey &quadKey, const std::string &filePath) const {
-    // NOTE if quadkey is preset in collection, then caching is in progress.
-    // in this case, we let app to behaviour as there is no cache at all
-    if (cachingQuads_.find(quadKey) != cachingQuads_.end()) return false;
+  bool isCacheHit(const std::string &filePath) const {
     // NOTE if file is on disk, it should be processed.
     std::ifstream file(filePath, std::ios::in | std::ios::binary | std::ios::ate);
     file.seekg(0, std::ios::beg);
@@ -97,10 +132,12 @@ class MeshCache::MeshCacheImpl {
   BuilderContext wrap(const BuilderContext &context, const std::string &filePath) {
     auto file = std::make_shared<std::fstream>();
     file->open(filePath, std::ios::out | std::ios::binary | std::ios::trunc);
+    if (!file->is_open()) return context;
+
     // NOTE marker that processing in progress
     *file << static_cast<char>(0);
 
-    cachingQuads_.insert({context.quadKey, file});
+    cachingFiles_.insert(filePath);
 
     return BuilderContext(
         context.quadKey,
@@ -108,30 +145,11 @@ class MeshCache::MeshCacheImpl {
         context.stringTable,
         context.meshPool,
         context.eleProvider,
-        wrap(*file, context.meshCallback, context.cancelToken),
-        wrap(*file, context.elementCallback, context.cancelToken),
+        MeshWriter{file, context.meshCallback, context.cancelToken},
+        ElementWriter{file, context.elementCallback, context.cancelToken},
         context.cancelToken);
   }
 
-  static MeshCallback wrap(std::ostream &stream, const MeshCallback &callback, const CancellationToken &token) {
-    return [&](const Mesh &mesh) {
-      if (token.isCancelled()) return;
-      stream << MeshType;
-      MeshStream::write(stream, mesh);
-      callback(mesh);
-    };
-  }
-
-  static ElementCallback wrap(std::ostream &stream, const ElementCallback &callback, const CancellationToken &token) {
-    return [&](const Element &element) {
-      if (token.isCancelled()) return;
-      stream << ElementType;
-      stream.write(reinterpret_cast<const char *>(&element.id), sizeof(element.id));
-      ElementStream::write(stream, element);
-      callback(element);
-    };
-  }
-
   static void readCache(std::string &filePath, const BuilderContext &context) {
     std::fstream file;
     file.open(filePath, std::ios::in | std::ios::binary | std::ios::app | std::ios::ate);
@@ -166,7 +184,8 @@ class MeshCache::MeshCacheImpl {
   const std::string dataPath_;
   const std::string extension_;
   std::mutex lock_;
-  std::map<QuadKey, std::shared_ptr<std::fstream>, QuadKey::Comparator> cachingQuads_;
+  /// Files which are currently written.
+  std::unordered_set<std::string> cachingFiles_;
 };
 
 MeshCache::MeshCache(const std::string &directory, const std::string &extension) :
@@ -182,7 +201,11 @@ bool MeshCache::fetch(const BuilderContext &context) const {
 }
 
 void MeshCache::unwrap(const BuilderContext &context) const {
-  pimpl_->unwrap(context);
+  pimpl_->unwrap(context, true);
+}
+
+void MeshCache::abandon(const BuilderContext &context) const {
+  pimpl_->unwrap(context, false);
 }
 
 MeshCache::~MeshCache() {}
diff --git a/core/src/builders/MeshCache.hpp b/core/src/builders/MeshCache.hpp
index e848b3a..400ad90 100644
--- a/core/src/builders/MeshCache.hpp
+++ b/core/src/builders/MeshCache.hpp
@@ -36,6 +36,9 @@ class MeshCache final {
   /// Releases context.
   void unwrap(const BuilderContext &context) const;
 
+  /// Releases context without completion: nothing is stored in cache.
+  void abandon(const BuilderContext &context) const;
+
   ~MeshCache();
 
  private:
-- 
2.43.0


From d26402e2be3df4f28dc5fa834760e8b57c68de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 35/76] fix: tag of stylesheet is different for different
 styles, textures and lsystems

---
 core/src/mapcss/MapCssParser.cpp  |  4 +-
 core/src/mapcss/StyleProvider.cpp | 76 +++++++++++++++++++++----------
 core/src/mapcss/StyleSheet.hpp    |  2 +
 3 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index 759f7a3..d850afd 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -233,7 +233,9 @@ struct ExtraImportGrammar : qi::grammar<Iterator, CommentSkipper<Iterator> > {
     std::ifstream file(directory + fileName);
     if (!file.good())
       throw utymap::MapCssException(std::string("Cannot find:") + directory + fileName);
-    return std::string((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
+    std::string content((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
+    stylesheet.resources.append(fileName + '\0' + content + '\0');
+    return content;
   }
 
   qi::rule<Iterator, CommentSkipper<Iterator>> start;
diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 783a3a5..c852a75 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -9,6 +9,7 @@
 #include "utils/GradientUtils.hpp"
 
 #include <mutex>
+#include <set>
 
 using namespace utymap::entities;
 using namespace utymap::index;
@@ -47,12 +48,22 @@ struct FilterCollection final {
   IdentifierFilterMap elements;
 };
 
+/// Alters tag with given string. Size is added to distinguish different sequences of strings.
+void addTo(std::string &tag, const std::string &str) {
+  tag.append(utymap::utils::toString(str.size()));
+  tag.append(":");
+  tag.append(str);
+}
+
 /// Alters tag with value specific for passed style declarations.
-void addTo(std::string &tag, const StyleDeclarations &styles) {
+/// NOTE strings are used instead of their ids as ids might be different after restart.
+void addTo(std::string &tag, const StyleDeclarations &styles, const StringTable &stringTable) {
+  tag.append("{");
   for (const auto &style :styles) {
-    tag.append(utymap::utils::toString(style->key()));
-    tag.append(utymap::utils::toString(style->value()));
+    addTo(tag, *stringTable.getString(style->key()));
+    addTo(tag, style->value());
   }
+  tag.append("}");
 }
 
 void addTo(std::string &tag, const OpType &type) {
@@ -70,43 +81,58 @@ void addTo(std::string &tag, const OpType &type) {
   }
 }
 
+/// Gets keys in specific order which does not depend on their insertion.
+template<typename Map>
+std::set<typename Map::key_type> getKeys(const Map &map) {
+  std::set<typename Map::key_type> keys;
+  for (const auto &pair : map)
+    keys.insert(pair.first);
+  return keys;
+}
+
 /// Alters tag with value specific for passed filter map.
-void addTo(std::string &tag, const ConditionFilterMap &filterMap) {
-  for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
-    for (const auto &filter : pair.second) {
+void addTo(std::string &tag, const ConditionFilterMap &filterMap, const StringTable &stringTable) {
+  tag.append("[");
+  for (auto key : getKeys(filterMap)) {
+    addTo(tag, utymap::utils::toString(key));
+    for (const auto &filter : filterMap.at(key)) {
       for (const auto &cond : filter.conditions) {
-        tag.append(utymap::utils::toString(cond.key));
+        addTo(tag, *stringTable.getString(cond.key));
         addTo(tag, cond.type);
-        tag.append(utymap::utils::toString(cond.value));
+        addTo(tag, *stringTable.getString(cond.value));
       }
-      addTo(tag, filter.declarations);
+      addTo(tag, filter.declarations, stringTable);
     }
   }
+  tag.append("]");
 }
 
 /// Alters tag with value specific for passed filter map.
-void addTo(std::string &tag, const IdentifierFilterMap &filterMap) {
-  for (const auto &pair : filterMap) {
-    tag.append(utymap::utils::toString(pair.first));
-    for (const auto &id : pair.second) {
-      tag.append(utymap::utils::toString(id.first));
-      addTo(tag, id.second);
+void addTo(std::string &tag, const IdentifierFilterMap &filterMap, const StringTable &stringTable) {
+  tag.append("[");
+  for (auto key : getKeys(filterMap)) {
+    addTo(tag, utymap::utils::toString(key));
+    for (auto id : getKeys(filterMap.at(key))) {
+      addTo(tag, utymap::utils::toString(id));
+      addTo(tag, filterMap.at(key).at(id), stringTable);
     }
+    tag.append("|");
   }
+  tag.append("]");
 }
 
-/// Gets hash for given filter collection.
-std::string getHashTag(const FilterCollection &filterCollection) {
+/// Gets hash for given filter collection and imported resources.
+std::string getHashTag(const FilterCollection &filterCollection, const std::string &resources, const StringTable &stringTable) {
   std::string tag;
   tag.reserve(64000);
 
-  addTo(tag, filterCollection.nodes);
-  addTo(tag, filterCollection.ways);
-  addTo(tag, filterCollection.areas);
-  addTo(tag, filterCollection.relations);
-  addTo(tag, filterCollection.canvases);
-  addTo(tag, filterCollection.elements);
+  addTo(tag, filterCollection.nodes, stringTable);
+  addTo(tag, filterCollection.ways, stringTable);
+  addTo(tag, filterCollection.areas, stringTable);
+  addTo(tag, filterCollection.relations, stringTable);
+  addTo(tag, filterCollection.canvases, stringTable);
+  addTo(tag, filterCollection.elements, stringTable);
+  addTo(tag, resources);
 
   return MD5(tag).hexdigest();
 }
@@ -277,7 +303,7 @@ class StyleProvider::StyleProviderImpl {
       lsystems.emplace(lsystem.first, utymap::utils::make_unique<const utymap::lsys::LSystem>(lsystem.second));
     }
 
-    hashTag_ = getHashTag(filters);
+    hashTag_ = getHashTag(filters, stylesheet.resources, stringTable);
   }
 
   const std::string &getTag() const {
diff --git a/core/src/mapcss/StyleSheet.hpp b/core/src/mapcss/StyleSheet.hpp
index fbb25da..2cb9276 100644
--- a/core/src/mapcss/StyleSheet.hpp
+++ b/core/src/mapcss/StyleSheet.hpp
@@ -128,6 +128,8 @@ struct StyleSheet final {
   std::vector<Rule> rules;
   std::vector<TextureAtlas> textures;
   std::unordered_map<std::string, utymap::lsys::LSystem> lsystems;
+  /// Names and content of imported textures and lsystems.
+  std::string resources;
 };
 
 }
-- 
2.43.0


From f453bf2db352b1f5c81d038d9297c47363940d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 36/76] fix: use different cache entries for different
 elevation data

---
 core/src/builders/MeshCache.cpp              | 9 ++++++++-
 core/src/heightmap/ElevationProvider.hpp     | 5 +++++
 core/src/heightmap/GridElevationProvider.hpp | 2 ++
 core/src/heightmap/SrtmElevationProvider.hpp | 2 ++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/src/builders/MeshCache.cpp b/core/src/builders/MeshCache.cpp
index 405ad3c..162581a 100644
--- a/core/src/builders/MeshCache.cpp
+++ b/core/src/builders/MeshCache.cpp
@@ -125,7 +125,14 @@ class MeshCache::MeshCacheImpl {
     std::stringstream ss;
     ss << dataPath_ << "/cache/" << context.styleProvider.getTag()
        << "/" << context.quadKey.levelOfDetail << "/"
-       << GeoUtils::quadKeyToString(context.quadKey) << extension_;
+       << GeoUtils::quadKeyToString(context.quadKey);
+
+    // NOTE meshes are different for different elevation data.
+    auto eleTag = context.eleProvider.getTag();
+    if (!eleTag.empty())
+      ss << '.' << eleTag;
+
+    ss << extension_;
     return ss.str();
   }
 
diff --git a/core/src/heightmap/ElevationProvider.hpp b/core/src/heightmap/ElevationProvider.hpp
index 542b73b..7e82605 100644
--- a/core/src/heightmap/ElevationProvider.hpp
+++ b/core/src/heightmap/ElevationProvider.hpp
@@ -4,6 +4,8 @@
 #include "GeoCoordinate.hpp"
 #include "QuadKey.hpp"
 
+#include <string>
+
 namespace utymap {
 namespace heightmap {
 
@@ -16,6 +18,9 @@ class ElevationProvider {
   /// Gets elevation for given geocoordinate.
   virtual double getElevation(const QuadKey &quadkey, double latitude, double longitude) const = 0;
 
+  /// Gets tag of elevation data: empty if there is no elevation.
+  virtual std::string getTag() const { return ""; }
+
   virtual ~ElevationProvider() = default;
 };
 
diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index 94698b7..ba4b6e6 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -37,6 +37,8 @@ class GridElevationProvider final : public ElevationProvider {
       dataPath_(indexPath + "/data/") {
   }
 
+  std::string getTag() const override { return "grid"; }
+
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, const utymap::GeoCoordinate &coordinate) const override {
     return getElevation(quadKey, coordinate.latitude, coordinate.longitude);
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index d7130f0..458cbdf 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -57,6 +57,8 @@ class SrtmElevationProvider final : public ElevationProvider {
     return getElevationImpl(latitude, longitude);
   }
 
+  std::string getTag() const override { return "srtm"; }
+
  private:
 
   void preload(const HgtCellKey &hgtCellKey) const {
-- 
2.43.0


From d10a279f95faf05186f654872859cc63f2f2bc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 37/76] fix: terrain builder does not change elements of store

---
 core/src/builders/terrain/TerraBuilder.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index f51bb00..912a8ea 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -42,6 +42,19 @@ struct MoreThanSortOrder {
   }
 };
 
+/// Creates copy of element.
+struct CopyVisitor : public ElementVisitor {
+  std::shared_ptr<Element> copy;
+
+  void visitNode(const Node &n) override { copy = std::make_shared<Node>(n); }
+
+  void visitWay(const Way &w) override { copy = std::make_shared<Way>(w); }
+
+  void visitArea(const Area &a) override { copy = std::make_shared<Area>(a); }
+
+  void visitRelation(const Relation &r) override { copy = std::make_shared<Relation>(r); }
+};
+
 /// Visits relation and fills region.
 struct RelationVisitor : public ElementVisitor {
   const Relation &relation;
@@ -129,10 +142,15 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
     auto region = std::make_shared<Region>();
     RelationVisitor visitor(*this, rel, *region);
 
-    for (const auto &element : rel.elements) {
+    for (auto element : rel.elements) {
       // if there are no tags, then this element is result of clipping
-      if (element->tags.empty())
+      // NOTE element might be owned by element store: do not change it
+      if (element->tags.empty()) {
+        CopyVisitor copyVisitor;
+        element->accept(copyVisitor);
+        element = copyVisitor.copy;
         element->tags = rel.tags;
+      }
 
       if (context_.styleProvider.hasStyle(*element, context_.quadKey.levelOfDetail))
         element->accept(visitor);
-- 
2.43.0


From da3ee5479171d011c3433a6d0d62f0344878fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 38/76] fix: lock shared gradients while they are looked up

---
 core/src/mapcss/StyleProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index c852a75..23e1f14 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -311,12 +311,12 @@ class StyleProvider::StyleProviderImpl {
   }
 
   const ColorGradient &getGradient(const std::string &key) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto gradientPair = gradients.find(key);
     if (gradientPair==gradients.end()) {
       auto gradient = utymap::utils::GradientUtils::parseGradient(key);
       if (gradient->empty())
         throw MapCssException("Invalid gradient: " + key);
-      std::lock_guard<std::mutex> lock(lock_);
       gradients.emplace(key, std::move(gradient));
       gradientPair = gradients.find(key);
     }
-- 
2.43.0


From 044ac44f59a5498c158db77df91b67a196dde8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 39/76] fix: getting canvas style does not change shared
 filters

---
 core/src/mapcss/StyleProvider.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/mapcss/StyleProvider.cpp b/core/src/mapcss/StyleProvider.cpp
index 23e1f14..827bc19 100644
--- a/core/src/mapcss/StyleProvider.cpp
+++ b/core/src/mapcss/StyleProvider.cpp
@@ -446,9 +446,13 @@ Style StyleProvider::forElement(const Element &element, int levelOfDetails) cons
 
 Style StyleProvider::forCanvas(int levelOfDetails) const {
   Style style({}, pimpl_->stringTable);
-  for (const auto &filter : pimpl_->filters.canvases[levelOfDetails]) {
-    for (const auto &declaration : filter.declarations) {
-      style.put(*declaration);
+  // NOTE filters are shared: do not insert missing level.
+  auto filters = pimpl_->filters.canvases.find(levelOfDetails);
+  if (filters!=pimpl_->filters.canvases.end()) {
+    for (const auto &filter : filters->second) {
+      for (const auto &declaration : filter.declarations) {
+        style.put(*declaration);
+      }
     }
   }
   return std::move(style);
-- 
2.43.0


From 2bb100d2e978d2a34da50f163977595c792b3e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 40/76] fix: register stylesheets from different threads

---
 core/shared/Application.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/shared/Application.hpp b/core/shared/Application.hpp
index 7e36fd6..a673adf 100644
--- a/core/shared/Application.hpp
+++ b/core/shared/Application.hpp
@@ -11,6 +11,8 @@
 #include "heightmap/SrtmElevationProvider.hpp"
 #include "mapcss/MapCssParser.hpp"
 
+#include <mutex>
+
 /// Composes object graph and exposes functionality as API.
 class Application {
  public:
@@ -41,6 +43,8 @@ class Application {
  private:
   /// Gets registered style provider by its style path.
   const utymap::mapcss::StyleProvider &getStyleProvider(const std::string &stylePath) {
+    std::lock_guard<std::mutex> lock(styleLock_);
+
     auto pair = styleProviders_.find(stylePath);
     if (pair != styleProviders_.end())
       return *pair->second;
@@ -75,6 +79,7 @@ class Application {
   utymap::heightmap::FlatElevationProvider flatEleProvider_;
   utymap::heightmap::SrtmElevationProvider srtmEleProvider_;
   utymap::heightmap::GridElevationProvider gridEleProvider_;
+  std::mutex styleLock_;
   std::unordered_map<std::string, std::unique_ptr<const utymap::mapcss::StyleProvider>> styleProviders_;
 
   Configuration configuration_;
-- 
2.43.0


From f0cb3908674c242c64d7e05676244661eb6531a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 41/76] fix: lock elevation data while it is looked up

---
 core/src/heightmap/GridElevationProvider.hpp | 39 +++++++++-----------
 core/src/heightmap/SrtmElevationProvider.hpp | 18 ++++-----
 2 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/core/src/heightmap/GridElevationProvider.hpp b/core/src/heightmap/GridElevationProvider.hpp
index ba4b6e6..4a99604 100644
--- a/core/src/heightmap/GridElevationProvider.hpp
+++ b/core/src/heightmap/GridElevationProvider.hpp
@@ -46,31 +46,27 @@ class GridElevationProvider final : public ElevationProvider {
 
   /// Gets elevation for given geocoordinate.
   double getElevation(const utymap::QuadKey &quadKey, double latitude, double longitude) const override {
-    auto data = data_.find(quadKey);
-    if (data==data_.end()) {
-      preload(quadKey);
-      data = data_.find(quadKey);
-    }
+    const auto &data = getData(quadKey);
 
-    int resolution = data->second.resolution;
+    int resolution = data.resolution;
 
-    double x = longitude - data->second.xStart;
-    double y = latitude - data->second.yStart;
+    double x = longitude - data.xStart;
+    double y = latitude - data.yStart;
 
-    int x0 = clamp(static_cast<int>(x/data->second.xStep), 0, resolution);
-    int y0 = clamp(static_cast<int>(y/data->second.yStep), 0, resolution);
+    int x0 = clamp(static_cast<int>(x/data.xStep), 0, resolution);
+    int y0 = clamp(static_cast<int>(y/data.yStep), 0, resolution);
 
     int x1 = std::min(x0 + 1, resolution);
     int y1 = std::min(y0 + 1, resolution);
 
-    double dx = x/data->second.xStep - x0;
-    double dy = y/data->second.yStep - y0;
+    double dx = x/data.xStep - x0;
+    double dy = y/data.yStep - y0;
 
     int cellSize = resolution + 1;
-    int height2 = data->second.heights[x0 + y0*cellSize];
-    int height0 = data->second.heights[x0 + y1*cellSize];
-    int height3 = data->second.heights[x1 + y0*cellSize];
-    int height1 = data->second.heights[x1 + y1*cellSize];
+    int height2 = data.heights[x0 + y0*cellSize];
+    int height0 = data.heights[x0 + y1*cellSize];
+    int height3 = data.heights[x1 + y0*cellSize];
+    int height1 = data.heights[x1 + y1*cellSize];
 
     // Bilinear interpolation
     // h0------------h1
@@ -90,12 +86,13 @@ class GridElevationProvider final : public ElevationProvider {
     return std::max(lower, std::min(n, upper));
   }
 
-  /// Preloads data for given quadkey.
-  void preload(const utymap::QuadKey &quadKey) const {
+  /// Gets data for given quadkey loading it once.
+  const EleData &getData(const utymap::QuadKey &quadKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (data_.find(quadKey)!=data_.end())
-      return;
+    auto entry = data_.find(quadKey);
+    if (entry!=data_.end())
+      return entry->second;
 
     std::string filePath = getFilePath(quadKey);
     std::fstream file(filePath);
@@ -124,7 +121,7 @@ class GridElevationProvider final : public ElevationProvider {
     data.xStep = bbox.width()/data.resolution;
     data.yStep = bbox.height()/data.resolution;
 
-    data_.emplace(quadKey, std::move(data));
+    return data_.emplace(quadKey, std::move(data)).first->second;
   }
 
   std::string getFilePath(const QuadKey &quadKey) const {
diff --git a/core/src/heightmap/SrtmElevationProvider.hpp b/core/src/heightmap/SrtmElevationProvider.hpp
index 458cbdf..782654a 100644
--- a/core/src/heightmap/SrtmElevationProvider.hpp
+++ b/core/src/heightmap/SrtmElevationProvider.hpp
@@ -61,13 +61,15 @@ class SrtmElevationProvider final : public ElevationProvider {
 
  private:
 
-  void preload(const HgtCellKey &hgtCellKey) const {
+  /// Gets cell loading it once.
+  const HgtCell &getCell(const HgtCellKey &hgtCellKey) const {
     std::lock_guard<std::mutex> lock(lock_);
 
-    if (cells_.find(hgtCellKey)!=cells_.end())
-      return;
+    auto cell = cells_.find(hgtCellKey);
+    if (cell!=cells_.end())
+      return cell->second;
 
-    cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey)));
+    return cells_.emplace(hgtCellKey, readCell(getFilePath(hgtCellKey))).first->second;
   }
 
   double getElevationImpl(double latitude, double longitude) const {
@@ -79,13 +81,7 @@ class SrtmElevationProvider final : public ElevationProvider {
     double secondsLon = (longitude - lonDec)*3600;
 
     HgtCellKey hgtCellKey(latDec, lonDec);
-    auto cellPtr = cells_.find(hgtCellKey);
-    if (cellPtr==cells_.end()) {
-      preload(hgtCellKey);
-      cellPtr = cells_.find(hgtCellKey);
-    }
-
-    const auto &cell = cellPtr->second;
+    const auto &cell = getCell(hgtCellKey);
 
     // load tile
     //X corresponds to x/y values,
-- 
2.43.0


From 4dc24f6e945fd139a1435c495076d5692192f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:54 +0000
Subject: [PATCH 42/76] fix: search and change element stores from different
 threads

---
 core/src/index/ElementCollector.hpp       | 48 +++++++++++++++
 core/src/index/InMemoryElementStore.cpp   | 73 ++++++++++-------------
 core/src/index/PersistentElementStore.cpp | 59 +++++++++++-------
 3 files changed, 119 insertions(+), 61 deletions(-)
 create mode 100644 core/src/index/ElementCollector.hpp

diff --git a/core/src/index/ElementCollector.hpp b/core/src/index/ElementCollector.hpp
new file mode 100644
index 0000000..fa4d8bf
--- /dev/null
+++ b/core/src/index/ElementCollector.hpp
@@ -0,0 +1,48 @@
+#ifndef INDEX_ELEMENTCOLLECTOR_HPP_DEFINED
+#define INDEX_ELEMENTCOLLECTOR_HPP_DEFINED
+
+#include "entities/Node.hpp"
+#include "entities/Way.hpp"
+#include "entities/Area.hpp"
+#include "entities/Relation.hpp"
+#include "entities/ElementVisitor.hpp"
+
+#include <memory>
+#include <vector>
+
+namespace utymap {
+namespace index {
+
+/// Collects copies of visited elements.
+class ElementCollector final : public utymap::entities::ElementVisitor {
+ public:
+  using Elements = std::vector<std::shared_ptr<utymap::entities::Element>>;
+
+  explicit ElementCollector(Elements &elements) :
+      elements_(elements) {
+  }
+
+  void visitNode(const utymap::entities::Node &node) override {
+    elements_.push_back(std::make_shared<utymap::entities::Node>(node));
+  }
+
+  void visitWay(const utymap::entities::Way &way) override {
+    elements_.push_back(std::make_shared<utymap::entities::Way>(way));
+  }
+
+  void visitArea(const utymap::entities::Area &area) override {
+    elements_.push_back(std::make_shared<utymap::entities::Area>(area));
+  }
+
+  void visitRelation(const utymap::entities::Relation &relation) override {
+    elements_.push_back(std::make_shared<utymap::entities::Relation>(relation));
+  }
+
+ private:
+  Elements &elements_;
+};
+
+}
+}
+
+#endif // INDEX_ELEMENTCOLLECTOR_HPP_DEFINED
diff --git a/core/src/index/InMemoryElementStore.cpp b/core/src/index/InMemoryElementStore.cpp
index e804289..3706f69 100644
--- a/core/src/index/InMemoryElementStore.cpp
+++ b/core/src/index/InMemoryElementStore.cpp
@@ -1,47 +1,21 @@
-#include "entities/Node.hpp"
-#include "entities/Way.hpp"
-#include "entities/Area.hpp"
-#include "entities/Relation.hpp"
+#include "index/ElementCollector.hpp"
 #include "index/ElementGeometryVisitor.hpp"
 #include "index/ElementVisitorFilter.hpp"
 #include "index/InMemoryElementStore.hpp"
 #include "index/BitmapIndex.hpp"
 
+#include <mutex>
+
 using namespace utymap;
 using namespace utymap::index;
 using namespace utymap::entities;
 using namespace utymap::mapcss;
 
 namespace {
-using Elements = std::vector<std::shared_ptr<Element>>;
+using Elements = ElementCollector::Elements;
 using ElementMap = std::map<QuadKey, Elements, QuadKey::Comparator>;
 using Bitmaps = std::map<QuadKey, BitmapIndex::Bitmap, QuadKey::Comparator>;
 
-class ElementMapVisitor : public ElementVisitor {
- public:
-  ElementMapVisitor(Elements &elements) :
-      elements_(elements) {
-  }
-
-  void visitNode(const utymap::entities::Node &node) override {
-    elements_.push_back(std::make_shared<Node>(node));
-  }
-
-  void visitWay(const utymap::entities::Way &way) override {
-    elements_.push_back(std::make_shared<Way>(way));
-  }
-
-  void visitArea(const utymap::entities::Area &area) override {
-    elements_.push_back(std::make_shared<Area>(area));
-  }
-
-  void visitRelation(const utymap::entities::Relation &relation) override {
-    elements_.push_back(std::make_shared<Relation>(relation));
-  }
- private:
-  Elements &elements_;
-};
-
 class InMemoryStringIndex : public BitmapIndex {
  public:
   InMemoryStringIndex(const StringTable &stringTable,
@@ -92,36 +66,46 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
-    stringIndex_.search(query, filter);
+    Elements found;
+    {
+      std::lock_guard<std::mutex> lock(lock_);
+      ElementCollector collector(found);
+      stringIndex_.search(query, collector);
+    }
+    visit(found, filter, cancelToken);
   }
 
   void search(const utymap::QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    auto it = begin(quadKey);
-    // No elements for this quad key
-    if (it == end())
-      return;
-
-    for (const auto &element : it->second) {
-      if (cancelToken.isCancelled()) break;
-      element->accept(visitor);
+    Elements found;
+    {
+      std::lock_guard<std::mutex> lock(lock_);
+      auto it = begin(quadKey);
+      // No elements for this quad key
+      if (it == end())
+        return;
+      found = it->second;
     }
+    visit(found, visitor, cancelToken);
   }
 
   bool hasData(const utymap::QuadKey &quadKey) const {
+    std::lock_guard<std::mutex> lock(lock_);
     return elementsMap_.find(quadKey)!=elementsMap_.end();
   }
 
   void store(const utymap::entities::Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(lock_);
     auto &elements = elementsMap_[quadKey];
 
     stringIndex_.add(element, quadKey, static_cast<std::uint32_t>(elements.size()));
-    ElementMapVisitor visitor(elements);
+    ElementCollector visitor(elements);
     element.accept(visitor);
   }
 
   void erase(const utymap::QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(lock_);
     elementsMap_.erase(quadKey);
     stringIndex_.erase(quadKey);
   }
@@ -131,6 +115,14 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
  private:
+  /// Visits elements without holding the lock.
+  static void visit(const Elements &elements, ElementVisitor &visitor, const utymap::CancellationToken &cancelToken) {
+    for (const auto &element : elements) {
+      if (cancelToken.isCancelled()) break;
+      element->accept(visitor);
+    }
+  }
+
   ElementMap::const_iterator begin(const utymap::QuadKey &quadKey) const {
     return elementsMap_.find(quadKey);
   }
@@ -140,6 +132,7 @@ class InMemoryElementStore::InMemoryElementStoreImpl {
   }
 
   const StringTable &stringTable_;
+  mutable std::mutex lock_;
   ElementMap elementsMap_;
   InMemoryStringIndex stringIndex_;
 };
diff --git a/core/src/index/PersistentElementStore.cpp b/core/src/index/PersistentElementStore.cpp
index 1a2c9ab..f244989 100644
--- a/core/src/index/PersistentElementStore.cpp
+++ b/core/src/index/PersistentElementStore.cpp
@@ -1,6 +1,7 @@
 #include "index/BitmapStream.hpp"
 #include "index/ElementStream.hpp"
 #include "index/BitmapIndex.hpp"
+#include "index/ElementCollector.hpp"
 #include "index/ElementGeometryVisitor.hpp"
 #include "index/ElementVisitorFilter.hpp"
 #include "index/PersistentElementStore.hpp"
@@ -55,7 +56,6 @@ struct QuadKeyData {
 
   BitmapData& getBitmap() const {
     if (bitmapData_->data.empty()) {
-      // TODO not thread safe!
       std::fstream bitmapFile;
       bitmapFile.open(bitmapData_->path, std::ios::in | std::ios::binary);
       BitmapStream::read(bitmapFile, bitmapData_->data);
@@ -104,7 +104,7 @@ private:
 
 using Cache = utymap::utils::LruCache<QuadKey, QuadKeyData, QuadKey::Comparator>;
 
-// TODO improve thread safety!
+/// Files and bitmaps are used only by owner of the lock, elements are visited without it.
 class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
  public:
   PersistentElementStoreImpl(const std::string &dataPath,
@@ -115,6 +115,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     cache_(12) {}
 
   void store(const Element &element, const QuadKey &quadKey) {
+    std::lock_guard<std::mutex> lock(lock_);
     const auto &quadKeyData = getQuadKeyData(quadKey);
     // NOTE current positions might be changed by search
     quadKeyData->dataFile->seekg(0, std::ios::end);
@@ -143,26 +144,37 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
     ElementVisitorFilter filter(visitor, [&](const Element &element) {
       return ElementGeometryVisitor::intersects(element, query.boundingBox);
     });
-    BitmapIndex::search(query, filter);
+    ElementCollector::Elements found;
+    {
+      std::lock_guard<std::mutex> lock(lock_);
+      ElementCollector collector(found);
+      BitmapIndex::search(query, collector);
+    }
+    visit(found, filter, cancelToken);
   }
 
   void search(const QuadKey &quadKey,
               ElementVisitor &visitor,
               const utymap::CancellationToken &cancelToken) {
-    const auto &quadKeyData = getQuadKeyData(quadKey);
-    quadKeyData->indexFile->seekg(0, std::ios::end);
-    auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
-        (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
+    ElementCollector::Elements found;
+    {
+      std::lock_guard<std::mutex> lock(lock_);
+      const auto &quadKeyData = getQuadKeyData(quadKey);
+      quadKeyData->indexFile->seekg(0, std::ios::end);
+      auto count = static_cast<std::uint32_t>(quadKeyData->indexFile->tellg() /
+          (sizeof(std::uint64_t) + sizeof(std::uint32_t)));
 
-    quadKeyData->indexFile->seekg(0, std::ios::beg);
-    for (std::uint32_t i = 0; i < count; ++i) {
-      if (cancelToken.isCancelled()) break;
+      quadKeyData->indexFile->seekg(0, std::ios::beg);
+      for (std::uint32_t i = 0; i < count; ++i) {
+        if (cancelToken.isCancelled()) break;
 
-      auto entry = readIndexEntry(*quadKeyData);
-      quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
+        auto entry = readIndexEntry(*quadKeyData);
+        quadKeyData->dataFile->seekg(std::get<1>(entry), std::ios::beg);
 
-      ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry ))->accept(visitor);
+        found.push_back(ElementStream::read(*quadKeyData->dataFile, std::get<0>(entry)));
+      }
     }
+    visit(found, visitor, cancelToken);
   }
 
   bool hasData(const QuadKey &quadKey) const override {
@@ -171,12 +183,9 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void erase(const utymap::QuadKey &quadKey) override {
-    auto quadKeyData = getQuadKeyData(quadKey);
-    {
-      std::lock_guard<std::mutex> lock(lock_);
-      quadKeyData->erase();
-      cache_.clear();
-    }
+    std::lock_guard<std::mutex> lock(lock_);
+    getQuadKeyData(quadKey)->erase();
+    cache_.clear();
   }
 
   void erase(const utymap::BoundingBox &bbox, const utymap::LodRange &range) {
@@ -184,6 +193,7 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
   void flush() {
+    std::lock_guard<std::mutex> lock(lock_);
     cache_.clear();
   }
 
@@ -206,10 +216,17 @@ class PersistentElementStore::PersistentElementStoreImpl : BitmapIndex {
   }
 
  private:
+  /// Visits elements without holding the lock.
+  static void visit(const ElementCollector::Elements &elements, ElementVisitor &visitor,
+                    const utymap::CancellationToken &cancelToken) {
+    for (const auto &element : elements) {
+      if (cancelToken.isCancelled()) break;
+      element->accept(visitor);
+    }
+  }
+
   /// Gets quad key data.
   std::shared_ptr<QuadKeyData> getQuadKeyData(const QuadKey& quadKey) {
-    std::lock_guard<std::mutex> lock(lock_);
-
     if (cache_.exists(quadKey))
       return cache_.get(quadKey);
 
-- 
2.43.0


From 2da772822233a5ee7b272d2633a407e47f6477f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 43/76] fix: keep islands inside of holes as outer rings

---
 .../src/formats/osm/MultipolygonProcessor.cpp | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index a0e46bc..00e0bf9 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -230,24 +230,17 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
     }
 
     // find inner rings of that ring
+    // NOTE do not remove found rings yet: they might contain other ones
     CoordinateSequences inners;
-    for (auto ring = rings.begin(); ring!=rings.end();) {
-      if (outer->containsRing((*ring)->coordinates)) {
-        bool containedInOthers = false;
-        for (auto other = rings.begin(); other!=rings.end(); ++other) {
-          if (other!=ring && (*other)->containsRing((*ring)->coordinates)) {
-            containedInOthers = true;
-            break;
-          }
-        }
-        if (!containedInOthers) {
-          inners.push_back(*ring);
-          ring = rings.erase(ring);
-          continue;
-        }
-      }
-      ++ring;
-    }
+    std::copy_if(rings.begin(), rings.end(), std::back_inserter(inners), [&](const std::shared_ptr<CoordinateSequence> &ring) {
+      return outer->containsRing(ring->coordinates) &&
+          std::none_of(rings.begin(), rings.end(), [&](const std::shared_ptr<CoordinateSequence> &other) {
+            return other!=ring && other->containsRing(ring->coordinates);
+          });
+    });
+    rings.erase(std::remove_if(rings.begin(), rings.end(), [&](const std::shared_ptr<CoordinateSequence> &ring) {
+      return std::find(inners.begin(), inners.end(), ring)!=inners.end();
+    }), rings.end());
 
     // outer
     auto outerArea = std::make_shared<Area>();
-- 
2.43.0


From 0c48026b75e8986d96b4e4a77151827a3e4bfa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 44/76] fix: do not assemble multipolygons from unclosed or
 mutually nested rings

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index 00e0bf9..0f3be8e 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -117,11 +117,7 @@ void MultipolygonProcessor::process() {
         if (member.role=="outer" && hasNoTags)
           mergeTags(areaPair->second->tags);
       } else {
-        auto relationPair = context_.relationMap.find(member.refId);
-        if (relationPair==context_.relationMap.end())
-          return; //  NOTE cannot fill relation: incomplete data
-
-        resolve_(*relationPair->second);
+        return; //  NOTE cannot fill relation: incomplete data
       }
     }
 
@@ -208,6 +204,10 @@ std::vector<std::shared_ptr<MultipolygonProcessor::CoordinateSequence>> Multipol
     }
   }
 
+  // the last ring could not be closed
+  if (currentRing!=nullptr)
+    return CoordinateSequences();
+
   return std::move(closedRings);
 }
 
@@ -229,6 +229,9 @@ void MultipolygonProcessor::fillRelation(CoordinateSequences &rings) const {
       break;
     }
 
+    // NOTE invalid data: rings contain each other
+    if (outer==nullptr) return;
+
     // find inner rings of that ring
     // NOTE do not remove found rings yet: they might contain other ones
     CoordinateSequences inners;
-- 
2.43.0


From 76027e5b355615fa35c08caec00e0ce8bb46d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 45/76] fix: import ways with nodes which are not in the file

---
 core/src/formats/osm/OsmDataVisitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index ff98906..fa4407c 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -31,9 +31,14 @@ void OsmDataVisitor::visitWay(std::uint64_t id, std::vector<std::uint64_t> &node
   std::vector<GeoCoordinate> coordinates;
   coordinates.reserve(nodeIds.size());
   for (auto nodeId : nodeIds) {
-    coordinates.push_back(context_.nodeMap[nodeId]->coordinate);
+    // NOTE data might be incomplete: way can refer to the node which is outside of extract
+    auto nodePair = context_.nodeMap.find(nodeId);
+    if (nodePair!=context_.nodeMap.end())
+      coordinates.push_back(nodePair->second->coordinate);
   }
   auto size = coordinates.size();
+  if (size==0) return;
+
   if (size > 3 && coordinates[0]==coordinates[size - 1]) {
     coordinates.pop_back();
 
-- 
2.43.0


From 9783d28a6504aef928021dbc30eb698ec1f92e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 46/76] fix: resolve every relation once and without recursion

---
 core/src/formats/osm/BuildingProcessor.hpp |  4 +-
 core/src/formats/osm/OsmDataVisitor.cpp    | 47 ++++++++++++++++++----
 core/src/formats/osm/OsmDataVisitor.hpp    |  4 ++
 core/src/formats/osm/RelationProcessor.hpp | 46 +++++----------------
 4 files changed, 56 insertions(+), 45 deletions(-)

diff --git a/core/src/formats/osm/BuildingProcessor.hpp b/core/src/formats/osm/BuildingProcessor.hpp
index 8801232..3dd54fa 100644
--- a/core/src/formats/osm/BuildingProcessor.hpp
+++ b/core/src/formats/osm/BuildingProcessor.hpp
@@ -6,6 +6,7 @@
 #include "formats/osm/OsmDataContext.hpp"
 #include "utils/ElementUtils.hpp"
 
+#include <algorithm>
 #include <functional>
 #include <memory>
 #include <unordered_map>
@@ -48,7 +49,8 @@ class BuildingProcessor {
 
   void addToRelation(std::shared_ptr<utymap::entities::Element> element, const std::string &role) const {
     // NOTE Outline is ignored as it SHOULD BE used only for 2D renders.
-    if (role!="outline")
+    if (role!="outline" &&
+        std::find(relation_.elements.begin(), relation_.elements.end(), element)==relation_.elements.end())
       relation_.elements.push_back(element);
 
     //NOTE add specific tag to signalize that this element should not be processed separetely by building builder
diff --git a/core/src/formats/osm/OsmDataVisitor.cpp b/core/src/formats/osm/OsmDataVisitor.cpp
index fa4407c..05e103c 100644
--- a/core/src/formats/osm/OsmDataVisitor.cpp
+++ b/core/src/formats/osm/OsmDataVisitor.cpp
@@ -8,13 +8,20 @@
 #include "formats/osm/OsmDataVisitor.hpp"
 #include "utils/GeometryUtils.hpp"
 
-#include <unordered_set>
+#include <algorithm>
 
 using namespace utymap;
 using namespace utymap::formats;
 using namespace utymap::entities;
 using namespace utymap::index;
 
+namespace {
+/// Checks whether member is relation in the same way as members are visited.
+bool isRelation(const RelationMember &member) {
+  return member.type!="n" && member.type!="w";
+}
+}
+
 void OsmDataVisitor::visitBounds(BoundingBox bbox) {
   bbox_ = bbox;
 }
@@ -82,22 +89,48 @@ bool OsmDataVisitor::hasTag(const std::string &key,
   return utymap::utils::hasTag(stringTable_.getId(key), stringTable_.getId(value), tags);
 }
 
+bool OsmDataVisitor::hasReference(std::uint64_t fromId, std::uint64_t toId) const {
+  std::unordered_set<std::uint64_t> visited;
+  std::vector<std::uint64_t> pending = { fromId };
+  while (!pending.empty()) {
+    auto id = pending.back();
+    pending.pop_back();
+
+    if (id==toId) return true;
+
+    auto membersPair = relationMembers_.find(id);
+    if (membersPair==relationMembers_.end() || !visited.insert(id).second)
+      continue;
+
+    for (const auto &member : membersPair->second) {
+      if (isRelation(member))
+        pending.push_back(member.refId);
+    }
+  }
+  return false;
+}
+
 void OsmDataVisitor::resolve(Relation &relation) {
   if (cancelToken_.isCancelled()) return;
 
-  auto membersPair = relationMembers_.find(relation.id);
-  // already resolved
-  if (relation.elements.size()==membersPair->second.size())
+  // already resolved or is being resolved
+  if (!resolvedRelations_.insert(relation.id).second)
     return;
 
+  // NOTE skip members which contain this relation: their resolving leads to recursion
+  auto members = relationMembers_.find(relation.id)->second;
+  members.erase(std::remove_if(members.begin(), members.end(), [&](const RelationMember &member) {
+    return isRelation(member) && hasReference(member.refId, relation.id);
+  }), members.end());
+
   auto resolveFunc = std::bind(&OsmDataVisitor::resolve, this, std::placeholders::_1);
 
   if (hasTag("type", "multipolygon", relation.tags))
-    MultipolygonProcessor(relation, membersPair->second, context_, resolveFunc).process();
+    MultipolygonProcessor(relation, members, context_, resolveFunc).process();
   else if (hasTag("type", "building", relation.tags))
-    BuildingProcessor(relation, membersPair->second, context_, resolveFunc).process();
+    BuildingProcessor(relation, members, context_, resolveFunc).process();
   else {
-    RelationProcessor(relation, membersPair->second, context_, relationMembers_, resolveFunc).process();
+    RelationProcessor(relation, members, context_, resolveFunc).process();
   }
 }
 
diff --git a/core/src/formats/osm/OsmDataVisitor.hpp b/core/src/formats/osm/OsmDataVisitor.hpp
index 93eea1a..337c2c8 100644
--- a/core/src/formats/osm/OsmDataVisitor.hpp
+++ b/core/src/formats/osm/OsmDataVisitor.hpp
@@ -13,6 +13,7 @@
 #include <string>
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 
 namespace utymap {
 namespace formats {
@@ -40,6 +41,8 @@ class OsmDataVisitor final {
 
   bool hasTag(const std::string &key, const std::string &value, const std::vector<utymap::entities::Tag> &tags) const;
   void resolve(utymap::entities::Relation &relation);
+  /// Checks whether one relation refers to another directly or through other relations.
+  bool hasReference(std::uint64_t fromId, std::uint64_t toId) const;
 
   const utymap::index::StringTable &stringTable_;
   std::function<bool(utymap::entities::Element &)> add_;
@@ -47,6 +50,7 @@ class OsmDataVisitor final {
   utymap::formats::OsmDataContext context_;
   utymap::BoundingBox bbox_;
   std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> relationMembers_;
+  std::unordered_set<std::uint64_t> resolvedRelations_;
 };
 
 }
diff --git a/core/src/formats/osm/RelationProcessor.hpp b/core/src/formats/osm/RelationProcessor.hpp
index 3c2a0b2..950c5d5 100644
--- a/core/src/formats/osm/RelationProcessor.hpp
+++ b/core/src/formats/osm/RelationProcessor.hpp
@@ -18,10 +18,8 @@ class RelationProcessor final {
   RelationProcessor(utymap::entities::Relation &relation,
                     const utymap::formats::RelationMembers &members,
                     utymap::formats::OsmDataContext &context,
-                    std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap,
                     std::function<void(utymap::entities::Relation &)> resolve)
-      : relation_(relation), members_(members), context_(context),
-        relationMembersMap_(relationMembersMap), resolve_(resolve) {
+      : relation_(relation), members_(members), context_(context), resolve_(resolve) {
   }
 
   void process() {
@@ -29,60 +27,34 @@ class RelationProcessor final {
   }
 
   void visit(OsmDataContext::NodeMapType::const_iterator node, const std::string &role) {
-    if (!isAlreadyProcessed(node->first))
-      relation_.elements.push_back(node->second);
+    addToRelation(node->second);
   }
 
   void visit(OsmDataContext::WayMapType::const_iterator way, const std::string &role) {
-    if (!isAlreadyProcessed(way->first))
-      relation_.elements.push_back(way->second);
+    addToRelation(way->second);
   }
 
   void visit(OsmDataContext::AreaMapType::const_iterator area, const std::string &role) {
-    if (!isAlreadyProcessed(area->first))
-      relation_.elements.push_back(area->second);
+    addToRelation(area->second);
   }
 
   void visit(OsmDataContext::RelationMapType::const_iterator rel, const std::string &role) {
-    if (isAlreadyProcessed(rel->first) || hasReferenceToParent(*rel->second))
-      return;
-
     resolve_(*rel->second);
-    relation_.elements.push_back(rel->second);
+    addToRelation(rel->second);
   }
 
  private:
 
-  bool isAlreadyProcessed(std::uint64_t id) {
-    auto it = std::find_if(relation_.elements.begin(), relation_.elements.end(),
-                           [&id](const std::shared_ptr<utymap::entities::Element> &e) {
-                             return e->id==id;
-                           });
-
-    return it!=relation_.elements.end();
-  }
-
-  /// Checks whether relation has reference to current. If yes, it should not be
-  /// processed because of recursion.
-  /// NOTE This check finds only simple cases.
-  bool hasReferenceToParent(const utymap::entities::Relation &rel) {
-    auto parentId = relation_.id;
-
-    auto members = relationMembersMap_.find(rel.id)->second;
-    auto it = std::find_if(members.begin(), members.end(),
-                           [&parentId](const utymap::formats::RelationMember &m) {
-                             return m.refId==parentId;
-                           });
-
-    return it!=members.end();
+  /// NOTE different element types can have the same id.
+  void addToRelation(const std::shared_ptr<utymap::entities::Element> &element) {
+    if (std::find(relation_.elements.begin(), relation_.elements.end(), element)==relation_.elements.end())
+      relation_.elements.push_back(element);
   }
 
   utymap::entities::Relation &relation_;
   const utymap::formats::RelationMembers &members_;
   utymap::formats::OsmDataContext &context_;
 
-  std::unordered_map<std::uint64_t, utymap::formats::RelationMembers> &relationMembersMap_;
-
   std::function<void(utymap::entities::Relation &)> resolve_;
 };
 
-- 
2.43.0


From ef6135c9e8a4c7308a95c880eafdf2d5f1207697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 47/76] fix: decode entities of XML attributes

---
 core/src/formats/osm/xml/OsmXmlParser.cpp | 70 +++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/core/src/formats/osm/xml/OsmXmlParser.cpp b/core/src/formats/osm/xml/OsmXmlParser.cpp
index ff50440..91f47b5 100644
--- a/core/src/formats/osm/xml/OsmXmlParser.cpp
+++ b/core/src/formats/osm/xml/OsmXmlParser.cpp
@@ -12,6 +12,10 @@
 #include "formats/FormatTypes.hpp"
 #include "formats/osm/xml/OsmXmlParser.hpp"
 
+#include <algorithm>
+#include <cstdlib>
+#include <utility>
+
 using namespace utymap;
 using namespace utymap::formats;
 
@@ -33,6 +37,68 @@ BOOST_FUSION_ADAPT_STRUCT(
 )
 
 namespace {
+/// Appends character with given code in UTF-8 encoding.
+void appendCharacter(std::string &text, unsigned long code) {
+  if (code < 0x80) {
+    text += static_cast<char>(code);
+  } else if (code < 0x800) {
+    text += static_cast<char>(0xC0 | (code >> 6));
+    text += static_cast<char>(0x80 | (code & 0x3F));
+  } else if (code < 0x10000) {
+    text += static_cast<char>(0xE0 | (code >> 12));
+    text += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+    text += static_cast<char>(0x80 | (code & 0x3F));
+  } else {
+    text += static_cast<char>(0xF0 | (code >> 18));
+    text += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+    text += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+    text += static_cast<char>(0x80 | (code & 0x3F));
+  }
+}
+
+/// Replaces predefined entities and character references with characters they stand for.
+std::string unescape(const std::string &text) {
+  static const std::pair<std::string, char> entities[] = {
+      {"amp", '&'}, {"lt", '<'}, {"gt", '>'}, {"quot", '"'}, {"apos", '\''}
+  };
+
+  std::string result;
+  for (std::size_t i = 0; i < text.size(); ++i) {
+    auto end = text[i]=='&' ? text.find(';', i) : std::string::npos;
+    if (end!=std::string::npos) {
+      auto name = text.substr(i + 1, end - i - 1);
+      auto entity = std::find_if(std::begin(entities), std::end(entities),
+                                 [&](const std::pair<std::string, char> &e) { return e.first==name; });
+      if (entity!=std::end(entities)) {
+        result += entity->second;
+        i = end;
+        continue;
+      }
+
+      bool isHex = name.size() > 1 && name[0]=='#' && name[1]=='x';
+      auto digits = name.substr(std::min<std::size_t>(isHex ? 2 : 1, name.size()));
+      if (!name.empty() && name[0]=='#' && !digits.empty() && digits.size() < 8 &&
+          digits.find_first_not_of(isHex ? "0123456789abcdefABCDEF" : "0123456789")==std::string::npos) {
+        auto code = std::strtoul(digits.c_str(), nullptr, isHex ? 16 : 10);
+        if (code > 0 && code <= 0x10FFFF) {
+          appendCharacter(result, code);
+          i = end;
+          continue;
+        }
+      }
+    }
+    result += text[i];
+  }
+  return result;
+}
+
+void unescape(Tags &tags) {
+  for (auto &tag : tags) {
+    tag.key = unescape(tag.key);
+    tag.value = unescape(tag.value);
+  }
+}
+
 typedef boost::tuple<double, double, double, double> BoundsType;
 typedef Tag TagType;
 typedef boost::tuple<std::uint64_t, double, double, std::vector<TagType>> NodeType;
@@ -247,12 +313,14 @@ private:
   void onNode(NodeType& node) {
     utymap::GeoCoordinate coordinate(boost::get<1>(node), boost::get<2>(node));
     Tags& tags = boost::get<3>(node);
+    unescape(tags);
     visitor.visitNode(boost::get<0>(node), coordinate, tags);
   }
 
   void onWay(WayType& way) {
     auto& ids = boost::get<1>(way);
     Tags& tags = boost::get<2>(way);
+    unescape(tags);
     visitor.visitWay(boost::get<0>(way), ids, tags);
   }
 
@@ -260,8 +328,10 @@ private:
     auto& members = boost::get<1>(relation);
     for (auto& member : members) {
         member.type = mapType(member.type);
+        member.role = unescape(member.role);
     }
     Tags& tags = boost::get<2>(relation);
+    unescape(tags);
     visitor.visitRelation(boost::get<0>(relation), members, tags);
   }
 
-- 
2.43.0


From 3373648fe83e1b906f1c77c0039cf9c7b493ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 48/76] fix: read logical attributes of shape files

---
 core/src/formats/shape/ShapeParser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 914eb20..197f934 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -77,7 +77,8 @@ class ShapeParser final {
             break;
           case FTDouble:tag.value = utymap::utils::toString(DBFReadDoubleAttribute(dbfFile, k, i));
             break;
-          default:break;
+          default:tag.value = DBFReadStringAttribute(dbfFile, k, i);
+            break;
         }
       }
       tags.push_back(tag);
-- 
2.43.0


From 8b53a1ccc929156495656f31541c7df08ce615ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 49/76] fix: do not read part starts of shape polygons past the
 end

---
 core/src/formats/shape/ShapeParser.hpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 197f934..54ea9e2 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -133,21 +133,17 @@ class ShapeParser final {
   void visitPolygon(const SHPObject &shape, Tags &tags, Visitor &visitor) const {
     PolygonMembers members;
     members.reserve(static_cast<std::size_t>(shape.nParts));
-    std::size_t coordIndex = 0;
-    for (std::size_t i = 0, partNum = 0; i < shape.nVertices; ++i) {
-      int startIndex = shape.panPartStart[partNum];
-      if (partNum < shape.nParts && startIndex==i) {
-        coordIndex = static_cast<std::size_t>(partNum);
-        members.push_back(PolygonMember());
-        // TODO check inner/outer? Check whether this flag is true for closed polygon only
-        members[partNum].isRing = shape.panPartType[partNum]==SHPP_RING;
-        int endIndex = partNum==shape.nParts - 1
-                       ? shape.nVertices
-                       : shape.panPartStart[partNum + 1];
-        members[coordIndex].coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
-        ++partNum;
-      }
-      members[coordIndex].coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
+    for (int part = 0; part < shape.nParts; ++part) {
+      int startIndex = shape.panPartStart[part];
+      int endIndex = part==shape.nParts - 1 ? shape.nVertices : shape.panPartStart[part + 1];
+
+      members.push_back(PolygonMember());
+      auto &member = members.back();
+      // TODO check inner/outer? Check whether this flag is true for closed polygon only
+      member.isRing = shape.panPartType[part]==SHPP_RING;
+      member.coordinates.reserve(static_cast<std::size_t>(endIndex - startIndex));
+      for (int i = startIndex; i < endIndex; ++i)
+        member.coordinates.push_back(utymap::GeoCoordinate(shape.padfY[i], shape.padfX[i]));
     }
     visitor.visitRelation(members, tags);
   }
-- 
2.43.0


From cd78c0d4c9f0c469316afe1d5956f0bbe7535b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 50/76] fix: read uncompressed blobs of PBF files

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index eb6c0c3..26c6b08 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -8,6 +8,7 @@
 #include <osmformat.pb.h>
 #include <zlib.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <istream>
 #include <stdexcept>
@@ -94,7 +95,7 @@ class OsmPbfParser final {
     // uncompressed
     if (blob.has_raw()) {
       sz = static_cast<std::int32_t>(blob.raw().size());
-      memcpy(unpack_buffer_.data(), buffer_.data(), sz);
+      std::copy(blob.raw().begin(), blob.raw().end(), unpack_buffer_.begin());
       return sz;
     }
 
-- 
2.43.0


From c981e356fcfebb466bec982f160d929fa672c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 51/76] fix: apply offset of dense PBF nodes once

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index 26c6b08..a9426ff 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -154,15 +154,16 @@ class OsmPbfParser final {
       if (pg.has_dense()) {
         OSMPBF::DenseNodes dn = pg.dense();
         uint64_t id = 0;
-        double lon = 0;
-        double lat = 0;
+        // NOTE only differences are stored: offset should be applied once.
+        std::int64_t lon = 0;
+        std::int64_t lat = 0;
 
         int current_kv = 0;
 
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
-          lat += 0.000000001*(primblock.lat_offset() + (primblock.granularity()*dn.lat(i)));
-          lon += 0.000000001*(primblock.lon_offset() + (primblock.granularity()*dn.lon(i)));
+          lat += dn.lat(i);
+          lon += dn.lon(i);
 
           Tags tags;
           tags.reserve(2);
@@ -176,7 +177,8 @@ class OsmPbfParser final {
             tags.push_back(tag);
           }
           ++current_kv;
-          GeoCoordinate coordinate(lat, lon);
+          GeoCoordinate coordinate(0.000000001*(primblock.lat_offset() + (primblock.granularity()*lat)),
+                                   0.000000001*(primblock.lon_offset() + (primblock.granularity()*lon)));
           visitor.visitNode(id, coordinate, tags);
         }
       }
-- 
2.43.0


From 3616b36f501fe9fd913a7c5c76c9e8f375a059c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 52/76] fix: do not read damaged shape files past their ends
 and report them

---
 core/src/formats/shape/ShapeParser.hpp | 46 ++++++++++++++++++++------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/core/src/formats/shape/ShapeParser.hpp b/core/src/formats/shape/ShapeParser.hpp
index 54ea9e2..6db1045 100644
--- a/core/src/formats/shape/ShapeParser.hpp
+++ b/core/src/formats/shape/ShapeParser.hpp
@@ -9,8 +9,10 @@
 #include "shapefile/shapefil.h"
 
 #include <iostream>
+#include <memory>
 #include <string>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace utymap {
@@ -18,10 +20,13 @@ namespace formats {
 
 template<typename Visitor>
 class ShapeParser final {
+  const static unsigned int MaxRecordSize = 1024*1024*1024;
+
  public:
 
   void parse(const std::string &path, Visitor &visitor) const {
-    SHPHandle shpFile = SHPOpen(path.c_str(), "rb");
+    std::unique_ptr<SHPInfo, decltype(&SHPClose)> shp(SHPOpen(path.c_str(), "rb"), &SHPClose);
+    SHPHandle shpFile = shp.get();
     if (shpFile==NULL)
       throw std::domain_error("Cannot open shp file.");
 
@@ -29,7 +34,8 @@ class ShapeParser final {
     double adfMinBound[4], adfMaxBound[4];
     SHPGetInfo(shpFile, &entityCount, &shapeType, adfMinBound, adfMaxBound);
 
-    DBFHandle dbfFile = DBFOpen(path.c_str(), "rb");
+    std::unique_ptr<DBFInfo, decltype(&DBFClose)> dbf(DBFOpen(path.c_str(), "rb"), &DBFClose);
+    DBFHandle dbfFile = dbf.get();
     if (dbfFile==NULL)
       throw std::domain_error("Cannot open dbf file.");
 
@@ -39,23 +45,37 @@ class ShapeParser final {
     if (entityCount!=DBFGetRecordCount(dbfFile))
       throw std::domain_error("dbf file has different entity count.");
 
+    // NOTE these values are not checked while shapes and attributes are read.
+    for (int k = 0; k < entityCount; k++) {
+      if (shpFile->panRecSize[k] > MaxRecordSize)
+        throw std::domain_error("Shape size is bigger than allowed:" + utymap::utils::toString(k));
+    }
+    for (int i = 0; i < DBFGetFieldCount(dbfFile); i++) {
+      if (dbfFile->panFieldOffset[i] + dbfFile->panFieldSize[i] > dbfFile->nRecordLength)
+        throw std::domain_error("dbf field is outside of record.");
+    }
+
+    // NOTE visit shapes only when all of them are read: otherwise broken file would be processed partially.
+    std::vector<std::pair<ShapePtr, Tags>> shapes;
     for (int k = 0; k < entityCount; k++) {
-      SHPObject *shape = SHPReadObject(shpFile, k);
-      if (shape==NULL)
+      ShapePtr shape(SHPReadObject(shpFile, k), &SHPDestroyObject);
+      if (shape==nullptr)
         throw std::domain_error("Unable to read shape:" + utymap::utils::toString(k));
 
-      Tags tags = parseTags(dbfFile, k);
-      visitShape(*shape, tags, visitor);
+      if (DBFReadTuple(dbfFile, k)==NULL)
+        throw std::domain_error("Unable to read attributes:" + utymap::utils::toString(k));
 
-      SHPDestroyObject(shape);
+      shapes.emplace_back(std::move(shape), parseTags(dbfFile, k));
     }
 
-    DBFClose(dbfFile);
-    SHPClose(shpFile);
+    for (auto &pair : shapes)
+      visitShape(*pair.first, pair.second, visitor);
   }
 
  private:
 
+  typedef std::unique_ptr<SHPObject, decltype(&SHPDestroyObject)> ShapePtr;
+
   Tags parseTags(DBFHandle dbfFile, int k) const {
     char title[12];
     int fieldCount = DBFGetFieldCount(dbfFile);
@@ -94,11 +114,15 @@ class ShapeParser final {
         break;
       case SHPT_ARC:
       case SHPT_ARCZ:
-      case SHPT_ARCM:visitArc(shape, tags, visitor);
+      case SHPT_ARCM:
+        if (shape.nVertices > 0)
+          visitArc(shape, tags, visitor);
         break;
       case SHPT_POLYGON:
       case SHPT_POLYGONZ:
-      case SHPT_POLYGONM:visitPolygon(shape, tags, visitor);
+      case SHPT_POLYGONM:
+        if (shape.nVertices > 0)
+          visitPolygon(shape, tags, visitor);
         break;
       case SHPT_MULTIPOINT:
       case SHPT_MULTIPOINTZ:
-- 
2.43.0


From 0eba10b437c1c93199832576dfb5579a8865f6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 53/76] fix: add nothing of broken json file

---
 core/src/formats/osm/json/OsmJsonParser.hpp | 54 ++++++++++++---------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/core/src/formats/osm/json/OsmJsonParser.hpp b/core/src/formats/osm/json/OsmJsonParser.hpp
index 41a0ab4..5be8480 100644
--- a/core/src/formats/osm/json/OsmJsonParser.hpp
+++ b/core/src/formats/osm/json/OsmJsonParser.hpp
@@ -19,6 +19,7 @@ class OsmJsonParser {
   const std::string IdAttributeName = "id";
   const std::string FeatureAttributeName = "feature";
   using ptree = boost::property_tree::ptree;
+  using Elements = std::vector<std::shared_ptr<utymap::entities::Element>>;
 
   struct FoldRelation final : public utymap::entities::ElementVisitor {
     std::shared_ptr<utymap::entities::Element> element;
@@ -54,31 +55,36 @@ class OsmJsonParser {
     ptree pt;
     read_json(istream, pt);
 
+    // NOTE notify visitor only when all features are parsed: otherwise broken file would be processed partially.
+    Elements elements;
     for (const ptree::value_type &feature : pt) {
       std::string featureName = feature.first;
       std::uint32_t featureId = stringTable_.getId(featureName);
       for (const ptree::value_type &f : pt.get_child(featureName).get_child("features")) {
         const auto &type = f.second.get_child("geometry.type").data();
         if (type=="Point")
-          parsePoint(visitor, featureId, f.second);
+          parsePoint(elements, featureId, f.second);
         else if (type=="LineString")
-          parseLineString(visitor, featureId, f.second);
+          parseLineString(elements, featureId, f.second);
         else if (type=="Polygon")
-          parsePolygon(visitor, featureId, f.second);
+          parsePolygon(elements, featureId, f.second);
         else if (type=="MultiLineString")
-          parseMultiLineString(visitor, featureId, f.second);
+          parseMultiLineString(elements, featureId, f.second);
         else if (type=="MultiPolygon")
-          parseMultiPolygon(visitor, featureId, f.second);
+          parseMultiPolygon(elements, featureId, f.second);
         else
           throw std::invalid_argument(std::string("Unknown geometry type:") + type);
       }
     }
+
+    for (auto &element : elements)
+      visitor.add(*element);
   }
 
  private:
 
-  /// Parses relation with relations from multipolygon and notifies visitor.
-  void parseMultiPolygon(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  /// Parses relation with relations from multipolygon and adds it to elements.
+  void parseMultiPolygon(Elements &elements, std::uint32_t featureId, const ptree &feature) const {
     utymap::entities::Relation relation;
     parseProperties(relation, featureId, feature.get_child("properties"));
     for (const ptree::value_type &geometry : feature.get_child("geometry.coordinates")) {
@@ -91,45 +97,45 @@ class OsmJsonParser {
         relation.elements.push_back(std::make_shared<utymap::entities::Relation>(child));
       }
     }
-    visitor.add(relation);
+    elements.push_back(std::make_shared<utymap::entities::Relation>(relation));
   }
 
-  /// Parses relation with areas from polygon (first is outer, nexts are inner) and notifies visitor.
-  void parsePolygon(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
-    processSimpleRelation(visitor, featureId, feature);
+  /// Parses relation with areas from polygon (first is outer, nexts are inner) and adds it to elements.
+  void parsePolygon(Elements &elements, std::uint32_t featureId, const ptree &feature) const {
+    processSimpleRelation(elements, featureId, feature);
   }
 
-  /// Parses relation with ways from multiline string and notifies visitor.
-  void parseMultiLineString(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
-    processSimpleRelation(visitor, featureId, feature);
+  /// Parses relation with ways from multiline string and adds it to elements.
+  void parseMultiLineString(Elements &elements, std::uint32_t featureId, const ptree &feature) const {
+    processSimpleRelation(elements, featureId, feature);
   }
 
-  /// Parses way from line string and notifies visitor.
-  void parseLineString(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  /// Parses way from line string and adds it to elements.
+  void parseLineString(Elements &elements, std::uint32_t featureId, const ptree &feature) const {
     utymap::entities::Way way;
     parseProperties(way, featureId, feature.get_child("properties"));
     way.coordinates = parseCoordinates(feature.get_child("geometry.coordinates"));
-    visitor.add(way);
+    elements.push_back(std::make_shared<utymap::entities::Way>(way));
   }
 
-  /// Parses node from point and notifies visitor.
-  void parsePoint(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  /// Parses node from point and adds it to elements.
+  void parsePoint(Elements &elements, std::uint32_t featureId, const ptree &feature) const {
     utymap::entities::Node node;
     parseProperties(node, featureId, feature.get_child("properties"));
     node.coordinate = parseCoordinate(feature.get_child("geometry.coordinates"));
-    visitor.add(node);
+    elements.push_back(std::make_shared<utymap::entities::Node>(node));
   }
 
   /// Parses relation as simple relation with non-relation children. If child is single, then
-  /// calls visitor with this child instead of relation.
-  void processSimpleRelation(Visitor &visitor, std::uint32_t featureId, const ptree &feature) const {
+  /// adds this child instead of relation.
+  void processSimpleRelation(Elements &elements, std::uint32_t featureId, const ptree &feature) const {
     auto relation = parseRelation(featureId, feature.get_child("geometry.coordinates"));
     if (relation.elements.size()==1) {
       parseProperties(*relation.elements[0], featureId, feature.get_child("properties"));
-      visitor.add(*relation.elements[0]);
+      elements.push_back(relation.elements[0]);
     } else {
       parseProperties(relation, featureId, feature.get_child("properties"));
-      visitor.add(relation);
+      elements.push_back(std::make_shared<utymap::entities::Relation>(relation));
     }
   }
 
-- 
2.43.0


From 1eb44fe9cf97d7421e13bdc3b57ad2c3f687f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 54/76] fix: report damaged pbf files

---
 core/src/formats/osm/pbf/OsmPbfParser.hpp | 41 ++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/core/src/formats/osm/pbf/OsmPbfParser.hpp b/core/src/formats/osm/pbf/OsmPbfParser.hpp
index a9426ff..5a354e1 100644
--- a/core/src/formats/osm/pbf/OsmPbfParser.hpp
+++ b/core/src/formats/osm/pbf/OsmPbfParser.hpp
@@ -58,6 +58,8 @@ class OsmPbfParser final {
 
     // read size of blob-header
     if (!stream.read(reinterpret_cast<char *>(&sz), 4)) {
+      if (stream.bad() || stream.gcount()!=0)
+        throw std::domain_error("Unable to read blob header size from file");
       finished_ = true;
       return result;
     }
@@ -65,7 +67,7 @@ class OsmPbfParser final {
     // little endian to big endian
     sz = (((sz & 0xff) << 24) + ((sz & 0xff00) << 8) + ((sz & 0xff0000) >> 8) + ((sz >> 24) & 0xff));
 
-    if (sz > MaxBlobHeaderSize)
+    if (sz < 0 || sz > MaxBlobHeaderSize)
       throw std::domain_error("Blob header size is bigger than allowed");
 
     stream.read(buffer_.data(), sz);
@@ -83,7 +85,7 @@ class OsmPbfParser final {
 
     std::int32_t sz = header.datasize();
 
-    if (sz > MaxUncompressedBlobSize)
+    if (sz < 0 || sz > MaxUncompressedBlobSize)
       throw std::domain_error("Blob size is bigger then allowed");
 
     if (!stream.read(buffer_.data(), sz))
@@ -102,6 +104,9 @@ class OsmPbfParser final {
     if (blob.has_zlib_data()) {
       sz = static_cast<std::int32_t>(blob.zlib_data().size());
 
+      if (blob.raw_size() < 0 || blob.raw_size() > MaxUncompressedBlobSize)
+        throw std::domain_error("Uncompressed blob size is bigger than allowed");
+
       z_stream z;
       z.next_in = (unsigned char *) blob.zlib_data().c_str();
       z.avail_in = sz;
@@ -114,8 +119,10 @@ class OsmPbfParser final {
       if (inflateInit(&z)!=Z_OK)
         throw std::domain_error("Failed to init zlib stream");
 
-      if (inflate(&z, Z_FINISH)!=Z_STREAM_END)
+      if (inflate(&z, Z_FINISH)!=Z_STREAM_END) {
+        inflateEnd(&z);
         throw std::domain_error("Failed to inflate zlib stream");
+      }
 
       if (inflateEnd(&z)!=Z_OK)
         throw std::domain_error("Failed to deinit zlib stream");
@@ -160,6 +167,9 @@ class OsmPbfParser final {
 
         int current_kv = 0;
 
+        if (dn.lat_size() < dn.id_size() || dn.lon_size() < dn.id_size())
+          throw std::domain_error("Dense nodes have no coordinates");
+
         for (int i = 0; i < dn.id_size(); ++i) {
           id += dn.id(i);
           lat += dn.lat(i);
@@ -168,11 +178,13 @@ class OsmPbfParser final {
           Tags tags;
           tags.reserve(2);
           while (current_kv < dn.keys_vals_size() && dn.keys_vals(current_kv)!=0) {
+            if (current_kv + 1==dn.keys_vals_size())
+              throw std::domain_error("Dense node has key without value");
             auto key = dn.keys_vals(current_kv);
             auto val = dn.keys_vals(current_kv + 1);
             Tag tag;
-            tag.key = primblock.stringtable().s(key);
-            tag.value = primblock.stringtable().s(val);
+            tag.key = getString(primblock, key);
+            tag.value = getString(primblock, val);
             current_kv += 2;
             tags.push_back(tag);
           }
@@ -204,12 +216,15 @@ class OsmPbfParser final {
         uint64_t id = 0;
         RelationMembers refs;
         refs.reserve(rel.memids_size());
+        if (rel.types_size() < rel.memids_size() || rel.roles_sid_size() < rel.memids_size())
+          throw std::domain_error("Relation member has no type or role");
+
         for (int l = 0; l < rel.memids_size(); ++l) {
           id += rel.memids(l);
           RelationMember member;
           member.refId = id;
           member.type = parseType(rel, l);
-          member.role = primblock.stringtable().s(rel.roles_sid(l));
+          member.role = getString(primblock, rel.roles_sid(l));
           refs.push_back(member);
         }
 
@@ -221,6 +236,13 @@ class OsmPbfParser final {
     }
   }
 
+  static const std::string &getString(const OSMPBF::PrimitiveBlock &primblock, std::int64_t index) {
+    if (index < 0 || index >= primblock.stringtable().s_size())
+      throw std::domain_error("String is not in string table");
+
+    return primblock.stringtable().s(static_cast<int>(index));
+  }
+
   static std::string parseType(OSMPBF::Relation &rel, int index) {
     switch (rel.types(index)) {
       case OSMPBF::Relation::NODE:return "n";
@@ -232,13 +254,16 @@ class OsmPbfParser final {
 
   template<typename T>
   void setTags(const T &object, const OSMPBF::PrimitiveBlock &primblock, Tags &tags) {
+    if (object.vals_size() < object.keys_size())
+      throw std::domain_error("Key without value");
+
     tags.reserve(object.keys_size());
     for (int i = 0; i < object.keys_size(); ++i) {
       Tag tag;
       auto key = object.keys(i);
       auto val = object.vals(i);
-      tag.key = primblock.stringtable().s(key);
-      tag.value = primblock.stringtable().s(val);
+      tag.key = getString(primblock, key);
+      tag.value = getString(primblock, val);
       tags.push_back(tag);
     }
   }
-- 
2.43.0


From 0c06aa6e0ed1a71b455dcac9b02a7e022113d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 55/76] fix: report unknown store and missing file

---
 core/src/index/GeoStore.cpp | 38 ++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/core/src/index/GeoStore.cpp b/core/src/index/GeoStore.cpp
index 382be60..26038ce 100644
--- a/core/src/index/GeoStore.cpp
+++ b/core/src/index/GeoStore.cpp
@@ -31,8 +31,8 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
-    elementStore->store(element, range, styleProvider);
+    auto &elementStore = getStore(storeKey);
+    elementStore.store(element, range, styleProvider);
   }
 
   void add(const std::string &storeKey,
@@ -40,13 +40,13 @@ class GeoStore::GeoStoreImpl final {
            const QuadKey &quadKey,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
-      return elementStore->store(element, quadKey, styleProvider);
+      return elementStore.store(element, quadKey, styleProvider);
     });
 
     if (cancelToken.isCancelled()) 
-      elementStore->erase(quadKey);
+      elementStore.erase(quadKey);
   }
 
   void add(const std::string &storeKey,
@@ -54,13 +54,13 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     auto bbox = add(path, cancelToken, [&](Element &element) {
-      return elementStore->store(element, range, styleProvider);
+      return elementStore.store(element, range, styleProvider);
     });
 
     if (cancelToken.isCancelled())
-      elementStore->erase(bbox, range);
+      elementStore.erase(bbox, range);
   }
 
   void add(const std::string &storeKey,
@@ -69,13 +69,13 @@ class GeoStore::GeoStoreImpl final {
            const LodRange &range,
            const StyleProvider &styleProvider,
            const utymap::CancellationToken &cancelToken) {
-    auto &elementStore = storeMap_[storeKey];
+    auto &elementStore = getStore(storeKey);
     add(path, cancelToken, [&](Element &element) {
-      return elementStore->store(element, bbox, range, styleProvider);
+      return elementStore.store(element, bbox, range, styleProvider);
     });
 
     if (cancelToken.isCancelled())
-      elementStore->erase(bbox, range);
+      elementStore.erase(bbox, range);
   }
 
   utymap::BoundingBox add(const std::string &path,
@@ -91,6 +91,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Xml: {
         OsmXmlParser<OsmDataVisitor> parser;
         std::ifstream xmlFile(path);
+        ensureOpened(xmlFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(xmlFile, visitor);
         return visitor.complete();
@@ -99,6 +100,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Pbf: {
         OsmPbfParser<OsmDataVisitor> parser;
         std::ifstream pbfFile(path, std::ios::in | std::ios::binary);
+        ensureOpened(pbfFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(pbfFile, visitor);
         return visitor.complete();
@@ -107,6 +109,7 @@ class GeoStore::GeoStoreImpl final {
       case FormatType::Json: {
         OsmJsonParser<OsmDataVisitor> parser(stringTable_);
         std::ifstream jsonFile(path);
+        ensureOpened(jsonFile, path);
         OsmDataVisitor visitor(stringTable_, functor, cancelToken);
         parser.parse(jsonFile, visitor);
         return visitor.complete();
@@ -150,6 +153,19 @@ class GeoStore::GeoStoreImpl final {
   const StringTable &stringTable_;
   std::map<std::string, std::unique_ptr<ElementStore>> storeMap_;
 
+  /// Gets registered store by its key.
+  ElementStore &getStore(const std::string &storeKey) {
+    auto pair = storeMap_.find(storeKey);
+    if (pair==storeMap_.end())
+      throw std::invalid_argument(std::string("Unknown store:") + storeKey);
+    return *pair->second;
+  }
+
+  static void ensureOpened(const std::ifstream &file, const std::string &path) {
+    if (!file.good())
+      throw std::invalid_argument(std::string("Cannot read file:") + path);
+  }
+
   static FormatType getFormatTypeFromPath(const std::string &path) {
     if (utymap::utils::endsWith(path, "pbf"))
       return FormatType::Pbf;
-- 
2.43.0


From 440f12cf2e4361f651606b177d472ab03d9b7876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 56/76] fix: report index directory which cannot be used

---
 core/src/index/StringTable.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/index/StringTable.cpp b/core/src/index/StringTable.cpp
index 6f12922..a1d6f2f 100644
--- a/core/src/index/StringTable.cpp
+++ b/core/src/index/StringTable.cpp
@@ -5,6 +5,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <stdexcept>
 #include <unordered_map>
 
 using std::ios;
@@ -25,6 +26,9 @@ class StringTable::StringTableImpl {
       map_(),
       offsets_(),
       cache_(1024) {
+    if (!indexFile_.is_open() || !dataFile_.is_open())
+      throw std::invalid_argument("Cannot open string table: " + indexPath);
+
     nextId_ = static_cast<std::uint32_t>(indexFile_.tellg()/(sizeof(std::uint32_t)*2));
     if (nextId_ > 0) {
       std::uint32_t count = nextId_;
-- 
2.43.0


From bee0b6c4b83a4ee54726ddb204cf391f41868b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 57/76] fix: allow disconnect after failed connect

---
 core/shared/ExportLib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/shared/ExportLib.cpp b/core/shared/ExportLib.cpp
index ded0428..64e0dc8 100644
--- a/core/shared/ExportLib.cpp
+++ b/core/shared/ExportLib.cpp
@@ -18,6 +18,8 @@ extern "C"
 /************* Lifecycle API *****************/
 void EXPORT_API disconnect() {
   delete applicationPtr;
+  // NOTE next connect might fail
+  applicationPtr = nullptr;
 }
 
 void EXPORT_API connect(const char *indexPath, OnError *errorCallback) {
-- 
2.43.0


From 7a4cddce2981c2bfccf77242c6f72d6ef509fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 58/76] fix: report wrong levels and empty elements

---
 core/shared/Search.hpp  |  2 +-
 core/shared/Storage.hpp | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/shared/Search.hpp b/core/shared/Search.hpp
index 6584be8..deba4df 100644
--- a/core/shared/Search.hpp
+++ b/core/shared/Search.hpp
@@ -30,9 +30,9 @@ public:
                      utymap::CancellationToken *cancellationToken) {
     utymap::BoundingBox bbox(utymap::GeoCoordinate(minLatitude, minLongitude),
                              utymap::GeoCoordinate(maxLatitude, maxLongitude));
-    utymap::LodRange lodRange(startLod, endLod);
     ExportElementVisitor elementVisitor(tag, context_.stringTable, elementCallback);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.search(notTerms, andTerms, orTerms, bbox, lodRange, elementVisitor, *cancellationToken);
     }, errorCallback);
   }
diff --git a/core/shared/Storage.hpp b/core/shared/Storage.hpp
index 750c241..87a3d48 100644
--- a/core/shared/Storage.hpp
+++ b/core/shared/Storage.hpp
@@ -36,8 +36,8 @@ public:
                   utymap::CancellationToken *cancelToken) {
     utymap::BoundingBox bbox(utymap::GeoCoordinate(minLat, minLon),
                              utymap::GeoCoordinate(maxLat, maxLon));
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, bbox, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -50,8 +50,8 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancelToken) {
-    utymap::LodRange lodRange(startLod, endLod);
     ::safeExecute([&]() {
+      utymap::LodRange lodRange(startLod, endLod);
       context_.geoStore.add(key, path, lodRange, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
@@ -69,7 +69,6 @@ public:
                   int endLod,                // end zoom level
                   OnError *errorCallback,    // error callback
                   utymap::CancellationToken *cancellationToken) {
-    utymap::LodRange lod(startLod, endLod);
     std::vector<utymap::entities::Tag> elementTags;
     elementTags.reserve(static_cast<std::size_t>(tagLength / 2));
     for (std::size_t i = 0; i < tagLength; i += 2) {
@@ -78,13 +77,18 @@ public:
       elementTags.push_back(utymap::entities::Tag(keyId, valueId));
     }
 
+    if (vertexLength < 2) {
+      errorCallback("Element has no vertices.");
+      return;
+    }
+
     // Node
     if (vertexLength / 2 == 1) {
       utymap::entities::Node node;
       node.id = id;
       node.tags = elementTags;
       node.coordinate = utymap::GeoCoordinate(vertices[0], vertices[1]);
-      addToStore(key, styleFile, node, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, node, startLod, endLod, errorCallback, cancellationToken);
       return;
     }
 
@@ -100,14 +104,14 @@ public:
       area.id = id;
       area.coordinates = coordinates;
       area.tags = elementTags;
-      addToStore(key, styleFile, area, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, area, startLod, endLod, errorCallback, cancellationToken);
     }
     else {
       utymap::entities::Way way;
       way.id = id;
       way.coordinates = coordinates;
       way.tags = elementTags;
-      addToStore(key, styleFile, way, lod, errorCallback, cancellationToken);
+      addToStore(key, styleFile, way, startLod, endLod, errorCallback, cancellationToken);
     }
   }
 
@@ -121,10 +125,12 @@ private:
   void addToStore(const char *key,
                   const char *styleFile,
                   const utymap::entities::Element &element,
-                  const utymap::LodRange &range,
+                  int startLod,
+                  int endLod,
                   OnError *errorCallback,
                   utymap::CancellationToken *cancelToken) {
     safeExecute([&]() {
+      utymap::LodRange range(startLod, endLod);
       context_.geoStore.add(key, element, range, context_.getStyleProvider(styleFile), *cancelToken);
     }, errorCallback);
   }
-- 
2.43.0


From fc58a9fe4e0088387c5b9e252a595047790705f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 59/76] fix: do not ignore rest of broken stylesheet, lsystem
 or atlas

---
 core/src/lsys/LSystemParser.cpp        | 5 +++++
 core/src/mapcss/MapCssParser.cpp       | 6 +++++-
 core/src/mapcss/TextureAtlasParser.cpp | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/lsys/LSystemParser.cpp b/core/src/lsys/LSystemParser.cpp
index fe37c0e..8ba8c41 100644
--- a/core/src/lsys/LSystemParser.cpp
+++ b/core/src/lsys/LSystemParser.cpp
@@ -169,6 +169,11 @@ void parse(Iterator begin, Iterator end, LSystem &lsystem) {
 
   if (!phrase_parse(begin, end, grammar, skipper, lsystem))
     throw std::domain_error(std::string("Cannot parse lsystem:") + grammar.error.str());
+
+  // NOTE only spaces and comments are allowed after the last production.
+  qi::parse(begin, end, *(ascii::space | ('#' >> *(qi::char_ - '\n'))));
+  if (begin!=end)
+    throw std::domain_error(std::string("Cannot parse lsystem:") + std::string(begin, end));
 }
 }
 
diff --git a/core/src/mapcss/MapCssParser.cpp b/core/src/mapcss/MapCssParser.cpp
index d850afd..fde256f 100644
--- a/core/src/mapcss/MapCssParser.cpp
+++ b/core/src/mapcss/MapCssParser.cpp
@@ -258,7 +258,7 @@ struct StyleSheetGrammar : qi::grammar<Iterator, StyleSheet(), CommentSkipper<It
       import(directory, stylesheet),
       texture(directory, stylesheet) {
     start = qi::eps
-        > *(rule | import | texture);
+        > *(rule | import | texture | ';');
 
     start.name("stylesheet");
     qi::on_error<qi::fail>
@@ -287,6 +287,10 @@ void parse(const std::string &directory, Iterator begin, Iterator end, StyleShee
 
   if (!phrase_parse(begin, end, grammar, skipper, stylesheet))
     throw utymap::MapCssException(grammar.error.str());
+
+  // NOTE the rest of stylesheet should not be skipped silently.
+  if (begin!=end)
+    throw utymap::MapCssException(std::string("Cannot parse stylesheet: ") + std::string(begin, end));
 }
 }
 
diff --git a/core/src/mapcss/TextureAtlasParser.cpp b/core/src/mapcss/TextureAtlasParser.cpp
index ad94005..43e3163 100644
--- a/core/src/mapcss/TextureAtlasParser.cpp
+++ b/core/src/mapcss/TextureAtlasParser.cpp
@@ -84,7 +84,7 @@ TextureAtlas parse(Iterator begin, Iterator end) {
   auto atlas = Atlas();
   AtlasGrammar<Iterator> grammar;
 
-  if (!phrase_parse(begin, end, grammar, qi::space, atlas))
+  if (!phrase_parse(begin, end, grammar, qi::space, atlas) || begin!=end)
     throw utymap::MapCssException(std::string("Cannot parse texture atlas."));
 
   std::unordered_map<std::string, TextureGroup> groups;
-- 
2.43.0


From ccd9cc9d97b5fa7d3c333055291159f5d6535cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 60/76] fix: report unknown roof and facade types

---
 core/src/builders/buildings/BuildingBuilder.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/buildings/BuildingBuilder.cpp b/core/src/builders/buildings/BuildingBuilder.cpp
index 5da1dc1..7d0b15b 100644
--- a/core/src/builders/buildings/BuildingBuilder.cpp
+++ b/core/src/builders/buildings/BuildingBuilder.cpp
@@ -121,6 +121,15 @@ std::unordered_map<std::string, FacadeBuilderFactory> FacadeBuilderFactoryMap =
         }
     };
 
+/// Finds factory by type specified in style.
+template<typename Factory>
+const Factory &findFactory(const std::unordered_map<std::string, Factory> &factoryMap, const std::string &type) {
+  auto factory = factoryMap.find(type);
+  if (factory==factoryMap.end())
+    throw std::domain_error("Unknown builder type: " + type);
+  return factory->second;
+}
+
 /// Creates points for polygon
 std::vector<Vector2> toPoints(const std::vector<GeoCoordinate> &coordinates) {
   std::vector<Vector2> points;
@@ -301,7 +310,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
     double roofHeight = roofMeshContext.style.getValue(RoofHeightKey);
     auto direction = roofMeshContext.style.getString(RoofDirectionKey);
 
-    auto roofBuilder = RoofBuilderFactoryMap.find(roofType)->second(context_, roofMeshContext);
+    auto roofBuilder = findFactory(RoofBuilderFactoryMap, roofType)(context_, roofMeshContext);
     roofBuilder->setHeight(roofHeight);
     roofBuilder->setMinHeight(elevation + height);
     roofBuilder->setColorNoiseFreq(0);
@@ -341,7 +350,7 @@ class BuildingBuilder::BuildingBuilderImpl : public ElementBuilder {
                                                         id_);
 
     auto facadeType = facadeMeshContext.style.getString(FacadeTypeKey);
-    auto facadeBuilder = FacadeBuilderFactoryMap.find(facadeType)->second(context_, facadeMeshContext);
+    auto facadeBuilder = findFactory(FacadeBuilderFactoryMap, facadeType)(context_, facadeMeshContext);
 
     facadeBuilder->setHeight(height);
     facadeBuilder->setMinHeight(elevation);
-- 
2.43.0


From 9534a8d7da3ab2aacdfae7a90d602fd9bb578620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 61/76] fix: deliver nothing after tile request is cancelled

---
 core/src/builders/QuadKeyBuilder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/builders/QuadKeyBuilder.cpp b/core/src/builders/QuadKeyBuilder.cpp
index 2aba63c..2351ed0 100644
--- a/core/src/builders/QuadKeyBuilder.cpp
+++ b/core/src/builders/QuadKeyBuilder.cpp
@@ -119,8 +119,13 @@ class QuadKeyBuilder::QuadKeyBuilderImpl {
              const BuilderContext::ElementCallback &elementCallback,
              const utymap::CancellationToken &cancelToken) {
     auto context = BuilderContext(quadKey, styleProvider, stringTable_,
-                                  meshPool_, eleProvider, meshCallback,
-                                  elementCallback, cancelToken);
+                                  meshPool_, eleProvider,
+                                  [&](const Mesh &mesh) {
+                                    if (!cancelToken.isCancelled()) meshCallback(mesh);
+                                  },
+                                  [&](const Element &element) {
+                                    if (!cancelToken.isCancelled()) elementCallback(element);
+                                  }, cancelToken);
     auto visitor = BuilderElementVisitor(context, builderFactory_);
     geoStore_.search(quadKey, styleProvider, visitor, cancelToken);
     visitor.complete();
-- 
2.43.0


From ae9c5e22497c73a44ab6e13743fbcc943ee33ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 62/76] fix: keep minimum and maximum of range tree up to date

---
 .../Infrastructure/Primitives/RangeTree.cs    | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
index 274119e..fc5b16f 100644
--- a/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
+++ b/unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs
@@ -62,7 +62,13 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public TKey Max
         {
-            get { return _root.Max; }
+            get
+            {
+                if (!_isInSync && _autoRebuild)
+                    Rebuild();
+
+                return _root.Max;
+            }
         }
 
         /// <summary>
@@ -70,7 +76,13 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public TKey Min
         {
-            get { return _root.Min; }
+            get
+            {
+                if (!_isInSync && _autoRebuild)
+                    Rebuild();
+
+                return _root.Min;
+            }
         }
 
         /// <summary>
@@ -180,7 +192,7 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         /// </summary>
         public void Add(TKey from, TKey to, TValue value)
         {
-            if (_comparer.Compare(from, to) == 1)
+            if (_comparer.Compare(from, to) > 0)
                 throw new ArgumentOutOfRangeException();
 
             _isInSync = false;
@@ -292,11 +304,15 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
+                // NOTE items of this node may end behind the ones of the right node.
+                var keys = new List<TKey>(3);
                 if (_rightNode != null)
-                    return _rightNode.Max;
+                    keys.Add(_rightNode.Max);
                 if (_items != null)
-                    return _items.Max(i => i.To);
-                return default(TKey);
+                    keys.AddRange(_items.Select(i => i.To));
+                if (keys.Count == 0)
+                    return _leftNode != null ? _leftNode.Max : default(TKey);
+                return keys.Aggregate((a, b) => _comparer.Compare(a, b) < 0 ? b : a);
             }
         }
 
@@ -304,11 +320,15 @@ namespace UtyMap.Unity.Infrastructure.Primitives
         {
             get
             {
+                // NOTE items of this node may start before the ones of the left node.
+                var keys = new List<TKey>(3);
                 if (_leftNode != null)
-                    return _leftNode.Min;
+                    keys.Add(_leftNode.Min);
                 if (_items != null)
-                    return _items.Min(i => i.From);
-                return default(TKey);
+                    keys.AddRange(_items.Select(i => i.From));
+                if (keys.Count == 0)
+                    return _rightNode != null ? _rightNode.Min : default(TKey);
+                return keys.Aggregate((a, b) => _comparer.Compare(b, a) < 0 ? b : a);
             }
         }
 
-- 
2.43.0


From a3e8f2a876eb6847b2c788cf21569f7b78d2b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 63/76] fix: find all tiles of bounding box in managed code

---
 unity/library/UtyMap.Unity/Utils/GeoUtils.cs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
index 97bc854..fc85259 100644
--- a/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
+++ b/unity/library/UtyMap.Unity/Utils/GeoUtils.cs
@@ -152,11 +152,17 @@ namespace UtyMap.Unity.Utils
 
             int x = 0, y = 0, dx = 0, dy = -1;
             int t = Math.Max(width, height);
+            // NOTE spiral with odd size goes equally far to all sides
+            if (t % 2 == 0)
+                ++t;
             int maxI = t*t;
             for (int i = 0; i < maxI; i++)
             {
-                if ((-halfWidth <= x) && (x <= halfWidth) && (-halfHeight <= y) && (y <= halfHeight))
-                    yield return new QuadKey(xBase + x, yBase - y, levelOfDetails);
+                var tileX = xBase + x;
+                var tileY = yBase - y;
+                if (minQuadKey.TileX <= tileX && tileX <= maxQuadKey.TileX &&
+                    maxQuadKey.TileY <= tileY && tileY <= minQuadKey.TileY)
+                    yield return new QuadKey(tileX, tileY, levelOfDetails);
 
                 if ((x == y) || ((x < 0) && (x == -y)) || ((x > 0) && (x == 1 - y)))
                 {
-- 
2.43.0


From 015f83fc97657a6f06984db1172a4b827209eb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 64/76] fix: do not swap width and height of bounding box

---
 unity/library/UtyMap.Unity/BoundingBox.cs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unity/library/UtyMap.Unity/BoundingBox.cs b/unity/library/UtyMap.Unity/BoundingBox.cs
index 8919d0c..416d9f7 100644
--- a/unity/library/UtyMap.Unity/BoundingBox.cs
+++ b/unity/library/UtyMap.Unity/BoundingBox.cs
@@ -105,13 +105,13 @@ namespace UtyMap.Unity
             // Radius of the parallel at given latitude
             var pradius = radius*Math.Cos(lat);
 
-            var dWidth = width/(2*radius);
-            var dHeight = height/(2*pradius);
+            var dWidth = width/(2*pradius);
+            var dHeight = height/(2*radius);
 
-            var latMin = lat - dWidth;
-            var latMax = lat + dWidth;
-            var lonMin = lon - dHeight;
-            var lonMax = lon + dHeight;
+            var latMin = lat - dHeight;
+            var latMax = lat + dHeight;
+            var lonMin = lon - dWidth;
+            var lonMax = lon + dWidth;
 
             return new BoundingBox(
                 new GeoCoordinate(MathUtils.Rad2Deg(latMin), MathUtils.Rad2Deg(lonMin)),
-- 
2.43.0


From 1c350056cc4991b6b5728e076db7f513776a29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 65/76] fix: keep element registered while other tile shows it

---
 unity/library/UtyMap.Unity/Tile.cs | 38 +++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Tile.cs b/unity/library/UtyMap.Unity/Tile.cs
index e6a0e1f..5125393 100644
--- a/unity/library/UtyMap.Unity/Tile.cs
+++ b/unity/library/UtyMap.Unity/Tile.cs
@@ -1,7 +1,7 @@
 ﻿using System;
+using System.Collections.Generic;
 using UnityEngine;
 using UtyMap.Unity.Data;
-using UtyMap.Unity.Infrastructure.Primitives;
 using UtyMap.Unity.Utils;
 
 namespace UtyMap.Unity
@@ -10,10 +10,10 @@ namespace UtyMap.Unity
     public sealed class Tile : IDisposable
     {
         /// <summary> Stores element ids loaded in this tile. </summary>
-        private readonly SafeHashSet<long> _localIds = new SafeHashSet<long>();
+        private readonly HashSet<long> _localIds = new HashSet<long>();
 
-        /// <summary> Stores element ids loaded for all tiles. </summary>
-        private static readonly SafeHashSet<long> GlobalIds = new SafeHashSet<long>();
+        /// <summary> Stores element ids loaded for all tiles with amount of tiles which registered them. </summary>
+        private static readonly Dictionary<long, int> GlobalIds = new Dictionary<long, int>();
 
         /// <summary> Used to cancel tile loading in native code. </summary>
         public readonly CancellationToken CancelationToken;
@@ -64,7 +64,8 @@ namespace UtyMap.Unity
         /// <returns> True if registration is found. </returns>
         public bool Has(long id)
         {
-            return GlobalIds.Contains(id) || _localIds.Contains(id);
+            lock (GlobalIds)
+                return GlobalIds.ContainsKey(id);
         }
 
         /// <summary> Register element with given id inside to prevent multiple loading. </summary>
@@ -74,11 +75,15 @@ namespace UtyMap.Unity
         /// </remarks>
         public void Register(long id)
         {
-            if (IsDisposed)
-                return;
+            lock (GlobalIds)
+            {
+                if (IsDisposed || !_localIds.Add(id))
+                    return;
 
-            _localIds.Add(id);
-            GlobalIds.Add(id);
+                int count;
+                GlobalIds.TryGetValue(id, out count);
+                GlobalIds[id] = count + 1;
+            }
         }
 
         /// <inheritdoc />
@@ -94,12 +99,17 @@ namespace UtyMap.Unity
         {
             // notify native code.
             CancelationToken.SetCancelled(true);
-            IsDisposed = true;
 
-            // remove all registered ids from global list if they are in current registry
-            foreach (var id in _localIds)
-                GlobalIds.Remove(id);
-            _localIds.Clear();
+            lock (GlobalIds)
+            {
+                IsDisposed = true;
+
+                // remove registered ids from global list unless they are registered by other tiles too
+                foreach (var id in _localIds)
+                    if (--GlobalIds[id] == 0)
+                        GlobalIds.Remove(id);
+                _localIds.Clear();
+            }
 
             if (GameObject != null)
             {
-- 
2.43.0


From c61e1ad1163973fdb137a33e16d53300eae63280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 66/76] fix: notify tile observers after import, but not about
 disposed tile

---
 unity/library/UtyMap.Unity/Data/MapDataStore.cs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataStore.cs b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
index 2b1fad6..a563ca9 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataStore.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataStore.cs
@@ -63,13 +63,11 @@ namespace UtyMap.Unity.Data
                 {
                     // We have map data in store.
                     if (String.IsNullOrEmpty(value.Item2))
-                        _mapDataLibrary
-                            .Get(value.Item1, _dataObservers)
-                            .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(value.Item1)));
+                        LoadTile(value.Item1);
                     else
                         // NOTE store data in the first registered store
                         AddTo(_storageKeys.First(), value.Item2, value.Item1.Stylesheet, value.Item1.QuadKey, value.Item1.CancelationToken)
-                            .Subscribe(progress => { }, () => _mapDataLibrary.Get(value.Item1, _dataObservers));
+                            .Subscribe(progress => { }, () => LoadTile(value.Item1));
                 });
         }
 
@@ -173,5 +171,14 @@ namespace UtyMap.Unity.Data
         }
 
         #endregion
+
+        /// <summary> Gets content of the tile and notifies tile observers once it is fully loaded. </summary>
+        private void LoadTile(Tile tile)
+        {
+            _mapDataLibrary
+                .Get(tile, _dataObservers)
+                .Where(_ => !tile.IsDisposed)
+                .Subscribe(_ => _tileObservers.ForEach(t => t.OnNext(tile)));
+        }
     }
 }
-- 
2.43.0


From b2fc7f7698e1b6de70174910fbf97b8869350e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 67/76] fix: pass cancellation token of map query to native
 code

---
 unity/library/UtyMap.Unity/Data/MapDataLibrary.cs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
index 52d0ace..23807b8 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataLibrary.cs
@@ -270,7 +270,7 @@ namespace UtyMap.Unity.Data
         private IObservable<int> Get(MapQuery query, int tag, OnElementLoaded elementLoadedHandler, OnError errorHandler)
         {
             _trace.Debug(TraceCategory, "Search elements");
-            WithCancelToken(new CancellationToken(), (cancelTokenHandle) => getDataByText(
+            WithCancelToken(query.CancelToken, (cancelTokenHandle) => getDataByText(
                 tag, query.NotTerms, query.AndTerms, query.OrTerms,
                 query.BoundingBox.MinPoint.Latitude, query.BoundingBox.MinPoint.Longitude,
                 query.BoundingBox.MaxPoint.Latitude, query.BoundingBox.MaxPoint.Longitude,
-- 
2.43.0


From 887ef7ef37e290f4b59ab913b3bb57ba1e39decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 68/76] fix: store srtm data where native code looks for it

---
 .../Providers/Elevation/SrtmElevationDataProvider.cs  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
index fe22b65..dac4d89 100644
--- a/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/Providers/Elevation/SrtmElevationDataProvider.cs
@@ -66,7 +66,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
                     var parameters = line.Split(' ');
                     // NOTE some of files miss extension point between name and .hgt.zip
                     return String.Format("{0}/{1}/{2}", _server, ContinentMap[int.Parse(parameters[1])],
-                        parameters[1].EndsWith("zip") ? "" : parameters[0] + ".hgt.zip");
+                        parameters[0].EndsWith("zip") ? parameters[0] : parameters[0] + ".hgt.zip");
                 }
             }
 
@@ -79,7 +79,7 @@ namespace UtyMap.Unity.Data.Providers.Elevation
         protected override string GetFilePath(QuadKey quadKey)
         {
             var prefix = GetFileNamePrefix(GeoUtils.QuadKeyToBoundingBox(quadKey).Center());
-            return Path.Combine(_elePath, prefix);
+            return Path.Combine(_elePath, prefix + ".hgt");
         }
 
         /// <inheritdoc />
@@ -92,9 +92,12 @@ namespace UtyMap.Unity.Data.Providers.Elevation
 
         private string GetFileNamePrefix(GeoCoordinate coordinate)
         {
+            // NOTE cells are named by their south west corner.
+            var latitude = (int) Math.Floor(coordinate.Latitude);
+            var longitude = (int) Math.Floor(coordinate.Longitude);
             return String.Format("{0}{1:00}{2}{3:000}",
-                coordinate.Latitude > 0 ? 'N' : 'S', Math.Abs((int)coordinate.Latitude),
-                coordinate.Longitude > 0 ? 'E' : 'W', Math.Abs((int)coordinate.Longitude));
+                latitude >= 0 ? 'N' : 'S', Math.Abs(latitude),
+                longitude >= 0 ? 'E' : 'W', Math.Abs(longitude));
         }
     }
 }
-- 
2.43.0


From 6a869ac325b45b469fa8f40ccd53e40ccd34505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 69/76] fix: survive failed download and do not leave broken
 file

---
 .../UtyMap.Unity/Data/MapDataProvider.cs      | 33 ++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
index f2be3bf..b20e739 100644
--- a/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
+++ b/unity/library/UtyMap.Unity/Data/MapDataProvider.cs
@@ -124,18 +124,29 @@ namespace UtyMap.Unity.Data
             _trace.Info(TraceCategory, Strings.NoPresistentElementSourceFound, value.ToString(), uri);
             _networkService.GetAndGetBytes(uri)
                 .ObserveOn(Scheduler.ThreadPool)
-                .Subscribe(bytes =>
+                .Select(bytes => SaveBytes(value.QuadKey, bytes))
+                .Subscribe(
+                    filePath => Notify(new Tuple<Tile, string>(value, filePath)),
+                    ex => _trace.Error(TraceCategory, ex, "Cannot get data for {0}", value.ToString()));
+        }
+
+        /// <summary> Saves downloaded data unless it is already there and returns path to the file. </summary>
+        private string SaveBytes(QuadKey quadKey, byte[] bytes)
+        {
+            _trace.Debug(TraceCategory, "saving bytes: {0}", bytes.Length.ToString());
+            var filePath = GetFilePath(quadKey);
+            lock (_lockObj)
+            {
+                if (!_fileSystemService.Exists(filePath))
                 {
-                    _trace.Debug(TraceCategory, "saving bytes: {0}", bytes.Length.ToString());
-                    var filePath = GetFilePath(value.QuadKey);
-                    lock (_lockObj)
-                    {
-                        if (!_fileSystemService.Exists(filePath))
-                            using (var stream = _fileSystemService.WriteStream(filePath))
-                                WriteBytes(stream, bytes);
-                    }
-                    Notify(new Tuple<Tile, string>(value, filePath));
-                });
+                    // NOTE process data first: file should not be created if data is not valid.
+                    var content = new MemoryStream();
+                    WriteBytes(content, bytes);
+                    using (var stream = _fileSystemService.WriteStream(filePath))
+                        stream.Write(content.ToArray(), 0, (int) content.Length);
+                }
+            }
+            return filePath;
         }
     }
 }
-- 
2.43.0


From 4ed15b8df3b7b7724f48455f85c8a2a3a308d3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 70/76] fix: keep orientation of clipped areas

---
 core/src/index/ElementGeometryClipper.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/index/ElementGeometryClipper.cpp b/core/src/index/ElementGeometryClipper.cpp
index c81b641..bea4f16 100644
--- a/core/src/index/ElementGeometryClipper.cpp
+++ b/core/src/index/ElementGeometryClipper.cpp
@@ -124,9 +124,14 @@ IntPaths clipPath(Clipper &clipper, const BoundingBox &, const Area &, const Int
   executeIntersection(clipper, solution);
   clipper.removeSubject();
 
+  // NOTE orientation distinguishes holes of relations: it has to be kept.
+  bool isReversed = !getOrientation(shape);
   IntPaths parts;
-  for (PolyNode *node = solution.GetFirst(); node!=nullptr; node = node->GetNext())
+  for (PolyNode *node = solution.GetFirst(); node!=nullptr; node = node->GetNext()) {
     parts.push_back(node->Contour);
+    if (isReversed)
+      std::reverse(parts.back().begin(), parts.back().end());
+  }
   return parts;
 }
 
-- 
2.43.0


From c79863e96884c80a4c59349faa6f16c451a39b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 71/76] fix: cut out all holes of polygon with nested or
 touching contours

---
 core/src/builders/MeshBuilder.cpp | 125 ++++++++++++++++++++++++++----
 1 file changed, 111 insertions(+), 14 deletions(-)

diff --git a/core/src/builders/MeshBuilder.cpp b/core/src/builders/MeshBuilder.cpp
index bed830b..0777747 100644
--- a/core/src/builders/MeshBuilder.cpp
+++ b/core/src/builders/MeshBuilder.cpp
@@ -62,6 +62,100 @@ bool canTriangulate(const Polygon &polygon) {
   return false;
 }
 
+/// Calculates area of contour.
+double getArea(const Polygon &polygon, const Polygon::Range &range) {
+  const auto &points = polygon.points;
+  double area = 0;
+  for (auto i = range.first, j = range.second - 2; i < range.second; j = i, i += 2)
+    area += (points[j] - points[range.first])*(points[i + 1] - points[range.first + 1]) -
+        (points[i] - points[range.first])*(points[j + 1] - points[range.first + 1]);
+  return std::abs(area)/2;
+}
+
+/// Checks whether point is inside contour.
+bool isInside(const Polygon &polygon, const Polygon::Range &range, double x, double y) {
+  const auto &points = polygon.points;
+  int windings = 0;
+  for (auto i = range.first, j = range.second - 2; i < range.second; j = i, i += 2) {
+    bool isUpward = points[i + 1] > y;
+    if (isUpward==(points[j + 1] > y))
+      continue;
+    if (points[j] + (y - points[j + 1])/(points[i + 1] - points[j + 1])*(points[i] - points[j]) > x)
+      windings += isUpward ? 1 : -1;
+  }
+  return windings!=0;
+}
+
+/// Checks whether triangulation covers all outer contours except their holes.
+bool isPolygonCovered(const Polygon &polygon, const triangulateio &io) {
+  double polygonArea = 0;
+  for (const auto &range : polygon.outers)
+    polygonArea += getArea(polygon, range);
+  double tolerance = polygonArea*1E-6;
+  for (const auto &range : polygon.inners)
+    polygonArea -= getArea(polygon, range);
+
+  for (int i = 0; i < io.numberoftriangles; ++i) {
+    const double *p0 = io.pointlist + io.trianglelist[i*3]*2;
+    const double *p1 = io.pointlist + io.trianglelist[i*3 + 1]*2;
+    const double *p2 = io.pointlist + io.trianglelist[i*3 + 2]*2;
+    polygonArea -= std::abs((p1[0] - p0[0])*(p2[1] - p0[1]) - (p2[0] - p0[0])*(p1[1] - p0[1]))/2;
+  }
+  return std::abs(polygonArea) < tolerance;
+}
+
+/// Gets centers of triangles which are outside of polygon.
+std::vector<double> getOutsideCenters(const Polygon &polygon, const triangulateio &io) {
+  // NOTE it is not possible to say reliably whether thin triangle between close contours is inside polygon.
+  const double minHeight = 2E-7;
+  std::vector<double> centers;
+  for (int i = 0; i < io.numberoftriangles; ++i) {
+    Vector2 p[3];
+    for (int j = 0; j < 3; ++j) {
+      const double *point = io.pointlist + io.trianglelist[i*3 + j]*2;
+      p[j] = Vector2(point[0], point[1]);
+    }
+    double doubleArea = std::abs((p[1].x - p[0].x)*(p[2].y - p[0].y) - (p[2].x - p[0].x)*(p[1].y - p[0].y));
+    double maxLength = std::max(Vector2::distance(p[0], p[1]),
+                                std::max(Vector2::distance(p[1], p[2]), Vector2::distance(p[2], p[0])));
+    if (doubleArea <= minHeight*maxLength)
+      continue;
+
+    double x = (p[0].x + p[1].x + p[2].x)/3;
+    double y = (p[0].y + p[1].y + p[2].y)/3;
+    int depth = 0;
+    for (const auto &range : polygon.outers)
+      depth += isInside(polygon, range, x, y) ? 1 : 0;
+    for (const auto &range : polygon.inners)
+      depth -= isInside(polygon, range, x, y) ? 1 : 0;
+    if (depth < 1) {
+      centers.push_back(x);
+      centers.push_back(y);
+    }
+  }
+  return centers;
+}
+
+/// Triangulates polygon without refinement.
+void triangulatePolygon(triangulateio &in, triangulateio &mid) {
+  mid.pointlist = nullptr;
+  mid.pointmarkerlist = nullptr;
+  mid.trianglelist = nullptr;
+  mid.segmentlist = nullptr;
+  mid.segmentmarkerlist = nullptr;
+
+  std::lock_guard<std::mutex> lock(lock_);
+  ::triangulate(const_cast<char *>("pzBQ"), &in, &mid, nullptr);
+}
+
+void freeTriangulation(triangulateio &mid) {
+  free(mid.pointlist);
+  free(mid.pointmarkerlist);
+  free(mid.trianglelist);
+  free(mid.segmentlist);
+  free(mid.segmentmarkerlist);
+}
+
 /// Fills mesh with all data needed to render object correctly outside core library.
 void fillMesh(triangulateio *io, QuadKey quadKey, const BoundingBox &bbox, Mesh &mesh,
               const ElevationProvider &eleProvider,
@@ -147,15 +241,22 @@ void MeshBuilder::addPolygon(Mesh &mesh,
   in.segmentmarkerlist = nullptr;
   in.pointmarkerlist = nullptr;
 
-  mid.pointlist = nullptr;
-  mid.pointmarkerlist = nullptr;
-  mid.trianglelist = nullptr;
-  mid.segmentlist = nullptr;
-  mid.segmentmarkerlist = nullptr;
-
-  {
-    std::lock_guard<std::mutex> lock(lock_);
-    ::triangulate(const_cast<char *>("pzBQ"), &in, &mid, nullptr);
+  triangulatePolygon(in, mid);
+
+  // NOTE holes might have nested contours, contours might touch each other so that one point for each hole
+  // is not always enough: in this case find points using triangulation without holes.
+  if (!isPolygonCovered(polygon, mid)) {
+    freeTriangulation(mid);
+    in.numberofholes = 0;
+    triangulatePolygon(in, mid);
+
+    auto holes = getOutsideCenters(polygon, mid);
+    if (!holes.empty()) {
+      freeTriangulation(mid);
+      in.numberofholes = static_cast<int>(holes.size()/2);
+      in.holelist = holes.data();
+      triangulatePolygon(in, mid);
+    }
   }
 
   // do not refine mesh if area is not set.
@@ -197,12 +298,8 @@ void MeshBuilder::addPolygon(Mesh &mesh,
 
   free(in.pointmarkerlist);
 
-  free(mid.pointlist);
-  free(mid.pointmarkerlist);
-  free(mid.trianglelist);
+  freeTriangulation(mid);
   free(mid.trianglearealist);
-  free(mid.segmentlist);
-  free(mid.segmentmarkerlist);
 }
 
 void MeshBuilder::addPlane(Mesh &mesh,
-- 
2.43.0


From f2007952c1dfff39426ebd8da297156565575046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 72/76] fix: do not split terrain line into points which differ
 by rounding error

---
 core/src/builders/terrain/LineGridSplitter.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/src/builders/terrain/LineGridSplitter.hpp b/core/src/builders/terrain/LineGridSplitter.hpp
index 2cbf368..5c373ae 100644
--- a/core/src/builders/terrain/LineGridSplitter.hpp
+++ b/core/src/builders/terrain/LineGridSplitter.hpp
@@ -143,13 +143,18 @@ class LineGridSplitter final {
   }
 
   void mergeResults(const Points &points, Points &result) const {
+    // NOTE points which differ only by rounding error break triangulation.
+    const double tolerance = 1E-11;
     for (std::size_t i = 0; i < points.size(); ++i) {
       Point candidate = points[i];
       if (result.size() > 0) {
-        Point last = result[result.size() - 1];
-        if (std::abs(last.x - candidate.x) < std::numeric_limits<double>::epsilon() &&
-            std::abs(last.y - candidate.y) < std::numeric_limits<double>::epsilon())
+        Point &last = result[result.size() - 1];
+        if (std::abs(last.x - candidate.x) < tolerance && std::abs(last.y - candidate.y) < tolerance) {
+          // keep original point
+          if (i + 1==points.size())
+            last = candidate;
           continue;
+        }
       }
 
       result.push_back(candidate);
-- 
2.43.0


From 59199db7959cdda7c48e9a123db67ae1a175e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:48 +0000
Subject: [PATCH 73/76] fix: merge and sort terrain regions independently of
 their orientation

---
 core/src/builders/terrain/TerraBuilder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/src/builders/terrain/TerraBuilder.cpp b/core/src/builders/terrain/TerraBuilder.cpp
index 912a8ea..2d8e814 100644
--- a/core/src/builders/terrain/TerraBuilder.cpp
+++ b/core/src/builders/terrain/TerraBuilder.cpp
@@ -157,6 +157,13 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
     }
 
     if (!region->geometry.empty()) {
+      // NOTE contours clipped by tile might compensate each other: get rid of them before region is merged with others.
+      if (region->geometry.size() > 1) {
+        Clipper clipper;
+        addSubjects(clipper, region->geometry);
+        executeUnion(clipper, region->geometry);
+      }
+
       Style style = context_.styleProvider.forElement(rel, context_.quadKey.levelOfDetail);
       if (!style.has(context_.stringTable.getId(StyleConsts::TerrainLayerKey())))
         region->context = utymap::utils::make_unique<RegionContext>(RegionContext::create(context_, style, ""));
@@ -216,6 +223,15 @@ class TerraBuilder::TerraBuilderImpl final : public ElementBuilder {
                  const utymap::entities::Element &element,
                  const Style &style,
                  std::shared_ptr<Region> &region) {
+    double area = std::accumulate(region->geometry.begin(), region->geometry.end(), 0.,
+                                  [](double acc, const IntPath &path) { return acc + getArea(path); });
+    // NOTE overlapping regions with different orientation compensate each other when they are merged.
+    if (area < 0) {
+      for (auto &path : region->geometry)
+        std::reverse(path.begin(), path.end());
+    }
+    region->area = std::abs(area)/(Scale*Scale);
+
     layers_[type].regions.push_back(region);
     for (const auto &generator : generators_) {
       generator->onNewRegion(type, element, style, region);
-- 
2.43.0


From 4ce61221927c2f238bf7bb999250db1387c38bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:56 +0000
Subject: [PATCH 74/76] fix: rings of multipolygon which touch other rings are
 sorted wrongly into outer and inner ones

---
 core/src/formats/osm/MultipolygonProcessor.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/src/formats/osm/MultipolygonProcessor.cpp b/core/src/formats/osm/MultipolygonProcessor.cpp
index 0f3be8e..22635a5 100644
--- a/core/src/formats/osm/MultipolygonProcessor.cpp
+++ b/core/src/formats/osm/MultipolygonProcessor.cpp
@@ -61,9 +61,23 @@ struct MultipolygonProcessor::CoordinateSequence final {
   }
 
   bool containsRing(const Coords &other) const {
-    return std::all_of(other.begin(), other.end(), [&](const GeoCoordinate &c) {
+    auto isInside = [&](const GeoCoordinate &c) {
       return utymap::utils::GeoUtils::isPointInPolygon(c, coordinates.begin(), coordinates.end());
+    };
+    // NOTE rings might touch each other: common coordinates tell nothing
+    Coords own;
+    std::copy_if(other.begin(), other.end(), std::back_inserter(own), [&](const GeoCoordinate &c) {
+      return std::find(coordinates.begin(), coordinates.end(), c)==coordinates.end();
     });
+    if (!own.empty())
+      return std::all_of(own.begin(), own.end(), isInside);
+
+    // all coordinates are common: use middle points of segments
+    for (std::size_t i = 1; i < other.size(); ++i) {
+      if (!isInside(utymap::utils::GeoUtils::newPoint(other[i - 1], other[i], 0.5)))
+        return false;
+    }
+    return true;
   }
 
  private:
-- 
2.43.0


From 03d7761d3f7d843bcd5f974f15db27856dbfe8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 75/76] fix: walls of terrain regions are missing where corner
 of tile is cut and present on border of big tiles

---
 core/src/builders/terrain/TerraGenerator.cpp | 14 ++++++++++++--
 core/src/builders/terrain/TerraGenerator.hpp |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index e9dbe44..9294954 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -9,6 +9,8 @@ namespace {
 const double AreaTolerance = 1000;
 /// Coordinate scale.
 const double Scale = 1E7;
+/// Tolerance for detection of tile border: coordinates are rounded by scale.
+const double BorderTolerance = 3/Scale;
 }
 
 TerraGenerator::TerraGenerator(const BuilderContext &context,
@@ -76,13 +78,21 @@ void TerraGenerator::buildHeightOffset(const std::vector<Vector2> &points, const
     const auto &p1 = points[i];
     const auto &p2 = points[i==(points.size() - 1) ? 0 : i + 1];
 
-    // check whether two points are on cell rect
-    if (isOnBorder(p1) && isOnBorder(p2)) continue;
+    // check whether segment is part of tile border
+    if (isOnBorder(p1, p2)) continue;
 
     context_.meshBuilder.addPlane(mesh_, p1, p2, newGeometryOptions, regionContext.appearanceOptions);
   }
 }
 
+bool TerraGenerator::isOnBorder(const Vector2 &p1, const Vector2 &p2) const {
+  auto isOnSide = [](double c1, double c2, double side) {
+    return std::abs(c1 - side) < BorderTolerance && std::abs(c2 - side) < BorderTolerance;
+  };
+  return isOnSide(p1.x, p2.x, rect_.xMin) || isOnSide(p1.x, p2.x, rect_.xMax) ||
+      isOnSide(p1.y, p2.y, rect_.yMin) || isOnSide(p1.y, p2.y, rect_.yMax);
+}
+
 std::vector<Vector2> TerraGenerator::restoreGeometry(const IntPath &geometry) const {
   auto lastItemIndex = geometry.size() - 1;
   std::vector<utymap::math::Vector2> points;
diff --git a/core/src/builders/terrain/TerraGenerator.hpp b/core/src/builders/terrain/TerraGenerator.hpp
index 6f7e004..c7e0bb2 100644
--- a/core/src/builders/terrain/TerraGenerator.hpp
+++ b/core/src/builders/terrain/TerraGenerator.hpp
@@ -49,8 +49,8 @@ class TerraGenerator {
 
  private:
 
-  /// Checks whether given point is on tile border.
-  inline bool isOnBorder(const utymap::math::Vector2 &p) const { return rect_.isOnBorder(p); }
+  /// Checks whether segment between given points is part of tile border.
+  bool isOnBorder(const utymap::math::Vector2 &p1, const utymap::math::Vector2 &p2) const;
 
   /// Builds height contour shape.
   void buildHeightOffset(const std::vector<utymap::math::Vector2> &points, const RegionContext &regionContext);
-- 
2.43.0


From 1933e2f076094c6f34d64de90b069a032c70a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 76/76] fix: walls of terrain region which is added to its own
 mesh have no texture mapping

---
 core/src/builders/terrain/TerraGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/builders/terrain/TerraGenerator.cpp b/core/src/builders/terrain/TerraGenerator.cpp
index 9294954..dc7ee5b 100644
--- a/core/src/builders/terrain/TerraGenerator.cpp
+++ b/core/src/builders/terrain/TerraGenerator.cpp
@@ -65,6 +65,10 @@ void TerraGenerator::addGeometry(int level,
       buildHeightOffset(points, regionContext);
   }
 
+  // NOTE region itself might be added to different mesh.
+  if (hasHeightOffset && !polygon.points.empty())
+    context_.meshBuilder.writeTextureMappingInfo(mesh_, regionContext.appearanceOptions);
+
   if (!polygon.points.empty())
     addGeometry(level, polygon, regionContext);
 }
-- 
2.43.0

