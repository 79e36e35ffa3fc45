From 05992fe4aaea6e4aa816e18c473600d210830ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 01/67] fix: Don't strip significant zeroes when printing with
 zero decimals

---
 src/geoarrow/double_print.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..9698e81 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -2,6 +2,7 @@
 #include "geoarrow/geoarrow_type.h"
 
 #include <stdio.h>
+#include <string.h>
 
 #if defined(GEOARROW_USE_RYU) && GEOARROW_USE_RYU
 
@@ -32,6 +33,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // Without a decimal there are no trailing zeroes to strip (e.g., "100", "0")
+  if (memchr(result, '.', n_chars) == NULL) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From f3c1443c2eed962813d1275e6e1b5cf0598e4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 02/67] fix: Reject numbers followed by unparsed characters

---
 src/geoarrow/double_parse_fast_float.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..7bd5453 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,7 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From 27e93beccc97e24cf23bf3708c7188706604e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 03/67] fix: Accept whitespace and EMPTY points in flat
 MULTIPOINT text

---
 src/geoarrow/wkt_reader.c | 62 ++++++++++++---------------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..28bd222 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -197,52 +197,40 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v,
-                                     enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
-  // Read the first coordinate (there must always be one)
-  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-  ResetCoordCache(s);
-  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-  NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-  NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
+                                             struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
+  if (PeekChar(s) == '(') {
+    GeoArrowWKTAdvanceUnsafe(s, 1);
 
-  // Read the rest of the coordinates
-  while (PeekChar(s) != ')') {
     GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
     ResetCoordCache(s);
     NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
     NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
     GeoArrowWKTSkipWhitespace(s);
+    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ')', v->error));
+    return GEOARROW_OK;
   }
 
-  GeoArrowWKTAdvanceUnsafe(s, 1);
-  return GEOARROW_OK;
+  return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
-                                             struct GeoArrowVisitor* v) {
-  GeoArrowWKTSkipWhitespace(s);
-  if (PeekChar(s) == '(') {
-    GeoArrowWKTAdvanceUnsafe(s, 1);
+// Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse and either can
+// contain EMPTY points.
+static inline int ReadMultipointMember(struct WKTReaderPrivate* s,
+                                       struct GeoArrowVisitor* v,
+                                       enum GeoArrowDimensions dimensions) {
+  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
 
-    GeoArrowWKTSkipWhitespace(s);
+  if (PeekChar(s) == '(' || PeekChar(s) == 'E') {
+    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+  } else {
     ResetCoordCache(s);
     NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
     NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ')', v->error));
-    return GEOARROW_OK;
   }
 
-  return GeoArrowWKTAssertWordEmpty(s, v->error);
+  return v->geom_end(v);
 }
 
 static inline int ReadPolygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v) {
@@ -282,18 +270,8 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
-    // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
-    // if it doesn't look like the verbose version, try the flat version
-    if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
-      return ReadMultipointFlat(s, v, dimensions);
-    }
-
     // Read the first geometry (there must always be one)
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+    NANOARROW_RETURN_NOT_OK(ReadMultipointMember(s, v, dimensions));
     GeoArrowWKTSkipWhitespace(s);
 
     // Read the rest of the geometries
@@ -301,9 +279,7 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
-      NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-      NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-      NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+      NANOARROW_RETURN_NOT_OK(ReadMultipointMember(s, v, dimensions));
       GeoArrowWKTSkipWhitespace(s);
     }
 
-- 
2.43.0


From 26d64b3571c537e75bd458169173cbdd70784e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 04/67] fix: Track remaining bytes when reading WKB coordinates

---
 src/geoarrow/wkb_reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..543279e 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,8 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed =
+      (int64_t)n_coords * (int64_t)coord_size_elements * (int64_t)sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
@@ -71,6 +72,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From d01f4195920711ec9e03b5cc84caf12a1e156eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 05/67] fix: Reject WKB with an invalid endian byte

---
 src/geoarrow/wkb_reader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 543279e..aaa75b2 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -21,6 +21,12 @@ struct WKBReaderPrivate {
 static inline int WKBReaderReadEndian(struct WKBReaderPrivate* s,
                                       struct GeoArrowError* error) {
   if (s->size_bytes > 0) {
+    if (s->data[0] > 0x01) {
+      GeoArrowErrorSet(error, "Expected valid endian byte but found 0x%02x at byte %ld",
+                       (unsigned int)s->data[0], (long)(s->data - s->data0));
+      return EINVAL;
+    }
+
     s->need_swapping = s->data[0] != GEOARROW_NATIVE_ENDIAN;
     s->data++;
     s->size_bytes--;
-- 
2.43.0


From 3bb4aadc6bb1667cd2e56ccf53743dbf9b9ddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 06/67] fix: Limit recursion in the C++ WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..8dab1e1 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,7 +277,9 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief Geometries were nested more deeply than is supported
+    TOO_MANY_LEVELS
   };
 
   WKBParser() = default;
@@ -323,6 +325,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case TOO_MANY_LEVELS:
+        return "TOO_MANY_LEVELS";
       default:
         return "UNKNOWN";
     }
@@ -343,7 +347,10 @@ class WKBParser {
   static constexpr uint32_t kEWKBSrid = 0x20000000;
   static constexpr uint32_t kEWKBMask = 0x00FFFFFF;
 
-  Status ParseGeometry(WKBGeometry* out) {
+  // Matches the level at which the WKBReader stops recursing
+  static constexpr int kMaxLevel = 255;
+
+  Status ParseGeometry(WKBGeometry* out, int level = 0) {
     out->Reset();
 
     Status status = CheckRemaining(sizeof(uint8_t) + sizeof(uint32_t));
@@ -411,7 +418,10 @@ class WKBParser {
       case GEOARROW_GEOMETRY_TYPE_MULTIPOLYGON:
       case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
         out->geometry_type = static_cast<enum GeoArrowGeometryType>(geometry_type);
-        return ParseCollection(out);
+        if (level >= kMaxLevel) {
+          return TOO_MANY_LEVELS;
+        }
+        return ParseCollection(out, level);
       default:
         return INVALID_GEOMETRY_TYPE;
     }
@@ -464,7 +474,7 @@ class WKBParser {
     return OK;
   }
 
-  Status ParseCollection(WKBGeometry* out) {
+  Status ParseCollection(WKBGeometry* out, int level) {
     Status status = CheckRemaining(sizeof(uint32_t));
     if (status != OK) {
       return status;
@@ -472,7 +482,7 @@ class WKBParser {
 
     uint32_t size = ReadUInt32Unchecked();
     for (uint32_t i = 0; i < size; ++i) {
-      status = ParseGeometry(out->AppendGeometry());
+      status = ParseGeometry(out->AppendGeometry(), level + 1);
       if (status != OK) {
         return status;
       }
-- 
2.43.0


From 2048fb571a9d3570824b2e16baffb6584f989ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 07/67] fix: Reject unknown ISO type codes in the C++ WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 8dab1e1..0dafd5e 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -379,6 +379,8 @@ class WKBParser {
     geometry_type &= kEWKBMask;
 
     switch (geometry_type / 1000) {
+      case 0:
+        break;
       case 1:
         has_z = true;
         break;
@@ -389,6 +391,8 @@ class WKBParser {
         has_z = true;
         has_m = true;
         break;
+      default:
+        return INVALID_GEOMETRY_TYPE;
     }
 
     last_coord_stride_ = 2 + has_z + has_m;
-- 
2.43.0


From 89676475074c55f9c33f0da33c8adead8cd29021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 08/67] fix: Initialize WKBGeometry and don't truncate WKB
 sizes in the C++ parser

---
 src/geoarrow/hpp/wkb_util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 0dafd5e..4d4834f 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -256,9 +256,9 @@ class WKBGeometry {
   // Vectors managed privately to ensure that all the stack-allocated memory associated
   // with the geometries is not freed when the vector is resized to zero.
   std::vector<WKBSequence> sequences_;
-  uint32_t num_sequences_;
+  uint32_t num_sequences_{0};
   std::vector<WKBGeometry> geometries_;
-  uint32_t num_geometries_;
+  uint32_t num_geometries_{0};
 };
 
 /// \brief Parse Well-known binary blobs
@@ -288,7 +288,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From c4c6b03ad0eb3a0b94fed928db80a1fb180e1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 09/67] fix: check for trailing WKT content before ending the
 feature

---
 src/geoarrow/wkt_reader.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 28bd222..73424cb 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -499,12 +499,14 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-  NANOARROW_RETURN_NOT_OK(v->feat_end(v));
+
+  // Check for trailing content before ending the feature such that a visitor never sees
+  // a complete feature that is subsequently rejected
   GeoArrowWKTSkipWhitespace(s);
-  if (PeekChar(s) != '\0') {
+  if (s->size_bytes > 0) {
     SetParseErrorAuto("end of input", s, v->error);
     return EINVAL;
   }
 
-  return GEOARROW_OK;
+  return v->feat_end(v);
 }
-- 
2.43.0


From 2d6cebcd729fc74d746ac60bc39244ec2a38847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 10/67] fix: limit the nesting depth accepted by the WKT reader

---
 src/geoarrow/wkt_reader.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 73424cb..8971ddf 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -8,10 +8,14 @@
 
 #define COORD_CACHE_SIZE_COORDS 64
 
+// Geometry collections can be nested at most this deep (as for WKB)
+#define WKT_READER_MAX_LEVEL 255
+
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  int32_t level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -388,6 +392,12 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
 
 static inline int ReadTaggedGeometry(struct WKTReaderPrivate* s,
                                      struct GeoArrowVisitor* v) {
+  if (s->level > WKT_READER_MAX_LEVEL) {
+    GeoArrowErrorSet(v->error, "WKT nested too deeply at byte %ld",
+                     (long)(s->data - s->data0));
+    return EINVAL;
+  }
+
   GeoArrowWKTSkipWhitespace(s);
 
   struct ArrowStringView word = GeoArrowWKTPeekUntilSep(s, 19);
@@ -453,7 +463,9 @@ static inline int ReadTaggedGeometry(struct WKTReaderPrivate* s,
       NANOARROW_RETURN_NOT_OK(ReadMultipolygon(s, v, dimensions));
       break;
     case GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION:
+      s->level++;
       NANOARROW_RETURN_NOT_OK(ReadGeometryCollection(s, v));
+      s->level--;
       break;
     default:
       GeoArrowErrorSet(v->error, "Internal error: unrecognized geometry type id");
@@ -474,6 +486,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
   s->data0 = NULL;
   s->data = NULL;
   s->size_bytes = 0;
+  s->level = 0;
 
   s->coord_view.coords_stride = 1;
   s->coord_view.values[0] = s->coords;
@@ -496,6 +509,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From 13d02dab2827b6b44ad39f8765dc62e991874d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 11/67] fix: clear the swap endian flag of deep copied geometry
 nodes

---
 src/geoarrow/geometry.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..666aa13 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -140,6 +140,9 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
           node->coord_stride[i] = n_values * sizeof(double);
         }
 
+        // The values that were just written are always native endian
+        node->flags &= ~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN;
+
         coords_buf += bytes_written;
         coords_buf_size -= bytes_written;
         break;
-- 
2.43.0


From cff236519b58ca726df04c31e77d0b874f7c5ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 12/67] fix: don't visit nodes beyond the end of a geometry

---
 src/geoarrow/geometry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 666aa13..803aa94 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -455,6 +455,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
@@ -466,6 +467,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
       break;
     case GEOARROW_GEOMETRY_TYPE_POLYGON:
       if (*n_nodes < ((int64_t)node->size)) {
+        GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
         return EINVAL;
       }
 
-- 
2.43.0


From b4a94dceb65fd463de38436ec29b1cf0ad0e2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:43 +0000
Subject: [PATCH 13/67] fix: visit a null GeoArrowGeometry as a null feature

---
 src/geoarrow/geometry.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 803aa94..e44ccd8 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -501,11 +501,23 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
   return GEOARROW_OK;
 }
 
+static GeoArrowErrorCode GeoArrowGeometryVisitRoot(
+    const struct GeoArrowGeometryNode* root, int64_t* n_nodes,
+    struct GeoArrowVisitor* v) {
+  // An uninitialized root node is used to represent a null
+  if (*n_nodes == 1 && root->geometry_type == GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
+    (*n_nodes)--;
+    return v->null_feat(v);
+  }
+
+  return GeoArrowGeometryVisitNode(root, n_nodes, v);
+}
+
 GeoArrowErrorCode GeoArrowGeometryViewVisit(struct GeoArrowGeometryView geometry,
                                             struct GeoArrowVisitor* v) {
   int64_t n_nodes = geometry.size_nodes;
   GEOARROW_RETURN_NOT_OK(v->feat_start(v));
-  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(geometry.root, &n_nodes, v));
+  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitRoot(geometry.root, &n_nodes, v));
   if (n_nodes != 0) {
     GeoArrowErrorSet(
         v->error, "Too many nodes provided to GeoArrowGeometryVisit() for root geometry");
@@ -520,7 +532,7 @@ GeoArrowErrorCode GeoArrowGeometryVisit(const struct GeoArrowGeometry* geometry,
                                         struct GeoArrowVisitor* v) {
   int64_t n_nodes = geometry->size_nodes;
   GEOARROW_RETURN_NOT_OK(v->feat_start(v));
-  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitNode(geometry->root, &n_nodes, v));
+  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryVisitRoot(geometry->root, &n_nodes, v));
   if (n_nodes != 0) {
     GeoArrowErrorSet(
         v->error, "Too many nodes provided to GeoArrowGeometryVisit() for root geometry");
-- 
2.43.0


From 189fd2571c7b19f23ceb891537523637fd94e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 14/67] fix: set the sizes of geometries that contain only
 empty sequences

---
 src/geoarrow/geometry.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index e44ccd8..5d14264 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -355,11 +355,6 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From 5f811a0ffc7788cca334696608048a4ef52f69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 15/67] fix: don't byte swap the NaN used to fill missing
 dimensions

---
 src/geoarrow/geoarrow_type_inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..527c3bf 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -543,7 +543,8 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          // The value used to fill missing dimensions is always native endian
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From 9501dfb21db0d83416c8af150f6d4cedbdd966c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 16/67] fix: keep the content of a buffer whose reallocation
 fails

---
 src/vendor/nanoarrow/nanoarrow.c | 11 ++++++-----
 src/vendor/nanoarrow/nanoarrow.h | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index da621c9..23ea4ed 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -247,6 +247,9 @@ struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) {
 static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* allocator,
                                                  uint8_t* ptr, int64_t old_size,
                                                  int64_t new_size) {
+  NANOARROW_UNUSED(allocator);
+  NANOARROW_UNUSED(ptr);
+  NANOARROW_UNUSED(old_size);
   NANOARROW_UNUSED(new_size);
 
   // Attempting to reallocate a buffer with a custom deallocator is
@@ -257,11 +260,9 @@ static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* al
                           "ArrowBufferDeallocator()");
 #endif
 
-  // In release mode, ensure the the deallocator is called exactly
-  // once using the pointer it was given and return NULL, which
-  // will trigger the caller to return ENOMEM.
-  allocator->free(allocator, ptr, old_size);
-  *allocator = ArrowBufferAllocatorDefault();
+  // In release mode, return NULL, which will trigger the caller to return ENOMEM.
+  // The buffer keeps owning its content, such that the deallocator is called exactly
+  // once when the buffer is reset.
   return NULL;
 }
 
diff --git a/src/vendor/nanoarrow/nanoarrow.h b/src/vendor/nanoarrow/nanoarrow.h
index 61cf62f..62081d1 100644
--- a/src/vendor/nanoarrow/nanoarrow.h
+++ b/src/vendor/nanoarrow/nanoarrow.h
@@ -2535,15 +2535,15 @@ static inline ArrowErrorCode ArrowBufferResize(struct ArrowBuffer* buffer,
                            (shrink_to_fit && new_size_bytes < buffer->capacity_bytes);
 
   if (needs_reallocation) {
-    buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                                buffer->capacity_bytes, new_size_bytes);
+    uint8_t* new_data = buffer->allocator.reallocate(
+        &buffer->allocator, buffer->data, buffer->capacity_bytes, new_size_bytes);
 
-    if (buffer->data == NULL && new_size_bytes > 0) {
-      buffer->capacity_bytes = 0;
-      buffer->size_bytes = 0;
+    // If the reallocation failed, the buffer still owns its previous content
+    if (new_data == NULL && new_size_bytes > 0) {
       return ENOMEM;
     }
 
+    buffer->data = new_data;
     buffer->capacity_bytes = new_size_bytes;
   }
 
@@ -2560,15 +2560,15 @@ static inline ArrowErrorCode ArrowBufferReserve(struct ArrowBuffer* buffer,
 
   int64_t new_capacity_bytes =
       _ArrowGrowByFactor(buffer->capacity_bytes, min_capacity_bytes);
-  buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                              buffer->capacity_bytes, new_capacity_bytes);
+  uint8_t* new_data = buffer->allocator.reallocate(
+      &buffer->allocator, buffer->data, buffer->capacity_bytes, new_capacity_bytes);
 
-  if (buffer->data == NULL && new_capacity_bytes > 0) {
-    buffer->capacity_bytes = 0;
-    buffer->size_bytes = 0;
+  // If the reallocation failed, the buffer still owns its previous content
+  if (new_data == NULL && new_capacity_bytes > 0) {
     return ENOMEM;
   }
 
+  buffer->data = new_data;
   buffer->capacity_bytes = new_capacity_bytes;
   return NANOARROW_OK;
 }
-- 
2.43.0


From b2ab5605ba70e457390c93080d9804d93877af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 17/67] fix: discard incomplete features and check nesting in
 the WKB writer

---
 src/geoarrow/wkb_writer.c | 189 +++++++++++++++++++++++++-------------
 1 file changed, 123 insertions(+), 66 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..c5751ed 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -18,7 +18,9 @@ struct WKBWriterPrivate {
   int32_t level;
   int64_t length;
   int64_t null_count;
+  int64_t values_feat_start;
   int feat_is_null;
+  int feat_is_open;
 };
 
 static uint8_t kWKBWriterEmptyPointCoords2[] = {0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
@@ -32,25 +34,73 @@ static uint8_t kWKBWriterEmptyPointCoords4[] = {
     0x00, 0x00, 0x00, 0xf8, 0x7f, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xf8, 0x7f, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xf8, 0x7f};
 
+// Check that a geometry or ring can be started
 static inline int WKBWriterCheckLevel(struct WKBWriterPrivate* private) {
-  if (private->level >= 0 && private->level <= 30) {
+  if (private->feat_is_open && private->level >= 0 && private->level <= 30) {
     return GEOARROW_OK;
   } else {
     return EINVAL;
   }
 }
 
+// Check that there is a geometry or ring to which content can be added
+static inline int WKBWriterCheckNested(struct WKBWriterPrivate* private) {
+  if (private->feat_is_open && private->level >= 1 && private->level <= 31) {
+    return GEOARROW_OK;
+  } else {
+    return EINVAL;
+  }
+}
+
+// Drop a feature that was started but never ended (e.g., because reading it failed)
+static inline void WKBWriterDiscardOpenFeature(struct WKBWriterPrivate* private) {
+  if (private->feat_is_open) {
+    private->offsets.size_bytes -= sizeof(int32_t);
+    private->values.size_bytes = private->values_feat_start;
+    private->length--;
+    private->feat_is_open = 0;
+  }
+}
+
+static GeoArrowErrorCode WKBWriterStartFeature(struct WKBWriterPrivate* private) {
+  WKBWriterDiscardOpenFeature(private);
+
+  if (private->values.size_bytes > 2147483647) {
+    return EOVERFLOW;
+  }
+
+  NANOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+  private->values_feat_start = private->values.size_bytes;
+  private->length++;
+  private->feat_is_open = 1;
+  return GEOARROW_OK;
+}
+
+static GeoArrowErrorCode WKBWriterEndFeature(struct WKBWriterPrivate* private,
+                                             int is_valid) {
+  if (!is_valid) {
+    if (private->validity.buffer.data == NULL) {
+      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
+      ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
+    }
+
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 0, 1));
+    private->null_count++;
+  } else if (private->validity.buffer.data != NULL) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, 1));
+  }
+
+  private->feat_is_open = 0;
+  return GEOARROW_OK;
+}
+
 static int feat_start_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   private->level = 0;
   private->size[private->level] = 0;
-  private->length++;
   private->feat_is_null = 0;
-
-  if (private->values.size_bytes > 2147483647) {
-    return EOVERFLOW;
-  }
-  return ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes);
+  return WKBWriterStartFeature(private);
 }
 
 static int null_feat_wkb(struct GeoArrowVisitor* v) {
@@ -64,6 +114,17 @@ static int geom_start_wkb(struct GeoArrowVisitor* v,
                           enum GeoArrowDimensions dimensions) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
+  if (geometry_type < GEOARROW_GEOMETRY_TYPE_POINT ||
+      geometry_type > GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
+    GeoArrowErrorSet(v->error, "WKBWriter::geom_start(): Unexpected `geometry_type`");
+    return EINVAL;
+  }
+
+  if (dimensions < GEOARROW_DIMENSIONS_XY || dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "WKBWriter::geom_start(): Unexpected `dimensions`");
+    return EINVAL;
+  }
+
   private->size[private->level]++;
   private->level++;
   private->geometry_type[private->level] = geometry_type;
@@ -95,13 +156,16 @@ static int ring_start_wkb(struct GeoArrowVisitor* v) {
 
 static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* coords) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
+  if (coords->n_coords == 0) {
+    return GEOARROW_OK;
+  }
 
-  NANOARROW_DCHECK(coords->n_coords <= UINT32_MAX);
-  private->size[private->level] += (uint32_t)coords->n_coords;
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckNested(private));
 
+  NANOARROW_DCHECK(coords->n_coords <= UINT32_MAX);
   NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(
       &private->values, coords->n_values * coords->n_coords * sizeof(double)));
+  private->size[private->level] += (uint32_t)coords->n_coords;
   for (int64_t i = 0; i < coords->n_coords; i++) {
     for (int32_t j = 0; j < coords->n_values; j++) {
       ArrowBufferAppendUnsafe(&private->values,
@@ -115,10 +179,11 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckNested(private));
+  if (private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
+
   memcpy(private->values.data + private->size_pos[private->level],
          private->size + private->level, sizeof(uint32_t));
   private->level--;
@@ -127,8 +192,8 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckNested(private));
+  if (private->geometry_type[private->level] == GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
 
@@ -164,20 +229,11 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-
-  if (private->feat_is_null) {
-    if (private->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
-      ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
-    }
-
-    private->null_count++;
-    return ArrowBitmapAppend(&private->validity, 0, 1);
-  } else if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
+  if (!private->feat_is_open) {
+    return EINVAL;
   }
 
-  return GEOARROW_OK;
+  return WKBWriterEndFeature(private, !private->feat_is_null);
 }
 
 GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
@@ -187,6 +243,7 @@ GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKBWriterPrivate));
   private->storage_type = NANOARROW_TYPE_BINARY;
   private->length = 0;
   private->level = 0;
@@ -218,23 +275,36 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
                                           struct ArrowArray* array,
                                           struct GeoArrowError* error) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)writer->private_data;
-  array->release = NULL;
+  WKBWriterDiscardOpenFeature(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
 
-  NANOARROW_RETURN_NOT_OK(
-      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
-  ArrowArraySetValidityBitmap(array, &private->validity);
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
-  array->length = private->length;
-  array->null_count = private->null_count;
+  // Everything that can fail happens before the content of the writer is moved
+  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(&private->offsets, sizeof(int32_t)));
+  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(&private->values, 1));
+  struct ArrowArray tmp;
+  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, private->storage_type));
+
+  int32_t last_offset = (int32_t) private->values.size_bytes;
+  ArrowBufferAppendUnsafe(&private->offsets, &last_offset, sizeof(int32_t));
+  ArrowArraySetValidityBitmap(&tmp, &private->validity);
+  ArrowArraySetBuffer(&tmp, 1, &private->offsets);
+  ArrowArraySetBuffer(&tmp, 2, &private->values);
+  tmp.length = private->length;
+  tmp.null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(&tmp, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    tmp.release(&tmp);
+    return result;
+  }
+
+  ArrowArrayMove(&tmp, array);
+  return GEOARROW_OK;
 }
 
 void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
@@ -246,34 +316,15 @@ void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
   writer->private_data = NULL;
 }
 
-static GeoArrowErrorCode GeoArrowWKBWriterAppendValidity(struct GeoArrowWKBWriter* writer,
-                                                         int is_valid) {
+GeoArrowErrorCode GeoArrowWKBWriterAppendNull(struct GeoArrowWKBWriter* writer) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-
-  private_data->length++;
-
-  if (!is_valid) {
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, private_data->length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, private_data->length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
+  GEOARROW_RETURN_NOT_OK(WKBWriterStartFeature(private_data));
+  GeoArrowErrorCode result = WKBWriterEndFeature(private_data, 0);
+  if (result != GEOARROW_OK) {
+    WKBWriterDiscardOpenFeature(private_data);
   }
 
-  return GEOARROW_OK;
-}
-
-GeoArrowErrorCode GeoArrowWKBWriterAppendNull(struct GeoArrowWKBWriter* writer) {
-  struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 0));
-  return GEOARROW_OK;
+  return result;
 }
 
 static GeoArrowErrorCode GeoArrowWKBWriterAppendSequence(
@@ -354,9 +405,15 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendBuffer(struct ArrowBuffer* value
 GeoArrowErrorCode GeoArrowWKBWriterAppend(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowGeometryView geom) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendBuffer(&private_data->values, geom));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 1));
-  return GEOARROW_OK;
+  GEOARROW_RETURN_NOT_OK(WKBWriterStartFeature(private_data));
+  GeoArrowErrorCode result = GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
+  if (result == GEOARROW_OK) {
+    result = WKBWriterEndFeature(private_data, 1);
+  }
+
+  if (result != GEOARROW_OK) {
+    WKBWriterDiscardOpenFeature(private_data);
+  }
+
+  return result;
 }
-- 
2.43.0


From 400b82b561e9c0c8b0bcaa7970b7eea2bbebb10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 18/67] fix: discard incomplete features and check nesting in
 the WKT writer

---
 src/geoarrow/wkt_writer.c | 85 ++++++++++++++++++++++++++++++---------
 1 file changed, 66 insertions(+), 19 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..3d051d2 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -21,16 +21,37 @@ struct WKTWriterPrivate {
   int use_flat_multipoint;
   int64_t max_element_size_bytes;
   int feat_is_null;
+  int feat_is_open;
 };
 
+// Check that there is a geometry or ring to which content can be added
 static inline int WKTWriterCheckLevel(struct WKTWriterPrivate* private) {
-  if (private->level >= 0 && private->level <= 31) {
+  if (private->feat_is_open && private->level >= 0 && private->level <= 31) {
     return GEOARROW_OK;
   } else {
     return EINVAL;
   }
 }
 
+// Check that a geometry or ring can be started
+static inline int WKTWriterCheckCanStart(struct WKTWriterPrivate* private) {
+  if (private->feat_is_open && private->level >= -1 && private->level <= 30) {
+    return GEOARROW_OK;
+  } else {
+    return EINVAL;
+  }
+}
+
+// Drop a feature that was started but never ended (e.g., because reading it failed)
+static inline void WKTWriterDiscardOpenFeature(struct WKTWriterPrivate* private) {
+  if (private->feat_is_open) {
+    private->offsets.size_bytes -= sizeof(int32_t);
+    private->values.size_bytes = private->values_feat_start;
+    private->length--;
+    private->feat_is_open = 0;
+  }
+}
+
 static inline int WKTWriterWrite(struct WKTWriterPrivate* private, const char* value) {
   return ArrowBufferAppend(&private->values, value, strlen(value));
 }
@@ -47,15 +68,20 @@ static inline void WKTWriterWriteDoubleUnsafe(struct WKTWriterPrivate* private,
 
 static int feat_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
+  WKTWriterDiscardOpenFeature(private);
   private->level = -1;
-  private->length++;
   private->feat_is_null = 0;
   private->values_feat_start = private->values.size_bytes;
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
-  return ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes);
+
+  NANOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+  private->length++;
+  private->feat_is_open = 1;
+  return GEOARROW_OK;
 }
 
 static int null_feat_wkt(struct GeoArrowVisitor* v) {
@@ -68,8 +94,10 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
                           enum GeoArrowGeometryType geometry_type,
                           enum GeoArrowDimensions dimensions) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckCanStart(private));
   private->level++;
-  NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  private->geometry_type[private->level] = geometry_type;
+  private->i[private->level] = 0;
 
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
@@ -112,15 +140,13 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
     private->i[private->level - 1]++;
   }
 
-  private->geometry_type[private->level] = geometry_type;
-  private->i[private->level] = 0;
   return GEOARROW_OK;
 }
 
 static int ring_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckCanStart(private));
   private->level++;
-  NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
 
   if (private->level > 0 && private->i[private->level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
@@ -248,18 +274,24 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
 
+  if (!private->feat_is_open) {
+    return EINVAL;
+  }
+
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
       ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
     }
 
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 0, 1));
     private->null_count++;
-    return ArrowBitmapAppend(&private->validity, 0, 1);
   } else if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, 1));
   }
 
+  private->feat_is_open = 0;
+
   if (private->max_element_size_bytes >= 0 &&
       (private->values.size_bytes - private->values_feat_start) >
           private->max_element_size_bytes) {
@@ -277,6 +309,7 @@ GeoArrowErrorCode GeoArrowWKTWriterInit(struct GeoArrowWKTWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKTWriterPrivate));
   private->storage_type = NANOARROW_TYPE_STRING;
   private->length = 0;
   private->level = 0;
@@ -326,22 +359,36 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
                                           struct ArrowArray* array,
                                           struct GeoArrowError* error) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)writer->private_data;
-  array->release = NULL;
+  WKTWriterDiscardOpenFeature(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
-  NANOARROW_RETURN_NOT_OK(
-      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
-  ArrowArraySetValidityBitmap(array, &private->validity);
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
-  NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
-  array->length = private->length;
-  array->null_count = private->null_count;
+
+  // Everything that can fail happens before the content of the writer is moved
+  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(&private->offsets, sizeof(int32_t)));
+  NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(&private->values, 1));
+  struct ArrowArray tmp;
+  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, private->storage_type));
+
+  int32_t last_offset = (int32_t) private->values.size_bytes;
+  ArrowBufferAppendUnsafe(&private->offsets, &last_offset, sizeof(int32_t));
+  ArrowArraySetValidityBitmap(&tmp, &private->validity);
+  ArrowArraySetBuffer(&tmp, 1, &private->offsets);
+  ArrowArraySetBuffer(&tmp, 2, &private->values);
+  tmp.length = private->length;
+  tmp.null_count = private->null_count;
   private->length = 0;
   private->null_count = 0;
-  return ArrowArrayFinishBuildingDefault(array, (struct ArrowError*)error);
+
+  int result = ArrowArrayFinishBuildingDefault(&tmp, (struct ArrowError*)error);
+  if (result != GEOARROW_OK) {
+    tmp.release(&tmp);
+    return result;
+  }
+
+  ArrowArrayMove(&tmp, array);
+  return GEOARROW_OK;
 }
 
 void GeoArrowWKTWriterReset(struct GeoArrowWKTWriter* writer) {
-- 
2.43.0


From 08270b7d73650c682676c7d7315259e8596c7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 19/67] fix: roll back incomplete features in the native writer

---
 src/geoarrow/native_writer.c | 225 ++++++++++++++++++++---------------
 1 file changed, 129 insertions(+), 96 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..4e4e274 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -17,11 +17,15 @@ struct GeoArrowNativeWriterPrivate {
   struct ArrowBitmap validity;
   int64_t null_count;
   int64_t current_length;
-  int32_t last_offset[4];
+
+  // The size of the builder at the end of the last complete feature
+  int64_t complete_coords;
+  int64_t complete_offset_bytes[4];
 
   // Fields to keep track of state
   int output_initialized;
   int feat_is_null;
+  int feat_is_open;
   int nesting_multipoint;
   double empty_coord_values[4];
   struct GeoArrowCoordView empty_coord;
@@ -79,6 +83,36 @@ void GeoArrowNativeWriterReset(struct GeoArrowNativeWriter* writer) {
   GeoArrowBuilderReset(&private_data->builder);
   ArrowBitmapReset(&private_data->validity);
   ArrowFree(private_data);
+  writer->private_data = NULL;
+}
+
+// Record that everything that was written to the builder belongs to complete features
+static void GeoArrowNativeWriterCommit(struct GeoArrowNativeWriterPrivate* private_data) {
+  for (int i = 0; i < private_data->builder.view.n_offsets; i++) {
+    private_data->complete_offset_bytes[i] =
+        private_data->builder.view.buffers[i + 1].size_bytes;
+  }
+
+  private_data->complete_coords = private_data->builder.view.coords.size_coords;
+  private_data->feat_is_open = 0;
+}
+
+// Drop everything that was written to the builder since the last complete feature
+// (e.g., because a feature was started but never ended because reading it failed)
+static void GeoArrowNativeWriterRollback(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+  for (int i = 0; i < view->n_offsets; i++) {
+    view->buffers[i + 1].size_bytes = private_data->complete_offset_bytes[i];
+  }
+
+  // The size of the coordinate buffers is calculated from the coordinate view
+  for (int64_t i = view->n_offsets + 1; i < view->n_buffers; i++) {
+    view->buffers[i].size_bytes = 0;
+  }
+
+  view->coords.size_coords = private_data->complete_coords;
+  private_data->feat_is_open = 0;
 }
 
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
@@ -94,31 +128,44 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
 
   int32_t zero = 0;
   for (int i = 0; i < private_data->builder.view.n_offsets; i++) {
+    builder->view.buffers[i + 1].size_bytes = 0;
     NANOARROW_RETURN_NOT_OK(GeoArrowBuilderOffsetAppend(builder, i, &zero, 1));
   }
 
   private_data->null_count = 0;
   private_data->current_length = 0;
   NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
-  memset(private_data->last_offset, 0, sizeof(private_data->last_offset));
 
   private_data->builder.view.coords.size_coords = 0;
-  private_data->builder.view.coords.capacity_coords = 0;
-
+  GeoArrowNativeWriterCommit(private_data);
   private_data->output_initialized = 1;
   return GEOARROW_OK;
 }
 
+static GeoArrowErrorCode GeoArrowNativeWriterStartFeature(
+    struct GeoArrowNativeWriter* writer) {
+  struct GeoArrowNativeWriterPrivate* private_data =
+      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterEnsureOutputInitialized(writer));
+  GeoArrowNativeWriterRollback(private_data);
+  private_data->feat_is_open = 1;
+  return GEOARROW_OK;
+}
+
 GeoArrowErrorCode GeoArrowNativeWriterFinish(struct GeoArrowNativeWriter* writer,
                                              struct ArrowArray* array,
                                              struct GeoArrowError* error) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterEnsureOutputInitialized(writer));
+  GeoArrowNativeWriterRollback(private_data);
+
   // We could in theory wrap this buffer instead of copy it
   struct GeoArrowBufferView validity_view;
   validity_view.data = private_data->validity.buffer.data;
   validity_view.size_bytes = private_data->validity.buffer.size_bytes;
+  private_data->builder.view.buffers[0].size_bytes = 0;
   if (validity_view.size_bytes > 0) {
     GEOARROW_RETURN_NOT_OK(
         GeoArrowBuilderAppendBuffer(&private_data->builder, 0, validity_view));
@@ -128,15 +175,8 @@ GeoArrowErrorCode GeoArrowNativeWriterFinish(struct GeoArrowNativeWriter* writer
   GEOARROW_RETURN_NOT_OK(GeoArrowBuilderFinish(&private_data->builder, &tmp, error));
   tmp.null_count = private_data->null_count;
 
+  // The output is initialized again when the next feature is started
   private_data->output_initialized = 0;
-
-  GeoArrowErrorCode result = GeoArrowNativeWriterEnsureOutputInitialized(writer);
-  if (result != GEOARROW_OK) {
-    ArrowArrayRelease(&tmp);
-    GeoArrowErrorSet(error, "Failed to reinitialize writer");
-    return result;
-  }
-
   ArrowArrayMove(&tmp, array);
   return GEOARROW_OK;
 }
@@ -155,11 +195,18 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
     return EOVERFLOW;
   }
 
-  int32_t* p_last_offset = private_data->last_offset + offset;
-  (*p_last_offset) += size;
+  struct GeoArrowWritableBufferView* buffer =
+      private_data->builder.view.buffers + offset + 1;
+  int32_t last_offset =
+      buffer->data.as_int32[(buffer->size_bytes / sizeof(int32_t)) - 1];
+  if (size > (uint32_t)(INT32_MAX - last_offset)) {
+    GeoArrowErrorSet(error, "GeoArrow native array offset exceeds INT32_MAX");
+    return EOVERFLOW;
+  }
 
+  last_offset += (int32_t)size;
   GEOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, p_last_offset, 1));
+      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, &last_offset, 1));
 
   return GEOARROW_OK;
 }
@@ -198,7 +245,7 @@ static void GeoArrowNativeWriterAppendCoordsUnsafe(struct GeoArrowNativeWriter*
   struct GeoArrowWritableCoordView* out_coords = &private_data->builder.view.coords;
   uint8_t* out[4];
   int32_t strides[4];
-  for (int i = 0; i < 4; i++) {
+  for (int i = 0; i < out_coords->n_values; i++) {
     out[i] = (uint8_t*)(out_coords->values[i] +
                         out_coords->coords_stride * out_coords->size_coords);
     strides[i] = out_coords->coords_stride * sizeof(double);
@@ -251,31 +298,32 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendMultiPolygonOffsets(
   return GEOARROW_OK;
 }
 
+// Completes a feature by appending to the validity buffer (if there is one)
 static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
     struct GeoArrowNativeWriter* writer, int is_valid) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
-  private_data->current_length++;
-
   if (!is_valid) {
     if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, private_data->current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1,
-                              private_data->current_length - 1);
+      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private_data->validity,
+                                                 private_data->current_length + 1));
+      ArrowBitmapAppendUnsafe(&private_data->validity, 1, private_data->current_length);
     }
 
-    private_data->null_count++;
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
+    private_data->null_count++;
   } else if (private_data->validity.buffer.data != NULL) {
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
   }
 
+  private_data->current_length++;
+  GeoArrowNativeWriterCommit(private_data);
   return GEOARROW_OK;
 }
 
 GeoArrowErrorCode GeoArrowNativeWriterAppendNull(struct GeoArrowNativeWriter* writer) {
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, NULL));
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 0));
   return GEOARROW_OK;
@@ -287,6 +335,8 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
+
   uint32_t coord_count = GeoArrowGeometryViewNumCoords(geom);
 
   const struct GeoArrowGeometryNode* node = geom.root;
@@ -433,10 +483,28 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   return GEOARROW_OK;
 }
 
+static GeoArrowErrorCode GeoArrowNativeWriterAppendCoords(
+    struct GeoArrowNativeWriterPrivate* private_data,
+    const struct GeoArrowCoordView* coords) {
+  // The coordinates must have (at least) the ordinates announced by geom_start.
+  // A feature whose coordinates were not added must not be completed.
+  if (!private_data->feat_is_open ||
+      coords->n_values < _GeoArrowkNumDimensions[private_data->last_dimensions]) {
+    private_data->feat_is_open = 0;
+    return EINVAL;
+  }
+
+  int result = GeoArrowBuilderCoordsAppend(
+      &private_data->builder, coords, private_data->last_dimensions, 0, coords->n_coords);
+  private_data->feat_is_open = result == GEOARROW_OK;
+  return result;
+}
+
 static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->feat_is_null = 0;
@@ -469,8 +537,7 @@ static int coords_point(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[0] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterAppendCoords(private_data, coords);
 }
 
 static int ring_end_point(struct GeoArrowVisitor* v) {
@@ -496,33 +563,21 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    GeoArrowErrorSet(v->error, "feat_end without feat_start");
+    return EINVAL;
+  }
+
   // If there weren't any coords (i.e., EMPTY), we need to write some NANs here
   // if there was >1 coords, we also need to error or we'll get misaligned output
   if (private_data->size[0] == 0) {
-    int n_dim =
-        _GeoArrowkNumDimensions[private_data->builder.view.schema_view.dimensions];
-    private_data->empty_coord.n_values = n_dim;
-    NANOARROW_RETURN_NOT_OK(coords_point(v, &private_data->empty_coord));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, v->error));
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 coordinate to POINT");
     return EINVAL;
   }
 
-  if (private_data->feat_is_null) {
-    int64_t current_length = private_data->builder.view.coords.size_coords;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterAppendValidity(writer, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitPoint(struct GeoArrowVisitor* v) {
@@ -544,6 +599,7 @@ static int feat_start_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
@@ -593,8 +649,7 @@ static int coords_multipoint(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[1] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterAppendCoords(private_data, coords);
 }
 
 static int ring_end_multipoint(struct GeoArrowVisitor* v) {
@@ -652,6 +707,11 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    GeoArrowErrorSet(v->error, "feat_end without feat_start");
+    return EINVAL;
+  }
+
   // If we didn't finish any sequences, finish at least one. This is usually an
   // EMPTY but could also be a single point.
   if (private_data->size[0] == 0) {
@@ -666,22 +726,15 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->feat_is_null) {
-    int64_t current_length =
-        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
+  // Coordinates behind the end of the sequence would become part of the next feature
+  struct GeoArrowWritableBufferView* offsets = private_data->builder.view.buffers + 1;
+  if (offsets->data.as_int32[(offsets->size_bytes / sizeof(int32_t)) - 1] !=
+      private_data->builder.view.coords.size_coords) {
+    GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
+    return EINVAL;
   }
 
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterAppendValidity(writer, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitLinestring(struct GeoArrowVisitor* v) {
@@ -703,6 +756,7 @@ static int feat_start_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
@@ -744,8 +798,7 @@ static int coords_multilinestring(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[1] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterAppendCoords(private_data, coords);
 }
 
 static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
@@ -803,6 +856,11 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    GeoArrowErrorSet(v->error, "feat_end without feat_start");
+    return EINVAL;
+  }
+
   // If we have an unfinished sequence left over, finish it now. This could have
   // occurred if the last geometry that was visited was a POINT.
   if (private_data->size[1] > 0) {
@@ -821,22 +879,7 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq32, 1));
 
-  if (private_data->feat_is_null) {
-    int64_t current_length =
-        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterAppendValidity(writer, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitMultiLinestring(struct GeoArrowVisitor* v) {
@@ -858,6 +901,7 @@ static int feat_start_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
@@ -902,8 +946,7 @@ static int coords_multipolygon(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->size[2] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GeoArrowNativeWriterAppendCoords(private_data, coords);
 }
 
 static int ring_end_multipolygon(struct GeoArrowVisitor* v) {
@@ -972,6 +1015,11 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  if (!private_data->feat_is_open) {
+    GeoArrowErrorSet(v->error, "feat_end without feat_start");
+    return EINVAL;
+  }
+
   // If we have an unfinished sequence left over, finish it now. This could have
   // occurred if the last geometry that was visited was a POINT.
   if (private_data->size[2] > 0) {
@@ -1000,22 +1048,7 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq_seq32, 1));
 
-  if (private_data->feat_is_null) {
-    int64_t current_length =
-        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterAppendValidity(writer, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitMultiPolygon(struct GeoArrowVisitor* v) {
-- 
2.43.0


From 75a4f7217f3addfca6dc3cb827529cb589c018d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 20/67] fix: keep the content of a builder whose finish fails

---
 src/geoarrow/builder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..ee92aa7 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -278,7 +278,8 @@ GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* builder,
   // Prepare for another round of building
   int result = GeoArrowBuilderInitArrayAndCachePointers(builder);
   if (result != GEOARROW_OK) {
-    tmp.release(&tmp);
+    // Keep the content (to which the cached pointers still point)
+    ArrowArrayMove(&tmp, &private->array);
     return result;
   }
 
-- 
2.43.0


From adaae16ac6c66b8d41bf62b8a7d0dd75a2e1516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 21/67] fix: validate callbacks in the geometry visitor

---
 src/geoarrow/geoarrow_type_inline.h |   2 +-
 src/geoarrow/geometry.c             | 115 ++++++++++++++++++++--------
 2 files changed, 86 insertions(+), 31 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 527c3bf..0935f72 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -466,7 +466,7 @@ static inline int64_t GeoArrowGeometryNodeWriteSequence(
     const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
   uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];
   uint32_t n_coords = node->size;
-  int64_t bytes_required = n_values * n_coords * sizeof(double);
+  int64_t bytes_required = (int64_t)n_values * n_coords * sizeof(double);
   if (dst_size < bytes_required) {
     return bytes_required;
   }
diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 5d14264..c8e1c7f 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -10,6 +10,7 @@ struct GeoArrowGeometryPrivate {
   struct ArrowBuffer nodes;
   struct ArrowBuffer coords;
   // For the builder interface
+  int feat_is_open;
   int current_level;
 };
 
@@ -26,6 +27,7 @@ GeoArrowErrorCode GeoArrowGeometryInit(struct GeoArrowGeometry* geom) {
   geom->capacity_nodes = 0;
   ArrowBufferInit(&private_data->nodes);
   ArrowBufferInit(&private_data->coords);
+  private_data->feat_is_open = 0;
   private_data->current_level = 0;
   geom->private_data = private_data;
 
@@ -34,6 +36,10 @@ GeoArrowErrorCode GeoArrowGeometryInit(struct GeoArrowGeometry* geom) {
 
 GeoArrowErrorCode GeoArrowGeometryShallowCopy(struct GeoArrowGeometryView src,
                                               struct GeoArrowGeometry* dst) {
+  struct GeoArrowGeometryPrivate* private_data =
+      (struct GeoArrowGeometryPrivate*)dst->private_data;
+  private_data->feat_is_open = 0;
+
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryResizeNodes(dst, src.size_nodes));
   if (src.size_nodes > 0) {
     memcpy(dst->root, src.root, src.size_nodes * sizeof(struct GeoArrowGeometryNode));
@@ -174,15 +180,16 @@ static inline GeoArrowErrorCode GeoArrowGeometryReallocCoords(
   GEOARROW_RETURN_NOT_OK(ArrowBufferReserve(new_coords, new_size_bytes));
   GEOARROW_RETURN_NOT_OK(ArrowBufferAppend(new_coords, private_data->coords.data,
                                            private_data->coords.size_bytes));
+  // Only the values of sequences point into the coordinate storage
   struct GeoArrowGeometryNode* node = geom->root;
   for (int64_t i = 0; i < geom->size_nodes; i++) {
-    for (int i = 0; i < 4; i++) {
-      if (node->coords[i] == _GeoArrowkEmptyPointCoords) {
+    for (int j = 0; j < 4; j++) {
+      if (node->coords[j] == _GeoArrowkEmptyPointCoords) {
         continue;
       }
 
-      ptrdiff_t offset = node->coords[i] - private_data->coords.data;
-      node->coords[i] = new_coords->data + offset;
+      ptrdiff_t offset = node->coords[j] - private_data->coords.data;
+      node->coords[j] = new_coords->data + offset;
     }
 
     ++node;
@@ -223,12 +230,21 @@ static int feat_start_geometry(struct GeoArrowVisitor* v) {
 
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryResizeNodes(geom, 0));
   GEOARROW_RETURN_NOT_OK(ArrowBufferResize(&private_data->coords, 0, 0));
+  private_data->feat_is_open = 1;
   private_data->current_level = 0;
   return GEOARROW_OK;
 }
 
 static int null_feat_geometry(struct GeoArrowVisitor* v) {
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
+  struct GeoArrowGeometryPrivate* private_data =
+      (struct GeoArrowGeometryPrivate*)geom->private_data;
+  if (!private_data->feat_is_open || geom->size_nodes > 0) {
+    GeoArrowErrorSet(v->error,
+                     "Unexpected call to null_feat in GeoArrowGeometry visitor");
+    return EINVAL;
+  }
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   return GEOARROW_OK;
@@ -240,31 +256,16 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
-  struct GeoArrowGeometryNode* node;
-  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
-  node->geometry_type = (uint8_t)geometry_type;
-  node->dimensions = (uint8_t)dimensions;
-  node->level = (uint8_t)private_data->current_level;
-  switch (geometry_type) {
-    case GEOARROW_GEOMETRY_TYPE_POINT:
-    case GEOARROW_GEOMETRY_TYPE_LINESTRING: {
-      // Reserve coords and set pointers here, even when we're not sure if
-      // there will be any coordinates. This lets us calculate sequences sizes
-      // after the fact because we can always use the pointer differences between
-      // the start of the x value in one sequence and the start of the x value
-      // in the next sequence to calculate sequence size.
-      int n_values = _GeoArrowkNumDimensions[dimensions];
-      double* coords_start;
-      GEOARROW_RETURN_NOT_OK(
-          GeoArrowGeometryReserveCoords(geom, n_values, &coords_start));
-      for (int i = 0; i < n_values; i++) {
-        node->coords[i] = (uint8_t*)(coords_start + i);
-        node->coord_stride[i] = n_values * sizeof(double);
-      }
-      break;
-    }
-    default:
-      break;
+
+  if (!private_data->feat_is_open) {
+    GeoArrowErrorSet(v->error,
+                     "Call to geom_start before feat_start in GeoArrowGeometry visitor");
+    return EINVAL;
+  }
+
+  if (private_data->current_level == 0 && geom->size_nodes > 0) {
+    GeoArrowErrorSet(v->error, "Unexpected second root in GeoArrowGeometry visitor");
+    return EINVAL;
   }
 
   if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
@@ -272,6 +273,41 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
     return EINVAL;
   }
 
+  // The dimensions and the geometry type are used to interpret the node
+  if (geometry_type < GEOARROW_GEOMETRY_TYPE_POINT ||
+      geometry_type > GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
+    GeoArrowErrorSet(v->error, "Invalid geometry_type: %d", (int)geometry_type);
+    return EINVAL;
+  }
+
+  if (dimensions < GEOARROW_DIMENSIONS_XY || dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)dimensions);
+    return EINVAL;
+  }
+
+  // Reserve coords for a sequence, even when we're not sure if there will be any
+  // coordinates. This lets us calculate sequences sizes after the fact because we
+  // can always use the pointer differences between the start of the x value in one
+  // sequence and the start of the x value in the next sequence to calculate sequence
+  // size.
+  int n_values = 0;
+  double* coords_start = NULL;
+  if (geometry_type == GEOARROW_GEOMETRY_TYPE_POINT ||
+      geometry_type == GEOARROW_GEOMETRY_TYPE_LINESTRING) {
+    n_values = _GeoArrowkNumDimensions[dimensions];
+    GEOARROW_RETURN_NOT_OK(GeoArrowGeometryReserveCoords(geom, n_values, &coords_start));
+  }
+
+  struct GeoArrowGeometryNode* node;
+  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
+  node->geometry_type = (uint8_t)geometry_type;
+  node->dimensions = (uint8_t)dimensions;
+  node->level = (uint8_t)private_data->current_level;
+  for (int i = 0; i < n_values; i++) {
+    node->coords[i] = (uint8_t*)(coords_start + i);
+    node->coord_stride[i] = n_values * sizeof(double);
+  }
+
   private_data->current_level++;
   return GEOARROW_OK;
 }
@@ -300,6 +336,17 @@ static int coords_geometry(struct GeoArrowVisitor* v,
     return EINVAL;
   }
 
+  // Sequence sizes are calculated from the position of the coordinates, so the
+  // coordinates must be those of the last sequence
+  struct GeoArrowGeometryNode* last_node = geom->root + geom->size_nodes - 1;
+  if (!private_data->feat_is_open || private_data->current_level != last_node->level + 1 ||
+      (last_node->geometry_type != GEOARROW_GEOMETRY_TYPE_POINT &&
+       last_node->geometry_type != GEOARROW_GEOMETRY_TYPE_LINESTRING) ||
+      coords->n_values != _GeoArrowkNumDimensions[last_node->dimensions]) {
+    GeoArrowErrorSet(v->error, "Unexpected coords in GeoArrowGeometry visitor");
+    return EINVAL;
+  }
+
   double* values;
   GEOARROW_RETURN_NOT_OK(
       GeoArrowGeometryReserveCoords(geom, coords->n_coords * coords->n_values, &values));
@@ -349,12 +396,20 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
 
-  if (geom->size_nodes == 0) {
+  if (!private_data->feat_is_open || geom->size_nodes == 0) {
     GeoArrowErrorSet(v->error,
                      "Call to feat_end before geom_start in GeoArrowGeometry visitor");
     return EINVAL;
   }
 
+  if (private_data->current_level != 0) {
+    GeoArrowErrorSet(v->error,
+                     "Incorrect nesting in GeoArrowGeometry visitor (level > 0)");
+    return EINVAL;
+  }
+
+  private_data->feat_is_open = 0;
+
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From 10c2de9e5aff0da7e9029334c28aaee4facfb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 22/67] fix: don't deliver rows of a failed batch and clean up
 failed kernel starts

---
 src/geoarrow/kernel.c | 168 ++++++++++++++++++++++++++++++------------
 1 file changed, 121 insertions(+), 47 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..bada953 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -1,8 +1,10 @@
 
 #include <errno.h>
+#include <limits.h>
 #include <math.h>
 #include <stddef.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "nanoarrow/nanoarrow.h"
@@ -120,6 +122,7 @@ struct GeoArrowBox2DPrivate {
 struct GeoArrowVisitorKernelPrivate {
   struct GeoArrowVisitor v;
   int visit_by_feature;
+  int has_partial_batch;
   struct GeoArrowArrayReader reader;
   struct GeoArrowArrayWriter writer;
   struct GeoArrowWKTWriter wkt_writer;
@@ -145,10 +148,23 @@ static int kernel_get_arg_long(const char* options, const char* key, long* out,
     return NANOARROW_OK;
   }
 
-  char type_str0[16];
-  memset(type_str0, 0, sizeof(type_str0));
-  snprintf(type_str0, sizeof(type_str0), "%.*s", (int)type_str.size_bytes, type_str.data);
-  *out = atoi(type_str0);
+  char value[32];
+  char* value_end = value;
+  long value_long = 0;
+  if (type_str.size_bytes > 0 && type_str.size_bytes < (int64_t)sizeof(value)) {
+    memcpy(value, type_str.data, type_str.size_bytes);
+    value[type_str.size_bytes] = '\0';
+    errno = 0;
+    value_long = strtol(value, &value_end, 10);
+  }
+
+  if (value_end == value || value_end != (value + type_str.size_bytes) || errno != 0 ||
+      value_long < INT_MIN || value_long > INT_MAX) {
+    GeoArrowErrorSet(error, "Invalid value for parameter '%s'", key);
+    return EINVAL;
+  }
+
+  *out = value_long;
   return NANOARROW_OK;
 }
 
@@ -187,19 +203,47 @@ static void kernel_release_visitor(struct GeoArrowKernel* kernel) {
   kernel->release = NULL;
 }
 
+// Prepares visiting the features of a batch. If visiting the previous batch failed, the
+// output of the features that were visited before the failure must not become part
+// of the output for this batch.
+static int kernel_start_batch(struct GeoArrowVisitorKernelPrivate* private_data,
+                              struct ArrowArray* array, struct GeoArrowError* error) {
+  if (private_data->has_partial_batch) {
+    struct ArrowArray tmp;
+    tmp.release = NULL;
+    NANOARROW_RETURN_NOT_OK(private_data->finish_push_batch(private_data, &tmp, error));
+    if (tmp.release != NULL) {
+      tmp.release(&tmp);
+    }
+
+    private_data->has_partial_batch = 0;
+  }
+
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
+  private_data->v.error = error;
+  return GEOARROW_OK;
+}
+
+static int kernel_finish_batch(struct GeoArrowVisitorKernelPrivate* private_data,
+                               struct ArrowArray* out, struct GeoArrowError* error) {
+  NANOARROW_RETURN_NOT_OK(private_data->finish_push_batch(private_data, out, error));
+  private_data->has_partial_batch = 0;
+  return GEOARROW_OK;
+}
+
 static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* array,
                              struct ArrowArray* out, struct GeoArrowError* error) {
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
+  NANOARROW_RETURN_NOT_OK(kernel_start_batch(private_data, array, error));
 
-  private_data->v.error = error;
+  private_data->has_partial_batch = 1;
   NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,
                                                    array->length, &private_data->v));
 
-  return private_data->finish_push_batch(private_data, out, error);
+  return kernel_finish_batch(private_data, out, error);
 }
 
 static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
@@ -208,10 +252,9 @@ static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
+  NANOARROW_RETURN_NOT_OK(kernel_start_batch(private_data, array, error));
 
-  private_data->v.error = error;
+  private_data->has_partial_batch = 1;
   int result;
   for (int64_t i = 0; i < array->length; i++) {
     result = GeoArrowArrayReaderVisit(&private_data->reader, i, 1, &private_data->v);
@@ -223,7 +266,7 @@ static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
     }
   }
 
-  return private_data->finish_push_batch(private_data, out, error);
+  return kernel_finish_batch(private_data, out, error);
 }
 
 static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchema* schema,
@@ -234,22 +277,28 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
 
   struct GeoArrowSchemaView schema_view;
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
+  if (schema_view.type == GEOARROW_TYPE_UNINITIALIZED) {
+    return EINVAL;
+  }
 
-  switch (schema_view.type) {
-    case GEOARROW_TYPE_UNINITIALIZED:
-      return EINVAL;
-    default:
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
-      if (private_data->visit_by_feature) {
-        kernel->push_batch = &kernel_push_batch_by_feature;
-      } else {
-        kernel->push_batch = &kernel_push_batch;
-      }
-      break;
+  // Batches are only accepted after a successful start
+  kernel->push_batch = &kernel_push_batch_void_agg;
+  if (private_data->reader.private_data != NULL) {
+    GeoArrowArrayReaderReset(&private_data->reader);
   }
 
-  return private_data->finish_start(private_data, schema, options, out, error);
+  NANOARROW_RETURN_NOT_OK(
+      GeoArrowArrayReaderInitFromSchema(&private_data->reader, schema, error));
+  NANOARROW_RETURN_NOT_OK(
+      private_data->finish_start(private_data, schema, options, out, error));
+
+  if (private_data->visit_by_feature) {
+    kernel->push_batch = &kernel_push_batch_by_feature;
+  } else {
+    kernel->push_batch = &kernel_push_batch;
+  }
+
+  return GEOARROW_OK;
 }
 
 // Kernel visit_void_agg
@@ -321,11 +370,6 @@ static int finish_start_as_geoarrow(struct GeoArrowVisitorKernelPrivate* private
     return EINVAL;
   }
 
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowArrayWriterInitFromType(&private_data->writer, out_type));
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowArrayWriterInitVisitor(&private_data->writer, &private_data->v));
-
   struct ArrowSchema tmp;
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(&tmp, out_type));
 
@@ -336,6 +380,19 @@ static int finish_start_as_geoarrow(struct GeoArrowVisitorKernelPrivate* private
     return result;
   }
 
+  result = GeoArrowArrayWriterInitFromType(&private_data->writer, out_type);
+  if (result != GEOARROW_OK) {
+    tmp.release(&tmp);
+    return result;
+  }
+
+  result = GeoArrowArrayWriterInitVisitor(&private_data->writer, &private_data->v);
+  if (result != GEOARROW_OK) {
+    GeoArrowArrayWriterReset(&private_data->writer);
+    tmp.release(&tmp);
+    return result;
+  }
+
   ArrowSchemaMove(&tmp, out);
   return GEOARROW_OK;
 }
@@ -413,6 +470,7 @@ static int finish_start_unique_geometry_types_agg(
   NANOARROW_UNUSED(options);
   NANOARROW_UNUSED(error);
 
+  private_data->geometry_types_private.geometry_types_mask = 0;
   private_data->v.feat_start = &feat_start_geometry_types;
   private_data->v.geom_start = &geom_start_geometry_types;
   private_data->v.coords = &coords_geometry_types;
@@ -482,8 +540,15 @@ static ArrowErrorCode schema_box(struct ArrowSchema* schema,
     return EINVAL;
   }
 
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(schema, GEOARROW_TYPE_BOX));
-  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaSetMetadata(schema, &metadata));
+  struct ArrowSchema tmp;
+  NANOARROW_RETURN_NOT_OK(GeoArrowSchemaInitExtension(&tmp, GEOARROW_TYPE_BOX));
+  int result = GeoArrowSchemaSetMetadata(&tmp, &metadata);
+  if (result != GEOARROW_OK) {
+    tmp.release(&tmp);
+    return result;
+  }
+
+  ArrowSchemaMove(&tmp, schema);
   return GEOARROW_OK;
 }
 
@@ -499,15 +564,15 @@ static ArrowErrorCode array_box(struct ArrowArray* array) {
 }
 
 static ArrowErrorCode box_flush(struct GeoArrowVisitorKernelPrivate* private_data) {
-  NANOARROW_RETURN_NOT_OK(ArrowBufferAppendDouble(
-      &private_data->box2d_private.values[0], private_data->box2d_private.min_values[0]));
-  NANOARROW_RETURN_NOT_OK(ArrowBufferAppendDouble(
-      &private_data->box2d_private.values[1], private_data->box2d_private.min_values[1]));
-  NANOARROW_RETURN_NOT_OK(ArrowBufferAppendDouble(
-      &private_data->box2d_private.values[2], private_data->box2d_private.max_values[0]));
-  NANOARROW_RETURN_NOT_OK(ArrowBufferAppendDouble(
-      &private_data->box2d_private.values[3], private_data->box2d_private.max_values[1]));
+  struct GeoArrowBox2DPrivate* box = &private_data->box2d_private;
+  for (int i = 0; i < 4; i++) {
+    NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(&box->values[i], sizeof(double)));
+  }
 
+  ArrowBufferAppendUnsafe(&box->values[0], &box->min_values[0], sizeof(double));
+  ArrowBufferAppendUnsafe(&box->values[1], &box->min_values[1], sizeof(double));
+  ArrowBufferAppendUnsafe(&box->values[2], &box->max_values[0], sizeof(double));
+  ArrowBufferAppendUnsafe(&box->values[3], &box->max_values[1], sizeof(double));
   return NANOARROW_OK;
 }
 
@@ -520,13 +585,15 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
 
   for (int i = 0; i < 4; i++) {
-    NANOARROW_RETURN_NOT_OK(
-        ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]));
+    // Never fails for the data buffer of an array that was just initialized
+    ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]);
     tmp.children[i]->length = length;
   }
 
@@ -537,14 +604,16 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     ArrowBitmapReset(&private_data->box2d_private.validity);
   }
 
+  // From here on, the content of this batch is owned by tmp
+  tmp.null_count = private_data->box2d_private.null_count;
+  private_data->box2d_private.null_count = 0;
+
   result = ArrowArrayFinishBuildingDefault(&tmp, ((struct ArrowError*)error));
   if (result != GEOARROW_OK) {
     tmp.release(&tmp);
     return result;
   }
 
-  tmp.null_count = private_data->box2d_private.null_count;
-  private_data->box2d_private.null_count = 0;
   ArrowArrayMove(&tmp, out);
   return GEOARROW_OK;
 }
@@ -596,7 +665,8 @@ static int feat_end_box(struct GeoArrowVisitor* v) {
     if (private_data->box2d_private.validity.buffer.data == NULL) {
       int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
       NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapAppend(&private_data->box2d_private.validity, 1, length));
+          ArrowBitmapReserve(&private_data->box2d_private.validity, length + 1));
+      ArrowBitmapAppendUnsafe(&private_data->box2d_private.validity, 1, length);
     }
 
     NANOARROW_RETURN_NOT_OK(
@@ -638,8 +708,12 @@ static int kernel_finish_box_agg(struct GeoArrowKernel* kernel, struct ArrowArra
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
   NANOARROW_RETURN_NOT_OK(box_flush(private_data));
-  NANOARROW_RETURN_NOT_OK(box_finish(private_data, out, (struct ArrowError*)error));
-  return GEOARROW_OK;
+  int result = box_finish(private_data, out, (struct ArrowError*)error);
+  for (int i = 0; i < 4; i++) {
+    private_data->box2d_private.values[i].size_bytes = 0;
+  }
+
+  return result;
 }
 
 static int finish_start_box(struct GeoArrowVisitorKernelPrivate* private_data,
-- 
2.43.0


From 203421890e47764b03491f181c03a2001de51690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 23/67] fix: release the array writer of an unsupported type

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From 550d4ea2cc8d8fe5c7bc9d5ea4bfb0342927ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 24/67] fix: mark released scalar functions as released

---
 src/geoarrow/scalar_udf.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..09bef72 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -7,7 +7,7 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
                                              struct GeoArrowScalarUdf* out);
 
 static void GeoArrowScalarUdfVoidFactoryRelease(struct GeoArrowScalarUdfFactory* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 GeoArrowErrorCode GeoArrowScalarUdfFactoryInit(struct GeoArrowScalarUdfFactory* out,
@@ -52,11 +52,17 @@ static GeoArrowErrorCode GeoArrowScalarUdfVoidExecute(struct GeoArrowScalarUdf*
   GEOARROW_UNUSED(args);
   GEOARROW_UNUSED(n_args);
 
-  GEOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(out, NANOARROW_TYPE_NA));
-  out->length = n_rows;
-  out->null_count = n_rows;
-  GEOARROW_RETURN_NOT_OK(ArrowArrayFinishBuildingDefault(out, NULL));
+  struct ArrowArray tmp;
+  GEOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
+  tmp.length = n_rows;
+  tmp.null_count = n_rows;
+  GeoArrowErrorCode result = ArrowArrayFinishBuildingDefault(&tmp, NULL);
+  if (result != GEOARROW_OK) {
+    tmp.release(&tmp);
+    return result;
+  }
 
+  ArrowArrayMove(&tmp, out);
   return GEOARROW_OK;
 }
 
@@ -66,7 +72,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
@@ -75,5 +81,6 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
   out->init = &GeoArrowScalarUdfVoidInit;
   out->execute = &GeoArrowScalarUdfVoidExecute;
   out->get_last_error = &GeoArrowScalarUdfVoidGetLastError;
+  out->private_data = NULL;
   out->release = &GeoArrowScalarUdfVoidRelease;
 }
-- 
2.43.0


From d76e4a050b523c76ad95740ec76707631568de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:42 +0000
Subject: [PATCH 25/67] fix: stop writing at the maximum element size between
 parts of a feature

---
 src/geoarrow/wkt_writer.c | 49 +++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 3d051d2..fbacd02 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -66,6 +66,14 @@ static inline void WKTWriterWriteDoubleUnsafe(struct WKTWriterPrivate* private,
                           ((char*)private->values.data) + private->values.size_bytes);
 }
 
+// Check if the maximum number of bytes for this feature have been written (such that
+// anything that would be written next is not part of the output)
+static inline int WKTWriterReachedMaxElementSize(struct WKTWriterPrivate* private) {
+  return private->max_element_size_bytes >= 0 &&
+         (private->values.size_bytes - private->values_feat_start) >=
+             private->max_element_size_bytes;
+}
+
 static int feat_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   WKTWriterDiscardOpenFeature(private);
@@ -95,6 +103,10 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
                           enum GeoArrowDimensions dimensions) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckCanStart(private));
+  if (WKTWriterReachedMaxElementSize(private)) {
+    return EAGAIN;
+  }
+
   private->level++;
   private->geometry_type[private->level] = geometry_type;
   private->i[private->level] = 0;
@@ -146,6 +158,10 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
 static int ring_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckCanStart(private));
+  if (WKTWriterReachedMaxElementSize(private)) {
+    return EAGAIN;
+  }
+
   private->level++;
 
   if (private->level > 0 && private->i[private->level - 1] > 0) {
@@ -173,11 +189,15 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
   NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
 
+  if (WKTWriterReachedMaxElementSize(private)) {
+    return EAGAIN;
+  }
+
   int64_t max_chars_per_coord_theoretical =
-      // space + comma after coordinate
-      (n_coords * 2) +
+      // space + comma before coordinate
+      2 +
       // spaces between ordinates
-      (n_coords * (n_dims - 1)) +
+      (n_dims - 1) +
       // GeoArrowPrintDouble might require up to 40 accessible bytes per call
       (40 * n_dims);
 
@@ -185,13 +205,24 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
   // to avoid more then one allocation for this call. This is normally substantially
   // less than the theoretical amount.
   int64_t max_chars_estimated =
-      (n_coords * 2) +             // space + comma after coordinate
+      (n_coords * 2) +             // space + comma before coordinate
       (n_coords * (n_dims - 1)) +  // spaces between ordinates
       // precision + decimal + estimate of normal
       // digits to the left of the decimal
-      ((private->precision + 1 + 8) * n_coords * n_dims) +
-      // Ensure that the last reserve() call doesn't trigger an allocation
-      max_chars_per_coord_theoretical;
+      ((private->precision + 1 + 8) * n_coords * n_dims);
+
+  // If this feature will be truncated, we stop writing when its maximum is reached
+  if (private->max_element_size_bytes >= 0) {
+    int64_t max_chars_remaining =
+        private->max_element_size_bytes -
+        (private->values.size_bytes - private->values_feat_start);
+    if (max_chars_estimated > max_chars_remaining) {
+      max_chars_estimated = max_chars_remaining;
+    }
+  }
+
+  // Ensure that the last reserve() call doesn't trigger an allocation
+  max_chars_estimated += max_chars_per_coord_theoretical;
   NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(&private->values, max_chars_estimated));
 
   // Write the first coordinate, possibly with a leading comma if there was
@@ -221,9 +252,7 @@ static int coords_wkt(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
   // Write the remaining coordinates (which all have leading commas)
   for (int64_t i = 1; i < n_coords; i++) {
     // Check if we've hit our max number of bytes for this feature
-    if (private->max_element_size_bytes >= 0 &&
-        (private->values.size_bytes - private->values_feat_start) >=
-            private->max_element_size_bytes) {
+    if (WKTWriterReachedMaxElementSize(private)) {
       return EAGAIN;
     }
 
-- 
2.43.0


From cdf6989b7f31a1a212ec15f425e8bef7d814d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 26/67] fix: release a partially built schema when
 GeoArrowSchemaInit() fails

---
 src/geoarrow/schema.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..6d7bfdf 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,7 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+static GeoArrowErrorCode GeoArrowSchemaInitInternal(struct ArrowSchema* schema,
+                                                    enum GeoArrowType type) {
   schema->release = NULL;
 
   switch (type) {
@@ -205,6 +206,15 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  GeoArrowErrorCode result = GeoArrowSchemaInitInternal(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
   const char* ext_type = GeoArrowExtensionNameFromType(type);
@@ -236,5 +246,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From cb1b4769ba392bd2a948c50e0b2312580a4e17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 27/67] fix: keep existing schema metadata when setting it
 fails

---
 src/geoarrow/metadata.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..9fcef02 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -468,6 +468,24 @@ static int64_t GeoArrowMetadataSerializeInternal(
   return out - out_initial;
 }
 
+// Unlike ArrowSchemaSetMetadata(), leaves the schema as it was on failure
+static GeoArrowErrorCode GeoArrowSchemaReplaceMetadata(struct ArrowSchema* schema,
+                                                       const char* metadata) {
+  const char* previous_metadata = schema->metadata;
+  schema->metadata = NULL;
+  int result = ArrowSchemaSetMetadata(schema, metadata);
+  if (result != GEOARROW_OK) {
+    schema->metadata = previous_metadata;
+    return result;
+  }
+
+  if (previous_metadata != NULL) {
+    ArrowFree((void*)previous_metadata);
+  }
+
+  return GEOARROW_OK;
+}
+
 static GeoArrowErrorCode GeoArrowSchemaSetMetadataInternal(
     struct ArrowSchema* schema, const struct GeoArrowMetadataView* metadata_view) {
   int64_t metadata_size = GeoArrowMetadataCalculateSerializedSize(metadata_view);
@@ -498,7 +516,7 @@ static GeoArrowErrorCode GeoArrowSchemaSetMetadataInternal(
     return result;
   }
 
-  result = ArrowSchemaSetMetadata(schema, (const char*)existing_buffer.data);
+  result = GeoArrowSchemaReplaceMetadata(schema, (const char*)existing_buffer.data);
   ArrowBufferReset(&existing_buffer);
   return result;
 }
@@ -539,7 +557,7 @@ GeoArrowErrorCode GeoArrowSchemaSetMetadataFrom(struct ArrowSchema* schema,
     return result;
   }
 
-  result = ArrowSchemaSetMetadata(schema, (const char*)buffer.data);
+  result = GeoArrowSchemaReplaceMetadata(schema, (const char*)buffer.data);
   ArrowBufferReset(&buffer);
   return result;
 }
-- 
2.43.0


From 25881aaf6c5b31d74b1f6e3831793ccbb6ad0cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 28/67] fix: check and clean up allocations in vendored
 nanoarrow array initialization

---
 src/vendor/nanoarrow/nanoarrow.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 23ea4ed..26f1ada 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2459,6 +2459,12 @@ ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* array,
   ArrowBufferInit(&private_data->buffers[1]);
   private_data->buffer_data =
       (const void**)ArrowMalloc(sizeof(void*) * NANOARROW_MAX_FIXED_BUFFERS);
+  if (private_data->buffer_data == NULL) {
+    ArrowFree(private_data);
+    array->release = NULL;
+    return ENOMEM;
+  }
+
   for (int i = 0; i < NANOARROW_MAX_FIXED_BUFFERS; ++i) {
     private_data->buffer_data[i] = NULL;
   }
@@ -2552,7 +2558,12 @@ ArrowErrorCode ArrowArrayInitFromSchema(struct ArrowArray* array,
                                         struct ArrowError* error) {
   struct ArrowArrayView array_view;
   NANOARROW_RETURN_NOT_OK(ArrowArrayViewInitFromSchema(&array_view, schema, error));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromArrayView(array, &array_view, error));
+  int result = ArrowArrayInitFromArrayView(array, &array_view, error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayViewReset(&array_view);
+    return result;
+  }
+
   if (array_view.storage_type == NANOARROW_TYPE_DENSE_UNION ||
       array_view.storage_type == NANOARROW_TYPE_SPARSE_UNION) {
     struct ArrowArrayPrivateData* private_data =
@@ -2585,6 +2596,9 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
 
   memset(array->children, 0, n_children * sizeof(struct ArrowArray*));
 
+  // Set before allocating such that children are freed if an allocation fails
+  array->n_children = n_children;
+
   for (int64_t i = 0; i < n_children; i++) {
     array->children[i] = (struct ArrowArray*)ArrowMalloc(sizeof(struct ArrowArray));
     if (array->children[i] == NULL) {
@@ -2593,7 +2607,6 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
     array->children[i]->release = NULL;
   }
 
-  array->n_children = n_children;
   return NANOARROW_OK;
 }
 
-- 
2.43.0


From 10b236149413db7b8684e63678e66e1ddad4eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 29/67] fix: leave array views unchanged when setting an
 invalid array fails

---
 src/geoarrow/array_reader.c | 14 +++++++++++---
 src/geoarrow/array_view.c   | 26 +++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/array_reader.c b/src/geoarrow/array_reader.c
index 896b5ac..2e6fef0 100644
--- a/src/geoarrow/array_reader.c
+++ b/src/geoarrow/array_reader.c
@@ -224,10 +224,18 @@ GeoArrowErrorCode GeoArrowArrayReaderSetArray(struct GeoArrowArrayReader* reader
     case GEOARROW_TYPE_LARGE_WKT:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_LARGE_WKB:
-    case GEOARROW_TYPE_WKB_VIEW:
-      GEOARROW_RETURN_NOT_OK(ArrowArrayViewSetArray(&private_data->src.arrow, array,
-                                                    (struct ArrowError*)error));
+    case GEOARROW_TYPE_WKB_VIEW: {
+      // Keep reading the previous array if array is not valid (the view does not
+      // own anything since none of these types have children or dictionaries)
+      struct ArrowArrayView previous = private_data->src.arrow;
+      int result = ArrowArrayViewSetArray(&private_data->src.arrow, array,
+                                          (struct ArrowError*)error);
+      if (result != GEOARROW_OK) {
+        private_data->src.arrow = previous;
+        return result;
+      }
       break;
+    }
     default:
       GEOARROW_RETURN_NOT_OK(
           GeoArrowArrayViewSetArray(&private_data->src.geoarrow, array, error));
diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..da904c9 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -247,24 +247,40 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArrayBox(
 GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view,
                                             const struct ArrowArray* array,
                                             struct GeoArrowError* error) {
+  // Populate a copy such that a failure does not leave a partially updated view
+  struct GeoArrowArrayView tmp = *array_view;
+
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      if (array->n_buffers != 3) {
+        GeoArrowErrorSet(error,
+                         "Unexpected number of buffers in serialized array in "
+                         "GeoArrowArrayViewSetArray()");
+        return EINVAL;
+      }
+
+      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(&tmp, array));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
     case GEOARROW_TYPE_BOX_M:
     case GEOARROW_TYPE_BOX_ZM:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArrayBox(array_view, array, error));
+      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArrayBox(&tmp, array, error));
       break;
     default:
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowArrayViewSetArrayInternal(array_view, array, error, 0));
+      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArrayInternal(&tmp, array, error, 0));
       break;
   }
 
-  array_view->validity_bitmap = array->buffers[0];
+  if (array->n_buffers < 1) {
+    GeoArrowErrorSet(error,
+                     "Expected validity buffer in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
+  tmp.validity_bitmap = array->buffers[0];
+  *array_view = tmp;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 9cc76a764ac39453157571a15e03830e1cb3cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 30/67] fix: check the number of buffers before reading them in
 vendored nanoarrow

---
 src/vendor/nanoarrow/nanoarrow.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 26f1ada..38c97ac 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -3083,12 +3083,22 @@ static int ArrowArrayViewSetArrayInternal(struct ArrowArrayView* array_view,
                                  array_view->storage_type == NANOARROW_TYPE_BINARY_VIEW
                              ? NANOARROW_BINARY_VIEW_FIXED_BUFFERS
                              : NANOARROW_MAX_FIXED_BUFFERS;
+  const int64_t n_buffer_sizes =
+      array_view->storage_type == NANOARROW_TYPE_STRING_VIEW ||
+      array_view->storage_type == NANOARROW_TYPE_BINARY_VIEW;
   for (int i = 0; i < nfixed_buf; i++) {
     if (array_view->layout.buffer_type[i] == NANOARROW_BUFFER_TYPE_NONE) {
       break;
     }
 
     buffers_required++;
+    if (array->n_buffers < (buffers_required + n_buffer_sizes)) {
+      ArrowErrorSet(error,
+                    "Expected array with at least %" PRId64
+                    " buffer(s) but found %" PRId64 " buffer(s)",
+                    buffers_required + n_buffer_sizes, array->n_buffers);
+      return EINVAL;
+    }
 
     // Set buffer pointer
     array_view->buffer_views[i].data.data = array->buffers[i];
-- 
2.43.0


From ce96c9179461c68ff05e9a221dbc58deabaf2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 31/67] fix: keep coordinate pointers in sync when
 GeoArrowBuilderCoordsReserve() fails

---
 src/geoarrow/geoarrow_type_inline.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 0935f72..22395b4 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -746,15 +746,16 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
         if (result != GEOARROW_OK) {
           return result;
         }
+
+        // Sync the pointer back to the writable view right away since reserving the
+        // buffer for a subsequent dimension may fail
+        writable_view->values[i - (last_buffer - n_values + 1)] =
+            builder->view.buffers[i].data.as_double;
       }
 
-      // Sync the capacity and pointers back to the writable view
+      // Sync the capacity back to the writable view
       writable_view->capacity_coords =
           builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
-      for (int i = 0; i < n_values; i++) {
-        writable_view->values[i] =
-            builder->view.buffers[last_buffer - n_values + 1 + i].data.as_double;
-      }
 
       return GEOARROW_OK;
     default:
-- 
2.43.0


From 6b00409340fc4c6db976922625f21fdf5d58a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:50 +0000
Subject: [PATCH 32/67] fix: use the smallest coordinate capacity after a
 failed reserve

---
 src/geoarrow/geoarrow_type_inline.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 22395b4..b5d1015 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -753,9 +753,16 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
             builder->view.buffers[i].data.as_double;
       }
 
-      // Sync the capacity back to the writable view
+      // Sync the capacity back to the writable view. The capacity of the buffers may
+      // differ if a previous call failed.
       writable_view->capacity_coords =
           builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
+      for (int64_t i = last_buffer - n_values + 1; i < last_buffer; i++) {
+        int64_t capacity_coords = builder->view.buffers[i].capacity_bytes / sizeof(double);
+        if (capacity_coords < writable_view->capacity_coords) {
+          writable_view->capacity_coords = capacity_coords;
+        }
+      }
 
       return GEOARROW_OK;
     default:
-- 
2.43.0


From a8fce492d2cffdec89c5747137747252b0c2485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 33/67] fix: don't complete a native feature twice when
 completing it failed

---
 src/geoarrow/native_writer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 4e4e274..387e1b3 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -304,6 +304,9 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  // If this fails, the feature can't be completed by trying again
+  private_data->feat_is_open = 0;
+
   if (!is_valid) {
     if (private_data->validity.buffer.data == NULL) {
       NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private_data->validity,
-- 
2.43.0


From 16b13493516e6da5effbf0e48251c0d1126c1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 34/67] fix: don't complete a native feature whose offsets
 could not be appended

---
 src/geoarrow/native_writer.c | 49 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 387e1b3..2eb1388 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -503,6 +503,18 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendCoords(
   return result;
 }
 
+// Appends an offset on behalf of a visitor callback. If this fails, the feature can't be
+// completed.
+static GeoArrowErrorCode GeoArrowNativeWriterAppendOffset(
+    struct GeoArrowNativeWriterPrivate* private_data, int32_t i, int32_t value) {
+  int result = GeoArrowBuilderOffsetAppend(&private_data->builder, i, &value, 1);
+  if (result != GEOARROW_OK) {
+    private_data->feat_is_open = 0;
+  }
+
+  return result;
+}
+
 static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
@@ -666,8 +678,7 @@ static int ring_end_multipoint(struct GeoArrowVisitor* v) {
     return EOVERFLOW;
   }
   int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 0, n_coord32));
 
   return GEOARROW_OK;
 }
@@ -690,8 +701,7 @@ static int geom_end_multipoint(struct GeoArrowVisitor* v) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 0, n_coord32));
   }
 
   return GEOARROW_OK;
@@ -722,8 +732,7 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 0, n_coord32));
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
@@ -815,8 +824,7 @@ static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 1, n_coord32));
     private_data->size[0]++;
     private_data->size[1] = 0;
   }
@@ -837,7 +845,7 @@ static int geom_end_multilinestring(struct GeoArrowVisitor* v) {
       }
       int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
       NANOARROW_RETURN_NOT_OK(
-          GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_coord32, 1));
+          GeoArrowNativeWriterAppendOffset(private_data, 1, n_coord32));
       private_data->size[0]++;
       private_data->size[1] = 0;
     }
@@ -871,16 +879,14 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 1, n_coord32));
   }
 
   // Finish off the sequence of sequences. This is a polygon or multilinestring
   // so it can any number of them.
   int32_t n_seq32 =
       (int32_t)(private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t)) - 1;
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq32, 1));
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 0, n_seq32));
 
   return GeoArrowNativeWriterAppendValidity(writer, !private_data->feat_is_null);
 }
@@ -963,8 +969,7 @@ static int ring_end_multipolygon(struct GeoArrowVisitor* v) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 2, n_coord32));
     private_data->size[1]++;
     private_data->size[2] = 0;
   }
@@ -985,7 +990,7 @@ static int geom_end_multipolygon(struct GeoArrowVisitor* v) {
       }
       int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
       NANOARROW_RETURN_NOT_OK(
-          GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
+          GeoArrowNativeWriterAppendOffset(private_data, 2, n_coord32));
       private_data->size[1]++;
       private_data->size[2] = 0;
     }
@@ -995,8 +1000,7 @@ static int geom_end_multipolygon(struct GeoArrowVisitor* v) {
       int32_t n_seq32 =
           (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) -
           1;
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
+      NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 1, n_seq32));
       private_data->size[0]++;
       private_data->size[1] = 0;
     }
@@ -1030,8 +1034,7 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
       return EOVERFLOW;
     }
     int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 2, n_coord32));
     private_data->size[1]++;
   }
 
@@ -1040,16 +1043,14 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   if (private_data->size[1] > 0) {
     int32_t n_seq32 =
         (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) - 1;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 1, n_seq32));
   }
 
   // Finish off the sequence of sequence of sequences. This is a multipolygon
   // so it can be any number of them.
   int32_t n_seq_seq32 =
       (int32_t)(private_data->builder.view.buffers[2].size_bytes / sizeof(int32_t)) - 1;
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq_seq32, 1));
+  NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendOffset(private_data, 0, n_seq_seq32));
 
   return GeoArrowNativeWriterAppendValidity(writer, !private_data->feat_is_null);
 }
-- 
2.43.0


From 6d58a5c85ddfcfc598edbc69ac8b1526e54b2cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 35/67] fix: don't read past the end of truncated extension
 metadata

---
 src/geoarrow/metadata.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 9fcef02..3823515 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -112,7 +112,7 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
                                   struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (s->size_bytes == 0 || s->data[0] != '[') {
     return EINVAL;
   }
 
@@ -149,7 +149,7 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (s->size_bytes == 0 || s->data[0] != '{') {
     return EINVAL;
   }
 
@@ -197,6 +197,11 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
 
+    // The value is missing
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
+
     switch (s->data[0]) {
       case '[':
         NANOARROW_RETURN_NOT_OK(FindList(s, &v));
@@ -274,7 +279,7 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     }
 
     SkipUntil(s, ",}");
-    if (s->data[0] == ',') {
+    if (s->size_bytes > 0 && s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
     }
-- 
2.43.0


From ee2a163434f3de1f7ed1c4566ee792c27f9c4f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 36/67] fix: don't loop forever on extension metadata with an
 embedded nul

---
 src/geoarrow/metadata.c | 80 ++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 42 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 3823515..45415db 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -119,27 +119,25 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   s->size_bytes--;
   s->data++;
   struct ArrowStringView tmp_value;
-  while (s->size_bytes > 0) {
-    if (SkipUntil(s, "[{\"]")) {
-      char c = *(s->data);
-      switch (c) {
-        case '\"':
-          NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
-          break;
-        case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
-          break;
-        case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
-          break;
-        case ']':
-          s->size_bytes--;
-          s->data++;
-          out->size_bytes = s->data - out->data;
-          return GEOARROW_OK;
-        default:
-          break;
-      }
+  while (SkipUntil(s, "[{\"]")) {
+    char c = *(s->data);
+    switch (c) {
+      case '\"':
+        NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
+        break;
+      case '[':
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        break;
+      case '{':
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        break;
+      case ']':
+        s->size_bytes--;
+        s->data++;
+        out->size_bytes = s->data - out->data;
+        return GEOARROW_OK;
+      default:
+        break;
     }
   }
 
@@ -156,27 +154,25 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
   s->size_bytes--;
   s->data++;
   struct ArrowStringView tmp_value;
-  while (s->size_bytes > 0) {
-    if (SkipUntil(s, "{[\"}")) {
-      char c = *(s->data);
-      switch (c) {
-        case '\"':
-          NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
-          break;
-        case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
-          break;
-        case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
-          break;
-        case '}':
-          s->size_bytes--;
-          s->data++;
-          out->size_bytes = s->data - out->data;
-          return GEOARROW_OK;
-        default:
-          break;
-      }
+  while (SkipUntil(s, "{[\"}")) {
+    char c = *(s->data);
+    switch (c) {
+      case '\"':
+        NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
+        break;
+      case '[':
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        break;
+      case '{':
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        break;
+      case '}':
+        s->size_bytes--;
+        s->data++;
+        out->size_bytes = s->data - out->data;
+        return GEOARROW_OK;
+      default:
+        break;
     }
   }
 
-- 
2.43.0


From 33d493a2c9c2b107001a0aa1e459bafefc271bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 37/67] fix: compare the value of crs_type and not its key

---
 src/geoarrow/metadata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 45415db..11335a2 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -256,13 +256,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 && strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From b1b5078d1ed3faa2fc097528ba49d49bdbb90345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 38/67] fix: reject extension metadata with characters after a
 value or a trailing comma

---
 src/geoarrow/metadata.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 11335a2..0d6a7db 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -186,7 +186,11 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
   struct ArrowStringView k;
   struct ArrowStringView v;
 
-  while (s->size_bytes > 0 && s->data[0] != '}') {
+  if (ParseChar(s, '}') == GEOARROW_OK) {
+    return GEOARROW_OK;
+  }
+
+  while (1) {
     SkipWhitespace(s);
     NANOARROW_RETURN_NOT_OK(FindString(s, &k));
     SkipWhitespace(s);
@@ -274,19 +278,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     }
 
-    SkipUntil(s, ",}");
-    if (s->size_bytes > 0 && s->data[0] == ',') {
-      s->size_bytes--;
-      s->data++;
+    // Only another key or the end of the object may follow a value
+    SkipWhitespace(s);
+    if (ParseChar(s, '}') == GEOARROW_OK) {
+      return GEOARROW_OK;
     }
-  }
 
-  if (s->size_bytes > 0 && s->data[0] == '}') {
-    s->size_bytes--;
-    s->data++;
-    return GEOARROW_OK;
-  } else {
-    return EINVAL;
+    NANOARROW_RETURN_NOT_OK(ParseChar(s, ','));
   }
 }
 
-- 
2.43.0


From 5e56e882a6873cebb7b450d6e4e5acfbe114b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 39/67] fix: limit the nesting of lists and objects in
 extension metadata

---
 src/geoarrow/metadata.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 0d6a7db..69492be 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,11 +106,18 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
+// The number of levels of nested lists and objects whose extents can be found
+#define GEOARROW_JSON_MAX_LEVELS 512
+
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+                                    struct ArrowStringView* out, int max_levels);
+
+static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
+                                  int max_levels) {
+  if (max_levels <= 0) {
+    return EINVAL;
+  }
 
-static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
   out->data = s->data;
   if (s->size_bytes == 0 || s->data[0] != '[') {
     return EINVAL;
@@ -126,10 +133,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
         NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
         break;
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, max_levels - 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, max_levels - 1));
         break;
       case ']':
         s->size_bytes--;
@@ -145,7 +152,11 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 }
 
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+                                    struct ArrowStringView* out, int max_levels) {
+  if (max_levels <= 0) {
+    return EINVAL;
+  }
+
   out->data = s->data;
   if (s->size_bytes == 0 || s->data[0] != '{') {
     return EINVAL;
@@ -161,10 +172,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
         NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
         break;
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, max_levels - 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, max_levels - 1));
         break;
       case '}':
         s->size_bytes--;
@@ -204,10 +215,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, GEOARROW_JSON_MAX_LEVELS));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, GEOARROW_JSON_MAX_LEVELS));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From 5530cd565394986071f60981535cb6469b771be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 40/67] fix: escape backslashes when serializing a crs

---
 src/geoarrow/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 69492be..0e7cc5f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -459,7 +459,7 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        if (val == '"') {
+        if (val == '\\' || val == '"') {
           *out++ = '\\';
         }
 
-- 
2.43.0


From 39851a6a03ff7551d3cede0a993d80fd8f1b80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 41/67] fix: read and write the escapes of control and unicode
 characters in a crs

---
 src/geoarrow/metadata.c | 132 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 120 insertions(+), 12 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 0e7cc5f..0a1f2dd 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -388,7 +388,12 @@ static int64_t GeoArrowMetadataCalculateSerializedSize(
       size_out += kSizeQuotes + metadata_view->crs.size_bytes;
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        size_out += val == '\\' || val == '"';
+        if (val >= 0 && val < 0x20) {
+          // \u00XX
+          size_out += 5;
+        } else {
+          size_out += val == '\\' || val == '"';
+        }
       }
     } else {
       size_out += metadata_view->crs.size_bytes;
@@ -459,6 +464,13 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
+        if (val >= 0 && val < 0x20) {
+          GeoArrowWriteString("\\u00", &out);
+          *out++ = "0123456789abcdef"[val >> 4];
+          *out++ = "0123456789abcdef"[val & 0x0F];
+          continue;
+        }
+
         if (val == '\\' || val == '"') {
           *out++ = '\\';
         }
@@ -572,6 +584,76 @@ GeoArrowErrorCode GeoArrowSchemaSetMetadataFrom(struct ArrowSchema* schema,
   return result;
 }
 
+// Reads four hexadecimal digits
+static int GeoArrowReadUnicodeEscape(struct GeoArrowStringView crs, int64_t i,
+                                     int64_t i_end, uint32_t* out) {
+  if ((i_end - i) < 4) {
+    return 0;
+  }
+
+  *out = 0;
+  for (int j = 0; j < 4; j++) {
+    char c = crs.data[i + j];
+    uint32_t digit;
+    if (c >= '0' && c <= '9') {
+      digit = c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      digit = c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      digit = c - 'A' + 10;
+    } else {
+      return 0;
+    }
+
+    *out = *out * 16 + digit;
+  }
+
+  return 1;
+}
+
+// Writes the UTF-8 encoding of the character whose escape (i.e., the digits that
+// follow \u) starts at *i and returns its size
+static int GeoArrowUnescapeUnicode(struct GeoArrowStringView crs, int64_t* i,
+                                   int64_t i_end, char* out) {
+  uint32_t code;
+  uint32_t low;
+  if (!GeoArrowReadUnicodeEscape(crs, *i, i_end, &code)) {
+    out[0] = 'u';
+    return 1;
+  }
+
+  *i += 4;
+  if (code >= 0xD800 && code < 0xDC00 && (i_end - *i) >= 6 && crs.data[*i] == '\\' &&
+      crs.data[*i + 1] == 'u' && GeoArrowReadUnicodeEscape(crs, *i + 2, i_end, &low) &&
+      low >= 0xDC00 && low < 0xE000) {
+    *i += 6;
+    code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+  } else if (code >= 0xD800 && code < 0xE000) {
+    // Half of a surrogate pair
+    code = 0xFFFD;
+  }
+
+  if (code < 0x80) {
+    out[0] = (char)code;
+    return 1;
+  } else if (code < 0x800) {
+    out[0] = (char)(0xC0 | (code >> 6));
+    out[1] = (char)(0x80 | (code & 0x3F));
+    return 2;
+  } else if (code < 0x10000) {
+    out[0] = (char)(0xE0 | (code >> 12));
+    out[1] = (char)(0x80 | ((code >> 6) & 0x3F));
+    out[2] = (char)(0x80 | (code & 0x3F));
+    return 3;
+  } else {
+    out[0] = (char)(0xF0 | (code >> 18));
+    out[1] = (char)(0x80 | ((code >> 12) & 0x3F));
+    out[2] = (char)(0x80 | ((code >> 6) & 0x3F));
+    out[3] = (char)(0x80 | (code & 0x3F));
+    return 4;
+  }
+}
+
 int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n) {
   if (crs.size_bytes == 0) {
     if (n > 0) {
@@ -592,20 +674,46 @@ int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n)
   }
 
   int64_t out_i = 0;
-  int is_escape = 0;
-  for (int64_t i = 1; i < (crs.size_bytes - 1); i++) {
-    if (!is_escape && crs.data[i] == '\\') {
-      is_escape = 1;
-      continue;
-    } else {
-      is_escape = 0;
+  int64_t i = 1;
+  int64_t i_end = crs.size_bytes - 1;
+  while (i < i_end) {
+    char value[4];
+    int n_value = 1;
+    value[0] = crs.data[i++];
+
+    if (value[0] == '\\' && i < i_end) {
+      value[0] = crs.data[i++];
+      switch (value[0]) {
+        case 'b':
+          value[0] = '\b';
+          break;
+        case 'f':
+          value[0] = '\f';
+          break;
+        case 'n':
+          value[0] = '\n';
+          break;
+        case 'r':
+          value[0] = '\r';
+          break;
+        case 't':
+          value[0] = '\t';
+          break;
+        case 'u':
+          n_value = GeoArrowUnescapeUnicode(crs, &i, i_end, value);
+          break;
+        default:
+          break;
+      }
     }
 
-    if (out_i < n) {
-      out[out_i] = crs.data[i];
-    }
+    for (int j = 0; j < n_value; j++) {
+      if (out_i < n) {
+        out[out_i] = value[j];
+      }
 
-    out_i++;
+      out_i++;
+    }
   }
 
   if (out_i < n) {
-- 
2.43.0


From 00e7a15c6d5a6deb20359119b2c773d66c6e2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 42/67] fix: match the geoarrow.wkb extension name exactly

---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From ef42b803e6ee2ecdd5020b7d0d0da5e3e09a4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 43/67] fix: set the schema member when initializing a schema
 view from a schema

---
 src/geoarrow/schema_view.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index b4757f1..dc33bc5 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -339,6 +339,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     return EINVAL;
   }
 
+  schema_view->schema = (struct ArrowSchema*)schema;
   schema_view->extension_name.data = na_schema_view->extension_name.data;
   schema_view->extension_name.size_bytes = na_schema_view->extension_name.size_bytes;
   schema_view->extension_metadata.data = na_schema_view->extension_metadata.data;
-- 
2.43.0


From 2d281ce95c447b96518e09e80eba5f03a7b24eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 44/67] fix: don't write to NULL when GeometryDataType can't
 allocate its metadata or crs

---
 src/geoarrow/hpp/geometry_data_type.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index c55e9b1..4f1753a 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -232,10 +232,8 @@ class GeometryDataType {
 
   std::string extension_metadata() const {
     int64_t metadata_size = GeoArrowMetadataSerialize(&metadata_view_, nullptr, 0);
-    char* out = reinterpret_cast<char*>(malloc(metadata_size));
-    GeoArrowMetadataSerialize(&metadata_view_, out, metadata_size);
-    std::string metadata(out, metadata_size);
-    free(out);
+    std::string metadata(metadata_size, '\0');
+    GeoArrowMetadataSerialize(&metadata_view_, &metadata[0], metadata_size);
     return metadata;
   }
 
@@ -266,10 +264,8 @@ class GeometryDataType {
 
   std::string crs() const {
     int64_t len = GeoArrowUnescapeCrs(metadata_view_.crs, nullptr, 0);
-    char* out = reinterpret_cast<char*>(malloc(len));
-    GeoArrowUnescapeCrs(metadata_view_.crs, out, len);
-    std::string out_str(out, len);
-    free(out);
+    std::string out_str(len, '\0');
+    GeoArrowUnescapeCrs(metadata_view_.crs, &out_str[0], len);
     return out_str;
   }
 
-- 
2.43.0


From 300229af18ef90e887e0990bbc795c433052ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 45/67] fix: don't copy C++ objects that own a C object

---
 src/geoarrow/hpp/array_reader.hpp | 3 +++
 src/geoarrow/hpp/array_writer.hpp | 6 ++++++
 src/geoarrow/hpp/internal.hpp     | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..76f3fbf 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -39,6 +39,9 @@ class ArrayReader {
                           GeoArrowArrayReaderInitFromSchema(&reader_, schema, &error));
   }
 
+  ArrayReader(const ArrayReader&) = delete;
+  ArrayReader& operator=(const ArrayReader&) = delete;
+
   ~ArrayReader() {
     if (reader_.private_data != nullptr) {
       GeoArrowArrayReaderReset(&reader_);
diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..5bb7136 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -19,6 +19,9 @@ class ArrayBuilder {
                           GeoArrowBuilderInitFromSchema(&builder_, schema, &error));
   }
 
+  ArrayBuilder(const ArrayBuilder&) = delete;
+  ArrayBuilder& operator=(const ArrayBuilder&) = delete;
+
   ~ArrayBuilder() {
     if (builder_.private_data != nullptr) {
       GeoArrowBuilderReset(&builder_);
@@ -94,6 +97,9 @@ class ArrayWriter {
     GEOARROW_THROW_NOT_OK(nullptr, GeoArrowArrayWriterInitFromSchema(&writer_, schema));
   }
 
+  ArrayWriter(const ArrayWriter&) = delete;
+  ArrayWriter& operator=(const ArrayWriter&) = delete;
+
   ~ArrayWriter() {
     if (writer_.private_data != nullptr) {
       GeoArrowArrayWriterReset(&writer_);
diff --git a/src/geoarrow/hpp/internal.hpp b/src/geoarrow/hpp/internal.hpp
index 6a43eef..0834ace 100644
--- a/src/geoarrow/hpp/internal.hpp
+++ b/src/geoarrow/hpp/internal.hpp
@@ -9,6 +9,9 @@ namespace geoarrow {
 namespace internal {
 struct SchemaHolder {
   struct ArrowSchema schema {};
+  SchemaHolder() = default;
+  SchemaHolder(const SchemaHolder&) = delete;
+  SchemaHolder& operator=(const SchemaHolder&) = delete;
   ~SchemaHolder() {
     if (schema.release != nullptr) {
       schema.release(&schema);
@@ -18,6 +21,9 @@ struct SchemaHolder {
 
 struct ArrayHolder {
   struct ArrowArray array {};
+  ArrayHolder() = default;
+  ArrayHolder(const ArrayHolder&) = delete;
+  ArrayHolder& operator=(const ArrayHolder&) = delete;
   ~ArrayHolder() {
     if (array.release != nullptr) {
       array.release(&array);
-- 
2.43.0


From 514561698fc7c33a4293493e79e8f68feb4fc706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 46/67] fix: set the multipoint style in
 ArrayWriter::SetFlatMultipoint()

---
 src/geoarrow/hpp/array_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 5bb7136..df32151 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -111,8 +111,8 @@ class ArrayWriter {
   }
 
   void SetFlatMultipoint(bool flat_multipoint) {
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+    GEOARROW_THROW_NOT_OK(
+        nullptr, GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From 0043b0f504882eba06da7b9ab7e9b38af50e9fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 47/67] fix: pass the builder by pointer in
 ArrayBuilder::SetBufferWrapped()

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index df32151..cc98b8c 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -39,7 +39,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From 430cde419204c725f3c10b8ce76eab1c257cd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 48/67] fix: release the previous array in
 ArrayReader::SetArray()

---
 src/geoarrow/hpp/array_reader.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 76f3fbf..b331d7a 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -49,9 +49,20 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    // The previous array may be in use until the reader has accepted the new one
+    internal::ArrayHolder previous;
+    std::memcpy(&previous.array, &array_.array, sizeof(struct ArrowArray));
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
-    SetArrayNonOwning(&array_.array);
+
+    try {
+      SetArrayNonOwning(&array_.array);
+    } catch (...) {
+      std::memcpy(array, &array_.array, sizeof(struct ArrowArray));
+      std::memcpy(&array_.array, &previous.array, sizeof(struct ArrowArray));
+      previous.array.release = nullptr;
+      throw;
+    }
   }
 
   void SetArrayNonOwning(const struct ArrowArray* array) {
-- 
2.43.0


From 374491f296c6068e64768e35a2f27b9f95a8e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 49/67] fix: use the stride and the loader in all operations of
 the dimension iterators

---
 src/geoarrow/hpp/array_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..9d287b3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -161,7 +161,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
@@ -202,7 +202,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From 6f6824e04df3a2a80623bce053f8a1dddf9fa21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 50/67] fix: initialize all bounds of BoxXYZ::Empty() and
 BoxXYM::Empty()

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 9d287b3..d72788a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -433,7 +433,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -453,7 +454,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From fa7083edcdd144e7fdd8bb94d64c0e580d595302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 51/67] fix: cast coordinates and keep the loader in array_util

---
 src/geoarrow/hpp/array_util.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d72788a..a86923c 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -640,7 +640,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
@@ -705,8 +705,9 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size ||
+        !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
@@ -782,8 +783,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence<Coord, Load> Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence<Coord, Load> out = *this;
     out.offset += offset;
     out.length = length;
     return out;
@@ -1111,7 +1112,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1233,7 +1234,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From 97baf5b0e53a7aeb996be6c994405c9249c258d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 52/67] fix: Accept an empty buffer without an address in
 GeoArrowBuilderSetOwnedBuffer()

---
 src/geoarrow/builder.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index ee92aa7..36334af 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -183,11 +183,19 @@ GeoArrowErrorCode GeoArrowBuilderSetOwnedBuffer(
   deallocator->private_data = private_data;
 
   ArrowBufferReset(buffer_src);
-  buffer_src->allocator =
-      ArrowBufferDeallocator(&GeoArrowBufferDeallocateWrapper, deallocator);
-  buffer_src->data = (uint8_t*)value.data;
-  buffer_src->size_bytes = value.size_bytes;
-  buffer_src->capacity_bytes = value.size_bytes;
+  if (value.data == NULL && value.size_bytes == 0) {
+    // There is nothing to keep (e.g., the data() of an empty container). Leave the
+    // buffer with its default allocator because finishing the array will allocate
+    // buffers that must not be NULL.
+    custom_free((uint8_t*)value.data, value.size_bytes, private_data);
+    ArrowFree(deallocator);
+  } else {
+    buffer_src->allocator =
+        ArrowBufferDeallocator(&GeoArrowBufferDeallocateWrapper, deallocator);
+    buffer_src->data = (uint8_t*)value.data;
+    buffer_src->size_bytes = value.size_bytes;
+    buffer_src->capacity_bytes = value.size_bytes;
+  }
 
   // Sync this information to the writable view
   builder->view.buffers[i].data.data = buffer_src->data;
-- 
2.43.0


From 9fa758ba1ea45c924973b4879e13ee00f6e56d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 53/67] fix: Forget appended coordinates when their buffer is
 replaced by an owned one

---
 src/geoarrow/builder.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 36334af..3cae81b 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -202,6 +202,33 @@ GeoArrowErrorCode GeoArrowBuilderSetOwnedBuffer(
   builder->view.buffers[i].size_bytes = buffer_src->size_bytes;
   builder->view.buffers[i].capacity_bytes = buffer_src->capacity_bytes;
 
+  // If this buffer contained coordinates, the writable coordinate view still refers to
+  // the buffer that was just replaced
+  struct GeoArrowWritableCoordView* writable_view = &builder->view.coords;
+  int64_t n_values = writable_view->n_values;
+  int64_t size_coords = 0;
+  switch (builder->view.schema_view.coord_type) {
+    case GEOARROW_COORD_TYPE_INTERLEAVED:
+      if (i != builder->view.n_buffers - 1) {
+        return GEOARROW_OK;
+      }
+      size_coords = value.size_bytes / (int64_t)sizeof(double) / n_values;
+      break;
+    case GEOARROW_COORD_TYPE_SEPARATE:
+      if (i < builder->view.n_buffers - n_values) {
+        return GEOARROW_OK;
+      }
+      size_coords = value.size_bytes / (int64_t)sizeof(double);
+      break;
+    default:
+      return GEOARROW_OK;
+  }
+
+  writable_view->capacity_coords = 0;
+  if (writable_view->size_coords > size_coords) {
+    writable_view->size_coords = size_coords;
+  }
+
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From e2e8e0b130c58cc595aebf98154fe8ef1efe596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 54/67] fix: Do not leave a schema behind when
 GeometryDataType::InitSchema() throws

---
 src/geoarrow/hpp/geometry_data_type.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/geometry_data_type.hpp b/src/geoarrow/hpp/geometry_data_type.hpp
index 4f1753a..b699863 100644
--- a/src/geoarrow/hpp/geometry_data_type.hpp
+++ b/src/geoarrow/hpp/geometry_data_type.hpp
@@ -9,6 +9,7 @@
 #include "geoarrow/geoarrow.h"
 
 #include "geoarrow/hpp/exception.hpp"
+#include "geoarrow/hpp/internal.hpp"
 
 namespace geoarrow {
 
@@ -209,10 +210,15 @@ class GeometryDataType {
   }
 
   void InitSchema(struct ArrowSchema* schema_out) const {
+    // Only hand over a complete schema such that nothing leaks if setting the metadata
+    // fails
+    internal::SchemaHolder tmp;
     GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowSchemaInitExtension(schema_out, schema_view_.type));
+                          GeoArrowSchemaInitExtension(&tmp.schema, schema_view_.type));
     GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowSchemaSetMetadata(schema_out, &metadata_view_));
+                          GeoArrowSchemaSetMetadata(&tmp.schema, &metadata_view_));
+    std::memcpy(schema_out, &tmp.schema, sizeof(struct ArrowSchema));
+    tmp.schema.release = nullptr;
   }
 
   void InitStorageSchema(struct ArrowSchema* schema_out) const {
-- 
2.43.0


From 956b093ddbee36b68b11c6a3213e519df9ae97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 55/67] fix: Return every buffer up to the last element of the
 rows from CArrayView.buffers()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 31 ++++++++++-------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index cb24350..d213a05 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -567,27 +567,24 @@ cdef class CArrayView:
         buf = None
         buffers.append(buf)
 
-        if self.c_array_view.n_offsets > 0:
+        # The buffers start at the first element of the array (i.e., before any
+        # offset), so they must include everything up to the last element that
+        # is referred to. An array without elements may not have any buffers
+        # whose content could be shared.
+        length = 0
+        if self.c_array_view.length[0] > 0:
+            length = self.c_array_view.offset[0] + self.c_array_view.length[0]
+
+        for i in range(self.c_array_view.n_offsets):
             buf = CArrayViewBuffer(
                 self,
-                <uintptr_t>self.c_array_view.offsets[0],
+                <uintptr_t>self.c_array_view.offsets[i],
                 4,
-                self.c_array_view.offset[0] + self.c_array_view.length[0] + 1,
+                length + 1,
                 'i'
             )
             buffers.append(buf)
-
-        if self.c_array_view.n_offsets > 1:
-            for i in range(self.c_array_view.n_offsets - 1):
-                length = self.c_array_view.last_offset[i]
-                buf = CArrayViewBuffer(
-                    self,
-                    <uintptr_t>self.c_array_view.offsets[i + 1],
-                    4,
-                    length + 1,
-                    'i'
-                )
-            buffers.append(buf)
+            length = self.c_array_view.last_offset[i]
 
         cdef GeoArrowCoordView* coords = &self.c_array_view.coords
         if coords.coords_stride == 1:
@@ -596,7 +593,7 @@ cdef class CArrayView:
                     self,
                     <uintptr_t>coords.values[i],
                     8,
-                    coords.n_coords,
+                    length,
                     'd'
                 )
                 buffers.append(buf)
@@ -605,7 +602,7 @@ cdef class CArrayView:
                 self,
                 <uintptr_t>coords.values[0],
                 8,
-                coords.n_coords * coords.n_values,
+                length * coords.n_values,
                 'd'
             )
             buffers.append(buf)
-- 
2.43.0


From b2b3745d9398875213861f8ee8cdf610ff01b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 56/67] fix: Raise GeoArrowCException when an array does not
 match the type of a CArrayView

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index d213a05..f4d117c 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -557,7 +557,7 @@ cdef class CArrayView:
 
         result = GeoArrowArrayViewSetArray(&self.c_array_view, &array.c_array, &error.c_error)
         if result != GEOARROW_OK:
-            raise ValueError(error.message.decode('UTF-8'))
+            error.raise_message("GeoArrowArrayViewSetArray()", result)
 
     def buffers(self):
         buffers = []
-- 
2.43.0


From a9b037b6d004c06cf9b9b619efde0bb5e9526093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 57/67] fix: Require contiguous buffers and keep their
 exporters alive in CBuilder.set_buffer_*()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx     | 30 +++++++++++++++----
 .../c/geoarrow_python/geoarrow_python.h       | 10 +++++--
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index f4d117c..cdf8aca 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -665,20 +665,38 @@ cdef class CBuilder:
         GeoArrowBuilderReset(&self.c_builder)
 
     def set_buffer_uint8(self, int64_t i, object obj):
-        cdef const unsigned char[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0])
+        # The memoryview (and not just obj) must be kept for as long as the pointer
+        # is in use (e.g., to ensure that a bytearray is not resized)
+        owner = memoryview(obj)
+        cdef const unsigned char[::1] view = owner
+        cdef const void* ptr = NULL
+        if view.shape[0] > 0:
+            ptr = &(view[0])
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, ptr, view.shape[0])
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_int32(self, int64_t i, object obj):
-        cdef const int32_t[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 4)
+        # The memoryview (and not just obj) must be kept for as long as the pointer
+        # is in use (e.g., to ensure that a bytearray is not resized)
+        owner = memoryview(obj)
+        cdef const int32_t[::1] view = owner
+        cdef const void* ptr = NULL
+        if view.shape[0] > 0:
+            ptr = &(view[0])
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, ptr, view.shape[0] * 4)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
     def set_buffer_double(self, int64_t i, object obj):
-        cdef const double[:] view = memoryview(obj)
-        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>obj, &(view[0]), view.shape[0] * 8)
+        # The memoryview (and not just obj) must be kept for as long as the pointer
+        # is in use (e.g., to ensure that a bytearray is not resized)
+        owner = memoryview(obj)
+        cdef const double[::1] view = owner
+        cdef const void* ptr = NULL
+        if view.shape[0] > 0:
+            ptr = &(view[0])
+        cdef int result = GeoArrowBuilderSetPyBuffer(&self.c_builder, i, <PyObject*>owner, ptr, view.shape[0] * 8)
         if result != GEOARROW_OK:
             Error.raise_error("GeoArrowBuilderSetPyBuffer()", result)
 
diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index 7c8dd8e..af60814 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -21,15 +21,19 @@ static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* buil
   view.data = (const uint8_t*)ptr;
   view.size_bytes = size;
 
-  // This only fails with ENOMEM for a small allocation before the buffer is added
-  // to the builder.
+  // The reference must exist before the buffer is added to the builder, which may
+  // release it immediately (e.g., if there is nothing to keep)
+  Py_INCREF(obj);
+
+  // This only fails before the buffer is added to the builder (i.e., if i is not valid or
+  // with ENOMEM for a small allocation).
   int result =
       GeoArrowBuilderSetOwnedBuffer(builder, i, view, &PyGeoArrowBufferFree, obj);
   if (result != GEOARROW_OK) {
+    Py_DECREF(obj);
     return result;
   }
 
-  Py_INCREF(obj);
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From 9912a508a1da557dbe343860b22b768d8a521c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 58/67] fix: Acquire the GIL before dropping the owner of a
 buffer in the Python bindings

---
 .../src/geoarrow/c/geoarrow_python/geoarrow_python.h         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
index af60814..fcba8c7 100644
--- a/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
+++ b/python/geoarrow-c/src/geoarrow/c/geoarrow_python/geoarrow_python.h
@@ -7,9 +7,12 @@
 #include "geoarrow/geoarrow.h"
 
 static void PyGeoArrowBufferFree(uint8_t* ptr, int64_t size, void* private_data) {
-  // Acquire the GIL? This buffer very well maybe freed from another thread.
+  // This buffer may be freed from any thread (e.g., because the array was exported to
+  // another library) that may or may not hold the GIL.
   PyObject* obj = (PyObject*)private_data;
+  PyGILState_STATE state = PyGILState_Ensure();
   Py_DECREF(obj);
+  PyGILState_Release(state);
 }
 
 static GeoArrowErrorCode GeoArrowBuilderSetPyBuffer(struct GeoArrowBuilder* builder,
-- 
2.43.0


From 5bdf598c34829fd48e9926a7ca78025abaa6c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 59/67] fix: Do not fail to decode error messages in the Python
 bindings

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index cdf8aca..be5630a 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -295,7 +295,7 @@ cdef class Error:
         self.c_error.message[0] = 0
 
     def raise_message(self, what, code):
-        raise GeoArrowCException(what, code, self.c_error.message.decode("UTF-8"))
+        raise GeoArrowCException(what, code, self.c_error.message.decode("UTF-8", "replace"))
 
     @staticmethod
     def raise_error(what, code):
-- 
2.43.0


From cebf8ec33fbcaace16d20709fcbe30f9830ea6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 60/67] fix: Finish scalar kernels without an output in
 CKernel.finish()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index be5630a..a4cc814 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -519,10 +519,9 @@ cdef class CKernel:
 
     def finish(self):
         cdef Error error = Error()
-        out = ArrayHolder()
         cdef int result
         with nogil:
-            result = self.c_kernel.finish(&self.c_kernel, &out.c_array, &error.c_error)
+            result = self.c_kernel.finish(&self.c_kernel, NULL, &error.c_error)
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-- 
2.43.0


From 18056f68e31cdcdfa27465f85d43b147ef726dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 61/67] fix: Do not dereference None in the Python bindings

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index a4cc814..1711d04 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -471,12 +471,12 @@ cdef class CGeometryDataType:
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromExtension(SchemaHolder schema):
+    def FromExtension(SchemaHolder schema not None):
         cdef GeometryDataType ctype = GeometryDataType.Make1(&schema.c_schema)
         return CGeometryDataType._move_from_ctype(&ctype)
 
     @staticmethod
-    def FromStorage(SchemaHolder schema, string extension_name, string extension_metadata):
+    def FromStorage(SchemaHolder schema not None, string extension_name, string extension_metadata):
         cdef GeometryDataType ctype = GeometryDataType.Make2(&schema.c_schema, extension_name, extension_metadata)
         return CGeometryDataType._move_from_ctype(&ctype)
 
@@ -495,7 +495,7 @@ cdef class CKernel:
         if self.c_kernel.release != NULL:
             self.c_kernel.release(&self.c_kernel)
 
-    def start(self, SchemaHolder schema, const char* options):
+    def start(self, SchemaHolder schema not None, const char* options):
         cdef Error error = Error()
         out = SchemaHolder()
         cdef int result = self.c_kernel.start(&self.c_kernel, &schema.c_schema,
@@ -505,7 +505,7 @@ cdef class CKernel:
 
         return out
 
-    def push_batch(self, ArrayHolder array):
+    def push_batch(self, ArrayHolder array not None):
         cdef Error error = Error()
         out = ArrayHolder()
         cdef int result
@@ -525,7 +525,7 @@ cdef class CKernel:
         if result != GEOARROW_OK:
             error.raise_message(f"GeoArrowKernel<{self.cname_str}>::finish()", result)
 
-    def push_batch_agg(self, ArrayHolder array):
+    def push_batch_agg(self, ArrayHolder array not None):
         cdef Error error = Error()
         cdef int result = self.c_kernel.push_batch(&self.c_kernel, &array.c_array,
                                                    NULL, &error.c_error)
@@ -546,7 +546,7 @@ cdef class CArrayView:
     cdef GeoArrowArrayView c_array_view
     cdef object _base
 
-    def __cinit__(self, ArrayHolder array, SchemaHolder schema):
+    def __cinit__(self, ArrayHolder array not None, SchemaHolder schema not None):
         self._base = array
 
         cdef Error error = Error()
@@ -653,7 +653,7 @@ cdef class CBuilder:
     cdef GeoArrowBuilder c_builder
     cdef SchemaHolder _schema
 
-    def __cinit__(self, SchemaHolder schema):
+    def __cinit__(self, SchemaHolder schema not None):
         self._schema = schema
         cdef Error error = Error()
         cdef int result = GeoArrowBuilderInitFromSchema(&self.c_builder, &schema.c_schema, &error.c_error)
-- 
2.43.0


From 6fd2b0c80bea4e11254e00d1ac23d549e07fe3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 62/67] fix: Translate exceptions thrown by crs() and
 ToString() in the Python bindings

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 1711d04..96c3b2f 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -239,8 +239,8 @@ cdef extern from "geoarrow.hpp" namespace "geoarrow":
         int num_dimensions()
         GeoArrowEdgeType edge_type()
         GeoArrowCrsType crs_type()
-        string crs()
-        string ToString()
+        string crs() except +ValueError
+        string ToString() except +ValueError
 
         GeometryDataType WithGeometryType(GeoArrowGeometryType geometry_type) except +ValueError
         GeometryDataType WithCoordType(GeoArrowCoordType coord_type) except +ValueError
-- 
2.43.0


From 32b447c2a601b3d52ed1daa3139be7168b6ee4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 63/67] fix: Do not hand out writable buffers from CArrayView

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 96c3b2f..0f35791 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -5,7 +5,7 @@
 """Low-level geoarrow Python bindings."""
 
 from libc.stdint cimport uint8_t, int32_t, int64_t, uintptr_t
-from cpython cimport Py_buffer, PyObject
+from cpython cimport Py_buffer, PyBUF_WRITABLE, PyObject
 from libcpp cimport bool
 from libcpp.string cimport string
 
@@ -626,6 +626,9 @@ cdef class CArrayViewBuffer:
         self._format = format
 
     def __getbuffer__(self, Py_buffer *buffer, int flags):
+        if flags & PyBUF_WRITABLE:
+            raise BufferError("CArrayViewBuffer is read-only")
+
         buffer.buf = self._ptr
 
         if self._format == 'i':
-- 
2.43.0


From 8fed7a8e9813e0e2021c67b61214249a0cf6956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 64/67] fix: Include the name of the kernel in the error raised
 by CKernel()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index 0f35791..b03163f 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -489,7 +489,7 @@ cdef class CKernel:
         self.cname_str = cname.decode("UTF-8")
         cdef int result = GeoArrowKernelInit(&self.c_kernel, cname, NULL)
         if result != GEOARROW_OK:
-            Error.raise_error("GeoArrowKernelInit('{self.cname_str}'>)", result)
+            Error.raise_error(f"GeoArrowKernelInit('{self.cname_str}')", result)
 
     def __dealloc__(self):
         if self.c_kernel.release != NULL:
-- 
2.43.0


From 4bc2cb07f6a9b40ae97494923ff9b760baedbed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 65/67] fix: Do not make type identifiers from invalid
 dimensions or coordinate types

---
 src/geoarrow/geoarrow_type_inline.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index b5d1015..ea3b3cb 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -243,6 +243,13 @@ static inline enum GeoArrowType GeoArrowMakeType(enum GeoArrowGeometryType geome
   } else if (geometry_type == GEOARROW_GEOMETRY_TYPE_BOX &&
              coord_type != GEOARROW_COORD_TYPE_SEPARATE) {
     return GEOARROW_TYPE_UNINITIALIZED;
+  } else if ((int)dimensions < GEOARROW_DIMENSIONS_XY ||
+             (int)dimensions > GEOARROW_DIMENSIONS_XYZM ||
+             (int)coord_type < GEOARROW_COORD_TYPE_SEPARATE ||
+             (int)coord_type > GEOARROW_COORD_TYPE_INTERLEAVED) {
+    // Values that are not members of the enumerations must not become (part of) the
+    // identifier of another type
+    return GEOARROW_TYPE_UNINITIALIZED;
   }
 
   int type_int = (dimensions - 1) * 1000 + (coord_type - 1) * 10000 + geometry_type;
-- 
2.43.0


From e73f74c67cbb726faea9f70112955729449a40dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 66/67] fix: Return EINVAL if a kernel that has an output is
 called without one

---
 src/geoarrow/kernel.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index bada953..a27f581 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -28,6 +28,10 @@ static int kernel_push_batch_void(struct GeoArrowKernel* kernel, struct ArrowArr
   NANOARROW_UNUSED(array);
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
   tmp.length = array->length;
@@ -76,9 +80,12 @@ static int kernel_push_batch_void_agg(struct GeoArrowKernel* kernel,
 static int kernel_finish_void_agg(struct GeoArrowKernel* kernel, struct ArrowArray* out,
                                   struct GeoArrowError* error) {
   NANOARROW_UNUSED(kernel);
-  NANOARROW_UNUSED(out);
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct ArrowArray tmp;
   NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(&tmp, NANOARROW_TYPE_NA));
   tmp.length = 1;
@@ -207,7 +214,14 @@ static void kernel_release_visitor(struct GeoArrowKernel* kernel) {
 // output of the features that were visited before the failure must not become part
 // of the output for this batch.
 static int kernel_start_batch(struct GeoArrowVisitorKernelPrivate* private_data,
-                              struct ArrowArray* array, struct GeoArrowError* error) {
+                              struct ArrowArray* array, struct ArrowArray* out,
+                              struct GeoArrowError* error) {
+  // Only aggregate kernels have nothing to output until they are finished
+  if (out == NULL &&
+      private_data->finish_push_batch != &finish_push_batch_do_nothing) {
+    return EINVAL;
+  }
+
   if (private_data->has_partial_batch) {
     struct ArrowArray tmp;
     tmp.release = NULL;
@@ -237,7 +251,7 @@ static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* a
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
-  NANOARROW_RETURN_NOT_OK(kernel_start_batch(private_data, array, error));
+  NANOARROW_RETURN_NOT_OK(kernel_start_batch(private_data, array, out, error));
 
   private_data->has_partial_batch = 1;
   NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,
@@ -252,7 +266,7 @@ static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
-  NANOARROW_RETURN_NOT_OK(kernel_start_batch(private_data, array, error));
+  NANOARROW_RETURN_NOT_OK(kernel_start_batch(private_data, array, out, error));
 
   private_data->has_partial_batch = 1;
   int result;
@@ -483,6 +497,10 @@ static int kernel_finish_unique_geometry_types_agg(struct GeoArrowKernel* kernel
                                                    struct GeoArrowError* error) {
   NANOARROW_UNUSED(error);
 
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
   uint64_t result_mask = private_data->geometry_types_private.geometry_types_mask;
@@ -704,6 +722,10 @@ static int finish_start_box_agg(struct GeoArrowVisitorKernelPrivate* private_dat
 
 static int kernel_finish_box_agg(struct GeoArrowKernel* kernel, struct ArrowArray* out,
                                  struct GeoArrowError* error) {
+  if (out == NULL) {
+    return EINVAL;
+  }
+
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
-- 
2.43.0


From 425af25cce7c37d3f7018b06c69aec8322091f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 67/67] fix: Return the data of serialized arrays from
 CArrayView.buffers()

---
 python/geoarrow-c/src/geoarrow/c/_lib.pyx | 25 +++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/python/geoarrow-c/src/geoarrow/c/_lib.pyx b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
index b03163f..5e9bbe2 100644
--- a/python/geoarrow-c/src/geoarrow/c/_lib.pyx
+++ b/python/geoarrow-c/src/geoarrow/c/_lib.pyx
@@ -186,6 +186,7 @@ cdef extern from "geoarrow_type.h":
         const int32_t* offsets[3]
         int32_t first_offset[3]
         int32_t last_offset[3]
+        const uint8_t* data
         GeoArrowCoordView coords
 
 
@@ -571,6 +572,10 @@ cdef class CArrayView:
         # is referred to. An array without elements may not have any buffers
         # whose content could be shared.
         length = 0
+        cdef bool is_serialized = self.c_array_view.schema_view.type in (
+            GEOARROW_TYPE_WKB,
+            GEOARROW_TYPE_WKT
+        )
         if self.c_array_view.length[0] > 0:
             length = self.c_array_view.offset[0] + self.c_array_view.length[0]
 
@@ -579,11 +584,25 @@ cdef class CArrayView:
                 self,
                 <uintptr_t>self.c_array_view.offsets[i],
                 4,
-                length + 1,
+                length + 1 if self.c_array_view.offsets[i] != NULL else 0,
                 'i'
             )
             buffers.append(buf)
-            length = self.c_array_view.last_offset[i]
+            if not is_serialized:
+                length = self.c_array_view.last_offset[i]
+
+        if is_serialized:
+            if length > 0:
+                length = self.c_array_view.offsets[0][length]
+            buf = CArrayViewBuffer(
+                self,
+                <uintptr_t>self.c_array_view.data,
+                1,
+                length,
+                'B'
+            )
+            buffers.append(buf)
+            return buffers
 
         cdef GeoArrowCoordView* coords = &self.c_array_view.coords
         if coords.coords_stride == 1:
@@ -635,6 +654,8 @@ cdef class CArrayViewBuffer:
             buffer.format = 'i'
         elif self._format == 'd':
             buffer.format = 'd'
+        elif self._format == 'B':
+            buffer.format = 'B'
         else:
             buffer.format = NULL
 
-- 
2.43.0

