From 1994e2d78052584f40d09309f5deed1594a9e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 1/7] fix: parse must not read past the end of the given string
 view

---
 include/vecmath/mat_io.h | 9 +++++++--
 include/vecmath/vec_io.h | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/mat_io.h b/include/vecmath/mat_io.h
index 3adf1cf..7757f80 100644
--- a/include/vecmath/mat_io.h
+++ b/include/vecmath/mat_io.h
@@ -22,8 +22,11 @@
 
 #include "mat.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
+#include <string>
+#include <string_view>
 
 namespace vm {
 /**
@@ -53,8 +56,10 @@ std::optional<mat<T, R, C>> parse(const std::string_view str) {
       if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
         return std::nullopt;
       }
-      result[c][r] = static_cast<T>(std::atof(str.data() + pos));
-      if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+      // std::atof expects a null terminated string, so it must not be given the string view's data
+      const auto end = str.find_first_of(blank, pos);
+      result[c][r] = static_cast<T>(std::atof(std::string(str.substr(pos, end - pos)).c_str()));
+      if ((pos = end) == std::string::npos) {
         if ((r * C) + c < R * C - 1u) {
           return std::nullopt;
         }
diff --git a/include/vecmath/vec_io.h b/include/vecmath/vec_io.h
index 17ec21a..8028c8e 100644
--- a/include/vecmath/vec_io.h
+++ b/include/vecmath/vec_io.h
@@ -22,6 +22,7 @@
 
 #include "vec.h"
 
+#include <cstdlib>
 #include <optional>
 #include <ostream>
 #include <string>
@@ -38,8 +39,10 @@ std::optional<vec<T, S>> doParse(const std::string_view str, size_t& pos) {
     if ((pos = str.find_first_not_of(blank, pos)) == std::string::npos) {
       return std::nullopt;
     }
-    result[i] = static_cast<T>(std::atof(str.data() + pos));
-    if ((pos = str.find_first_of(blank, pos)) == std::string::npos) {
+    // std::atof expects a null terminated string, so it must not be given the string view's data
+    const auto end = str.find_first_of(blank, pos);
+    result[i] = static_cast<T>(std::atof(std::string(str.substr(pos, end - pos)).c_str()));
+    if ((pos = end) == std::string::npos) {
       if (i < S - 1) {
         return std::nullopt;
       }
-- 
2.43.0


From 68577fcc408ca9a1cec5421a10acd01b0464b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 2/7] fix: from_points must apply the given getter to the
 points of the range

---
 include/vecmath/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vecmath/plane.h b/include/vecmath/plane.h
index 0b96c53..fba2dfa 100644
--- a/include/vecmath/plane.h
+++ b/include/vecmath/plane.h
@@ -396,17 +396,17 @@ auto from_points(I cur, I end, const G& get = G())
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p1 = *cur;
+  const auto p1 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p2 = *cur;
+  const auto p2 = get(*cur);
   ++cur;
   if (cur == end) {
     return std::make_tuple(false, plane<T, 3>());
   }
-  const auto p3 = *cur;
+  const auto p3 = get(*cur);
 
   return from_points(p1, p2, p3);
 }
-- 
2.43.0


From 2184eeef5cc8503b2b056e8d5e46633ca91be624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 3/7] fix: restore the canonical vertex order when converting a
 polygon's component type

---
 include/vecmath/polygon.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index f6d8158..117f6e4 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -110,6 +110,8 @@ public:
     for (const auto& vertex : other.vertices()) {
       m_vertices.push_back(vec<T, S>(vertex));
     }
+    // the conversion may round distinct vertices to a different order
+    rotate_min_to_front();
   }
 
   /**
-- 
2.43.0


From 38132bbed50ab3c741f82a8765295a7b2bc6ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 4/7] fix: restore the canonical point order when converting a
 segment's component type

---
 include/vecmath/segment.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vecmath/segment.h b/include/vecmath/segment.h
index dcae42e..2876801 100644
--- a/include/vecmath/segment.h
+++ b/include/vecmath/segment.h
@@ -77,8 +77,7 @@ public:
    */
   template <typename U>
   explicit constexpr segment(const segment<U, S>& other)
-    : m_start(other.start())
-    , m_end(other.end()) {}
+    : segment(vec<T, S>(other.start()), vec<T, S>(other.end())) {}
 
   /**
    * Returns the origin of this segment.
-- 
2.43.0


From 27d027b9dd12c9a4344acbfb7c7ca8ed80391791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:32 +0000
Subject: [PATCH 5/7] fix: compareUnoriented ignored a difference in the second
 vertex

When the backward comparison failed, the forward comparison started at the
third vertex, so polygons that differ only in their second vertex compared
equal.
---
 include/vecmath/polygon.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/vecmath/polygon.h b/include/vecmath/polygon.h
index 117f6e4..1ebf117 100644
--- a/include/vecmath/polygon.h
+++ b/include/vecmath/polygon.h
@@ -424,10 +424,8 @@ int compareUnoriented(
         const auto j = count - i;
         const auto cmp = compare(lhsVerts[i], rhsVerts[j], epsilon);
         if (cmp != 0) {
-          // Backward compare failed, so make a forward compare
-          return compare(
-            std::next(std::begin(lhsVerts), 2), std::end(lhsVerts),
-            std::next(std::begin(rhsVerts), 2), std::end(rhsVerts), epsilon);
+          // Backward compare failed, so the forward compare decides: it differs at the second vertex
+          return cmp1;
         }
         ++i;
       }
-- 
2.43.0


From 817882c56c36bd5615a6d1fab0897fae490b8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:46 +0000
Subject: [PATCH 6/7] fix: a bounds builder without any additions returns an
 empty box at the origin as documented

---
 include/vecmath/bbox.h | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/vecmath/bbox.h b/include/vecmath/bbox.h
index f59db5f..42315f4 100644
--- a/include/vecmath/bbox.h
+++ b/include/vecmath/bbox.h
@@ -45,15 +45,13 @@ public:
   class builder {
   private:
     bbox m_bounds;
+    bool m_initialized = false;
 
   public:
     /**
      * Creates a new unitialized instance.
      */
-    constexpr builder()
-      : m_bounds(false) {
-      // put the bounds to an invalid state to signal that its unitialized
-    }
+    constexpr builder() = default;
 
     /**
      * Returns the bounds. If the no point has been added, an empty bbox at the origin is returned.
@@ -63,7 +61,7 @@ public:
     /**
      * Returns whether anything has been added to this builder.
      */
-    constexpr bool initialized() const { return m_bounds.is_valid(); }
+    constexpr bool initialized() const { return m_initialized; }
 
     /**
      * Adds the given range of points.
@@ -87,6 +85,7 @@ public:
     constexpr void add(const vec<T, S>& point) {
       if (!initialized()) {
         m_bounds.min = m_bounds.max = point;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, point);
       }
@@ -98,6 +97,7 @@ public:
     constexpr void add(const bbox& box) {
       if (!initialized()) {
         m_bounds = box;
+        m_initialized = true;
       } else {
         m_bounds = merge(m_bounds, box);
       }
@@ -181,16 +181,6 @@ public:
     assert(is_valid());
   }
 
-private:
-  /**
-   * This constructor is used by the builder to create an invalid bbox.
-   */
-  constexpr bbox(const bool)
-    : min(vec<T, S>::fill(T(1)))
-    , max(vec<T, S>::fill(T(0))) {
-    assert(!is_valid());
-  }
-
 public:
   /**
    * Creates the smallest bounding box that contains all points in the given range. Optionally
-- 
2.43.0


From e1e05bdaa19cce005bf8dea68fc1347b68100d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:35 +0000
Subject: [PATCH 7/7] fix: normalizing an angle must not take time proportional
 to its magnitude, or forever

---
 include/vecmath/scalar.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vecmath/scalar.h b/include/vecmath/scalar.h
index 06245e3..af7e272 100644
--- a/include/vecmath/scalar.h
+++ b/include/vecmath/scalar.h
@@ -624,7 +624,8 @@ template <typename T> constexpr T normalize_radians(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = constants<T>::two_pi();
-  while (angle < z) {
+  angle = mod(angle, o);
+  if (angle < z) {
     angle += o;
   }
   return mod(angle, o);
@@ -641,7 +642,8 @@ template <typename T> constexpr T normalize_degrees(T angle) {
   static_assert(std::is_floating_point<T>::value, "T must be a floating point type");
   constexpr T z = static_cast<T>(0.0);
   constexpr T o = static_cast<T>(360.0);
-  while (angle < z) {
+  angle = mod(angle, o);
+  if (angle < z) {
     angle += o;
   }
   return mod(angle, o);
-- 
2.43.0

