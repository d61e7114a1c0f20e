From 957c94198dfc872bf16cd882daaea1bed8bf8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 01/16] fix: exp2 computed e^x instead of 2^x

---
 src/exponential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential.cpp b/src/exponential.cpp
index 06a6857..d6a8956 100644
--- a/src/exponential.cpp
+++ b/src/exponential.cpp
@@ -184,7 +184,7 @@ zcm::quat zcm_vectorcall zcm::exp(zcm::quat x) noexcept
 
 float zcm::exp2(float x) noexcept
 {
-    return expf(x);
+    return exp2f(x);
 }
 
 zcm::vec2 zcm::exp2(const zcm::vec2& x) noexcept
-- 
2.43.0


From 1ff4ff38c06456bbbcd292dd0b9243c03a3b2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 02/16] fix: roundEven rounded to the nearest even integer, not
 to nearest with ties to even

---
 src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index 17cb888..53420e9 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -353,7 +353,7 @@ zcm::vec4 zcm_vectorcall zcm::round(zcm::vec4 x) noexcept
 
 float zcm::roundEven(float x) noexcept
 {
-    return std::nearbyint(x * 0.5f) * 2.0f;
+    return std::nearbyint(x);
 }
 
 zcm::vec2 zcm::roundEven(const zcm::vec2& x) noexcept
-- 
2.43.0


From 9561983cb0fc66de5c6b704a8dfd3f6aceb57a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 03/16] fix: length of a negative scalar was negative

---
 src/geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 5baab6f..13c8650 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -213,7 +213,7 @@ zcm::vec4 zcm_vectorcall zcm::refract(zcm::vec4 I, zcm::vec4 N, float eta) noexc
 
 float zcm::length(float first) noexcept
 {
-    return first;
+    return abs(first);
 }
 
 float zcm::length(const zcm::vec2& first) noexcept
-- 
2.43.0


From bdc650da95255999b52621afd41d574b63f98b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 04/16] fix: distance2 of vec3 and vec4 returned the distance,
 not its square

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 13c8650..538d634 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -283,12 +283,12 @@ float zcm::distance2(const zcm::vec2 &first, const zcm::vec2 &second) noexcept
 
 float zcm::distance2(const zcm::vec3 &first, const zcm::vec3 &second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 float zcm_vectorcall zcm::distance2(zcm::vec4 first, zcm::vec4 second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 
-- 
2.43.0


From 486c6afd6a01cfe0da3d40a7c0ee4f95d37ac784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 05/16] fix: two-component operator[] accepted index 2

---
 src/bvec2.cpp | 4 ++--
 src/ivec2.cpp | 4 ++--
 src/vec2.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bvec2.cpp b/src/bvec2.cpp
index 27f0619..f353495 100644
--- a/src/bvec2.cpp
+++ b/src/bvec2.cpp
@@ -132,7 +132,7 @@ bool zcm::operator !=(zcm::bvec2 first, zcm::bvec2 second) noexcept
 
 bool& zcm::bvec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
@@ -144,7 +144,7 @@ bool& zcm::bvec2::operator[](unsigned val) noexcept
 
 bool zcm::bvec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index ceeca53..43e4e4a 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -105,13 +105,13 @@ bool zcm::operator>=(zcm::ivec2 first, zcm::ivec2 second) noexcept
 
 int32_t& zcm::ivec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const int32_t& zcm::ivec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
diff --git a/src/vec2.cpp b/src/vec2.cpp
index 4a80148..b8bb5b5 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -101,13 +101,13 @@ bool zcm::operator!=(zcm::vec2 first, zcm::vec2 second) noexcept
 
 float& zcm::vec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const float& zcm::vec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
-- 
2.43.0


From 1dc1bd68f301905b0fc6547d3cdf0cc00975bec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 06/16] fix: mat3(mat2) read a third column that mat2 does not
 have

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From eef93280097b5d061e659a05f501ee003c3ee7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 07/16] fix: hash(mat4) ignored its third column

---
 src/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 4d9c34a..261b888 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -73,7 +73,7 @@ size_t zcm::hash(const zcm::mat3 &m) noexcept
 
 size_t zcm::hash(const zcm::mat4 &m) noexcept
 {
-    return hash(m[0]) ^ hash(m[1]) ^ hash(m[1]) ^ hash(m[3]);
+    return hash(m[0]) ^ hash(m[1]) ^ hash(m[2]) ^ hash(m[3]);
 }
 
 size_t zcm::hash(const zcm::bvec2 &b) noexcept
-- 
2.43.0


From 038aacda113fe75959809d211be33c5c6785b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 08/16] fix: +0 and -0 compare equal but hashed differently

---
 src/hash.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 261b888..477f221 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -17,8 +17,11 @@
 static size_t float_hash(float f) noexcept
 {
     static_assert (sizeof(float) == sizeof(unsigned), "Float and unsigned must have same size!");
-    unsigned ui;
-    std::memcpy(&ui, &f, sizeof(float));
+    unsigned ui = 0;
+    // +0 and -0 compare equal, so they must hash alike
+    if (f != 0.0f) {
+        std::memcpy(&ui, &f, sizeof(float));
+    }
     return zcm::hash(ui);
 }
 
-- 
2.43.0


From 62828732e4cd0b8ffd498e5645f3c7ae52c68c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 09/16] fix: ivec4 declared %, |, &, ^, >>, << without defining
 them

---
 src/ivec4.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index f8ff2cc..7b29d8a 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -90,12 +90,24 @@ ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, +)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, -)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, *)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, /)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, %)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, |)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, &)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, ^)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, >>)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, <<)
 }
 
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, +=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, -=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, *=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, /=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, %=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, |=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, &=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, ^=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, >>=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, <<=)
 
 zcm::ivec4 zcm::operator -(zcm::ivec4 first) noexcept
 {
-- 
2.43.0


From 23377736f4289e9848d14dc3705384967247549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 10/16] fix: convertLinearToSRGB with a gamma raised to gamma
 instead of its reciprocal

---
 src/color_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6498b69..7471047 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -13,7 +13,7 @@ zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 {
 	auto ClampedColor = clamp(colorLinear, vec3{0}, vec3{1});
-	return mix(pow(ClampedColor, vec3(Gamma)) * 1.055f - 0.055f,
+	return mix(pow(ClampedColor, vec3(1.0f / Gamma)) * 1.055f - 0.055f,
 	           ClampedColor * 12.92f,
 	           lessThan(ClampedColor, vec3(0.0031308f)));
 }
-- 
2.43.0


From aedf33129625585de8e3d15b9bcf742280779faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 11/16] fix: decode_octahedral unfolds the lower hemisphere
 with the encoder's formula

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 538d634..8bbe0cd 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -327,8 +327,8 @@ zcm::vec3 zcm::decode_octahedral(zcm::vec2 e) noexcept
 {
     auto v = zcm::vec3(e.x, e.y, 1.0f - abs(e.x) - abs(e.y));
     if (v.z < 0.0f) {
-        v.x = 1.0f - abs(v.y) * signNotZero(v.x);
-        v.y = 1.0f - abs(v.x) * signNotZero(v.y);
+        v.x = (1.0f - abs(e.y)) * signNotZero(e.x);
+        v.y = (1.0f - abs(e.x)) * signNotZero(e.y);
     }
     return normalize(v);
 }
-- 
2.43.0


From 137ac7a214428f71e42362ed6a22d45608ff4324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 12/16] fix: inverseTranspose(mat2) returns the transpose of
 the inverse

---
 src/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0b1ea48..1cc9a11 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -286,8 +286,8 @@ zcm::mat2 zcm::inverseTranspose(const zcm::mat2 &m) noexcept
 
     mat2 Inverse(
         + m[1][1] / Determinant,
-        - m[0][1] / Determinant,
         - m[1][0] / Determinant,
+        - m[0][1] / Determinant,
         + m[0][0] / Determinant);
 
     return Inverse;
-- 
2.43.0


From 5d830c03b2ca1d6ac33b42223b29df49da210926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 13/16] fix: adjugateTranspose(mat2) returns the transpose of
 the adjugate

---
 src/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 1cc9a11..bdb40e7 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -368,8 +368,8 @@ zcm::mat4 zcm::inverseTranspose(const zcm::mat4 &m) noexcept
 zcm::mat2 zcm::adjugateTranspose(const mat2 &m) noexcept
 {
     mat2 Adjugate(+ m[1][1],
-                  - m[0][1],
                   - m[1][0],
+                  - m[0][1],
                   + m[0][0]);
 
     return Adjugate;
-- 
2.43.0


From 46cdc9642fc9ac42b012155a01d611a8996a3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 14/16] fix: the library did not compile with
 ZCM_DISABLE_SWIZZLE

---
 src/color_space.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 7471047..6198cce 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -7,7 +7,7 @@
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 {
-	return {convertLinearToSRGB(ColorLinear.rgb, Gamma), ColorLinear.a};
+	return {convertLinearToSRGB(vec3(ColorLinear.r, ColorLinear.g, ColorLinear.b), Gamma), ColorLinear.a};
 }
 
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
@@ -29,7 +29,7 @@ zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear) noexcept
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 colorLinear) noexcept
 {
-	return {convertLinearToSRGB(colorLinear.rgb), colorLinear.a};
+	return {convertLinearToSRGB(vec3(colorLinear.r, colorLinear.g, colorLinear.b)), colorLinear.a};
 }
 
 
@@ -42,7 +42,7 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB, float Gamma) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB, float Gamma) noexcept
 {
-	return {convertSRGBToLinear(ColorSRGB.rgb, Gamma), ColorSRGB.a};
+	return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), Gamma), ColorSRGB.a};
 }
 
 zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
@@ -52,5 +52,5 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB) noexcept
 {
-    return {convertSRGBToLinear(ColorSRGB.rgb, 2.4f), ColorSRGB.a};
+    return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), 2.4f), ColorSRGB.a};
 }
-- 
2.43.0


From 83f86290319b5b9e7423dc2ad2af90cae3a52642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 15/16] fix: assigning one component from another vector
 overwrote all of them

The component accessors kept the implicit copy assignment, so v.x = u.x copied
the whole of u; for integer vectors the same member hid operator=(T) and
v.x = 5 did not compile.  The components are plain members now; the union stays
trivially copyable.
---
 include/zcm/detail/extension.hpp |  8 ++++++++
 include/zcm/ivec2.hpp            |  8 +++++---
 include/zcm/ivec3.hpp            |  9 +++++----
 include/zcm/ivec4.hpp            | 10 +++++-----
 include/zcm/vec2.hpp             |  8 +++++---
 include/zcm/vec3.hpp             |  9 +++++----
 include/zcm/vec4.hpp             | 10 +++++-----
 7 files changed, 38 insertions(+), 24 deletions(-)
 create mode 100644 include/zcm/detail/extension.hpp

diff --git a/include/zcm/detail/extension.hpp b/include/zcm/detail/extension.hpp
new file mode 100644
index 0000000..845d06a
--- /dev/null
+++ b/include/zcm/detail/extension.hpp
@@ -0,0 +1,8 @@
+#pragma once
+
+// anonymous structs: an extension, but one every supported compiler has
+#ifdef __GNUC__
+#define zcm_extension __extension__
+#else
+#define zcm_extension
+#endif
diff --git a/include/zcm/ivec2.hpp b/include/zcm/ivec2.hpp
index a8c94c7..94b4d7a 100644
--- a/include/zcm/ivec2.hpp
+++ b/include/zcm/ivec2.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdint.h>
+#include <zcm/detail/extension.hpp>
 #include <zcm/detail/vec2_access.hpp>
 #include <zcm/init.hpp>
 #include <zcm/bvec2.hpp>
@@ -50,10 +51,11 @@ namespace zcm
 
         operator bvec2() const noexcept;
 
-        union{
+        zcm_extension union{
             int32_t _data[2];
-            detail::scalar_accessor_2i<int32_t, 0> x, r, s;
-            detail::scalar_accessor_2i<int32_t, 1> y, g, t;
+            struct { int32_t x, y; };
+            struct { int32_t r, g; };
+            struct { int32_t s, t; };
 #ifndef ZCM_DISABLE_SWIZZLE
             detail::shuffle_accessor_2<int32_t, ivec2, 0, 0> xx, rr, ss;
             detail::shuffle_accessor_2<int32_t, ivec2, 1, 0> yx, gr, ts;
diff --git a/include/zcm/ivec3.hpp b/include/zcm/ivec3.hpp
index 9fb1c81..d08d1fd 100644
--- a/include/zcm/ivec3.hpp
+++ b/include/zcm/ivec3.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdint.h>
+#include <zcm/detail/extension.hpp>
 #include <zcm/detail/vec3_access.hpp>
 #include <zcm/bvec3.hpp>
 #include <zcm/init.hpp>
@@ -54,11 +55,11 @@ namespace zcm
         void operator>>=(int32_t scalar) noexcept;
         void operator<<=(int32_t scalar) noexcept;
 
-        union{
+        zcm_extension union{
             int32_t _data[3];
-            detail::scalar_accessor_3i<int32_t, 0> x, r, s;
-            detail::scalar_accessor_3i<int32_t, 1> y, g, t;
-            detail::scalar_accessor_3i<int32_t, 2> z, b, p;
+            struct { int32_t x, y, z; };
+            struct { int32_t r, g, b; };
+            struct { int32_t s, t, p; };
 
 #ifndef ZCM_DISABLE_SWIZZLE
             detail::shuffle_accessor_3<int32_t, ivec2, 0, 0> xx, rr, ss;
diff --git a/include/zcm/ivec4.hpp b/include/zcm/ivec4.hpp
index feaec88..dbc9cab 100644
--- a/include/zcm/ivec4.hpp
+++ b/include/zcm/ivec4.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <stdint.h>
+#include <zcm/detail/extension.hpp>
 #include <zcm/detail/vec4_access.hpp>
 #include <zcm/init.hpp>
 #include <zcm/bvec4.hpp>
@@ -59,13 +60,12 @@ namespace zcm
         ivec4& operator--()    noexcept;
         ivec4  operator--(int) noexcept;
 
-        union {
+        zcm_extension union {
             int32_t _data[4];
 
-            detail::scalar_accessor_4i<int32_t, 0> x, r, s;
-            detail::scalar_accessor_4i<int32_t, 1> y, g, t;
-            detail::scalar_accessor_4i<int32_t, 2> z, b, p;
-            detail::scalar_accessor_4i<int32_t, 3> w, a, q;
+            struct { int32_t x, y, z, w; };
+            struct { int32_t r, g, b, a; };
+            struct { int32_t s, t, p, q; };
 
 #ifndef ZCM_DISABLE_SWIZZLE
             detail::shuffle_accessor_4<int32_t, ivec2, 0, 0> xx, rr, ss;
diff --git a/include/zcm/vec2.hpp b/include/zcm/vec2.hpp
index 533647f..1505d12 100644
--- a/include/zcm/vec2.hpp
+++ b/include/zcm/vec2.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdint.h>
+#include <zcm/detail/extension.hpp>
 #include <zcm/detail/vec2_access.hpp>
 #include <zcm/init.hpp>
 
@@ -35,10 +36,11 @@ namespace zcm
         vec2& operator--()    noexcept;
         vec2  operator--(int) noexcept;
 
-        union{
+        zcm_extension union{
             float _data[2];
-            detail::scalar_accessor_2<float, 0> x, r, s;
-            detail::scalar_accessor_2<float, 1> y, g, t;
+            struct { float x, y; };
+            struct { float r, g; };
+            struct { float s, t; };
 #ifndef ZCM_DISABLE_SWIZZLE
             detail::shuffle_accessor_2<float, vec2, 0, 0> xx, rr, ss;
             detail::shuffle_accessor_2<float, vec2, 1, 0> yx, gr, ts;
diff --git a/include/zcm/vec3.hpp b/include/zcm/vec3.hpp
index e3a48ce..2ba8cd2 100644
--- a/include/zcm/vec3.hpp
+++ b/include/zcm/vec3.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdint.h>
+#include <zcm/detail/extension.hpp>
 #include <zcm/detail/vec3_access.hpp>
 #include <zcm/init.hpp>
 
@@ -38,11 +39,11 @@ namespace zcm
         vec3& operator--()    noexcept;
         vec3  operator--(int) noexcept;
 
-        union{
+        zcm_extension union{
             float _data[3];
-            detail::scalar_accessor_3<float, 0> x, r, s;
-            detail::scalar_accessor_3<float, 1> y, g, t;
-            detail::scalar_accessor_3<float, 2> z, b, p;
+            struct { float x, y, z; };
+            struct { float r, g, b; };
+            struct { float s, t, p; };
 
 #ifndef ZCM_DISABLE_SWIZZLE
             detail::shuffle_accessor_3<float, vec2, 0, 0> xx, rr, ss;
diff --git a/include/zcm/vec4.hpp b/include/zcm/vec4.hpp
index eeadc43..124ae94 100644
--- a/include/zcm/vec4.hpp
+++ b/include/zcm/vec4.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <stdint.h>
+#include <zcm/detail/extension.hpp>
 #include <zcm/detail/vec4_access.hpp>
 #include <zcm/init.hpp>
 
@@ -45,13 +46,12 @@ namespace zcm
         vec4& operator--()    noexcept;
         vec4  operator--(int) noexcept;
 
-        union {
+        zcm_extension union {
             float _data[4];
 
-            detail::scalar_accessor_4<float, 0> x, r, s;
-            detail::scalar_accessor_4<float, 1> y, g, t;
-            detail::scalar_accessor_4<float, 2> z, b, p;
-            detail::scalar_accessor_4<float, 3> w, a, q;
+            struct { float x, y, z, w; };
+            struct { float r, g, b, a; };
+            struct { float s, t, p, q; };
 
 #ifndef ZCM_DISABLE_SWIZZLE
             detail::shuffle_accessor_4<float, vec2, 0, 0> xx, rr, ss;
-- 
2.43.0


From c28839d50506529b635f9b7042422eacc3c7e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 16/16] fix: angle() of a unit quaternion whose w rounds past 1
 is not NaN

---
 src/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index f8f2014..c85d6dd 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -204,7 +204,7 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(q.w) * 2.0f;
+    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f;
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0

