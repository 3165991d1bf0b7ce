From 142f036f586c520b63855759ab48fd142eccc458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:28 +0000
Subject: [PATCH 1/4] fix: rotate_left/rotate_right on signed lanes
 sign-extended the wrapped bits

---
 src/api/ops/vector_rotates.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/api/ops/vector_rotates.rs b/src/api/ops/vector_rotates.rs
index 6c4bed7..adba1fd 100644
--- a/src/api/ops/vector_rotates.rs
+++ b/src/api/ops/vector_rotates.rs
@@ -15,8 +15,14 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self << n) | (self >> ((LANE_WIDTH - n) % LANE_WIDTH))
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                let mut wrapped = self >> m;
+                if $elem_ty::MIN != 0 {
+                    // `>>` sign-extends signed lanes: keep the wrapped bits only
+                    wrapped &= !(Self::splat(!0) << n);
+                }
+                (self << n) | wrapped
             }
 
             /// Shifts the bits of each lane to the right by the specified
@@ -30,8 +36,14 @@ macro_rules! impl_ops_vector_rotates {
                 const LANE_WIDTH: $elem_ty =
                     crate::mem::size_of::<$elem_ty>() as $elem_ty * 8;
                 // Protect against undefined behavior for over-long bit shifts
-                let n = n % LANE_WIDTH;
-                (self >> n) | (self << ((LANE_WIDTH - n) % LANE_WIDTH))
+                let n = n & (LANE_WIDTH - 1);
+                let m = (LANE_WIDTH - n) & (LANE_WIDTH - 1);
+                let mut shifted = self >> n;
+                if $elem_ty::MIN != 0 {
+                    // `>>` sign-extends signed lanes: drop the extended bits
+                    shifted &= !(Self::splat(!0) << m);
+                }
+                shifted | (self << m)
             }
         }
 
-- 
2.43.0


From d2588f278f3128199a0deb4072978fbb67c104c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:52 +0000
Subject: [PATCH 2/4] fix: casting to m128x1 produced lanes that are neither
 true nor false

---
 src/api/cast/v128.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/cast/v128.rs b/src/api/cast/v128.rs
index 2e10b97..e310a35 100644
--- a/src/api/cast/v128.rs
+++ b/src/api/cast/v128.rs
@@ -299,4 +299,4 @@ impl_from_cast_mask!(
 // FIXME[test_v128]: 64-bit single element vectors into_cast impls
 impl_from_cast!(i128x1[test_v128]: u128x1, m128x1);
 impl_from_cast!(u128x1[test_v128]: i128x1, m128x1);
-impl_from_cast!(m128x1[test_v128]: i128x1, u128x1);
+impl_from_cast_mask!(m128x1[test_v128]: i128x1, u128x1);
-- 
2.43.0


From f1089d5f8df60df2c9a731c22491cb1eafd0953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:23 +0000
Subject: [PATCH 3/4] fix: offset_from/wrapping_offset_from on pointer vectors
 returned the negated distance

---
 src/api/minimal/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/minimal/ptr.rs b/src/api/minimal/ptr.rs
index d9e47c9..290ffb5 100644
--- a/src/api/minimal/ptr.rs
+++ b/src/api/minimal/ptr.rs
@@ -1166,7 +1166,7 @@ macro_rules! impl_minimal_p {
                 let x: $isize_ty = unsafe { crate::mem::transmute(self) };
                 let y: $isize_ty = unsafe { crate::mem::transmute(origin) };
                 // note: {-,/} currently perform wrapping_{sub, div}
-                (y - x) / (crate::mem::size_of::<T>() as isize)
+                (x - y) / (crate::mem::size_of::<T>() as isize)
             }
 
             /// Calculates the offset from a pointer (convenience for
-- 
2.43.0


From 4c702a3d45a0807e2480c8ae6c9cab67c3badcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:03 +0000
Subject: [PATCH 4/4] fix: f32x2::sin_cos_pi returned an uninitialized lane
 pair instead of the cosine with the SLEEF back end

---
 src/codegen/math/float/sin_cos_pi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/math/float/sin_cos_pi.rs b/src/codegen/math/float/sin_cos_pi.rs
index b283d11..ac8fb26 100644
--- a/src/codegen/math/float/sin_cos_pi.rs
+++ b/src/codegen/math/float/sin_cos_pi.rs
@@ -66,7 +66,7 @@ macro_rules! impl_unary_t {
                         vecs: ([$vid; 2], [$vid; 2]),
                     }
                     let r = R { twice }.vecs;
-                    (*r.0.get_unchecked(0), *r.0.get_unchecked(1))
+                    (*r.0.get_unchecked(0), *r.1.get_unchecked(0))
                 }
             }
         }
-- 
2.43.0

