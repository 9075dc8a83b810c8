From 7bf8322fbd65ca737d2b164d4f638b1e5e89cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 01/11] fix: nodediffusionflux3d uses the third-direction
 coefficient for the third flux

flux2 was formed from b1, indexed with b2's storage order: wrong values, and
reads outside b1 for non-cubic boxes.
---
 m4/nodediffusionflux3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/nodediffusionflux3d.m4 b/m4/nodediffusionflux3d.m4
index a5380af..62f027c 100755
--- a/m4/nodediffusionflux3d.m4
+++ b/m4/nodediffusionflux3d.m4
@@ -79,7 +79,7 @@ c
       do j = ifirst1, ilast1
          do i = ifirst0, ilast0
             do k = ifirst2, ilast2+1
-               flux2(k,i,j) = b1(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
+               flux2(k,i,j) = b2(k,i,j)*(u(i,j,k)-u(i,j,k-1))/dx(2)
             enddo
          enddo
       enddo
-- 
2.43.0


From 2bcf74e4554d4e7b1b4d80567272d4e716de4b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 02/11] fix: 3-D nodal apply takes the third flux difference
 from flux2

nodediffusionv2apply3d and nodepoissonapply3d differenced flux1 with flux2's
storage order: wrong values, and reads outside flux1 for non-cubic boxes.
---
 m4/nodediffusionapply3d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/nodediffusionapply3d.m4 b/m4/nodediffusionapply3d.m4
index d0fa5c3..4058039 100755
--- a/m4/nodediffusionapply3d.m4
+++ b/m4/nodediffusionapply3d.m4
@@ -128,7 +128,7 @@ c
             do i = ifirst0, ilast0
                diver = beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                       (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                       (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                       (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                lu = - diver +alpha*u(i,j,k)
                res(i,j,k) = b*f(i,j,k) +a*lu 
             enddo
@@ -178,7 +178,7 @@ c
             do i = ifirst0, ilast0
                lu = -beta*((flux0(i+1,j,k) - flux0(i,j,k))/dx(0) +
      &                     (flux1(j+1,k,i) - flux1(j,k,i))/dx(1) +
-     &                     (flux1(k+1,i,j) - flux1(k,i,j))/dx(2))
+     &                     (flux2(k+1,i,j) - flux2(k,i,j))/dx(2))
                res(i,j,k) = b*f(i,j,k) + a*lu 
             enddo
          enddo
-- 
2.43.0


From c0a8ce23a0fe834f82cca041e6ccd7e7331b9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 03/11] fix: applystencilonpatch2d loops over the box it was
 given

The index ranges of the two loops were swapped, so a box that is not square
(or not on the diagonal) was processed outside its arrays.
---
 m4/applystencil2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/applystencil2d.m4 b/m4/applystencil2d.m4
index 747641a..80209d1 100755
--- a/m4/applystencil2d.m4
+++ b/m4/applystencil2d.m4
@@ -91,8 +91,8 @@ c
 c***********************************************************************
 c
       
-      do j=lo0,hi0
-         do i=lo1,hi1
+      do j=lo1,hi1
+         do i=lo0,hi0
             r(i,j)=b*f(i,j)
             do s=1,stencilsize
                io=offsets(1,s)
-- 
2.43.0


From 69c4a3647e4f0dd039dcda9a8e2470d2b3f519c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 04/11] fix: celladjustsystemrhspatch2d loops over the patch it
 was given

The index ranges of the two loops were swapped.
---
 m4/celladjustrhs2d.m4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m4/celladjustrhs2d.m4 b/m4/celladjustrhs2d.m4
index 93b4d4f..0308b94 100755
--- a/m4/celladjustrhs2d.m4
+++ b/m4/celladjustrhs2d.m4
@@ -166,8 +166,8 @@ c offsets are compact, ie at most offset by (+-1,+-1)
 c ul represents the local u values in the direction we are interested
 c in adjusting the stencil
 
-      do j=ifirst0,ilast0
-         do i=ifirst1,ilast1
+      do j=ifirst1,ilast1
+         do i=ifirst0,ilast0
             do s=1,noffsets
                io=offset(1,s)
                jo=offset(2,s)
-- 
2.43.0


From 7728be8b5d12e4cf410b22131541a9c9b5f37c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 05/11] fix: creatematrix stays inside the stencil arrays

The stencil entries are numbered 0..stencilSize-1; the loop ran one past the
end of offset and stencil.
---
 m4/cellblocksmooth3d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellblocksmooth3d.m4 b/m4/cellblocksmooth3d.m4
index 02e2cff..d13db88 100644
--- a/m4/cellblocksmooth3d.m4
+++ b/m4/cellblocksmooth3d.m4
@@ -25,7 +25,7 @@ c Create a dense matrix from stencil.
             do i=0,bSizeX-1
                idx = k*bSizeY*bSizeX+j*bSizeX+i
                A(idx,idx) = stencil(0,i,j,k)
-               do s=1,stencilSize
+               do s=1,stencilSize-1
                   ix = i+offset(0,s)
                   iy = j+offset(1,s)
                   iz = k+offset(2,s)
-- 
2.43.0


From cea1d6b9ac1a879015caa7fd5911badcf58cabd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 06/11] fix: cellgs1d addresses the right-hand side with its
 own bounds

f was declared with the bounds of u, so it was read shifted (and outside the
array) when the two boxes differ.
---
 m4/cellsmooth1d.m4 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m4/cellsmooth1d.m4 b/m4/cellsmooth1d.m4
index b7e3057..be304a7 100755
--- a/m4/cellsmooth1d.m4
+++ b/m4/cellsmooth1d.m4
@@ -101,7 +101,7 @@ c
       integer slo0, shi0
       REAL stencil(0:stencilsize-1,CELL1d(slo,shi,0))
       REAL u(CELL1d(ulo,uhi,0))
-      REAL f(CELL1d(ulo,uhi,0))
+      REAL f(CELL1d(flo,fhi,0))
       integer i,s, io
       REAL r
 
-- 
2.43.0


From 62ce896d979c99836a7ad84cae3bcfbf2b9dd89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 07/11] fix: 2-D red-black smoothers stay inside the box for
 negative indices

mod(j+color,2) is -1 for negative odd j+color, so the sweep started at lo0-1:
it wrote a ghost cell of u and read stencil and f outside the box. The 3-D
variants already take the absolute value.
---
 m4/cellsmooth2d.m4 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m4/cellsmooth2d.m4 b/m4/cellsmooth2d.m4
index e32396d..403d012 100755
--- a/m4/cellsmooth2d.m4
+++ b/m4/cellsmooth2d.m4
@@ -163,7 +163,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             r = f(i,j)
             do s=1,stencilsize-1
                io=offset(0,s)
@@ -205,7 +205,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j)
      &                -stencil(2,i,j)*u(i+1,j)
      &                -stencil(3,i,j)*u(i,j-1)
@@ -244,7 +244,7 @@ c we make the assumption that the diagonal entry for the stencil is
 c always stored first in the stencil
 
       do j = lo1, hi1
-         do i = lo0+mod(j+color,2), hi0,2
+         do i = lo0+mod(abs(j)+color,2), hi0,2
             u(i,j) = (f(i,j)-stencil(1,i,j)*u(i-1,j+0)
      &                      -stencil(2,i,j)*u(i+1,j+0)
      &                      -stencil(3,i,j)*u(i+0,j-1)
-- 
2.43.0


From baeb1fea33d8af7e8943b3ce602836a7b587c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 08/11] fix: strided and inverted bounds count the points they
 visit

bounds::size() dropped the last point of a range whose length is not a multiple
of its stride, and both it and the submatrix iterator gave an inverted range a
negative extent, so that two of them multiplied to a positive number of points.
---
 src/cuda/md_bounds.hpp          | 3 ++-
 src/cuda/submatrix_iterator.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cuda/md_bounds.hpp b/src/cuda/md_bounds.hpp
index ff5c22f..8195a53 100644
--- a/src/cuda/md_bounds.hpp
+++ b/src/cuda/md_bounds.hpp
@@ -58,7 +58,8 @@ struct bounds {
     int lb() const { return first; }
     int ub() const { return last - 1; }
 
-    int size() const { return (last - first) / stride; }
+    // number of points visited: a last, partial stride counts, an inverted range is empty
+    int size() const { return last > first ? (last - first + stride - 1) / stride : 0; }
 };
 
 // Generally, the user will not be required to use anything in the `lazy` namespace
diff --git a/src/cuda/submatrix_iterator.hpp b/src/cuda/submatrix_iterator.hpp
index a06ac8c..eca35dd 100644
--- a/src/cuda/submatrix_iterator.hpp
+++ b/src/cuda/submatrix_iterator.hpp
@@ -32,7 +32,7 @@ auto make_submatrix_helper(std::index_sequence<I...>,
 
 
     int current[] = {(0 * I)...};
-    int n[] = {((ub[I] - lb[I] + stm[I]) / stm[I])...};
+    int n[] = {(ub[I] < lb[I] ? 0 : (ub[I] - lb[I] + stm[I]) / stm[I])...};
     int stride[] = {stride_dim<I, N>(sz, stm)...};
 
     if constexpr (N > sizeof...(I) || std::is_same_v<T, std::true_type>) {
-- 
2.43.0


From 81b9af1f91eeb6a4e78efb7f668ce2ae11b510a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 09/11] fix: forward stencil jumps land where single steps land

Jumping onto the end position went one element too far for strides other than
one, and backward jumps by a whole number of lines rolled over once too often.
---
 src/cuda/forward_stencil_iterator.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cuda/forward_stencil_iterator.hpp b/src/cuda/forward_stencil_iterator.hpp
index a388ef9..039c157 100644
--- a/src/cuda/forward_stencil_iterator.hpp
+++ b/src/cuda/forward_stencil_iterator.hpp
@@ -124,19 +124,17 @@ private:
         //  causing our stencil to "rollover".
         distance_to_last -= dist;
 
+        // number of rollovers (negative when moving backwards), rounded down
         auto base_dist = dist + current_distance;
-        int backwards = base_dist < 0;
+        auto q = base_dist / max_stride_distance;
+        q -= (base_dist % max_stride_distance) < 0;
+
+        // the "last" position directly follows the final point: no rollover there
         int at_last = !(distance_to_last);
+        q -= at_last;
 
-        auto iter_dist = dist + (base_dist / max_stride_distance) * stencil_stride -
-                         backwards * stencil_stride - at_last * (stencil_stride - 1);
-        current_distance = backwards * max_stride_distance +
-                           base_dist % max_stride_distance +
-                           at_last * max_stride_distance;
-        // if (distance_to_last == 0) {
-        //     iter_dist -= (stencil_stride-1);
-        //     current_distance = max_stride_distance;
-        // }
+        auto iter_dist = dist + q * stencil_stride;
+        current_distance = base_dist - q * max_stride_distance;
 
         thrust::advance(first, iter_dist);
     }
-- 
2.43.0


From ab17a0565a3c4c5ae0c9c3ce950b38a9dfbe4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 10/11] fix: set_offset keeps what the device wrote to the
 other entries

---
 src/md_device_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/md_device_vector.hpp b/src/md_device_vector.hpp
index c5ba9d6..f8d5351 100644
--- a/src/md_device_vector.hpp
+++ b/src/md_device_vector.hpp
@@ -123,6 +123,9 @@ public:
         static constexpr int sz = sizeof...(Args);
         assert(sz == b[N-1].size());
 
+        // the rest of the device data must survive the copy back
+        if (!sync) h = d;
+
         int idx[] = {args...};
         for (int i = 0; i < sz; i++) h[n * sz + i] = idx[i];
 
-- 
2.43.0


From f2bb9718c6cd1a3ae0ec24de6cd441674137f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 11/11] fix: a span left of a stencil proxy that carries one is
 paired with its own iterator

u * (st(0) + v) read v where u was meant and the other way round.
---
 src/cuda/stencil_proxy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/stencil_proxy.hpp b/src/cuda/stencil_proxy.hpp
index 2ffed40..d94322e 100644
--- a/src/cuda/stencil_proxy.hpp
+++ b/src/cuda/stencil_proxy.hpp
@@ -136,7 +136,8 @@ struct stencil_proxy : proxy_math<stencil_proxy<N, U, V, Op>> {
                 static_assert(true, "we should never get here");
         } else if constexpr (is_iter_math_v<U>) {
             if constexpr (is_stencil_proxy_v<V>)
-                return prepend_to_tuple(u(bnds...), v.get_iterators(bnds...));
+                // the call operator of an N-proxy expects its own iterator at N - 1
+                return append_to_tuple(v.get_iterators(bnds...), u(bnds...));
             else if constexpr (is_number_v<V>)
                 return thrust::make_tuple(u(bnds...));
             else if constexpr (is_iter_math_v<V>) // I don't think this can happen
-- 
2.43.0

