From 9cbbccc1fb4443284888e65a827a30e045173a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 01/44] fix: merge PolyLines whose break points differ

The interpolated value at a merged break point is a 1-element array;
storing it in the point list makes numpy refuse the ragged data.
---
 geotecha/piecewise/piecewise_linear_1d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 7a2e869..d27ae6a 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2528,7 +2528,7 @@ class PolyLine(object):
                     y1 = data[j[0], 1]
                     y1_= data[j[-1],1]
                 else: #interpolate
-                    y1 = interp_x_y(xa, ya, x, choose_max=False)
+                    y1 = interp_x_y(xa, ya, x, choose_max=False)[0]
                     y1_= y1
 
                 j = np.where((ind) & (data[:, 2] == 1))[0]
@@ -2537,7 +2537,7 @@ class PolyLine(object):
                     y2 = data[j[0], 1]
                     y2_= data[j[-1],1]
                 else: #interpolate
-                    y2 = interp_x_y(xb, yb, x, choose_max=False)
+                    y2 = interp_x_y(xb, yb, x, choose_max=False)[0]
                     y2_= y2
 
                 y = op(y1, y2)
@@ -2636,7 +2636,7 @@ def polyline_make_x_common(*p_lines):
                 y1 = data[j[0], 1]
                 y1_= data[j[-1],1]
             else: #interpolate
-                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)
+                y1 = interp_x_y(xa[k], ya[k], x, choose_max=False)[0]
                 y1_= y1
             pnts[k].append([x,y1])
             if abs(y1 - y1_)> (atol + rtol * abs(y1_)):
-- 
2.43.0


From 09ba3ea6a5457f7ee0246981a98da0dcf3da205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 02/44] fix: classify constants and steps by segment, not by
 position in the index list

---
 geotecha/piecewise/piecewise_linear_1d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index d27ae6a..30939c0 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -369,7 +369,7 @@ def start_index_of_constants(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(y)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x)!=0) & (np.diff(y)==0))[0]
 
 
 def start_index_of_steps(x, y):
@@ -397,7 +397,7 @@ def start_index_of_steps(x, y):
     y = np.asarray(y)
 
 
-    return np.delete(np.where(np.diff(x)==0)[0], np.where((np.diff(x)==0) & (np.diff(y)==0))[0])
+    return np.where((np.diff(x)==0) & (np.diff(y)!=0))[0]
 
 
 def segment_containing_xi(x, xi, subset=None, choose_max=False):
-- 
2.43.0


From e95031120d656f92333dc9a5229ff099eb4a23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 03/44] fix: initial direction of data that starts with
 repeated values

---
 geotecha/piecewise/piecewise_linear_1d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 30939c0..5a05039 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -73,7 +73,8 @@ def is_initially_increasing(x):
     if x[1] != x[0]:
         return x[1] > x[0]
     x = np.asarray(x)
-    return np.where(np.diff(x) != 0)[0][0] > 0
+    dx = np.diff(x)
+    return dx[dx != 0][0] > 0
 
 
 #used info from http://stackoverflow.com/questions/4983258/python-how-to-check-list-monotonicity
-- 
2.43.0


From e728dcbcf2b00bbcfd44d6d4b4951d6be8a1b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 04/44] fix: HansboNonDarcianFlowModel(kstar, n, iL) with a
 linear law

---
 geotecha/constitutive_models/velocity_hydraulic_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/constitutive_models/velocity_hydraulic_gradient.py b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
index a641235..c504124 100644
--- a/geotecha/constitutive_models/velocity_hydraulic_gradient.py
+++ b/geotecha/constitutive_models/velocity_hydraulic_gradient.py
@@ -418,7 +418,7 @@ class HansboNonDarcianFlowModel(OneDimensionalFlowRelationship):
                 self.n = 1
                 self.iL = 0
                 self.i0 = 0
-                self.k_linear = kstar
+                self.klinear = kstar
             else:
                 self.kstar = kstar
                 self.n = n
-- 
2.43.0


From f8dc561c197759c2a9ed96eeff2126c0bb7ed97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 05/44] fix: creep increment of YinAndGrahamSoilModel at
 constant effective stress

---
 .../constitutive_models/void_ratio_stress.py  | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/geotecha/constitutive_models/void_ratio_stress.py b/geotecha/constitutive_models/void_ratio_stress.py
index a914f02..e81b063 100644
--- a/geotecha/constitutive_models/void_ratio_stress.py
+++ b/geotecha/constitutive_models/void_ratio_stress.py
@@ -1641,25 +1641,10 @@ class YinAndGrahamSoilModel(OneDimensionalVoidRatioEffectiveStress):
 
         nans = np.isnan(self._inc)
 
-        # Following expression gives errors when t0, estress0 or _estress are
-        # not arrays so I did it differently (may be slower):
-        # self._inc[nans] = dt / self.t0[nans] * (self._estress[nans] / self.estress0[nans]) ** (self._alpha + 1)
-        if np.isscalar(self._estress):
-            self._inc[nans] = self._estress
-        else:
-            self._inc[nans] = self._estress[nans]
-
-        if np.isscalar(self.estress0):
-            self._inc[nans] /= self.estress0
-        else:
-            self._inc[nans] /= self.estress0[nans]
-
-        np.power(self._inc[nans],(self._alpha + 1),out=self._inc[nans])
-
-        if np.isscalar(self.t0):
-            self._inc[nans] /= self.t0
-        else:
-            self._inc[nans] /= self.t0[nans]
+        # constant stress during the increment: limit of the above expression.
+        # (t0 and estress0 may be scalars so index the broadcast result)
+        creep = dt / self.t0 * (self._estress / self.estress0) ** self._alpha
+        self._inc[nans] = (creep * np.ones_like(self._inc))[nans]
 
         return self._inc
 
-- 
2.43.0


From 777956ea47ec2623384adca07a0951d4f2303c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 06/44] fix: PolyLine plus or minus a number no longer changes
 the polyline itself

---
 geotecha/piecewise/piecewise_linear_1d.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/geotecha/piecewise/piecewise_linear_1d.py b/geotecha/piecewise/piecewise_linear_1d.py
index 5a05039..d2efde6 100644
--- a/geotecha/piecewise/piecewise_linear_1d.py
+++ b/geotecha/piecewise/piecewise_linear_1d.py
@@ -2469,9 +2469,6 @@ class PolyLine(object):
     def _add_substract(self, other, op = operator.add):
         """Addition or subtraction of PolyLine objects"""
 
-        mp = {operator.add: operator.iadd, operator.sub: operator.isub}
-        iop = mp[op]
-
         if isinstance(other, PolyLine):
 
             if ((not (non_increasing(self.x) or non_decreasing(self.x))) or
@@ -2553,7 +2550,7 @@ class PolyLine(object):
 
 
         try:
-            return PolyLine(self.x, iop(self.y, other))
+            return PolyLine(self.x, op(self.y, other))
 #            a = copy.deepcopy(self)
 #            #a._xy[:,1] += other
 #
-- 
2.43.0


From 8b69af72338cace5636ec16a7eae1d0844c7d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:38 +0000
Subject: [PATCH 07/44] fix: polygon_area for polygons whose normal is not
 dominated by a positive x or z component

---
 geotecha/mathematics/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 2627763..b520c8f 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -236,10 +236,9 @@ def polygon_area(pts):
     x, y, z = xyz_from_pts(pts,True)
     n, d = eqn_of_plane(pts)
 
-    i = np.argmax(n) #project polygon onto plane that is perpendicular to this direction, then integrate the area
+    i = np.argmax(np.abs(n)) #project polygon onto plane that is perpendicular to this direction, then integrate the area
 
-    j = list(range(3))
-    j.pop(i) #remaining directions
+    j = [(i + 1) % 3, (i + 2) % 3] #remaining directions, in right handed order
     e = (x, y, z)
     def if1dxdy(x, y):
         """integrate f=1 over polygon of x,y points"""
-- 
2.43.0


From 7ffaaf7c9863a518ec07587102a4888227295bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 08/44] fix: polygon_centroid coordinate normal to a plane that
 does not pass through the origin

---
 geotecha/mathematics/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index b520c8f..25668d0 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -281,9 +281,9 @@ def polygon_centroid(pts):
     a = polygon_area(pts)
 
 
-    xc=0.0
-    yc=0.0
-    zc=0.0
+    #foot of the normal through the origin: right for the coordinate of a
+    #plane that is perpendicular to a coordinate axis, others calculated below
+    xc, yc, zc = -d * n
 
     calcd = [False,False,False]
 
-- 
2.43.0


From 17f104a281ea3d64103d267b9ecff55abd6f11c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 09/44] fix: polygon centroid and moments do not divide by
 rounding noise in the normal

The components of the unit normal of a polygon parallel to an axis are
not exactly zero in floating point (e.g. 1e-17); projecting on such a
plane gave garbage coordinates and moments.
---
 geotecha/mathematics/geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/mathematics/geometry.py b/geotecha/mathematics/geometry.py
index 25668d0..5ebd3b7 100644
--- a/geotecha/mathematics/geometry.py
+++ b/geotecha/mathematics/geometry.py
@@ -288,21 +288,21 @@ def polygon_centroid(pts):
     calcd = [False,False,False]
 
 
-    if n[0]!=0:#project on yz plane
+    if abs(n[0]) > 1e-8:#project on yz plane
         if not calcd[1]:
             yc = ifxdxdy(y, z)/ (n[0] * a)
             calcd[1]= True
         if not calcd[2]:
             zc = ifydxdy(y, z)/ (n[0] * a)
             calcd[2]= True
-    if n[1]!=0: #project on zx plane
+    if abs(n[1]) > 1e-8: #project on zx plane
         if not calcd[2]:
             zc = ifxdxdy(z, x)/ (n[1] * a)
             calcd[2]= True
         if not calcd[0]:
             xc = ifydxdy(z, x)/ (n[1] * a)
             calcd[0]= True
-    if n[2]!=0: #project on xy plane
+    if abs(n[2]) > 1e-8: #project on xy plane
         if not calcd[0]:
             xc = ifxdxdy(x, y)/ (n[2] * a)
             calcd[0]= True
@@ -359,21 +359,21 @@ def polygon_2nd_moment_of_area(pts):
     calcd = [False, False, False]
 
 
-    if n[0]!=0:#project on yz plane
+    if abs(n[0]) > 1e-8:#project on yz plane
         if not calcd[1]:
             iyy = ifx2dxdy(y, z, yc)/ (n[0] * a)
             calcd[1]= True
         if not calcd[2]:
             izz = ify2dxdy(y, z, zc)/ (n[0] * a)
             calcd[2]= True
-    if n[1]!=0: #project on zx plane
+    if abs(n[1]) > 1e-8: #project on zx plane
         if not calcd[2]:
             izz = ifx2dxdy(z, x, zc)/ (n[1] * a)
             calcd[2]= True
         if not calcd[0]:
             ixx = ify2dxdy(z, x, xc)/ (n[1] * a)
             calcd[0]= True
-    if n[2]!=0: #project on xy plane
+    if abs(n[2]) > 1e-8: #project on xy plane
         if not calcd[0]:
             ixx = ifx2dxdy(x, y, xc)/ (n[2] * a)
             calcd[0]= True
-- 
2.43.0


From 2789dc3c225c1620a4a98ed406302ca5513a6bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 10/44] fix: drain pore pressure uses the normalised bottom
 boundary history

With an impermeable bottom (drn=1) the bottom boundary value is a gradient
that all other outputs multiply by H; the drain pore pressure did not.
---
 geotecha/speccon/speccon1d_vrw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 6025bd2..82107ef 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1094,7 +1094,7 @@ class Speccon1dVRW(speccon1d.Speccon1d):
                             self.v_E_Igamv_the[:, self.ppress_z_tval_indexes])
         self.porwell = speccon1d.dim1sin_f(self.m, self.ppress_z, tvals,
                                v_E_Igamv_the, self.drn,
-                               self.top_vs_time, self.bot_vs_time,
+                               self.top_vs_time, bot_vs_time,
                                self.top_omega_phase, self.bot_omega_phase)
 
 
-- 
2.43.0


From 5d1d20654799ae3f0d547c1d78420747a5fb91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 11/44] fix: boundary term of the drain pore pressure is
 normalised by dT

Ipsi_w is the inverse of a matrix in dTw/dT and dTh/dT, so the boundary
vector it multiplies needs dTw/dT; results depended on the choice of dT.
---
 geotecha/speccon/speccon1d_vrw.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrw.py b/geotecha/speccon/speccon1d_vrw.py
index 82107ef..35fd70d 100644
--- a/geotecha/speccon/speccon1d_vrw.py
+++ b/geotecha/speccon/speccon1d_vrw.py
@@ -1104,10 +1104,9 @@ class Speccon1dVRW(speccon1d.Speccon1d):
                 self.kw, self.top_vs_time, bot_vs_time,
                 self.top_omega_phase, self.bot_omega_phase)
 
-        #TODO: not entirely sure about dTw.  I think it is needed for the
-        # theta cv part.
-        self.porwell += self.dTw * speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                            tvals, v_E_Igamv_the, self.drn)
+        #dTw / dT as in psi_w
+        self.porwell += self.dTw / self.dT * speccon1d.dim1sin_f(self.m,
+                            self.ppress_z, tvals, v_E_Igamv_the, self.drn)
         return
 
 
-- 
2.43.0


From 5930d0de499fe138cf3777bc55910206eb4c00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 12/44] fix: column boundary term of the stone column model
 uses its own coupling matrix

Eliminating the soil and column pressures gives I - G for the soil boundary
vector and G for the column one; both used I - G.
---
 geotecha/speccon/speccon1d_vrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index acd25b2..60893ed 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1035,7 +1035,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                 self.E_Igamv_the_BC += (self.dTvc *
                     speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(
                         self.drn, self.m, self.eigs, self.tvals,
-                        self.Igamv.dot(np.identity(self.neig, dtype=float)-G),
+                        self.Igamv.dot(G),
                         self.kvc, self.top_vs_time,
                         bot_vs_time, self.top_omega_phase,
                         self.bot_omega_phase, self.dT,
-- 
2.43.0


From cad40e4ee8ada6009b174e36444c96745652a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 13/44] fix: soil and column pore pressures subtract the column
 boundary vector

They follow from the difference of the soil and column flow equations, so
the boundary vector of the column enters with a minus sign.
---
 geotecha/speccon/speccon1d_vrc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index 60893ed..dc9128b 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1090,7 +1090,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.pors += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.porc = speccon1d.dim1sin_f(self.m, self.ppress_z,
@@ -1112,7 +1112,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.porc += speccon1d.dim1sin_f(self.m, self.ppress_z,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
         return
 
 
@@ -1163,7 +1163,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avps += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
         #column pore pressure at depth
         self.avpc = speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
@@ -1185,7 +1185,7 @@ class Speccon1dVRC(speccon1d.Speccon1d):
                     self.kvc, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
             self.avpc += speccon1d.dim1sin_avgf(self.m, self.avg_ppress_z_pairs,
-                                             tvals, a+b, self.drn)
+                                             tvals, a-b, self.drn)
 
 
         return
-- 
2.43.0


From b85b6234e4bf085f58c22d37b994e003e548fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 14/44] fix: boundary terms of soil and column pore pressures
 are normalised by dT

The matrices they are multiplied with are inverses of matrices in dTv/dT,
dTvc/dT, dTh/dT and dThc/dT; results depended on the choice of dT.
---
 geotecha/speccon/speccon1d_vrc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/geotecha/speccon/speccon1d_vrc.py b/geotecha/speccon/speccon1d_vrc.py
index dc9128b..e65a3a7 100644
--- a/geotecha/speccon/speccon1d_vrc.py
+++ b/geotecha/speccon/speccon1d_vrc.py
@@ -1077,13 +1077,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1099,13 +1099,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
@@ -1150,13 +1150,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet01 + self.alp * self.bet02),
@@ -1172,13 +1172,13 @@ class Speccon1dVRC(speccon1d.Speccon1d):
             self.drn, self.top_vs_time, bot_vs_time,
             self.top_omega_phase, self.bot_omega_phase)
         if not self.top_vs_time is None or not self.bot_vs_time is None:
-            a = self.dTv * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            a = self.dTv / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
                     self.kv, self.top_vs_time, bot_vs_time,
                     self.top_omega_phase, self.bot_omega_phase)
-            b = self.dTvc * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
+            b = self.dTvc / self.dT * speccon1d.dim1sin_foft_Ipsiw_the_BC_D_aDf_linear(
                     self.drn, self.m, self.eigs,
                     tvals,
                     (self.bet11 + self.alp * self.bet12),
-- 
2.43.0


From 017284232b3c9cdd8e47042b46d017c5248268f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 15/44] fix: air settlement takes the m2a water pressure term

The term in m2a was subtracted from the water settlement; the total was
right, its air and water parts were not.
---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 9e4caab..71f24ab 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1244,7 +1244,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                      self.atop_vs_time, abot_vs_time,
                      self.atop_omega_phase, self.abot_omega_phase)
         # seta uw part
-        self.setw -= speccon1d.dim1sin_integrate_af(self.m,
+        self.seta -= speccon1d.dim1sin_integrate_af(self.m,
                      self.settlement_z_pairs,
                      self.tvals[self.settlement_z_pairs_tval_indexes],
                      self.v_E_Igamv_the[:self.neig ,self.settlement_z_pairs_tval_indexes],
-- 
2.43.0


From 2f786b471014b3a36d2bec9c0f21d19bbd5804ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 16/44] fix: boundary loads count when all four boundary
 histories are given

They were skipped unless at least one of the four was missing.
---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 71f24ab..6bc3ec2 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -917,7 +917,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
         if sum(v is None for v in[self.atop_vs_time,
                                   self.abot_vs_time,
                                   self.wtop_vs_time,
-                                  self.wbot_vs_time])!=0:
+                                  self.wbot_vs_time])!=4:
             self._make_E_Igamv_the_BC()
             self.E_Igamv_the += self.E_Igamv_the_BC
 
-- 
2.43.0


From 94d8081c647c185d3c2dcac0ccf4788ffd90b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 17/44] fix: air diffusion boundary term depends on dTa, not
 dTw

---
 geotecha/speccon/speccon1d_unsat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/speccon/speccon1d_unsat.py b/geotecha/speccon/speccon1d_unsat.py
index 6bc3ec2..451955d 100644
--- a/geotecha/speccon/speccon1d_unsat.py
+++ b/geotecha/speccon/speccon1d_unsat.py
@@ -1107,7 +1107,7 @@ class Speccon1dUnsat(speccon1d.Speccon1d):
                 theta_zero_indexes=topzero,
                 implementation=self.implementation))/ (self.mvref * self.ua_)
         #dTa * d/dZ(Da * du/dZ) component
-        if self.dTw!=0:
+        if self.dTa!=0:
             self.E_Igamv_the_BC -= (self.dTa *
                 speccon1d.dim1sin_E_Igamv_the_BC_D_aDf_linear(self.drn,
                     self.m_block, self.eigs, self.tvals, self.Igamv, self.Da,
-- 
2.43.0


From bf5150276ebda7e07c01636ac785405dce9c7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:00 +0000
Subject: [PATCH 18/44] fix: SyntaxChecker accepts literals on Python 3.8 and
 later (ast.Constant)

---
 geotecha/inputoutput/inputoutput.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 3d4fc92..1ca590b 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -280,6 +280,9 @@ class SyntaxChecker(ast.NodeVisitor):
             #py34_addtional
             Bytes NameConstant #Nonlocal Starred Try YieldFrom arg
             withitem
+
+            #py38_additional
+            Constant
             """)
 
         for v in [a for a in s.split() if not a.startswith('#')]:
-- 
2.43.0


From 7a1857e54145f63b99d7b4007b0c153cf08c6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:02 +0000
Subject: [PATCH 19/44] fix: a name assigned in checked text is not thereby an
 allowed attribute

---
 geotecha/inputoutput/inputoutput.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 1ca590b..72c9940 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -99,6 +99,9 @@ class SyntaxChecker(ast.NodeVisitor):
         fail if the code was executed. Adding attributes one by one
         can be cumbersome; see the 'allow_<some_name>' methods for bulk adding
         of common functionality.
+    assigned_names : set of string
+        Names the checked text has assigned.  They can be used as names but
+        not as attributes.
     safe_names : dict
         Dictionary of safe names.
         Default safe_names={'True': True, 'False': False, 'None': None}.
@@ -159,6 +162,7 @@ class SyntaxChecker(ast.NodeVisitor):
         self.allowed_functions = dict()
         self.allowed_node_types = dict()
         self.allowed_attributes = set()
+        self.assigned_names = set()
         self.safe_names = {'True': True, 'False': False, 'None': None}#dict()
         self.print_each_node = False
         for v in allow:
@@ -192,9 +196,12 @@ class SyntaxChecker(ast.NodeVisitor):
             print('NAME: ', ast.dump(node))
 
         if type(node.ctx).__name__=='Store':
-            self.allowed_attributes.add(node.id)
+            self.assigned_names.add(node.id)
         elif type(node.ctx).__name__=='Load':
-            if node.id not in self.safe_names and node.id not in self.allowed_functions and node.id not in self.allowed_attributes:
+            if (node.id not in self.safe_names and
+                    node.id not in self.allowed_functions and
+                    node.id not in self.allowed_attributes and
+                    node.id not in self.assigned_names):
                 raise SyntaxError("cannot use {} as name, function, or attribute!".format(node.id))
                 sys.exit(0)
         ast.NodeVisitor.generic_visit(self, node)#
-- 
2.43.0


From ab30288953cfc7e65a09d9af91622393f51831d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:02 +0000
Subject: [PATCH 20/44] fix: force_attribute_same_len_if_none accepts a numpy
 array as first attribute

---
 geotecha/inputoutput/inputoutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/inputoutput/inputoutput.py b/geotecha/inputoutput/inputoutput.py
index 72c9940..344aa09 100644
--- a/geotecha/inputoutput/inputoutput.py
+++ b/geotecha/inputoutput/inputoutput.py
@@ -991,7 +991,7 @@ def force_attribute_same_len_if_none(obj, same_len_attributes=[], value=None):
 
     for group in same_len_attributes:
         a1 =getattr(obj, group[0])
-        if a1!=None:
+        if not a1 is None:
             for v in group[1:]:
                 if getattr(obj, v) is None:
                     setattr(obj, v, [value] * len(a1))
-- 
2.43.0


From 77a23b251d5283c800d3415de3abb6bf7f58ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 21/44] fix: gk_quad and gl_quad index with a tuple of slices,
 not a list

---
 geotecha/mathematics/quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/mathematics/quadrature.py b/geotecha/mathematics/quadrature.py
index 0f56169..06d0424 100644
--- a/geotecha/mathematics/quadrature.py
+++ b/geotecha/mathematics/quadrature.py
@@ -1248,7 +1248,7 @@ def gk_quad(f, a, b, args=(), n=10, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
@@ -1332,7 +1332,7 @@ def gl_quad(f, a, b, args=(), n=10, shanks_ind=False, sum_intervals=False):
     #get shape of output with scalar argument and form a slice that will ensure
     #any extra dims are appended to the args.
     extra = np.array(f(xij.flat[0], *args))
-    gen_slice = [slice(None)] * xij.ndim + [None] * extra.ndim
+    gen_slice = tuple([slice(None)] * xij.ndim + [None] * extra.ndim)
 
     fij = f(xij[gen_slice], *args)
 
-- 
2.43.0


From 4b5ef4c5370ba04621a8636799deb0d8773542d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 22/44] fix: point_loads_on_beam takes the start time and start
 position into account

---
 geotecha/beam_on_foundation/specbeam.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 6c155bc..34bd021 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -1696,9 +1696,11 @@ class MovingPointLoads(object):
         """
 
         if self.v >= 0:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.x0)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0,
+                                               x0=self.x0)
         else:
-            self.xnow[:] = self.axle_positions(t=t, v0=self.v, x0=self.L)
+            self.xnow[:] = self.axle_positions(t=t, v0=self.v, t0=self.t0,
+                                               x0=self.L + self.x0)
 
         self.pnow[:] = self.p
 
-- 
2.43.0


From 4419b4bf6597c3ed43164c42252f7806645a4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 23/44] fix: SpecBeam interpolates k3bar, not k1bar, for the
 nonlinear stiffness

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 34bd021..744576f 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -856,7 +856,7 @@ class SpecBeam(object):
                                             a=self.mubar,
                                             implementation=self.implementation)
 
-        self.k3barj = pwise.pinterp_x_y(self.k1bar, self.xj)
+        self.k3barj = pwise.pinterp_x_y(self.k3bar, self.xj)
 
 
     def wofx(self, x=None, x_norm=None, tslice=slice(None, None, None), normalise_w=True):
-- 
2.43.0


From 986fd3cd720e762eeda2b2b990907bbaaf0299a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 24/44] fix: tanhtran uses its position argument

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 744576f..172404c 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -8542,7 +8542,7 @@ def tanhtran(x, a, b):
     tanhtranib : get smoothing factor from speccific x,y
 
     """
-    return 0.5+0.5*np.tanh((x-0.5)/b)
+    return 0.5+0.5*np.tanh((x-a)/b)
 
 
 def tanhtrani(y, a, b):
-- 
2.43.0


From 2a84d9a81b6e61e5ba678c49f214aebd72936a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 25/44] fix: SpecBeam leaves the phase of cyclic stationary
 loads unchanged

---
 geotecha/beam_on_foundation/specbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index 172404c..cbbf836 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -598,7 +598,7 @@ class SpecBeam(object):
                 else:
                     #only omega is effected, phase remains unchanged
                     self.stationary_loads_omega_phase_norm = (
-                        [(v[0] * self.L / np.sqrt(self.E / self.rho),v[1]/ (self.E * self.A))
+                        [(v[0] * self.L / np.sqrt(self.E / self.rho), v[1])
                             if not v is None else None for v in self.stationary_loads_omega_phase])
 
 
-- 
2.43.0


From 50a6651ca0e9ce53ed1218e9d7621df70ff2f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 26/44] fix: SpecBeam raw moving loads use the given lengths
 and start positions

---
 geotecha/beam_on_foundation/specbeam.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geotecha/beam_on_foundation/specbeam.py b/geotecha/beam_on_foundation/specbeam.py
index cbbf836..995b8e7 100644
--- a/geotecha/beam_on_foundation/specbeam.py
+++ b/geotecha/beam_on_foundation/specbeam.py
@@ -545,13 +545,16 @@ class SpecBeam(object):
                                                        offset=offv,
                                                        v=vv,
                                                        t0=t0v,
-                                                       L=self.L)
-                                        for xv,pv,offv,vv,t0v in
+                                                       L=Lv,
+                                                       x0=x0v)
+                                        for xv,pv,offv,vv,t0v,Lv,x0v in
                                         zip(self.moving_loads_x,
                                             self.moving_loads_Fz,
                                             self.moving_loads_offset,
                                             self.moving_loads_v,
-                                            self.moving_loads_t0)]
+                                            self.moving_loads_t0,
+                                            self.moving_loads_L,
+                                            self.moving_loads_x0)]
 
 
 
-- 
2.43.0


From 6a81a30199afe5d5cb5947f02d09790b4cd99afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:23 +0000
Subject: [PATCH 27/44] fix: Eload_coslinear accepts complex eigenvalues

---
 geotecha/speccon/integrals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index b590d99..5d2ee17 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -3209,9 +3209,9 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
     if implementation == 'scalar':
         sin = math.sin
         cos = math.cos
-        exp = math.exp
+        exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=np.result_type(eigs, float))
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
@@ -3771,7 +3771,7 @@ def Eload_coslinear(loadtim, loadmag, omega, phase, eigs, tvals, dT=1.0, impleme
         cos = np.cos
         exp = np.exp
 
-        A = np.zeros([len(tvals), len(eigs)])
+        A = np.zeros([len(tvals), len(eigs)], dtype=np.result_type(eigs, float))
 
         (ramps_less_than_t, constants_less_than_t, steps_less_than_t,
             ramps_containing_t, constants_containing_t) = segment_containing_also_segments_less_than_xi(loadtim, loadmag, tvals, steps_or_equal_to = True)
-- 
2.43.0


From 32419f5bf5bc09223d74aa0e8e65b0449225abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 28/44] fix: row_major_order_reverse_map indexes with a tuple

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index aeb02c2..998a59c 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -979,7 +979,7 @@ def row_major_order_reverse_map(shape, index_steps=None, transpose=False):
 
     pos=np.arange(np.product(shape)).reshape(shape)
     a=[slice(None,None,i) for i in index_steps]
-    pos[...]=pos[a]
+    pos[...]=pos[tuple(a)]
 
     if transpose:
         return pos.T.flatten()
-- 
2.43.0


From 9476b4cf305b90221c0034fe571d4bb0d716f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 29/44] fix: plots with a legend call the existing
 set_draggable

---
 geotecha/plotting/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 998a59c..88ac59a 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1443,7 +1443,7 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
         if has_legend:
             leg = ax1[-1].legend(**legend_prop)
-            leg.draggable(True)
+            leg.set_draggable(True)
             plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
         #load_vs_depth plot stuff
 
@@ -1586,7 +1586,7 @@ def plot_vs_time(t, y, line_labels=None, prop_dict={}):
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
@@ -1962,7 +1962,7 @@ def plot_vs_depth(x, z, line_labels=None, H = 1.0, RLzero=None,
 
     if has_legend:
         leg = fig.gca().legend(**legend_prop)
-        leg.draggable(True)
+        leg.set_draggable(True)
         plt.setp(leg.get_title(),fontsize=legend_prop['fontsize'])
     return fig
 
-- 
2.43.0


From beae1c995227a6dd36e87ec90abcf12dc6e3857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 30/44] fix: plot_data_in_grid shares the requested axes

---
 geotecha/plotting/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 88ac59a..8f5050b 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1138,7 +1138,7 @@ def plot_data_in_grid(fig, data, gs,
         else:
             shy=ax[sharey[i]]
 
-        ax.append(fig.add_subplot(gs[j]))
+        ax.append(fig.add_subplot(gs[j], sharex=shx, sharey=shy))
 
         for j, xy_etc in enumerate(subplot_data):
             #xy_etc is a single [x,y,dict] to send to plt.plot, or plt.plot_type
-- 
2.43.0


From 107dfb8d849dd7324183ed3f454cea11444d8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 31/44] fix: plot_generic_loads works out the time range of
 loads given as tuples or fixed

---
 geotecha/plotting/one_d.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geotecha/plotting/one_d.py b/geotecha/plotting/one_d.py
index 8f5050b..34b2541 100644
--- a/geotecha/plotting/one_d.py
+++ b/geotecha/plotting/one_d.py
@@ -1324,14 +1324,21 @@ def plot_generic_loads(load_triples, load_names, ylabels=None,
 
     #determine tmax, tmin
     if trange is None:
+        tmin = None
         for i, (triples, name, ylabel)  in enumerate(zip(load_triples, load_names, ylabels)):
             for j, (vs_time, vs_depth, omega_phase) in enumerate(triples):
-                if i==0 and j==0:
-                    tmin = np.min(vs_time.x)
-                    tmax = np.max(vs_time.x)
+                if vs_time is None: #fixed ppress has no times of its own
+                    continue
+                if isinstance(vs_time, PolyLine):
+                    x_ = vs_time.x
                 else:
-                    tmin = min(tmin, np.min(vs_time.x))
-                    tmax = max(tmax, np.max(vs_time.x))
+                    x_ = vs_time[0]
+                if tmin is None:
+                    tmin = np.min(x_)
+                    tmax = np.max(x_)
+                else:
+                    tmin = min(tmin, np.min(x_))
+                    tmax = max(tmax, np.max(x_))
     else:
         tmin, tmax = trange
 
-- 
2.43.0


From 372a4b9fd31246c6c39dc4106dc717207989fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 32/44] fix: XieAndLeo2004 stresses use the applied load of the
 object

---
 geotecha/consolidation/xieandleo2004.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index b6faeec..e17064c 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -495,7 +495,7 @@ class XieAndLeo2004(object):
         u = self.u_PTIB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -519,7 +519,7 @@ class XieAndLeo2004(object):
         u = self.u_PTPB(a,t)
         sig_0 = self.initial_effective_stress(a)[:, None]
 
-        sig_ = sig_0 + qu - u
+        sig_ = sig_0 + self.qu - u
 
         return sig_
 
@@ -546,7 +546,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
@@ -573,7 +573,7 @@ class XieAndLeo2004(object):
         sig_0 = self.initial_effective_stress(a)[:, None]
         a = a[:, None]
 
-        sig = sig_0 + qu + gamw * (Hw + a + S)
+        sig = sig_0 + self.qu + gamw * (Hw + a + S)
 
         return sig
 
-- 
2.43.0


From 11d8873e2669b3d14cd654096c7720e975f9a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 33/44] fix: XieAndLeo2004 fluid velocity conserves the volume
 of water and solids

---
 geotecha/consolidation/xieandleo2004.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/xieandleo2004.py b/geotecha/consolidation/xieandleo2004.py
index e17064c..1941e1d 100644
--- a/geotecha/consolidation/xieandleo2004.py
+++ b/geotecha/consolidation/xieandleo2004.py
@@ -792,7 +792,7 @@ class XieAndLeo2004(object):
         f = np.cos(M * a) * np.exp(-M**2 * Tv)
         f = np.sum(f, axis=2)
         f *= 1 - np.exp(-mvl * qu)
-        f *= 2 * cv0 / H
+        f *= -2 * cv0 / H
         f /=e
 
         return f
@@ -837,7 +837,7 @@ class XieAndLeo2004(object):
         f2 = (1 + np.cos(2 * M * a)) * np.exp(-4 * M**2 * Tv)
         f2 = np.sum(f2, axis=2)
         f2 *= 1 - np.exp(-mvl * qu)
-        f2 *= 2 * cv0/H
+        f2 *= 4 * cv0/H
         f2 /=e
 
         return f1-f2
-- 
2.43.0


From 2667e369aac1f98aed0f0db621f95c054b1083da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 34/44] fix: dengetal2013 gives the pore pressure at the
 surface for time dependent well resistance

---
 geotecha/consolidation/dengetal2013and2014.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 0f5107c..10a30a5 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -141,18 +141,18 @@ def dengetal2013(z, t, rw, re, A1=1, A2=0, A3=0, H=1, rs=None, ks=None,
     if A3 > 0 and A2 == 0:
         # qw varies with time
         a3 = A3 * 4 * re**2 / ch
-        alp0 = qw0 * A1 * mu0 / (np.pi * kh * (2*H*z - z**2))
-        por = (ui * ((1+alp0[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp0[:, None])) ** (8/(a3 * mu0)))
+        muw = np.pi * kh * (2*H*z - z**2) / (qw0 * A1)
+        por = (ui * ((muw[:, None] + mu0 * np.exp(-a3 * Th[None, :])) /
+              (muw[:, None] + mu0)) ** (8/(a3 * mu0)))
         return por
 
     if A3 > 0 and A2 > 0:
         # qw varies with depth and time:
         a3 = A3 * 4 * re**2 / ch
-        alp = mu0 * qw0 * A2**2 / (2 * np.pi * H**2 * kh)
-        alp /= A2* z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
-        por = (ui * ((1+alp[:, None] * np.exp(-a3 * Th[None, :])) /
-              (1+alp[:, None])) ** (8/(a3 * mu0)))
+        muw = A2 * z / H + (A1 - A2) * np.log(1 - A2 / A1 * z / H)
+        muw *= 2 * np.pi * kh * H**2 / (qw0 * A2**2)
+        por = (ui * ((muw[:, None] + mu0 * np.exp(-a3 * Th[None, :])) /
+              (muw[:, None] + mu0)) ** (8/(a3 * mu0)))
         return por
 
 
-- 
2.43.0


From df8dbaf4a4ecbd8090f1f9c4d0b1cd2a8846ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 35/44] fix: dengetal2014 handles its default of constant well
 resistance

---
 geotecha/consolidation/dengetal2013and2014.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/dengetal2013and2014.py b/geotecha/consolidation/dengetal2013and2014.py
index 10a30a5..ed89213 100644
--- a/geotecha/consolidation/dengetal2013and2014.py
+++ b/geotecha/consolidation/dengetal2013and2014.py
@@ -252,7 +252,6 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     G0 = np.pi * kh * H**2 / 4 / qw0
     M = ((2 * np.arange(nterms) + 1) / 2 * np.pi)
     C0 = M**2*mu0/8/G0 * n**2/ (n**2-1)
-    alp0 = qw0 * mu0 / (np.pi * kh * (2*H*z - z**2))
 
     Th = Th[np.newaxis, :, np.newaxis]
 
@@ -260,8 +259,13 @@ def dengetal2014(z, t, rw, re, A3=0, H=1, rs=None, ks=None,
     C0 = C0[np.newaxis, np.newaxis, :]
     Z = (z / H)[:, np.newaxis, np.newaxis]
 
-    por = (2 / M * np.sin(M * Z) * ((1+C0 * np.exp(-a3 * Th))/
-          (1 + C0))**(8 / (a3 * mu0)))
+    if A3 == 0:
+        # constant well resistance, limit of expression below
+        rate = np.exp(-8 * Th / (mu0 + mu0 / C0))
+    else:
+        rate = ((1+C0 * np.exp(-a3 * Th)) / (1 + C0))**(8 / (a3 * mu0))
+
+    por = 2 / M * np.sin(M * Z) * rate
     por = ui * np.sum(por, axis=2)
 
     return por
-- 
2.43.0


From f030edcd87fa6922cac27ca319a270b98e444c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 36/44] fix: cosenzaandkorosak2014 modes decay with the
 coefficient of consolidation

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 8065f0c..3092f59 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -184,8 +184,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     a = Talbot(F, n=24, shift=0.0)
 
     Bn = np.zeros((len(tpor), nterms), dtype=float)
-    for j, lam in enumerate(M):
-        Bn[:, j] = np.array(a(tpor, args=(v, theta, M[j])), dtype=float)
+    for j, lam in enumerate(lamda_n):
+        Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
     if np.allclose(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
@@ -201,8 +201,8 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-        for j, lam in enumerate(M):
-            Bn[:, j] = np.array(a(t, args=(v, theta, M[j])), dtype=float)
+        for j, lam in enumerate(lamda_n):
+            Bn[:, j] = np.array(a(t, args=(v, theta, lam)), dtype=float)
 
     doc = 1 - np.sum(An*Bn, axis = 1)
 
-- 
2.43.0


From 13cdd7bf9fe2c4cb6766a05a2aeb81097f9202cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 37/44] fix: cosenzaandkorosak2014 pore pressure starts from
 the initial value

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 3092f59..92b85f9 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -100,7 +100,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     tpor : float or 1d array/list of float
         Time values for pore pressure vs depth calcs.
     L : float, optional
-        Drainage path length.  Default H = 1.
+        Thickness of layer, drained at both ends.  Default L = 1.
     kv : float, optional
         Vertical coefficient of permeability.  Default kv = 1.
     mv : float, optional
@@ -191,7 +191,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
-    An = 2/M[np.newaxis, :] * np.sin(M[np.newaxis, :] * Z[:, np.newaxis])
+    An = 4/M[np.newaxis, :] * np.sin(M[np.newaxis, :] * Z[:, np.newaxis])
     An = An[:, np.newaxis, :]
     por = np.sum(An*Bn, axis=2)*ui
 
-- 
2.43.0


From aded7f170a37abf06e941dfbe3d7dae6e9a50ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:42 +0000
Subject: [PATCH 38/44] fix: cosenzaandkorosak2014 calculates pore pressure at
 tpor

---
 geotecha/consolidation/cosenzaandkorosak2014.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geotecha/consolidation/cosenzaandkorosak2014.py b/geotecha/consolidation/cosenzaandkorosak2014.py
index 92b85f9..3ddc642 100644
--- a/geotecha/consolidation/cosenzaandkorosak2014.py
+++ b/geotecha/consolidation/cosenzaandkorosak2014.py
@@ -165,7 +165,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     if tpor is None:
         tpor=t
     else:
-        tpor = np.atleast_1d(t)
+        tpor = np.atleast_1d(tpor)
 
 
     M = ((2 * np.arange(nterms) + 1) * np.pi)
@@ -187,7 +187,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
     for j, lam in enumerate(lamda_n):
         Bn[:, j] = np.array(a(tpor, args=(v, theta, lam)), dtype=float)
 
-    if np.allclose(tpor, t): #reuse Bn for Doc
+    if np.array_equal(tpor, t): #reuse Bn for Doc
         Bn_ = Bn.copy()
 
     Bn = Bn[np.newaxis, :, :]
@@ -197,7 +197,7 @@ def cosenzaandkorosak2014(z, t, theta, v, tpor=None, L = 1, kv = 1, mv = 0.1, ga
 
     #degree of consolidation
     An = 2*2**2/M[np.newaxis, :]**2
-    if np.allclose(tpor, t):
+    if np.array_equal(tpor, t):
         Bn = Bn_
     else:
         Bn = np.zeros((len(t), nterms), dtype=float)
-- 
2.43.0


From 65096cfcecfca0111cfeb59851c1f447b9e9959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:27 +0000
Subject: [PATCH 39/44] fix: SchiffmanAndStein1970 handles impeded drainage
 boundaries

---
 geotecha/consolidation/schiffmanandstein1970.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 13f3c4a..fe368b1 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -246,10 +246,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.atop = 1
             self.btop = 0
         elif self.bctop == 3:
-            self.atop = h[0]
-            self.btop = ktop * h[0] / (kv[0] * htop)
+            self.atop = self.h[0]
+            self.btop = self.ktop * self.h[0] / (self.kv[0] * self.htop)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.foramt(self.bctop))
+            raise ValueError('bctop must be 0, 1, or 3. you have bctop = {}'.format(self.bctop))
 
         if self.bcbot == 0:
             self.abot = 0
@@ -258,10 +258,10 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
             self.abot = 1
             self.bbot = 0
         elif self.bcbot == 3:
-            self.abot = h[-1]
-            self.bbot = kbot * h[-1] / (kv[-1] * hbot)
+            self.abot = self.h[-1]
+            self.bbot = self.kbot * self.h[-1] / (self.kv[-1] * self.hbot)
         else:
-            raise ValueError('bctop must be 0, 1, or 2. you have bctop = {}'.format(self.bctop))
+            raise ValueError('bcbot must be 0, 1, or 3. you have bcbot = {}'.format(self.bcbot))
 
         self.BC = np.zeros((2 * self.nlayers, 2* self.nlayers), dtype=float)
 
-- 
2.43.0


From 6898dd1d5149bc9aa133607538b1279e4e6bb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 40/44] fix: schiffmanandstein1970 settlement table holds the
 settlement

---
 geotecha/consolidation/schiffmanandstein1970.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index fe368b1..58583f8 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -419,7 +419,7 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From 1c0dabe10d4dfbe0be26d0299366765a554ed7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 41/44] fix: nogamiandli2003 settlement table holds the
 settlement

---
 geotecha/consolidation/nogamiandli2003.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geotecha/consolidation/nogamiandli2003.py b/geotecha/consolidation/nogamiandli2003.py
index 327ee9d..8ff8583 100644
--- a/geotecha/consolidation/nogamiandli2003.py
+++ b/geotecha/consolidation/nogamiandli2003.py
@@ -743,7 +743,7 @@ class NogamiAndLi2003(inputoutput.InputFileLoaderCheckerSaver):
 
             labels = ['{:.3g} to {:.3g}'.format(0, sum(self.h))]
             d = {'name': '_data_set',
-                 'data': self.avp.T,
+                 'data': self.set.T,
                  'row_labels': self.t,
                  'row_labels_label': 'Time',
                  'column_labels': labels,
-- 
2.43.0


From b33325ab538ba02022adb90e38e4dc789b3bc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:55 +0000
Subject: [PATCH 42/44] fix: SchiffmanAndStein1970 finds the modes of an
 impervious top boundary

---
 geotecha/consolidation/schiffmanandstein1970.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geotecha/consolidation/schiffmanandstein1970.py b/geotecha/consolidation/schiffmanandstein1970.py
index 58583f8..4b31967 100644
--- a/geotecha/consolidation/schiffmanandstein1970.py
+++ b/geotecha/consolidation/schiffmanandstein1970.py
@@ -551,18 +551,16 @@ class SchiffmanAndStein1970(inputoutput.InputFileLoaderCheckerSaver):
 
         self._beta = np.zeros((self.n, self.nlayers), dtype=float)
 
-        self._Cm[:, -1] = 1.0
         for i, beta in enumerate(self._beta0):
             self._beta[i, :] = self._make_BC(beta)
             self.BC[np.abs(self.BC)<1e-10]=0
             if self._debug and i==0:
                 print('BC for beta0')
                 print(self.BC)
-            b = -self.BC[:-1, -1]
-            a = self.BC[:-1, :-1]
-            x = np.linalg.solve(a, b)
+            #null vector of BC; the last Cm is zero for an impervious top
+            x = np.linalg.svd(self.BC)[2][-1]
             self._Bm[i, :] = x[::2]
-            self._Cm[i, :-1] = x[1::2]
+            self._Cm[i, :] = x[1::2]
 
     def _Tm_integrations(self):
         """symbolic integration of the Tm coefficient
-- 
2.43.0


From 9b4b1e8d85587eba7be466c38d2249efe5934603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:43 +0000
Subject: [PATCH 43/44] fix: sine-series integrals accept whole-number
 eigenvalues and depths given as integers

m**(-1) and (zb - zt)**(-1) raise ValueError for integer arrays.
---
 geotecha/speccon/integrals.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index 5d2ee17..384ddc4 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -1159,7 +1159,7 @@ def dim1sin_a_linear_between(m, at, ab, zt, zb, z):
 
     sin=math.sin
     cos=math.cos
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     zt = np.asarray(zt)
@@ -1289,7 +1289,7 @@ def dim1sin_af_linear(m, at, ab, zt, zb, implementation='vectorized'):
     #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     zt = np.asarray(zt)
@@ -1501,7 +1501,7 @@ def dim1sin_abf_linear(m, at, ab, bt, bb,  zt, zb, implementation='vectorized'):
     #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     bt = np.asarray(bt)
@@ -2012,7 +2012,7 @@ def dim1sin_D_aDf_linear(m, at, ab, zt, zb, implementation='vectorized'):
     #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     zt = np.asarray(zt)
@@ -2231,7 +2231,7 @@ def dim1sin_ab_linear(m, at, ab, bt, bb, zt, zb, implementation='vectorized'):
     #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     bt = np.asarray(bt)
@@ -2378,7 +2378,7 @@ def dim1sin_abc_linear(m, at, ab, bt, bb, ct, cb, zt, zb, implementation='vector
     #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     bt = np.asarray(bt)
@@ -2607,13 +2607,13 @@ def dim1sin_D_aDb_linear(m, at, ab, bt, bb, zt, zb, implementation='vectorized')
         #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     bt = np.asarray(bt)
     bb = np.asarray(bb)
-    zt = np.asarray(zt)
-    zb = np.asarray(zb)
+    zt = np.asarray(zt, dtype=float)
+    zb = np.asarray(zb, dtype=float)
 
     neig = len(m)
 
@@ -6846,7 +6846,7 @@ def dim1sin_DD_abDDf_linear(m, at, ab, bt, bb,  zt, zb, implementation='vectoriz
     #import numpy as np #import this at module level
     #import math #import this at module level
 
-    m = np.asarray(m)
+    m = np.asarray(m, dtype=float)
     at = np.asarray(at)
     ab = np.asarray(ab)
     bt = np.asarray(bt)
-- 
2.43.0


From b4d756f7faab8797dde18c7dd6cadb957bf230f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:43 +0000
Subject: [PATCH 44/44] fix: Eload_linear and EDload_linear accept load times
 given as integers

(loadtim[k+1] - loadtim[k])**(-1) raises ValueError for integer arrays.
---
 geotecha/speccon/integrals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geotecha/speccon/integrals.py b/geotecha/speccon/integrals.py
index 384ddc4..b9b2013 100644
--- a/geotecha/speccon/integrals.py
+++ b/geotecha/speccon/integrals.py
@@ -2766,7 +2766,7 @@ def Eload_linear(loadtim, loadmag, eigs, tvals, dT=1.0, implementation='vectoriz
 
     """
 
-    loadtim = np.asarray(loadtim)
+    loadtim = np.asarray(loadtim, dtype=float)
     loadmag = np.asarray(loadmag)
     eigs = np.asarray(eigs)
     tvals = np.asarray(tvals)
@@ -3027,7 +3027,7 @@ def EDload_linear(loadtim, loadmag, eigs, tvals, dT=1.0, implementation='vectori
         is not differentiated with repect to time.
 
     """
-    loadtim = np.asarray(loadtim)
+    loadtim = np.asarray(loadtim, dtype=float)
     loadmag = np.asarray(loadmag)
     eigs = np.asarray(eigs)
     tvals = np.asarray(tvals)
-- 
2.43.0

