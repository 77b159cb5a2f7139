From 7949d02818a3ca89191fb13b64b4f14648ef9cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 01/18] fix: mirrors without a dmd_normal can be constructed

Mirror() passed dmd_normal=None to unit_vector, so every mirror that is not a
DMD raised TypeError.
---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From e3658b6c8e6a783fe990319219c766eaf9ac67c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 02/18] fix: use the inside/outside flag of the optic that is
 hit

Ray.run passed the flag of the optic tested last, so a ball lens refracted with
swapped indices whenever another optic was listed after it.
---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b6e509b..319e457 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            intersection_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, intersection_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From 3f5339298ee9e25f1b4a4b781a6afa7b34e1f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 03/18] fix: rotation helpers do not modify the vectors they
 are given

They normalised their arguments in place: intersecting a cylinder or drawing an
optic changed the optic's own direction or normal, and integer vectors (such as
the default normal='z' of pathpatch_2d_to_3d) raised.
---
 general_optics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..3c3f3a1 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -64,8 +64,8 @@ def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = a / np.linalg.norm(a)
+    b = b / np.linalg.norm(b)
 
     v = np.cross(a, b)
     sin_angle = np.linalg.norm(v)
@@ -127,8 +127,8 @@ def rotation_matrix(v1, v2):
     """
     Calculates the rotation matrix that changes v1 into v2.
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
+    v1 = v1 / np.linalg.norm(v1)
+    v2 = v2 / np.linalg.norm(v2)
 
     cos_angle = np.dot(v1, v2)
     d = np.cross(v1, v2)
-- 
2.43.0


From f4d336ccd6ef8392b629118a4a76398e867dff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 04/18] fix: a ray that meets only the positive part of a
 difference no longer crashes

---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 3c3f3a1..dd551ce 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -610,7 +610,7 @@ def operCsgDifference(resA, resB, ray):
     # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
     elif resA[0]:
         intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
+        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
         return intersected, pointA, None, normalA, None, intersection_count_total
 
     # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-- 
2.43.0


From 4990fd8df28fcb5dd96d9bd80cdc77f0c26249cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 05/18] fix: deleting by extension skips folders whose name
 ends with the extension

os.remove raised on such a folder and the files listed after it stayed, however
often it was called.
---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index f08e1ba..570ab2e 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,7 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From 8280caa9c247eb41a7f206efff378c579ac9cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 06/18] fix: raise the clipping floor above the rounding error
 of intersection points

At bench scale (about 1 m) the surface a ray had just left was hit again at
1e-12 to 1e-9 mm, so most rays through a ball lens refracted twice there.
---
 Shapes/shapes.py | 2 +-
 optics3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..c16647e 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -9,7 +9,7 @@ from general_optics import unit_vector, distance_between, project_onto_plane, \
     rotation_matrix4, scaling_matrix4, translation_matrix4
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-8
 
 
 def check_R_and_D(R, D):
diff --git a/optics3d.py b/optics3d.py
index 319e457..f294215 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -19,7 +19,7 @@ from Shapes.shapes import Rectangle, Circle, Sphere
 
 
 
-INTERSECT_CLIPPING_FLOOR = 1e-12
+INTERSECT_CLIPPING_FLOOR = 1e-8
 INDEX_OF_THE_WORLD = 1.0000000
 
 
-- 
2.43.0


From 8993a12942597456d701db8880097d792b987ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 07/18] fix: a sphere or cylinder touched tangentially behind
 the ray is not hit

The tangent case returned a hit at negative distance, and Ray.run then flew that
distance forward and interacted with nothing there.
---
 Shapes/shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index c16647e..d0b11b9 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -230,7 +230,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
@@ -345,8 +346,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if t0 <= INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, 0
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From bfdc785c353dcf9ca083daa6b88f713f1cdf2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 08/18] fix: deleting by extension in subfolders reports
 folders it cannot list

os.walk drops listing errors by default, so the call returned normally although
files had not been deleted.
---
 general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 570ab2e..f101dd2 100755
--- a/general.py
+++ b/general.py
@@ -415,7 +415,9 @@ def movingAverageFast(x, N):
 def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories=False):
     import os
     if deleteInSubDirectories:
-        for root, dirs, files in os.walk(folder):
+        def raise_error(error):
+            raise error
+        for root, dirs, files in os.walk(folder, onerror=raise_error):
             for file in files:
                 if file.endswith(extensionWithDot):
                      print('removing ' + os.path.join(root, file))
-- 
2.43.0


From a3db156b5e4cfa1b7b2f27841c13f89d30b9ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 09/18] fix: a sphere reports its nearer intersection first

A compound consisting of a single sphere was met at its far side, because the
sphere listed the farther point first (the cylinder already lists the nearer one).
---
 Shapes/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index d0b11b9..d9e1339 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -333,9 +333,9 @@ class Sphere(Shape):
             if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:
                 intersection_count = 2
                 if t0 < t1:
-                    return True, pt1, pt0, norm1, norm0, intersection_count
-                else:
                     return True, pt0, pt1, norm0, norm1, intersection_count
+                else:
+                    return True, pt1, pt0, norm1, norm0, intersection_count
             elif t1 > INTERSECT_CLIPPING_FLOOR:
                 intersection_count = 1
                 return True, pt1, None, norm1, None, intersection_count
-- 
2.43.0


From bee3619622f241d60fdcef974050f62ac80e45cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 10/18] fix: a grating order that does not propagate ends the
 ray

arcsin of a value beyond 1 gave the ray a NaN direction, and the trace went on
with NaN positions.
---
 optics3d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index f294215..9c97a09 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -806,7 +806,11 @@ class Ray:
             # d = groove spacing (mm)
             # sign convention: negative orders are towards the side of zero order
             #                  positive orders are backtowards the incident light
-            beta = np.arcsin(optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha))
+            sin_beta = optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha)
+            if np.abs(sin_beta) > 1:  # this order does not propagate, so the ray ends here
+                self.blocked = True
+                return
+            beta = np.arcsin(sin_beta)
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-- 
2.43.0


From 9b90500a69cb4349353ac249ccae81788dab6a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 11/18] fix: gratings diffract by the grating equation from
 either side of the normal

For incidence on the positive side of the normal the outgoing ray did not
satisfy the grating equation and was not the mirror image of the other side.
With the stated convention (positive orders back towards the incident light)
the Czerny-Turner example uses order -1.
---
 optics3d.py       | 4 ++--
 script_czerny1.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 9c97a09..da52a9d 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -814,9 +814,9 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
diff --git a/script_czerny1.py b/script_czerny1.py
index ce258bb..dc21cea 100644
--- a/script_czerny1.py
+++ b/script_czerny1.py
@@ -66,7 +66,7 @@ for xnorm in ray_sweep_xnorm:
         for z in ray_sweep_z:
             for x in ray_sweep_x:
                 for wave in ray_sweep_wavelength:
-                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=1, print_trajectory=False))
+                    Ray_list.append(Ray(np.array([x, 0, z]), np.array([xnorm, 1, znorm]), wavelength=wave, order=-1, print_trajectory=False))
 
 
 for ray in Ray_list:
-- 
2.43.0


From e26911197654e41227789f415a743c7ae22d90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 12/18] fix: a ray whose run ends within rounding of a surface
 meets it

run(0.1) ten times towards a mirror at distance 1 ended 1e-16 short of it, and
the next run started within the clipping distance and passed through.
---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index da52a9d..346327f 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -846,7 +846,7 @@ class Ray:
                 # we did it
                 if intersected_here:
                     distance_to_optic = distance_between(self.position, int_pt)
-                    if distance_to_optic > distance_remaining:
+                    if distance_to_optic > distance_remaining + INTERSECT_CLIPPING_FLOOR:
                         pass  # allow intersected to remain False, pass through to fly distance_remaining
                     elif distance_to_optic > INTERSECT_CLIPPING_FLOOR:
                         intersected = True  # hit
-- 
2.43.0


From c430dc1a969146809afebe41e767ae38e8a502f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 13/18] fix: a concave mirror is hit by rays that start past
 its aperture disc

---
 optics3d.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 346327f..eac1e62 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -202,26 +202,19 @@ class Mirror(Optic):
                 if isinstance(surface, Sphere):  # first check for intersection with the sphere
                     intersected_sphere, int_pt_sphere1, int_pt_sphere2, norm1, norm2, shooting_from_outside = surface.test_intersect(ray)
                     break
-            if intersected_sphere:
-                for surface in self.surfaces:
-                    if isinstance(surface, Circle):  # then check for intersection with the Circle
-                        intersected_circle, int_pt_circle, normal_circle = surface.test_intersect(ray)
-                        break
-                if intersected_sphere and intersected_circle:
-                    intersected = True  # pick the sphere intersection that is closest to the circle
-                                        # TODO: edge cases, the above isn't exhaustive
-                    distance1 = distance_between(int_pt_circle, int_pt_sphere1)
-                    if int_pt_sphere2 is not None:
-                        distance2 = distance_between(int_pt_circle, int_pt_sphere2)
-                        if distance1 < distance2:
-                            intersection_pt = int_pt_sphere1
-                            normal = norm1
-                        else:
-                            intersection_pt = int_pt_sphere2
-                            normal = norm2
-                    else:
-                        intersection_pt = int_pt_sphere1
-                        normal = norm1
+            if intersected_sphere:  # keep the nearest intersection that is on the mirror's cap of the sphere
+                for int_pt, norm in ((int_pt_sphere1, norm1), (int_pt_sphere2, norm2)):
+                    if int_pt is None:
+                        continue
+                    offset = int_pt - self.position
+                    height = np.dot(offset, self.normal)
+                    radius = np.linalg.norm(offset - height * self.normal)
+                    distance_to_surface = distance_between(ray.position, int_pt)
+                    if height / self.rc < 1 and radius <= self.D / 2 and distance_to_surface < min_distance:
+                        intersected = True
+                        min_distance = distance_to_surface
+                        intersection_pt = int_pt
+                        normal = norm
         elif self.shape == "circular_convex_spherical":
             normal = None
             for surface in self.surfaces:
-- 
2.43.0


From 4bd4d56a50ebf6745a32b503a242225f38d70a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 14/18] fix: interrupting the catalogue reading stops the
 grating sketches

---
 script_sketchconcavegratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script_sketchconcavegratings.py b/script_sketchconcavegratings.py
index 9c9c5ff..e5e71d1 100644
--- a/script_sketchconcavegratings.py
+++ b/script_sketchconcavegratings.py
@@ -33,7 +33,7 @@ with open('dat_concavegratings.txt', 'r', encoding = "ISO-8859-1") as f:
                         #print(field_value)
                         try:
                             grating_data[grating_name][field_name] = float(field_value.split("x", 1)[0].strip())
-                        except:
+                        except ValueError:
                             grating_data[grating_name][field_name] = field_value
     
 
-- 
2.43.0


From 65af6dbcf086ef1df89473ef3421f776b90a49a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:54 +0000
Subject: [PATCH 15/18] fix: rays parallel to a cylinder's axis

---
 Shapes/shapes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index d9e1339..9df92bc 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -169,6 +169,10 @@ class InfiniteCylinder(Shape):
         A = xD ** 2 + yD ** 2
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
+        if A == 0:  # parallel to the axis, so the line never crosses the wall
+            if C < 0:  # inside, the ray only leaves infinitely far away
+                return True, ray.position + 1e150 * ray.direction, None, ray.direction, None, 1
+            return False, None, None, None, None, 0
         discriminant = B * B - 4 * A * C
         if discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
-- 
2.43.0


From 6c6a3280542353194e55a9dd15c7cd27c1f222b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 16/18] fix: a ray just touching one part of an intersection is
 outside it

---
 general_optics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index dd551ce..4855e9e 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -404,7 +404,8 @@ def helper_findIntersects(res, ray, mode='nearest'):
         point = res[1]
         normal = res[3]
         distance = distance1
-        number_of_intersections = 1
+        # a ray just touching a surface counts two intersections at the one point: it is outside, not inside
+        number_of_intersections = 2 if res[5] == 2 else 1
     elif (res[2] is not None):
         distance2 = distance_between(ray.position, res[1])
         point = res[2]
-- 
2.43.0


From 843331fa74bf1db960871e618acc7a35121b8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 17/18] fix: composed bodies are met where their parts' boolean
 says, from anywhere and at any depth

---
 general_optics.py | 293 ++++++----------------------------------------
 1 file changed, 33 insertions(+), 260 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 4855e9e..7b92f9b 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -306,18 +306,40 @@ def printCsgDifference(res1, res2):
 
 
 def test_tree_intersect(tree, ray):
-    opers = {'union': operCsgUnion, 'difference': operCsgDifference, 'intersect': operCsgIntersect}
-    resA = None
-    resB = None
-    if tree:
-        resA = test_tree_intersect(tree.getLeftChild(), ray)
-        resB = test_tree_intersect(tree.getRightChild(), ray)
-        if resA is not None and resB is not None:
-            # if we are at an interior node, do the specified boolean on the child nodes
-            return opers[tree.getRootVal()](resA, resB, ray)
+    inside, crossings = tree_crossings(tree, ray)
+    if not crossings:
+        return False, None, None, None, None, 0
+    distance, point, normal = crossings[0]
+    return True, point, None, normal, None, len(crossings)
+
+
+def tree_crossings(tree, ray):
+    # walk along the ray: whether it starts inside the body, and every crossing of the body's surface, nearest first
+    opers = {'union': operCsgIndexUnion, 'difference': operCsgIndexDifference, 'intersect': operCsgIndexIntersect}
+    if tree.getLeftChild() is None or tree.getRightChild() is None:
+        # if we are at a leaf node, test intersect with that primitive:
+        intersected, pt1, pt2, norm1, norm2, intersection_count = tree.getRootVal().test_intersect(ray)
+        if intersection_count == 2 and pt2 is None:  # just touching is not crossing
+            return False, []
+        points = [(pt1, norm1), (pt2, norm2)]
+        crossings = [(distance_between(ray.position, pt), pt, norm) for pt, norm in points if pt is not None]
+        return np.mod(intersection_count, 2) == 1, crossings
+    # if we are at an interior node, do the specified boolean on the child nodes between every two crossings
+    oper = opers[tree.getRootVal()]
+    insideA, crossingsA = tree_crossings(tree.getLeftChild(), ray)
+    insideB, crossingsB = tree_crossings(tree.getRightChild(), ray)
+    inside = inside_start = oper(insideA, insideB, ray.position)
+    crossings = []
+    both = [(c, True) for c in crossingsA] + [(c, False) for c in crossingsB]
+    for crossing, is_A in sorted(both, key=lambda both_item: both_item[0][0]):
+        if is_A:
+            insideA = not insideA
         else:
-            # if we are at a leaf node, test intersect with that primitive:
-            return tree.getRootVal().test_intersect(ray)
+            insideB = not insideB
+        if oper(insideA, insideB, crossing[1]) != inside:
+            inside = not inside
+            crossings.append(crossing)
+    return inside_start, crossings
 
 
 def test_tree_point(tree, point):
@@ -374,252 +396,3 @@ def operCsgIndexDifference(resA, resB, point):
         return False
     else:
         return False
-
-
-def helper_findIntersects(res, ray, mode='nearest'):
-    if (res[1] is not None) and (res[2] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        distance2 = distance_between(ray.position, res[2])
-        if mode == 'nearest':
-            if distance1 < distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        elif mode == 'farthest':
-            if distance1 > distance2:
-                point = res[1]
-                normal = res[3]
-                distance = distance1
-            else:
-                point = res[2]
-                normal = res[4]
-                distance = distance2
-        number_of_intersections = 2
-    elif (res[1] is not None):
-        distance1 = distance_between(ray.position, res[1])
-        point = res[1]
-        normal = res[3]
-        distance = distance1
-        # a ray just touching a surface counts two intersections at the one point: it is outside, not inside
-        number_of_intersections = 2 if res[5] == 2 else 1
-    elif (res[2] is not None):
-        distance2 = distance_between(ray.position, res[1])
-        point = res[2]
-        normal = res[4]
-        distance = distance2
-        number_of_intersections = 1
-    else:
-        point = None
-        normal = None
-        distance = None
-        number_of_intersections = 0
-    return point, normal, distance, number_of_intersections
-
-
-def operCsgUnion(resA, resB, ray):
-    # res's are results of the primitive shapes test_intersect methods
-    # have two inputs of syntax: intersected, int-pt1, int-pt2, norm1, norm2, intersection_count    (None if none)
-    # e.g.  "False, None, None, None, None, 0"    if there's no intersection with that primitive
-    # e.g. "True, int-pt1, int-pt2, norm1, norm2, 2"   if the ray intersects twice, goes in and out
-    # UNION: min(tA_min, tB_min)
-    # always add up the intersect counts
-    intersected = False
-    normalB = None
-    normalA = None
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        # since resA is a hit, get tA_min
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-
-        # since resB is a hit, get tB_min
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-
-        # get int pt for UNION: min(tA_min, tB_min)
-        if (pointA is not None) and (pointB is not None):
-            if distanceA < distanceB:
-                intersection_point = pointA
-                normal = normalA
-            else:
-                intersection_point = pointB
-                normal = normalB
-        elif (pointA is not None):
-            intersection_point = pointA
-            normal = normalA
-        else:
-            intersection_point = None
-            normal = None
-
-        # we did it! return
-        return intersected, intersection_point, None, normal, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B:
-    elif resB[0]:
-        intersected = True
-        pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        return intersected, pointB, None, normalB, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgIntersect(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A and B"
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # print(f"distanceA_near = {distanceA_near}")
-        # print(f"distanceB_near = {distanceB_near}")
-        # print(f"distanceA_far = {distanceA_far}")
-        # print(f"distanceB_far = {distanceB_far}")
-
-        # if both numbers are even, we are hitting both things from the outside
-        if np.isclose(np.mod(number_intersectionsA, 2), 0) and np.isclose(np.mod(number_intersectionsB, 2), 0):
-            ######
-            # from the magic internet pseudocode:
-            if ((distanceA_near < distanceB_near) and (distanceA_far > distanceB_near)):
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-            elif ((distanceB_near < distanceA_near) and (distanceB_far > distanceA_near)):
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                # I don't think it's supposed to reach here, but whatever, lets just put something
-                print("alert: something weird happening in operCsgIntersect, case 1")
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            ######
-        # if A is even and B is odd, we are outside A and we are inside B
-        elif np.isclose(np.mod(number_intersectionsA, 2), 0):
-            # both the B distances (_near, _far) returned from our helper should be the same
-            distanceB = distanceB_near
-            pointB = pointB_near
-            # if the B intersection is nearer than both the A intersections, we exit B before we hit A, so no intersect
-            if ((distanceB < distanceA_near) and (distanceB < distanceA_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside B and we haven't exited, the next intersection is the near A, right?
-            else:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        # if B is even and A is odd, we are outside B and we are inside A
-        elif np.isclose(np.mod(number_intersectionsB, 2), 0):
-            # both the A distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            pointA = pointA_near
-            # if the A intersection is nearer than both the B intersections, we exit A before we hit B, so no intersect
-            if ((distanceA < distanceB_near) and (distanceA < distanceB_far)):
-                intersected = False
-                return intersected, None, None, None, None, intersection_count_total
-            # um, okay so if we're inside A and we haven't exited, the next intersection is the near B, right?
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-        # if A and B are both odd, we are inside both A and B
-        else:
-            # in this case, each one gives odd intersection counts, so it'll say we're inside, but we're not...
-            # this is probably a sign of big trouble, but for now let me just put a plus one in here ## TODO
-            intersection_count_total += 1
-            # so we just need to take the nearest intersection
-            # both the A and B distances (_near, _far) returned from our helper should be the same
-            distanceA = distanceA_near
-            distanceB = distanceB_near
-            if distanceA < distanceB:
-                intersected = True
-                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-            else:
-                intersected = True
-                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
-
-
-    # else, if the ray is only hitting primitive A, for intersect this is a miss:
-    elif resA[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for intersect this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-
-
-def operCsgDifference(resA, resB, ray):
-    # magic internet pseudocode:
-    #   "First time in A not in B"
-    #
-    # the order is important for this one:  we are doing A - B
-    #
-
-    # um, not sure about the intersection count logic here, might be right might not be ## TODO
-    intersection_count_total = resA[5] + resB[5]
-
-    # if the ray is hitting both primitives:
-    if resA[0] and resB[0]:
-        intersected = True
-
-        pointA_near, normalA_near, distanceA_near, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        pointB_near, normalB_near, distanceB_near, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
-        pointA_far, normalA_far, distanceA_far, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
-        pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
-        # take THAT for data
-
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
-            return intersected, pointA_near, None, normalA_near, None, intersection_count_total
-        elif distanceB_far < distanceA_far:
-            return intersected, pointB_far, None, normalB_far, None, intersection_count_total
-        else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
-            intersected = False
-            return intersected, None, None, None, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
-    elif resA[0]:
-        intersected = True
-        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
-        return intersected, pointA, None, normalA, None, intersection_count_total
-
-    # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-    elif resB[0]:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-
-    # else, we missed everything
-    else:
-        intersected = False
-        return intersected, None, None, None, None, intersection_count_total
-- 
2.43.0


From 76e3eac3724809c6cdce539a31980763b1a297fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 18/18] fix: the index inside a ball lens is the lens's

---
 optics3d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index eac1e62..504b4e3 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -433,6 +433,11 @@ class Lens(Optic):
                         eta1=eta1,
                         eta2=eta2)
 
+    def get_index_at_point_if_inside(self, point):  # Lens
+        if self.shape == "spherical" and self.surfaces[0].test_point(point):
+            return self.index
+        return None
+
     def draw(self, ax, view="3d"):  # Lens
         """Um, somehow draw the optic"""
         # 3D
-- 
2.43.0

