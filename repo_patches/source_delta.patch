From d9a506cd95574e1dbf820b992d958af55b83cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 001/140] fix: cylinder-plane collision used the full cylinder
 length as its half-extent

The boolean overload of cylinderPlaneIntersect() projected lz instead of lz/2
on the plane normal, so a cylinder up to lz/2 away from a plane was reported as
colliding whenever contacts were not requested.
---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..f9a601b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -399,7 +399,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
 
   Vector3<S> Q = R.transpose() * new_s2.n;
 
-  S term = std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
+  S term = 0.5 * std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
   S dist = new_s2.distance(T);
   S depth = term - dist;
 
-- 
2.43.0


From 65cb3883315bf95e4fc72bc23eafec793a0f7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 002/140] fix: collide a convex with a plane

Convex-plane pairs had no specialised intersection test, so both solvers fed the
plane, which has no support function, to GJK: the libccd solver called a null
function pointer and the other one missed collisions. Use the existing
convexPlaneIntersect().
---
 .../narrowphase/detail/gjk_solver_indep-inl.h   |  1 +
 .../narrowphase/detail/gjk_solver_libccd-inl.h  |  1 +
 .../primitive_shape_algorithm/plane-inl.h       | 17 +++++++++++++++++
 .../detail/primitive_shape_algorithm/plane.h    |  8 ++++++++
 4 files changed, 27 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..92e9f27 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -269,6 +269,7 @@ FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectIndepImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 7207292..0a9e4f5 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -265,6 +265,7 @@ FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index f9a601b..4fa6390 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -677,6 +677,23 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
   }
 }
 
+//==============================================================================
+template <typename S>
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts)
+{
+  Vector3<S> point, normal;
+  S depth;
+  if(!convexPlaneIntersect(s1, tf1, s2, tf2, &point, &depth, &normal))
+    return false;
+
+  if(contacts)
+    contacts->emplace_back(normal, point, depth);
+
+  return true;
+}
+
 //==============================================================================
 template <typename S>
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
index 86b141f..1a030c2 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
@@ -130,6 +130,14 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
                           const Plane<S>& s2, const Transform3<S>& tf2,
                           Vector3<S>* contact_points, S* penetration_depth, Vector3<S>* normal);
 
+/// @brief Convex-plane collision, reporting the contact (if any) like the other
+/// shape-plane functions do.
+template <typename S>
+FCL_EXPORT
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts);
+
 template <typename S>
 FCL_EXPORT
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
-- 
2.43.0


From 15536b9f5a33cb63eb232254517fd5fa7edbeca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 003/140] fix: cone-halfspace collision took every downward
 cone for a sideways one

coneHalfspaceIntersect() tested 'cosa < tolerance' where it means a cone axis
parallel to the boundary, so a cone whose axis points into the half-space was
treated as if its axis were parallel to it: collisions were missed and invented.
---
 .../detail/primitive_shape_algorithm/halfspace-inl.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 09a86f5..29cde8d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -441,7 +441,7 @@ bool coneHalfspaceIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
   Vector3<S> dir_z = R.col(2);
   S cosa = dir_z.dot(new_s2.n);
 
-  if(cosa < halfspaceIntersectTolerance<S>())
+  if(std::abs(cosa) < halfspaceIntersectTolerance<S>())
   {
     S signed_dist = new_s2.signedDistance(T);
     S depth = s1.radius - signed_dist;
-- 
2.43.0


From 2189604567b60fbfa786b8dc7366e5ea5280142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 004/140] fix: the built-in GJK stopped early when a dropped
 support point came back

Check B compared the new support point with the last four support points, also
those that had left the simplex. GJK may legitimately pick such a point again,
and stopping there reported overlapping shapes as free and separated shapes as
much farther apart than they are. Compare with the current simplex instead.
---
 .../detail/convexity_based_algorithm/gjk-inl.h      | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index fa01dc3..0cdf60d 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -83,8 +83,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 {
   size_t iterations = 0;
   S alpha = 0;
-  Vector3<S> lastw[4];
-  size_t clastw = 0;
 
   free_v[0] = &store_v[0];
   free_v[1] = &store_v[1];
@@ -102,7 +100,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
   appendVertex(simplices[0], (ray.squaredNorm() > 0) ? (-ray).eval() : Vector3<S>::UnitX());
   simplices[0].p[0] = 1;
   ray = simplices[0].c[0]->w;
-  lastw[0] = lastw[1] = lastw[2] = lastw[3] = ray; // cache previous support points, the new support point will compare with it to avoid too close support points
 
   do
   {
@@ -120,12 +117,12 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 
     appendVertex(curr_simplex, -ray); // see below, ray points away from origin
 
-    // check B: when the new support point is close to previous support points, stop (as the new simplex is degenerated)
+    // check B: when the new support point is close to a vertex of the current simplex, stop (as the new simplex is degenerated). A support point dropped from the simplex earlier may legitimately come back.
     Vector3<S>& w = curr_simplex.c[curr_simplex.rank - 1]->w;
     bool found = false;
-    for(size_t i = 0; i < 4; ++i)
+    for(size_t i = 0; i + 1 < curr_simplex.rank; ++i)
     {
-      if((w - lastw[i]).squaredNorm() < tolerance)
+      if((w - curr_simplex.c[i]->w).squaredNorm() < tolerance)
       {
         found = true; break;
       }
@@ -136,10 +133,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
       removeVertex(simplices[current]);
       break;
     }
-    else
-    {
-      lastw[clastw = (clastw+1)&3] = w;
-    }
 
     // check C: when the new support point is close to the sub-simplex where the ray point lies, stop (as the new simplex again is degenerated)
     S omega = ray.dot(w) / rl;
-- 
2.43.0


From d1a98f2c5d2cc08ff7243dd263ed8901a620e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 005/140] fix: the libccd distance query stopped before it had
 converged

It stopped as soon as one iteration gained less than the tolerance, or as soon as
a support point happened to lie as far from the origin as the current closest
point: distances came out too large (by up to some percent) and nearest points
off the objects. Stop when the support point cannot improve the distance by the
tolerance, and keep the closest point of the last useful iteration (it was read
uninitialised when reducing the simplex found nothing closer).
---
 .../convexity_based_algorithm/gjk_libccd-inl.h       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 3090fc7..89f548b 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -2070,11 +2070,12 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
                                   ccd_vec3_t* p1, ccd_vec3_t* p2)
 {
   ccd_real_t last_dist = CCD_REAL_MAX;
+  // The point on the simplex that is closest to the origin; it outlives an
+  // iteration in which simplexReduceToTriangle() finds nothing closer.
+  ccd_vec3_t closest_p;
 
   for (unsigned long iterations = 0UL; iterations < ccd->max_iterations;
        ++iterations) {
-    ccd_vec3_t closest_p; // The point on the simplex that is closest to the
-                          // origin.
     ccd_real_t dist;
     // get a next direction vector
     // we are trying to find out a point on the minkowski difference
@@ -2109,7 +2110,7 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
     }
 
     // check whether we improved for at least a minimum tolerance
-    if ((last_dist - dist) < ccd->dist_tolerance)
+    if ((last_dist - dist) <= constants<ccd_real_t>::eps() * dist)
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
       return dist;
@@ -2133,7 +2134,10 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
     // point that is already in the simplex
     dist = ccdVec3Len2(&last.v);
     dist = CCD_SQRT(dist);
-    if (CCD_FABS(last_dist - dist) < ccd->dist_tolerance)
+    const ccd_real_t gap = last_dist + ccdVec3Dot(&dir, &last.v);
+    if (gap <= 10 * constants<ccd_real_t>::eps() * dist ||
+        (gap < ccd->dist_tolerance &&
+         CCD_FABS(last_dist - dist) < ccd->dist_tolerance))
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
       return last_dist;
-- 
2.43.0


From 81220d96e07aa46e838a4e837c311282621d4750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 006/140] fix: generic contacts of the built-in GJK solver had
 a negative depth and a local normal

The EPA depth is positive when the shapes overlap, but ContactPoint's
penetration_depth was set to its negation, and the normal was left in the frame
of the first shape. The two shape-triangle variants had the same problems, with
the normal in addition pointing from the triangle to the shape where all other
implementations (libccd, sphere-triangle) point from the shape to the triangle.
---
 .../fcl/narrowphase/detail/gjk_solver_indep-inl.h    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index 92e9f27..ff92ba7 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -147,9 +147,9 @@ struct ShapeIntersectIndepImpl
           }
           if(contacts)
           {
-            Vector3<S> normal = epa.normal;
+            Vector3<S> normal = tf1.linear() * epa.normal;
             Vector3<S> point = tf1 * (w0 - epa.normal*(epa.depth *0.5));
-            S depth = -epa.depth;
+            S depth = epa.depth;
             contacts->emplace_back(normal, point, depth);
           }
           return true;
@@ -392,8 +392,8 @@ struct ShapeTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) normal->noalias() = tf.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
@@ -489,8 +489,8 @@ struct ShapeTransformedTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) normal->noalias() = tf1.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf1 * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
-- 
2.43.0


From 3c76e0cd9be88d017ec398712db2667268dd48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 007/140] fix: sphere-capsule contact position was off the
 contact

The contact point was taken along the normal from the capsule's axis by the
penetration depth, ignoring the capsule radius, so it lay far from where the two
surfaces meet. Report the deepest point of the sphere.
---
 .../detail/primitive_shape_algorithm/sphere_capsule-inl.h     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index c85d569..dc6e6f2 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -111,8 +111,10 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (contacts)
   {
     const Vector3<S> normal = tf2.linear() * local_normal;
-    const Vector3<S> point = tf2 * (segment_point + local_normal * distance);
     const S penetration_depth = -distance;
+    // The deepest point of the sphere.
+    const Vector3<S> point =
+        tf2 * (segment_point - local_normal * (s2.radius - penetration_depth));
 
     contacts->emplace_back(normal, point, penetration_depth);
   }
-- 
2.43.0


From 6a344d575be7a4e3669e3b82eaad785d7eb5ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 008/140] fix: sphere-triangle contacts had a negative depth
 and could sit on the wrong edge

The penetration depth was set to (distance - radius), which is negative whenever
there is a contact, and when several edges of the triangle were within the
sphere, the contact point was taken from the last of them, not the closest.
---
 .../primitive_shape_algorithm/sphere_triangle-inl.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..3be4ec3 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -167,24 +167,27 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
     else
     {
       S contact_capsule_radius_sqr = radius_with_threshold * radius_with_threshold;
+      S min_distance_sqr = contact_capsule_radius_sqr;
       Vector3<S> nearest_on_edge;
       S distance_sqr;
       distance_sqr = segmentSqrDistance(P1, P2, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < min_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        min_distance_sqr = distance_sqr;
       }
 
       distance_sqr = segmentSqrDistance(P2, P3, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < min_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        min_distance_sqr = distance_sqr;
       }
 
       distance_sqr = segmentSqrDistance(P3, P1, center, nearest_on_edge);
-      if(distance_sqr < contact_capsule_radius_sqr)
+      if(distance_sqr < min_distance_sqr)
       {
         has_contact = true;
         contact_point = nearest_on_edge;
@@ -204,13 +207,13 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -(radius - distance);
+        if(penetration_depth) *penetration_depth = radius - distance;
       }
       else
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -radius;
+        if(penetration_depth) *penetration_depth = radius;
       }
 
       return true;
-- 
2.43.0


From 0525755e8b24fbd0df4a4c35f8cd4a84b6b60889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 009/140] fix: the signed distance query returned a placeholder
 instead of the depth

With enable_signed_distance, distance() replaced result.min_distance with the
penetration depth found by collide(), but still returned the narrow-phase
solver's placeholder (-1). It also did so when the negative minimum came from an
earlier query accumulated into the same result, and read past the contacts when
collide() found none. Return the computed value, and only replace a minimum this
query found.
---
 include/fcl/narrowphase/distance-inl.h | 46 +++++++++++++++-----------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 3244631..94f1664 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -112,7 +112,7 @@ typename NarrowPhaseSolver::S distance(
   NODE_TYPE node_type2 = o2->getNodeType();
 
   S res = std::numeric_limits<S>::max();
-
+  const S previous_min_distance = result.min_distance;
 
   if(object_type1 == OT_GEOM && object_type2 == OT_BVH)
   {
@@ -146,6 +146,7 @@ typename NarrowPhaseSolver::S distance(
   // objects.
   if(res
      && result.min_distance < static_cast<S>(0)
+     && result.min_distance < previous_min_distance
      && request.enable_signed_distance)
   {
     if (std::is_same<NarrowPhaseSolver, detail::GJKSolver_libccd<S>>::value
@@ -160,30 +161,37 @@ typename NarrowPhaseSolver::S distance(
     CollisionResult<S> collision_result;
 
     collide(o1, tf1, o2, tf2, nsolver, collision_request, collision_result);
-    assert(collision_result.isCollision());
 
-    std::size_t index = static_cast<std::size_t>(-1);
-    S max_pen_depth = std::numeric_limits<S>::min();
-    for (auto i = 0u; i < collision_result.numContacts(); ++i)
+    if (collision_result.numContacts() == 0)
+    {
+      // The objects touch without penetrating each other.
+      result.min_distance = 0;
+    }
+    else
     {
-      const auto& contact = collision_result.getContact(i);
-      if (max_pen_depth < contact.penetration_depth)
+      std::size_t index = 0;
+      S max_pen_depth = collision_result.getContact(0).penetration_depth;
+      for (std::size_t i = 1; i < collision_result.numContacts(); ++i)
       {
-        max_pen_depth = contact.penetration_depth;
-        index = i;
+        const auto& contact = collision_result.getContact(i);
+        if (max_pen_depth < contact.penetration_depth)
+        {
+          max_pen_depth = contact.penetration_depth;
+          index = i;
+        }
       }
-    }
-    result.min_distance = -max_pen_depth;
-    assert(index != static_cast<std::size_t>(-1));
+      result.min_distance = -max_pen_depth;
 
-    if (request.enable_nearest_points)
-    {
-      const Vector3<S>& pos = collision_result.getContact(index).pos;
-      result.nearest_points[0] = pos;
-      result.nearest_points[1] = pos;
-      // Note: The pair of nearest points is not guaranteed to be on the
-      // surface of the objects.
+      if (request.enable_nearest_points)
+      {
+        const Vector3<S>& pos = collision_result.getContact(index).pos;
+        result.nearest_points[0] = pos;
+        result.nearest_points[1] = pos;
+        // Note: The pair of nearest points is not guaranteed to be on the
+        // surface of the objects.
+      }
     }
+    res = result.min_distance;
   }
 
   if(!nsolver_)
-- 
2.43.0


From 9e116a15733ab15d0b2ddeb9627ac142850ebf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 010/140] fix: EPA took the distance to an edge without
 dividing by the edge's length

getEdgeDist() used sqrt(|a|^2|b|^2 - (a.b)^2), which is the distance from the
origin to the line ab times |b - a|. Faces were expanded in the wrong order, and
penetration depth, normal and position of the contacts came out wrong by up to the
size of the objects.
---
 .../fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index e9c667d..7125586 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -145,7 +145,7 @@ bool EPA<S>::getEdgeDist(SimplexF* face, SimplexV* a, SimplexV* b, S& dist)
     else
     {
       S a_dot_b = a->w.dot(b->w);
-      dist = std::sqrt(std::max(a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b, (S)0));
+      dist = std::sqrt(std::max((a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b) / ba.squaredNorm(), (S)0));
     }
 
     return true;
-- 
2.43.0


From aad736463d52e265147c11a868a88dffe3558159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 011/140] fix: EPA tested face visibility against the distance
 to the face, not its plane

SimplexF::d is the distance to an edge or vertex when the origin projects outside
of the face, so a face that sees the new support point could be kept, leaving a
non-convex hull and a wrong penetration depth.
---
 .../fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index 7125586..c5186fa 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -356,7 +356,7 @@ bool EPA<S>::expand(size_t pass, SimplexV* w, SimplexF* f, size_t e, SimplexHori
     const size_t e1 = nexti[e];
 
     // case 1: the new face is not degenerated, i.e., the new face is not coplanar with the old face f.
-    if(f->n.dot(w->w) - f->d < -tolerance)
+    if(f->n.dot(w->w - f->c[0]->w) < -tolerance)
     {
       SimplexF* nf = newFace(f->c[e1], f->c[e], w, false);
       if(nf)
-- 
2.43.0


From 1083f2271ff7eac4c620642182b3ee108be3a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:53 +0000
Subject: [PATCH 012/140] fix: sphere-capsule contact normal was zero for a
 sphere centred on the axis

---
 .../detail/primitive_shape_algorithm/sphere_capsule-inl.h    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index dc6e6f2..2de133b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -106,7 +106,10 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (distance > 0)
     return false;
 
-  const Vector3<S> local_normal = -diff.normalized();
+  // With the sphere's center on the capsule's axis, every direction orthogonal to
+  // the axis is as good as any other.
+  const Vector3<S> local_normal =
+      diff.isZero(0) ? Vector3<S>::UnitX() : Vector3<S>(-diff.normalized());
 
   if (contacts)
   {
-- 
2.43.0


From b8300cfc16f5e32b6ca8117ef944d0792b28b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 013/140] fix: mesh contacts and distances referred to deleted
 temporary copies of the models

---
 include/fcl/narrowphase/collision_result-inl.h       | 12 ++++++++++++
 include/fcl/narrowphase/collision_result.h           |  5 +++++
 .../narrowphase/detail/collision_func_matrix-inl.h   |  7 +++++++
 .../narrowphase/detail/distance_func_matrix-inl.h    |  5 +++++
 4 files changed, 29 insertions(+)

diff --git a/include/fcl/narrowphase/collision_result-inl.h b/include/fcl/narrowphase/collision_result-inl.h
index e8829be..c2bcac3 100644
--- a/include/fcl/narrowphase/collision_result-inl.h
+++ b/include/fcl/narrowphase/collision_result-inl.h
@@ -120,6 +120,18 @@ void CollisionResult<S>::getCostSources(
   std::copy(cost_sources.begin(), cost_sources.end(), cost_sources_.begin());
 }
 
+//==============================================================================
+template <typename S>
+void CollisionResult<S>::replaceContactGeometry(
+    const CollisionGeometry<S>* from, const CollisionGeometry<S>* to)
+{
+  for (auto& contact : contacts)
+  {
+    if (contact.o1 == from) contact.o1 = to;
+    if (contact.o2 == from) contact.o2 = to;
+  }
+}
+
 //==============================================================================
 template <typename S>
 void CollisionResult<S>::clear()
diff --git a/include/fcl/narrowphase/collision_result.h b/include/fcl/narrowphase/collision_result.h
index a0d3677..cf7df37 100644
--- a/include/fcl/narrowphase/collision_result.h
+++ b/include/fcl/narrowphase/collision_result.h
@@ -88,6 +88,11 @@ public:
   /// @brief get all the cost sources 
   void getCostSources(std::vector<CostSource<S>>& cost_sources_);
 
+  /// @brief make the contacts that refer to the geometry from refer to the
+  /// geometry to instead
+  void replaceContactGeometry(const CollisionGeometry<S>* from,
+                              const CollisionGeometry<S>* to);
+
   /// @brief clear the results obtained
   void clear();
 };
diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..2557d66 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -341,6 +341,8 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
       fcl::detail::collide(&node);
 
+      // The contacts must not refer to the temporary copy
+      result.replaceContactGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
 
       Box<S> box;
@@ -365,6 +367,8 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
       fcl::detail::collide(&node);
 
+      // The contacts must not refer to the temporary copy
+      result.replaceContactGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
     }
 
@@ -546,6 +550,9 @@ struct BVHCollideImpl
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     collide(&node);
 
+    // The contacts must not refer to the temporary copies
+    result.replaceContactGeometry(obj1_tmp, obj1);
+    result.replaceContactGeometry(obj2_tmp, obj2);
     delete obj1_tmp;
     delete obj2_tmp;
 
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..6024fb7 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -249,6 +249,8 @@ struct BVHShapeDistancer
     initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
     ::fcl::distance(&node);
 
+    // The result must not refer to the temporary copy
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
     delete obj1_tmp;
     return result.min_distance;
   }
@@ -362,6 +364,9 @@ struct BVHDistanceImpl
 
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     distance(&node);
+    // The result must not refer to the temporary copies
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
+    if(result.o2 == obj2_tmp) result.o2 = obj2;
     delete obj1_tmp;
     delete obj2_tmp;
 
-- 
2.43.0


From 281d99199cc7839e5bbfa6f4cd7ac933f3e33949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:29 +0000
Subject: [PATCH 014/140] fix: the vertices of an updated model could not be
 replaced

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 906a593..cdb3bcc 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -520,7 +520,7 @@ int BVHModel<BV>::endModel()
 template <typename BV>
 int BVHModel<BV>::beginReplaceModel()
 {
-  if(build_state != BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_PROCESSED && build_state != BVH_BUILD_STATE_UPDATED)
   {
     std::cerr << "BVH Error! Call beginReplaceModel() on a BVHModel that has no previous frame.\n";
     return BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME;
-- 
2.43.0


From fd0ee7098dd043214322ac44897becfbe8c018f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 015/140] fix: the union of two RSSs mixed the axes of the old
 and the new volume

---
 include/fcl/math/bv/RSS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 2cbc7dd..3e82b2f 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -368,7 +368,7 @@ RSS<S> RSS<S>::operator +(const RSS<S>& other) const
   // column first matrix, as the axis in RSS
   bv.axis.col(0) = E.col(max);
   bv.axis.col(1) = E.col(mid);
-  bv.axis.col(2).noalias() = axis.col(0).cross(axis.col(1));
+  bv.axis.col(2).noalias() = bv.axis.col(0).cross(bv.axis.col(1));
 
   // set rss origin, rectangle size and radius
   getRadiusAndOriginAndRectangleSize<S>(v, nullptr, nullptr, nullptr, 16, bv.axis, bv.To, bv.l, bv.r);
-- 
2.43.0


From 77dafaed5eb1266fd703c3a8b66d07bbe7516bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 016/140] fix: mesh collisions with a halfspace or a plane
 crashed on volumes in world axes

---
 .../narrowphase/detail/gjk_solver_indep-inl.h | 40 +++++++++++++++++++
 .../detail/gjk_solver_libccd-inl.h            | 40 +++++++++++++++++++
 2 files changed, 80 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index ff92ba7..25fbd91 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -445,6 +445,46 @@ struct ShapeTriangleIntersectIndepImpl<S, Sphere<S>>
 };
 
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(), contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(), contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectIndepImpl
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 0a9e4f5..098fff8 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -419,6 +419,46 @@ struct ShapeTriangleIntersectLibccdImpl<S, Sphere<S>>
   }
 };
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(), contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(), contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectLibccdImpl
-- 
2.43.0


From 5b7fff604a0018a66f5e8a305457b8a1faf7bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 017/140] fix: sphere-triangle distance left the value unset on
 overlap and mixed frames of the nearest points

---
 .../primitive_shape_algorithm/sphere_triangle-inl.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 3be4ec3..a2dcef0 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -483,12 +483,15 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       Vector3<S> project_p = P1 * result.parameterization[0] + P2 * result.parameterization[1] + P3 * result.parameterization[2];
       Vector3<S> dir = o - project_p;
       dir.normalize();
-      if(p1) { *p1 = o - dir * sp.radius; *p1 = tf.inverse(Eigen::Isometry) * (*p1); }
+      if(p1) *p1 = o - dir * sp.radius;
       if(p2) *p2 = project_p;
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
@@ -502,10 +505,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Transform3<S>& tf2,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
-  bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
-
-  return res;
+  return detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
 }
 
 } // namespace detail
-- 
2.43.0


From 3c031a027235a31bde0114393b5b7ca4ad1c9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 018/140] fix: the OBB of a convex dropped the axes it was
 fitted with

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..7232e5a 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From 630250685d43a1d5913eb99c0fb23a1ba1960558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 019/140] fix: the RSS of a plane covered only a slab quadrant
 perpendicular to it

---
 include/fcl/geometry/shape/utility-inl.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 7232e5a..48e6978 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -674,16 +674,14 @@ struct FCL_EXPORT ComputeBVImpl<S, RSS<S>, Plane<S>>
 {
   static void run(const Plane<S>& s, const Transform3<S>& tf, RSS<S>& bv)
   {
-    const Vector3<S> n = tf.linear() * s.n;
-    bv.axis = generateCoordinateSystem(n);
-
-    bv.l[0] = std::numeric_limits<S>::max();
-    bv.l[1] = std::numeric_limits<S>::max();
-
-    bv.r = 0;
+    FCL_UNUSED(s);
+    FCL_UNUSED(tf);
 
-    Vector3<S> p = s.n * s.d;
-    bv.To = tf * p;
+    /// A rectangle cannot cover a plane from its corner: plane can only have
+    /// very rough RSS
+    bv.axis.setIdentity();
+    bv.To.setZero();
+    bv.l[0] = bv.l[1] = bv.r = std::numeric_limits<S>::max();
   }
 };
 
-- 
2.43.0


From d2dd1a02428e992fc94e04145e2dafb3d84eb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 020/140] fix: sphere-triangle contact normal was rounding
 error for a centre in the triangle's plane

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index a2dcef0..f8d190c 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -156,12 +156,14 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
   bool is_inside_contact_plane = (distance_from_plane < radius_with_threshold);
 
   bool has_contact = false;
+  bool is_face_contact = false;
   Vector3<S> contact_point;
   if(is_inside_contact_plane)
   {
     if(projectInTriangle(P1, P2, P3, normal, center))
     {
       has_contact = true;
+      is_face_contact = true;
       contact_point = center - normal * distance_from_plane;
     }
     else
@@ -202,7 +204,8 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
 
     if(distance_sqr < radius_with_threshold * radius_with_threshold)
     {
-      if(distance_sqr > 0)
+      // The direction to a center in the triangle's plane is only rounding error
+      if(distance_sqr > 0 && !is_face_contact)
       {
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
@@ -213,7 +216,7 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = radius;
+        if(penetration_depth) *penetration_depth = radius - std::sqrt(distance_sqr);
       }
 
       return true;
-- 
2.43.0


From 6cd2e75d83d132db2138713b454a81eb7e108a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 021/140] fix: merging two close OBBs could lose the lower end
 of the first box

---
 include/fcl/math/bv/OBB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..47bad32 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -341,7 +341,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +355,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From d5d56b6e40867efb2816fc76609f7a566973154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 022/140] fix: merging two distant flat OBBs could produce
 non-orthogonal axes

---
 include/fcl/math/bv/OBB-inl.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 47bad32..c3510d6 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -302,7 +302,13 @@ OBB<S> merge_largedist(const OBB<S>& b1, const OBB<S>& b2)
   }
 
   b.axis.col(1) << E.col(0)[max], E.col(1)[max], E.col(2)[max];
-  b.axis.col(2) << E.col(0)[mid], E.col(1)[mid], E.col(2)[mid];
+  // Flat inputs leave the eigenvectors in the projection plane undetermined
+  b.axis.col(1) -= b.axis.col(0) * b.axis.col(0).dot(b.axis.col(1));
+  if(b.axis.col(1).norm() < 0.5)
+    b.axis.col(1) = b.axis.col(0).unitOrthogonal();
+  else
+    b.axis.col(1).normalize();
+  b.axis.col(2) = b.axis.col(0).cross(b.axis.col(1));
 
   // set obb centers and extensions
   getExtentAndCenter<S>(
-- 
2.43.0


From c51bd41f4adb8c66c24f846b37c5437650b18e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 023/140] fix: RSS volume counts the swept edges and the ball
 once

---
 include/fcl/math/bv/RSS-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 3e82b2f..703a324 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -401,7 +401,8 @@ S RSS<S>::depth() const
 template <typename S>
 S RSS<S>::volume() const
 {
-  return (l[0] * l[1] * 2 * r + 4 * constants<S>::pi() * r * r * r);
+  return (l[0] * l[1] * 2 * r + constants<S>::pi() * r * r * (l[0] + l[1])
+          + 4 * constants<S>::pi() * r * r * r / 3);
 }
 
 //==============================================================================
-- 
2.43.0


From e8a1f9fe4266ec7c3d47fa8cf834a8a11602adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 024/140] fix: translating a kIOS also moves its OBB

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 81a802a..9a57963 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -309,7 +309,7 @@ kIOS<S> translate(
     res.spheres[i].o += t;
   }
 
-  translate(res.obb, t);
+  res.obb = translate(res.obb, t);
   return res;
 }
 
-- 
2.43.0


From 4cb553514c82d7bfad78561d3e9467b006201662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 025/140] fix: kIOS merge spheres in full precision and without
 doubling the radius

---
 include/fcl/math/bv/kIOS-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 9a57963..3943bf6 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -64,9 +64,9 @@ typename kIOS<S>::kIOS_Sphere kIOS<S>::encloseSphere(
   }
   else /** spheres partially overlapping or disjoint */
   {
-    float dist = std::sqrt(dist2);
+    S dist = std::sqrt(dist2);
     kIOS_Sphere s;
-    s.r = dist + s0.r + s1.r;
+    s.r = (dist + s0.r + s1.r) * 0.5;
     if(dist > 0)
       s.o = s0.o + d * ((s.r - s0.r) / dist);
     else
-- 
2.43.0


From bcaac71c0773ef2946e81aa7722a53db6ff19b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 026/140] fix: AABB nearest points lie in both boxes when the
 intervals overlap

---
 include/fcl/math/bv/AABB-inl.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..dfcbb0a 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -268,18 +268,10 @@ S AABB<S>::distance(const AABB<S>& other, Vector3<S>* P, Vector3<S>* Q) const
     {
       if(P && Q)
       {
-        if(bmin >= amin)
-        {
-          S t = 0.5 * (amax + bmin);
-          (*P)[i] = t;
-          (*Q)[i] = t;
-        }
-        else
-        {
-          S t = 0.5 * (amin + bmax);
-          (*P)[i] = t;
-          (*Q)[i] = t;
-        }
+        // the middle of the common part of both intervals
+        S t = 0.5 * (std::max(amin, bmin) + std::min(amax, bmax));
+        (*P)[i] = t;
+        (*Q)[i] = t;
       }
     }
   }
-- 
2.43.0


From fa6a26425dba1271e9ec7356254a192b374fe1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 027/140] fix: RSS contains the points on its rectangle's
 border lines

---
 include/fcl/math/bv/RSS-inl.h | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 703a324..a5c39bc 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -134,32 +134,12 @@ bool RSS<S>::contain(const Vector3<S>& p) const
       axis.col(0).dot(local_p),
       axis.col(1).dot(local_p),
       axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
 
-  /// projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
-  {
-    return (abs_proj2 < r);
-  }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
-  {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
-  else
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    return ((proj - v).squaredNorm() < r * r);
-  }
+  // the point of the rectangle nearest to the query
+  Vector3<S> v(std::max(S(0), std::min(l[0], proj[0])),
+               std::max(S(0), std::min(l[1], proj[1])),
+               0);
+  return ((proj - v).squaredNorm() <= r * r);
 }
 
 //==============================================================================
-- 
2.43.0


From bb164f1cae52f9c40955e75818ee19ef2b04e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 028/140] fix: merging a point into an RSS works in the frame
 of the RSS

---
 include/fcl/math/bv/RSS-inl.h | 143 +++-------------------------------
 1 file changed, 12 insertions(+), 131 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index a5c39bc..7563c45 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -147,137 +147,18 @@ template <typename S>
 RSS<S>& RSS<S>::operator +=(const Vector3<S>& p)
 
 {
-  Vector3<S> local_p = p - To;
-  Vector3<S> proj(
-      axis.col(0).dot(local_p),
-      axis.col(1).dot(local_p),
-      axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
-
-  // projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
-  {
-    if(abs_proj2 < r)
-      ; // do nothing
-    else
-    {
-      r = 0.5 * (r + abs_proj2); // enlarge the r
-      // change RSS origin position
-      if(proj[2] > 0)
-        To[2] += 0.5 * (abs_proj2 - r);
-      else
-        To[2] -= 0.5 * (abs_proj2 - r);
-    }
-  }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
-  {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_y = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-      }
-      else
-      {
-        S delta_y = fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
-  }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_x = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
-  }
-  else
-  {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S diag = std::sqrt(new_r_sqr - proj[2] * proj[2]);
-        S delta_diag = - std::sqrt(r * r - proj[2] * proj[2]) + diag;
-
-        S delta_x = delta_diag / diag * fabs(proj[0] - x);
-        S delta_y = delta_diag / diag * fabs(proj[1] - y);
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        S delta_y = fabs(proj[1] - y);
-
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
-  }
-
-  return *this;
+  if(contain(p))
+    return *this;
+
+  // merge with the RSS which consists of this point only
+  RSS<S> point;
+  point.axis = axis;
+  point.To = p;
+  point.l[0] = 0;
+  point.l[1] = 0;
+  point.r = 0;
+
+  return *this += point;
 }
 
 //==============================================================================
-- 
2.43.0


From 6b29ebe462646d812d713e2051134407e69b402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 029/140] fix: nearest points of rectangles when a face is
 involved

---
 include/fcl/math/bv/RSS-inl.h | 152 +++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 78 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 7563c45..6c6d983 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -370,6 +370,74 @@ bool inVoronoi(S a, S b, S Anorm_dot_B, S Anorm_dot_T, S A_dot_B, S A_dot_T, S B
   return false;
 }
 
+/// @brief The nearest points of two disjoint rectangles. The first rectangle is [0, a0]x[0, a1] in
+/// z = 0, the second is [0, b0]x[0, b1] in the frame (Rab, Tab); both points
+/// are in the frame of the first one.
+template <typename S>
+void rectNearestPoints(
+    const Matrix3<S>& Rab, const Vector3<S>& Tab, const S a[2], const S b[2],
+    Vector3<S>& P, Vector3<S>& Q)
+{
+  S min_dist = std::numeric_limits<S>::max();
+  for(int i = 0; i < 4; ++i)
+  {
+    const S s = i & 1;
+    const S t = i >> 1;
+
+    // a vertex of the second rectangle and the first rectangle
+    const Vector3<S> q = Tab + Rab.col(0) * (s * b[0]) + Rab.col(1) * (t * b[1]);
+    const Vector3<S> p(std::max(S(0), std::min(a[0], q[0])),
+                       std::max(S(0), std::min(a[1], q[1])), 0);
+    if((q - p).norm() < min_dist)
+    {
+      min_dist = (q - p).norm();
+      P = p;
+      Q = q;
+    }
+
+    // a vertex of the first rectangle and the second rectangle
+    const Vector3<S> v(s * a[0], t * a[1], 0);
+    const Vector3<S> local = Rab.transpose() * (v - Tab);
+    const Vector3<S> w = Tab
+        + Rab.col(0) * std::max(S(0), std::min(b[0], local[0]))
+        + Rab.col(1) * std::max(S(0), std::min(b[1], local[1]));
+    if((w - v).norm() < min_dist)
+    {
+      min_dist = (w - v).norm();
+      P = v;
+      Q = w;
+    }
+  }
+
+  // two edges, which matters for rectangles without area
+  for(int i = 0; i < 4; ++i)
+  {
+    for(int j = 0; j < 4; ++j)
+    {
+      // edge along axis k, at the far (or near) side in the other direction
+      const int ka = i & 1, kb = j & 1;
+      Vector3<S> Pa = Vector3<S>::Zero();
+      if(i & 2) Pa[1 - ka] = a[1 - ka];
+      Vector3<S> Pb = Tab;
+      if(j & 2) Pb += Rab.col(1 - kb) * b[1 - kb];
+
+      const Vector3<S> A = Vector3<S>::Unit(ka);
+      const Vector3<S> B = Rab.col(kb);
+      const Vector3<S> T = Pb - Pa;
+      S t, u;
+      segCoords(t, u, a[ka], b[kb], A.dot(B), A.dot(T), B.dot(T));
+      const Vector3<S> p = Pa + A * t;
+      const Vector3<S> q = Pb + B * u;
+      if((q - p).norm() < min_dist)
+      {
+        min_dist = (q - p).norm();
+        P = p;
+        Q = q;
+      }
+    }
+  }
+}
+
 //==============================================================================
 template <typename S>
 S rectDistance(const Matrix3<S>& Rab, Vector3<S> const& Tab, const S a[2], const S b[2], Vector3<S>* P, Vector3<S>* Q)
@@ -1041,47 +1109,10 @@ S rectDistance(const Matrix3<S>& Rab, Vector3<S> const& Tab, const S a[2], const
     if (Rab(1, 2) > 0.0) sep2 -= a[1] * Rab(1, 2);
   }
 
-  if(sep1 >= sep2 && sep1 >= 0)
-  {
-    if(Tab[2] > 0)
-      D << 0, 0, sep1;
-    else
-      D << 0, 0, -sep1;
-
-    if(P && Q)
-    {
-      *Q = D;
-      P->setZero();
-    }
-  }
-
-  if(sep2 >= sep1 && sep2 >= 0)
-  {
-    Vector3<S> Q_(Tab[0], Tab[1], Tab[2]);
-    Vector3<S> P_;
-    if(Tba[2] < 0)
-    {
-      P_[0] = Rab(0, 2) * sep2 + Tab[0];
-      P_[1] = Rab(1, 2) * sep2 + Tab[1];
-      P_[2] = Rab(2, 2) * sep2 + Tab[2];
-    }
-    else
-    {
-      P_[0] = -Rab(0, 2) * sep2 + Tab[0];
-      P_[1] = -Rab(1, 2) * sep2 + Tab[1];
-      P_[2] = -Rab(2, 2) * sep2 + Tab[2];
-    }
-
-    D = Q_ - P_;
-
-    if(P && Q)
-    {
-      *P = P_;
-      *Q = Q_;
-    }
-  }
-
   S sep = (sep1 > sep2 ? sep1 : sep2);
+  if(P && Q && sep >= 0)
+    rectNearestPoints<S>(Rab, Tab, a, b, *P, *Q);
+
   return (sep > 0 ? sep : 0);
 }
 
@@ -1754,45 +1785,10 @@ S rectDistance(
     if (tfab.linear()(1, 2) > 0.0) sep2 -= a[1] * tfab.linear()(1, 2);
   }
 
-  if(sep1 >= sep2 && sep1 >= 0)
-  {
-    if(tfab.translation()[2] > 0)
-      D << 0, 0, sep1;
-    else
-      D << 0, 0, -sep1;
-
-    if(P && Q)
-    {
-      *Q = D;
-      P->setZero();
-    }
-  }
-
-  if(sep2 >= sep1 && sep2 >= 0)
-  {
-    Vector3<S> Q_(tfab.translation());
-    Vector3<S> P_;
-    if(Tba[2] < 0)
-    {
-      P_.noalias() = tfab.linear().col(2) * sep2;
-      P_.noalias() += tfab.translation();
-    }
-    else
-    {
-      P_.noalias() = tfab.linear().col(2) * -sep2;
-      P_.noalias() += tfab.translation();
-    }
-
-    D = Q_ - P_;
-
-    if(P && Q)
-    {
-      *P = P_;
-      *Q = Q_;
-    }
-  }
-
   S sep = (sep1 > sep2 ? sep1 : sep2);
+  if(P && Q && sep >= 0)
+    rectNearestPoints<S>(Matrix3<S>(tfab.linear()), Vector3<S>(tfab.translation()), a, b, *P, *Q);
+
   return (sep > 0 ? sep : 0);
 }
 
-- 
2.43.0


From 59a48940fc42dbcfcdb1f095cef657bd2bf7a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 030/140] fix: volumes fitted to degenerate segments and
 triangles enclose them

---
 include/fcl/math/bv/utility-inl.h | 41 ++++++++++++++++++++++---------
 include/fcl/math/geometry-inl.h   |  4 +++
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index 333ec15..d07713b 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -42,6 +42,8 @@
 
 #include "fcl/common/unused.h"
 
+#include "fcl/math/constants.h"
+
 #include "fcl/math/bv/AABB.h"
 #include "fcl/math/bv/kDOP.h"
 #include "fcl/math/bv/kIOS.h"
@@ -56,6 +58,22 @@ namespace fcl {
 namespace detail {
 //==============================================================================
 
+/// @brief The axes of a triangle with edges e: the longest edge (of index
+/// imax) and the normal; any normal of the edge if the triangle is degenerate.
+template <typename S>
+Matrix3<S> triangleAxes(const Vector3<S> e[3], int imax)
+{
+  const Vector3<S> n = e[0].cross(e[1]);
+  if(n.norm() <= constants<S>::eps_78() * e[imax].squaredNorm())
+    return generateCoordinateSystem(e[imax]);
+
+  Matrix3<S> axis;
+  axis.col(0) = e[imax].normalized();
+  axis.col(1) = n.cross(e[imax]).normalized();
+  axis.col(2).noalias() = axis.col(0).cross(axis.col(1));
+  return axis;
+}
+
 //==============================================================================
 namespace OBB_fit_functions {
 //==============================================================================
@@ -107,11 +125,7 @@ void fit3(const Vector3<S>* const ps, OBB<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
-  bv.axis.col(2).noalias() = e[0].cross(e[1]);
-  bv.axis.col(2).normalize();
-  bv.axis.col(0) = e[imax];
-  bv.axis.col(0).normalize();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  bv.axis = triangleAxes(e, imax);
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.extent);
 }
@@ -223,9 +237,7 @@ void fit3(const Vector3<S>* const ps, RSS<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
-  bv.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.axis.col(0).noalias() = e[imax].normalized();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  bv.axis = triangleAxes(e, imax);
 
   getRadiusAndOriginAndRectangleSize<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.l, bv.r);
 }
@@ -364,16 +376,21 @@ void fit3(const Vector3<S>* const ps, kIOS<S>& bv)
   if(len[1] > len[0]) imax = 1;
   if(len[2] > len[imax]) imax = 2;
 
-  bv.obb.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.obb.axis.col(0) = e[imax].normalized();
-  bv.obb.axis.col(1).noalias() = bv.obb.axis.col(2).cross(bv.obb.axis.col(0));
+  bv.obb.axis = triangleAxes(e, imax);
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.obb.axis, bv.obb.To, bv.obb.extent);
 
   // compute radius and center
   S r0;
   Vector3<S> center;
-  circumCircleComputation(p1, p2, p3, center, r0);
+  if(2 * len[imax] >= len[0] + len[1] + len[2])
+  {
+    // obtuse or degenerate: the longest edge is a diameter
+    center.noalias() = (ps[imax] + ps[(imax + 1) % 3]) * 0.5;
+    r0 = std::sqrt(len[imax]) * 0.5;
+  }
+  else
+    circumCircleComputation(p1, p2, p3, center, r0);
 
   bv.spheres[0].o = center;
   bv.spheres[0].r = r0;
diff --git a/include/fcl/math/geometry-inl.h b/include/fcl/math/geometry-inl.h
index a9d3dc8..d77a4fb 100644
--- a/include/fcl/math/geometry-inl.h
+++ b/include/fcl/math/geometry-inl.h
@@ -646,6 +646,10 @@ template <typename S>
 FCL_EXPORT
 Matrix3<S> generateCoordinateSystem(const Vector3<S>& x_axis)
 {
+  // a null vector has no direction, every frame will do
+  if(!(x_axis.norm() > 0))
+    return Matrix3<S>::Identity();
+
   Matrix3<S> axis;
   axis.col(0).noalias() = x_axis.normalized();
   axis.col(1).noalias() = axis.col(0).unitOrthogonal();
-- 
2.43.0


From 5d77b207e289d37c6d475db8ff0d57a6eed93ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 031/140] fix: constructBox applies the given pose to OBB and
 kIOS

---
 include/fcl/geometry/shape/utility-inl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 48e6978..80d74ce 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -1142,11 +1142,10 @@ void constructBox(const AABB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tr
 template <typename S>
 void constructBox(const OBB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.extent * 2);
   tf.linear() = bv.axis;
   tf.translation() = bv.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1163,11 +1162,10 @@ void constructBox(const OBBRSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box,
 template <typename S>
 void constructBox(const kIOS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.obb.extent * 2);
   tf.linear() = bv.obb.axis;
   tf.translation() = bv.obb.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1176,7 +1174,7 @@ void constructBox(const RSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tra
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
   tf = tf_bv * tf;
 }
 
-- 
2.43.0


From 9292c2b25c1c14d651ce65f4f27ee14b7bba5af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 032/140] fix: constructBox centres the box of an RSS

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 80d74ce..4312519 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -1100,7 +1100,7 @@ void constructBox(const RSS<S>& bv, Box<S>& box, Transform3<S>& tf)
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
 }
 
 //==============================================================================
-- 
2.43.0


From 31b4aa1d7b79ed50c191a71081691db75cfecd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 033/140] fix: BVHModel::addTriangle and addSubModel are
 refused unless a model was begun

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index cdb3bcc..3129091 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -287,7 +287,7 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 template <typename BV>
 int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addTriangle() in a wrong order. addTriangle() was ignored. Must do a beginModel() to clear the model for addition of new triangles.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -346,7 +346,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -382,7 +382,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vector<Triangle>& ts)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
-- 
2.43.0


From e4c12645f0ab52d574fb5d8144e3e77697c0c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 034/140] fix: BVHModel replacement and update no longer write
 surplus vertices past the end

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 30 +++++++++++-------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 3129091..3f6cef9 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -549,7 +549,9 @@ int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p;
+  // surplus vertices are counted only; the matching end call reports them
+  if(num_vertex_updated < num_vertices)
+    vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
   return BVH_OK;
@@ -565,9 +567,9 @@ int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, co
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p1; num_vertex_updated++;
-  vertices[num_vertex_updated] = p2; num_vertex_updated++;
-  vertices[num_vertex_updated] = p3; num_vertex_updated++;
+  replaceVertex(p1);
+  replaceVertex(p2);
+  replaceVertex(p3);
   return BVH_OK;
 }
 
@@ -582,10 +584,7 @@ int BVHModel<BV>::replaceSubModel(const std::vector<Vector3<S>>& ps)
   }
 
   for(unsigned int i = 0; i < ps.size(); ++i)
-  {
-    vertices[num_vertex_updated] = ps[i];
-    num_vertex_updated++;
-  }
+    replaceVertex(ps[i]);
   return BVH_OK;
 }
 
@@ -658,7 +657,9 @@ int BVHModel<BV>::updateVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p;
+  // surplus vertices are counted only; the matching end call reports them
+  if(num_vertex_updated < num_vertices)
+    vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
   return BVH_OK;
@@ -674,9 +675,9 @@ int BVHModel<BV>::updateTriangle(const Vector3<S>& p1, const Vector3<S>& p2, con
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
-  vertices[num_vertex_updated] = p1; num_vertex_updated++;
-  vertices[num_vertex_updated] = p2; num_vertex_updated++;
-  vertices[num_vertex_updated] = p3; num_vertex_updated++;
+  updateVertex(p1);
+  updateVertex(p2);
+  updateVertex(p3);
   return BVH_OK;
 }
 
@@ -691,10 +692,7 @@ int BVHModel<BV>::updateSubModel(const std::vector<Vector3<S>>& ps)
   }
 
   for(unsigned int i = 0; i < ps.size(); ++i)
-  {
-    vertices[num_vertex_updated] = ps[i];
-    num_vertex_updated++;
-  }
+    updateVertex(ps[i]);
   return BVH_OK;
 }
 
-- 
2.43.0


From e29487177316d285052fb500a537533aa39cb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:11 +0000
Subject: [PATCH 035/140] fix: copying a BVHModel under construction keeps its
 capacity and update count

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 3f6cef9..aaa6343 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -87,12 +87,13 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     build_state(other.build_state),
     bv_splitter(other.bv_splitter),
     bv_fitter(other.bv_fitter),
-    num_tris_allocated(other.num_tris),
-    num_vertices_allocated(other.num_vertices)
+    num_tris_allocated(other.num_tris_allocated),
+    num_vertices_allocated(other.num_vertices_allocated),
+    num_vertex_updated(other.num_vertex_updated)
 {
   if(other.vertices)
   {
-    vertices = new Vector3<S>[num_vertices];
+    vertices = new Vector3<S>[num_vertices_allocated];
     std::copy(other.vertices, other.vertices + num_vertices, vertices);
   }
   else
@@ -100,7 +101,7 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
 
   if(other.tri_indices)
   {
-    tri_indices = new Triangle[num_tris];
+    tri_indices = new Triangle[num_tris_allocated];
     std::copy(other.tri_indices, other.tri_indices + num_tris, tri_indices);
   }
   else
-- 
2.43.0


From 7915005cf906b8205a61ebde15a1c730f90d8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:31 +0000
Subject: [PATCH 036/140] fix: point cloud models keep no triangle array

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index aaa6343..7f0a289 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -462,7 +462,14 @@ int BVHModel<BV>::endModel()
     return BVH_ERR_BUILD_EMPTY_MODEL;
   }
 
-  if(num_tris_allocated > num_tris)
+  if(num_tris == 0)
+  {
+    // a point cloud: tri_indices is documented (and relied upon) to be nullptr
+    delete [] tri_indices;
+    tri_indices = nullptr;
+    num_tris_allocated = 0;
+  }
+  else if(num_tris_allocated > num_tris)
   {
     Triangle* new_tris = new(std::nothrow) Triangle[num_tris];
     if(!new_tris)
-- 
2.43.0


From 1e7ad536151ace28f2d19f4287185a813a30e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 037/140] fix: SaP manager: empty() was inverted, unregistering
 used an erased iterator and left stale end points

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..bc567bb 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,14 +58,13 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
@@ -92,8 +91,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
@@ -872,7 +873,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
-- 
2.43.0


From 2e8a6a43e25aebaf3740284e69a1611d128541ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 038/140] fix: SaP manager: registering one object finds every
 overlapping pair, once

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 35 ++++++++++-----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index bc567bb..1c0398d 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -146,10 +146,15 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
     S scale[3];
     for(size_t coord = 0; coord < 3; ++coord)
     {
+      // at equal values the lower end points come first, so that an interval
+      // never ends before it begins and touching intervals count as overlapping
       std::sort(endpoints.begin(), endpoints.end(),
-                std::bind(std::less<S>(),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_1, coord),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_2, coord)));
+                [coord](const EndPoint* a, const EndPoint* b)
+                {
+                  if(a->getVal(coord) != b->getVal(coord))
+                    return a->getVal(coord) < b->getVal(coord);
+                  return a->minmax < b->minmax;
+                });
 
       endpoints[0]->prev[coord] = nullptr;
       endpoints[0]->next[coord] = endpoints[1];
@@ -259,22 +264,8 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     EndPoint* curr_hi = curr->hi;
     S curr_hi_val = curr_hi->getVal()[coord];
 
-    if(coord == 0)
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-      {
-        if(current != curr->lo)
-          if(current->aabb->cached.overlap(curr->cached))
-            overlap_pairs.emplace_back(current->aabb->obj, obj);
-
-        current = current->next[coord];
-      }
-    }
-    else
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-    }
+    while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
+      current = current->next[coord];
 
     if(current->getVal()[coord] >= curr_hi_val)
     {
@@ -295,6 +286,12 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
     }
   }
 
+  for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
+  {
+    if((*it)->cached.overlap(curr->cached))
+      overlap_pairs.emplace_back((*it)->obj, obj);
+  }
+
   AABB_arr.push_back(curr);
 
   obj_aabb_map[obj] = curr;
-- 
2.43.0


From a4e4e1edb70e532e698fe7d7ef5df6fcc87c37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:27 +0000
Subject: [PATCH 039/140] fix: SaP manager: update keeps the end point lists
 and the overlapping pairs of an object whose box changed in any way

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 160 +++++---------------
 1 file changed, 41 insertions(+), 119 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 1c0398d..9f94411 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -322,140 +322,62 @@ void SaPCollisionManager<S>::update_(SaPAABB* updated_aabb)
   if(updated_aabb->cached.equal(updated_aabb->obj->getAABB()))
     return;
 
-  SaPAABB* current = updated_aabb;
-
-  Vector3<S> new_min = current->obj->getAABB().min_;
-  Vector3<S> new_max = current->obj->getAABB().max_;
-
-  SaPAABB dummy;
-  dummy.cached = current->obj->getAABB();
+  const AABB<S> new_aabb = updated_aabb->obj->getAABB();
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    int direction; // -1 reverse, 0 nochange, 1 forward
-    EndPoint* temp;
-
-    if(current->lo->getVal(coord) > new_min[coord])
-      direction = -1;
-    else if(current->lo->getVal(coord) < new_min[coord])
-      direction = 1;
-    else direction = 0;
+    // move the two end points, one after the other, to their new places
+    EndPoint* endpoints[2] = {updated_aabb->lo, updated_aabb->hi};
+    const S values[2] = {new_aabb.min_[coord], new_aabb.max_[coord]};
 
-    if(direction == -1)
+    for(int i = 0; i < 2; ++i)
     {
-      //first update the "lo" endpoint of the interval
-      if(current->lo->prev[coord] != nullptr)
-      {
-        temp = current->lo;
-        while((temp != nullptr) && (temp->getVal(coord) > new_min[coord]))
-        {
-          if(temp->minmax == 1)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->prev[coord];
-        }
-
-        if(temp == nullptr)
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = nullptr;
-          current->lo->next[coord] = elist[coord];
-          elist[coord]->prev[coord] = current->lo;
-          elist[coord] = current->lo;
-        }
-        else
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = temp;
-          current->lo->next[coord] = temp->next[coord];
-          temp->next[coord]->prev[coord] = current->lo;
-          temp->next[coord] = current->lo;
-        }
-      }
+      EndPoint* curr = endpoints[i];
+      EndPoint* prev = curr->prev[coord];
+      EndPoint* next = curr->next[coord];
 
-      current->lo->getVal(coord) = new_min[coord];
+      // unlink
+      if(prev != nullptr)
+        prev->next[coord] = next;
+      else
+        elist[coord] = next;
+      if(next != nullptr)
+        next->prev[coord] = prev;
 
-      // update hi end point
-      temp = current->hi;
-      while(temp->getVal(coord) > new_max[coord])
+      // find the new neighbors
+      while(prev != nullptr && prev->getVal(coord) > values[i])
       {
-        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->prev[coord];
+        next = prev;
+        prev = prev->prev[coord];
       }
-
-      current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-      if(current->hi->next[coord] != nullptr)
-        current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-      current->hi->prev[coord] = temp;
-      current->hi->next[coord] = temp->next[coord];
-      if(temp->next[coord] != nullptr)
-        temp->next[coord]->prev[coord] = current->hi;
-      temp->next[coord] = current->hi;
-
-      current->hi->getVal(coord) = new_max[coord];
-    }
-    else if(direction == 1)
-    {
-      //here, we first update the "hi" endpoint.
-      if(current->hi->next[coord] != nullptr)
+      while(next != nullptr && next->getVal(coord) < values[i])
       {
-        temp = current->hi;
-        while((temp->next[coord] != nullptr) && (temp->getVal(coord) < new_max[coord]))
-        {
-          if(temp->minmax == 0)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->next[coord];
-        }
-
-        if(temp->getVal(coord) < new_max[coord])
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp;
-          current->hi->next[coord] = nullptr;
-          temp->next[coord] = current->hi;
-        }
-        else
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp->prev[coord];
-          current->hi->next[coord] = temp;
-          temp->prev[coord]->next[coord] = current->hi;
-          temp->prev[coord] = current->hi;
-        }
+        prev = next;
+        next = next->next[coord];
       }
 
-      current->hi->getVal(coord) = new_max[coord];
+      // link
+      curr->prev[coord] = prev;
+      curr->next[coord] = next;
+      if(prev != nullptr)
+        prev->next[coord] = curr;
+      else
+        elist[coord] = curr;
+      if(next != nullptr)
+        next->prev[coord] = curr;
 
-      //then, update the "lo" endpoint of the interval.
-      temp = current->lo;
+      curr->getVal(coord) = values[i];
+    }
+  }
 
-      while(temp->getVal(coord) < new_min[coord])
-      {
-        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->next[coord];
-      }
+  updated_aabb->cached = new_aabb;
 
-      if(current->lo->prev[coord] != nullptr)
-        current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-      else
-        elist[coord] = current->lo->next[coord];
-      current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-      current->lo->prev[coord] = temp->prev[coord];
-      current->lo->next[coord] = temp;
-      if(temp->prev[coord] != nullptr)
-        temp->prev[coord]->next[coord] = current->lo;
-      else
-        elist[coord] = current->lo;
-      temp->prev[coord] = current->lo;
-      current->lo->getVal(coord) = new_min[coord];
-    }
+  // the pairs this object belongs to
+  overlap_pairs.remove_if(isUnregistered(updated_aabb->obj));
+  for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
+  {
+    if(*it != updated_aabb && (*it)->cached.overlap(new_aabb))
+      overlap_pairs.emplace_back((*it)->obj, updated_aabb->obj);
   }
 }
 
-- 
2.43.0


From 7882fa3a8e59b4c60c52ac501adb5a48e78e75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 040/140] fix: interval tree manager: unregistering removes the
 end points of that object only

---
 .../broadphase/broadphase_interval_tree-inl.h | 84 ++-----------------
 1 file changed, 7 insertions(+), 77 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..cac95ad 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -54,84 +54,14 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   // must sorted before
   setup();
 
-  EndPoint p;
-  p.value = obj->getAABB().min_[0];
-  auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
-  p.value = obj->getAABB().max_[0];
-  auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
-
-  if(start1 < end1)
-  {
-    unsigned int start_id = start1 - endpoints[0].begin();
-    unsigned int end_id = end1 - endpoints[0].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[0][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[0][cur_id] = endpoints[0][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
-  }
-
-  p.value = obj->getAABB().min_[1];
-  auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
-  p.value = obj->getAABB().max_[1];
-  auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
-
-  if(start2 < end2)
-  {
-    unsigned int start_id = start2 - endpoints[1].begin();
-    unsigned int end_id = end2 - endpoints[1].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[1][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[1][cur_id] = endpoints[1][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
-  }
-
-
-  p.value = obj->getAABB().min_[2];
-  auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
-  p.value = obj->getAABB().max_[2];
-  auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
-
-  if(start3 < end3)
+  // the object may have moved since the end points were recorded, so they are
+  // not looked up by the values of its current box
+  for(int i = 0; i < 3; ++i)
   {
-    unsigned int start_id = start3 - endpoints[2].begin();
-    unsigned int end_id = end3 - endpoints[2].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[2][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[2][cur_id] = endpoints[2][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+    endpoints[i].erase(
+        std::remove_if(endpoints[i].begin(), endpoints[i].end(),
+                       [obj](const EndPoint& p) { return p.obj == obj; }),
+        endpoints[i].end());
   }
 
   // update the interval tree
-- 
2.43.0


From 2bcdb66685c656d3aa5547ec76c15f0758a3f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 041/140] fix: interval tree manager: update(obj) left the
 upper end points of the object at their old values

---
 .../broadphase/broadphase_interval_tree-inl.h | 30 ++++---------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index cac95ad..43753a7 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -205,43 +205,25 @@ void IntervalTreeCollisionManager<S>::update()
 template <typename S>
 void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
 {
-  AABB<S> old_aabb;
+  // the intervals of newly registered objects are only created by setup
+  setup();
+
   const AABB<S>& new_aabb = updated_obj->getAABB();
   for(int i = 0; i < 3; ++i)
   {
     const auto it = obj_interval_maps[i].find(updated_obj);
     interval_trees[i]->deleteNode(it->second);
-    old_aabb.min_[i] = it->second->low;
-    old_aabb.max_[i] = it->second->high;
     it->second->low = new_aabb.min_[i];
     it->second->high = new_aabb.max_[i];
     interval_trees[i]->insert(it->second);
   }
 
-  EndPoint dummy;
-  typename std::vector<EndPoint>::iterator it;
   for(int i = 0; i < 3; ++i)
   {
-    dummy.value = old_aabb.min_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
+    for(auto& endpoint : endpoints[i])
     {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.min_[i];
-        break;
-      }
-    }
-
-    dummy.value = old_aabb.max_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
-    for(; it != endpoints[i].end(); ++it)
-    {
-      if(it->obj == updated_obj && it->minmax == 0)
-      {
-        it->value = new_aabb.max_[i];
-        break;
-      }
+      if(endpoint.obj == updated_obj)
+        endpoint.value = (endpoint.minmax == 0) ? new_aabb.min_[i] : new_aabb.max_[i];
     }
 
     std::sort(endpoints[i].begin(), endpoints[i].end());
-- 
2.43.0


From 184b8f929721a053b898227d3dc7463dd9d45037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 042/140] fix: interval tree manager: a query against another
 manager visited every object twice

---
 .../broadphase/broadphase_interval_tree-inl.h | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 43753a7..06d0f5d 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -515,13 +515,18 @@ void IntervalTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>* oth
 
   if(this->size() < other_manager->size())
   {
-    for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
-      if(other_manager->collide_(endpoints[0][i].obj, cdata, callback)) return;
+    for(const auto& endpoint : endpoints[0])
+    {
+      // every object has two end points
+      if(endpoint.minmax == 0 && other_manager->collide_(endpoint.obj, cdata, callback)) return;
+    }
   }
   else
   {
-    for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
-      if(collide_(other_manager->endpoints[0][i].obj, cdata, callback)) return;
+    for(const auto& endpoint : other_manager->endpoints[0])
+    {
+      if(endpoint.minmax == 0 && collide_(endpoint.obj, cdata, callback)) return;
+    }
   }
 }
 
@@ -543,13 +548,18 @@ void IntervalTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* ot
 
   if(this->size() < other_manager->size())
   {
-    for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
-      if(other_manager->distance_(endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    for(const auto& endpoint : endpoints[0])
+    {
+      // every object has two end points
+      if(endpoint.minmax == 0 && other_manager->distance_(endpoint.obj, cdata, callback, min_dist)) return;
+    }
   }
   else
   {
-    for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
-      if(distance_(other_manager->endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    for(const auto& endpoint : other_manager->endpoints[0])
+    {
+      if(endpoint.minmax == 0 && distance_(endpoint.obj, cdata, callback, min_dist)) return;
+    }
   }
 }
 
-- 
2.43.0


From c2dd2aafc7f1e347fc88f877ad1bdeaf266ce4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 043/140] fix: interval tree manager: setup leaked the
 intervals it replaced

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 06d0f5d..34a321a 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -143,6 +143,13 @@ void IntervalTreeCollisionManager<S>::setup()
     for(int i = 0; i < 3; ++i)
       interval_trees[i] = new detail::IntervalTree<S>;
 
+    for(int i = 0; i < 3; ++i)
+    {
+      for(const auto& obj_interval : obj_interval_maps[i])
+        delete obj_interval.second;
+      obj_interval_maps[i].clear();
+    }
+
     for(unsigned int i = 0, size = endpoints[0].size(); i < size; ++i)
     {
       EndPoint p = endpoints[0][i];
-- 
2.43.0


From 8988b190633c525a93a741ade9e4d1f29d90dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 044/140] fix: SSaP manager: unregister an object that has
 moved since the last update

---
 include/fcl/broadphase/broadphase_SSaP-inl.h | 45 +++-----------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..742eda3 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -102,46 +102,11 @@ void SSaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 {
   setup();
 
-  DummyCollisionObject<S> dummyHigh(AABB<S>(obj->getAABB().max_));
-
-  auto pos_start1 = objs_x.begin();
-  auto pos_end1 = std::upper_bound(pos_start1, objs_x.end(), &dummyHigh, SortByXLow<S>());
-
-  while(pos_start1 < pos_end1)
-  {
-    if(*pos_start1 == obj)
-    {
-      objs_x.erase(pos_start1);
-      break;
-    }
-    ++pos_start1;
-  }
-
-  auto pos_start2 = objs_y.begin();
-  auto pos_end2 = std::upper_bound(pos_start2, objs_y.end(), &dummyHigh, SortByYLow<S>());
-
-  while(pos_start2 < pos_end2)
-  {
-    if(*pos_start2 == obj)
-    {
-      objs_y.erase(pos_start2);
-      break;
-    }
-    ++pos_start2;
-  }
-
-  auto pos_start3 = objs_z.begin();
-  auto pos_end3 = std::upper_bound(pos_start3, objs_z.end(), &dummyHigh, SortByZLow<S>());
-
-  while(pos_start3 < pos_end3)
-  {
-    if(*pos_start3 == obj)
-    {
-      objs_z.erase(pos_start3);
-      break;
-    }
-    ++pos_start3;
-  }
+  // the object may have moved since the arrays were sorted, so it is not looked
+  // up by its current box
+  objs_x.erase(std::remove(objs_x.begin(), objs_x.end(), obj), objs_x.end());
+  objs_y.erase(std::remove(objs_y.begin(), objs_y.end(), obj), objs_y.end());
+  objs_z.erase(std::remove(objs_z.begin(), objs_z.end(), obj), objs_z.end());
 }
 
 //==============================================================================
-- 
2.43.0


From fc5cf40a68557372ccbc212aeb2930911382d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 045/140] fix: spatial hash manager: unregister an object that
 has moved since the last update

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..728895d 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -99,9 +99,14 @@ void SpatialHashingCollisionManager<S, HashTable>::registerObject(
 template<typename S, typename HashTable>
 void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObject<S>* obj)
 {
+  const auto it = obj_aabb_map.find(obj);
+  if(it == obj_aabb_map.end())
+    return;
+
   objs.remove(obj);
 
-  const AABB<S>& obj_aabb = obj->getAABB();
+  // the box the object was filed under: it may have moved since then
+  const AABB<S> obj_aabb = it->second;
   AABB<S> overlap_aabb;
 
   if(scene_limit.overlap(obj_aabb, overlap_aabb))
@@ -116,7 +121,7 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
     objs_outside_scene_limit.remove(obj);
   }
 
-  obj_aabb_map.erase(obj);
+  obj_aabb_map.erase(it);
 }
 
 //==============================================================================
-- 
2.43.0


From 74b0cf12b0b458716ddc90277b09f6a3efaa44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 046/140] fix: spatial hash manager: clear() forgot the objects
 partially outside the scene limit

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 728895d..5720a1c 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -289,6 +289,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
-- 
2.43.0


From 9fc0a7b44c16fbe48590a36e867af66f981f30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 047/140] fix: spatial hash: a box that is flat on a cell
 boundary was in no cell

---
 include/fcl/broadphase/detail/spatial_hash-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/spatial_hash-inl.h b/include/fcl/broadphase/detail/spatial_hash-inl.h
index 1d4985f..2e47680 100644
--- a/include/fcl/broadphase/detail/spatial_hash-inl.h
+++ b/include/fcl/broadphase/detail/spatial_hash-inl.h
@@ -62,11 +62,11 @@ template <typename S>
 std::vector<unsigned int> SpatialHash<S>::operator()(const AABB<S>& aabb) const
 {
   int min_x = std::floor((aabb.min_[0] - scene_limit.min_[0]) / cell_size);
-  int max_x = std::ceil((aabb.max_[0] - scene_limit.min_[0]) / cell_size);
+  int max_x = std::floor((aabb.max_[0] - scene_limit.min_[0]) / cell_size) + 1;
   int min_y = std::floor((aabb.min_[1] - scene_limit.min_[1]) / cell_size);
-  int max_y = std::ceil((aabb.max_[1] - scene_limit.min_[1]) / cell_size);
+  int max_y = std::floor((aabb.max_[1] - scene_limit.min_[1]) / cell_size) + 1;
   int min_z = std::floor((aabb.min_[2] - scene_limit.min_[2]) / cell_size);
-  int max_z = std::ceil((aabb.max_[2] - scene_limit.min_[2]) / cell_size);
+  int max_z = std::floor((aabb.max_[2] - scene_limit.min_[2]) / cell_size) + 1;
 
   std::vector<unsigned int> keys((max_x - min_x) * (max_y - min_y) * (max_z - min_z));
   int id = 0;
-- 
2.43.0


From c558170a021b09f10b96652b183a7c75d05a91fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 048/140] fix: spatial hash manager: two objects that meet
 outside the scene limit only

---
 .../broadphase/broadphase_spatialhash-inl.h   | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 5720a1c..feafff2 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -341,6 +341,16 @@ bool SpatialHashingCollisionManager<S, HashTable>::collide_(
 
     if(!scene_limit.contain(obj_aabb))
     {
+      // two objects may overlap outside the scene limit only
+      for(const auto& obj2 : objs_partially_penetrating_scene_limit)
+      {
+        if(obj == obj2 || std::find(query_result.begin(), query_result.end(), obj2) != query_result.end())
+          continue;
+
+        if(callback(obj, obj2, cdata))
+          return true;
+      }
+
       for(const auto& obj2 : objs_outside_scene_limit)
       {
         if(obj == obj2)
@@ -407,6 +417,12 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
 
       if(!scene_limit.contain(aabb))
       {
+        if (distanceObjectToObjects(
+              obj, objs_partially_penetrating_scene_limit, cdata, callback, min_dist))
+        {
+          return true;
+        }
+
         if (distanceObjectToObjects(
               obj, objs_outside_scene_limit, cdata, callback, min_dist))
         {
@@ -488,6 +504,16 @@ void SpatialHashingCollisionManager<S, HashTable>::collide(
 
       if(!scene_limit.contain(obj_aabb))
       {
+        // two objects may overlap outside the scene limit only
+        for(const auto& obj2 : objs_partially_penetrating_scene_limit)
+        {
+          if(obj1 < obj2 && std::find(query_result.begin(), query_result.end(), obj2) == query_result.end())
+          {
+            if(callback(obj1, obj2, cdata))
+              return;
+          }
+        }
+
         for(const auto& obj2 : objs_outside_scene_limit)
         {
           if(obj1 < obj2)
-- 
2.43.0


From ec136dff995db1adab2db13551772c75c79983a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 049/140] fix: broad phase distance queries end when there is
 no distance to find or the object is flat

---
 include/fcl/broadphase/broadphase_SSaP-inl.h  | 15 +++++++++++----
 include/fcl/broadphase/broadphase_SaP-inl.h   | 15 +++++++++++----
 .../broadphase/broadphase_interval_tree-inl.h | 19 +++++++++++++++----
 .../broadphase/broadphase_spatialhash-inl.h   | 17 ++++++++++++-----
 4 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index 742eda3..97d4c59 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -279,6 +279,11 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
 {
   static const unsigned int CUTOFF = 100;
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // the search range has to grow along every axis, for a flat object as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   Vector3<S> dummy_vector = obj->getAABB().max_;
   if(min_dist < std::numeric_limits<S>::max())
     dummy_vector += Vector3<S>(min_dist, min_dist, min_dist);
@@ -351,12 +356,14 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
           dummy_vector = obj->getAABB().max_ + Vector3<S>(min_dist, min_dist, min_dist);
           status = 0;
         }
+        else if(pos_end1 == objs_x.end() && pos_end2 == objs_y.end() && pos_end3 == objs_z.end())
+        {
+          break; // every object has been looked at
+        }
         else // need more loop
         {
-          if(dummy_vector.isApprox(obj->getAABB().max_, std::numeric_limits<S>::epsilon() * 100))
-            dummy_vector = dummy_vector + delta;
-          else
-            dummy_vector = dummy_vector * 2 - obj->getAABB().max_;
+          dummy_vector = obj->getAABB().max_ + delta;
+          delta *= 2;
         }
       }
 
diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 9f94411..523a181 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -571,6 +571,11 @@ template <typename S>
 bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // the search range has to grow along every axis, for a flat object as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   AABB<S> aabb = obj->getAABB();
 
   if(min_dist < std::numeric_limits<S>::max())
@@ -658,12 +663,14 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
           aabb = AABB<S>(obj->getAABB(), min_dist_delta);
           status = 0;
         }
+        else if(end_pos == nullptr && start_pos->getVal(axis) >= min_val)
+        {
+          break; // every object has been looked at
+        }
         else
         {
-          if(aabb.equal(obj->getAABB()))
-            aabb.expand(delta);
-          else
-            aabb.expand(obj->getAABB(), 2.0);
+          aabb = AABB<S>(obj->getAABB(), delta);
+          delta *= 2;
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 34a321a..d9b2f9d 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -349,6 +349,11 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
   static const unsigned int CUTOFF = 100;
 
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // the search range has to grow along every axis, for a flat object as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   AABB<S> aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -398,6 +403,10 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
 
     if(dist_res) return true;
 
+    const size_t num_objs = size();
+    const bool all_tested = results0.size() == num_objs
+        && (num_objs <= CUTOFF || (results1.size() == num_objs && results2.size() == num_objs));
+
     results0.clear();
     results1.clear();
     results2.clear();
@@ -414,12 +423,14 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
           aabb = AABB<S>(obj->getAABB(), min_dist_delta);
           status = 0;
         }
+        else if(all_tested)
+        {
+          break; // every object has been looked at
+        }
         else
         {
-          if(aabb.equal(obj->getAABB()))
-            aabb.expand(delta);
-          else
-            aabb.expand(obj->getAABB(), 2.0);
+          aabb = AABB<S>(obj->getAABB(), delta);
+          delta *= 2;
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index feafff2..91228ab 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -390,7 +390,12 @@ template<typename S, typename HashTable>
 bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
 {
-  auto delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
+  // the search range has to grow along every axis, for a flat object as well
+  for(int i = 0; i < 3; ++i)
+  {
+    if(!(delta[i] > 0)) delta[i] = 1;
+  }
   auto aabb = obj->getAABB();
   if(min_dist < std::numeric_limits<S>::max())
   {
@@ -459,12 +464,14 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
           aabb = AABB<S>(obj->getAABB(), min_dist_delta);
           status = 0;
         }
+        else if(aabb.contain(scene_limit) && !scene_limit.contain(aabb))
+        {
+          break; // every object has been looked at
+        }
         else
         {
-          if(aabb.equal(obj->getAABB()))
-            aabb.expand(delta);
-          else
-            aabb.expand(obj->getAABB(), 2.0);
+          aabb = AABB<S>(obj->getAABB(), delta);
+          delta *= 2;
         }
       }
     }
-- 
2.43.0


From f6896547ba3bbefedb8f8c04d513f89dce39da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 050/140] fix: AABB::equal ignored every other coordinate of a
 box that is unbounded along an axis

---
 include/fcl/math/bv/AABB-inl.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index dfcbb0a..edca2c4 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -310,8 +310,19 @@ S AABB<S>::distance(const AABB<S>& other) const
 template <typename S>
 bool AABB<S>::equal(const AABB<S>& other) const
 {
-  return min_.isApprox(other.min_, std::numeric_limits<S>::epsilon() * 100)
-      && max_.isApprox(other.max_, std::numeric_limits<S>::epsilon() * 100);
+  // coordinate by coordinate: an unbounded axis must not hide the other ones
+  const S tolerance = std::numeric_limits<S>::epsilon() * 100;
+  for(int i = 0; i < 3; ++i)
+  {
+    if(std::abs(min_[i] - other.min_[i])
+       > tolerance * std::min(std::abs(min_[i]), std::abs(other.min_[i])))
+      return false;
+    if(std::abs(max_[i] - other.max_[i])
+       > tolerance * std::min(std::abs(max_[i]), std::abs(other.max_[i])))
+      return false;
+  }
+
+  return true;
 }
 
 //==============================================================================
-- 
2.43.0


From 0f72cc77882383309943379afd7694111cee47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 051/140] fix: HierarchyTree::getMaxDepth started from an
 uninitialized value

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 2 +-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 1438eb9..e879eea 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -226,7 +226,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(!root_node) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index b4edc40..4036146 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -372,7 +372,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(root_node == NULL_NODE) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -538,7 +538,7 @@ void HierarchyTree<BV>::getMaxDepth(size_t node, size_t depth, size_t& max_depth
   if(!nodes[node].isLeaf())
   {
     getMaxDepth(nodes[node].children[0], depth+1, max_depth);
-    getmaxDepth(nodes[node].children[1], depth+1, max_depth);
+    getMaxDepth(nodes[node].children[1], depth+1, max_depth);
   }
   else
     max_depth = std::max(max_depth, depth);
-- 
2.43.0


From 774d73e11b1f1e6cb042fde78b34cbd565c9dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 052/140] fix: HierarchyTree: bottom-up building of a tree of
 unbounded boxes

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 3 ++-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index e879eea..6e7a1e7 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -346,7 +346,8 @@ void HierarchyTree<BV>::bottomup(const NodeVecIterator lbeg, const NodeVecIterat
   NodeVecIterator lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    NodeVecIterator min_it1, min_it2;
+    // any pair will do when every union is unbounded
+    NodeVecIterator min_it1 = lbeg, min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(NodeVecIterator it1 = lbeg; it1 < lcur_end; ++it1)
     {
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 4036146..e6d1ab8 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -551,7 +551,8 @@ void HierarchyTree<BV>::bottomup(size_t* lbeg, size_t* lend)
   size_t* lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    size_t* min_it1 = nullptr, *min_it2 = nullptr;
+    // any pair will do when every union is unbounded
+    size_t* min_it1 = lbeg, *min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(size_t* it1 = lbeg; it1 < lcur_end; ++it1)
     {
-- 
2.43.0


From b10a435fbad8aecb623406a949adc95b818e0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 053/140] fix: HierarchyTree: top-down building did not end
 when the centers of the boxes coincide

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 4 ++++
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 6e7a1e7..1ff3b0f 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -515,6 +515,10 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::topdown_1(const NodeVec
         }
       }
 
+      // the centers all coincide along that axis: split in the middle
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       NodeType* node = createNode(nullptr, vol, nullptr);
       node->children[0] = topdown_1(lbeg, lcenter);
       node->children[1] = topdown_1(lcenter, lend);
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index e6d1ab8..ac2aeea 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -691,6 +691,10 @@ size_t HierarchyTree<BV>::topdown_1(size_t* lbeg, size_t* lend)
         }
       }
 
+      // the centers all coincide along that axis: split in the middle
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       size_t node = createNode(NULL_NODE, vol, nullptr);
       nodes[node].children[0] = topdown_1(lbeg, lcenter);
       nodes[node].children[1] = topdown_1(lcenter, lend);
-- 
2.43.0


From 0867ffc7beba8916ae38d51f1e6692862daaf115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 054/140] fix: array HierarchyTree: updating the only leaf
 removed it

---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index ac2aeea..67bf069 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -931,10 +931,11 @@ void HierarchyTree<BV>::update_(size_t leaf, const BV& bv)
       for(int i = 0; (i < max_lookahead_level) && (nodes[root].parent != NULL_NODE); ++i)
         root = nodes[root].parent;
     }
-
-    nodes[leaf].bv = bv;
-    insertLeaf(root, leaf);
   }
+
+  // the tree is empty when the leaf was its root
+  nodes[leaf].bv = bv;
+  insertLeaf(root, leaf);
 }
 
 //==============================================================================
-- 
2.43.0


From 6af3660613150cc71f86e518278246d6ab67dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 055/140] fix: array HierarchyTree: createNode read bounding
 volumes from the array it had just replaced

---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 67bf069..941b605 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -979,10 +979,12 @@ size_t HierarchyTree<BV>::createNode(size_t parent,
                                      const BV& bv2,
                                      void* data)
 {
+  // the arguments may be in the node array, which allocateNode may replace
+  const BV bv = bv1 + bv2;
   size_t node = allocateNode();
   nodes[node].parent = parent;
   nodes[node].data = data;
-  nodes[node].bv = bv1 + bv2;
+  nodes[node].bv = bv;
   return node;
 }
 
-- 
2.43.0


From 16f2afb20747e721f36fcd943d69942d32ec9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 056/140] fix: array HierarchyTree: node arrays leaked on init
 and balancing

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h | 1 +
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h    | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 3cec23c..da87969 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -774,6 +774,7 @@ void DynamicAABBTreeCollisionManager_Array<S>::registerObjects(
     int n_leaves = other_objs.size();
 
     dtree.init(leaves, n_leaves, tree_init_level);
+    delete [] leaves;
 
     setup_ = true;
   }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 941b605..bf5b529 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -110,6 +110,7 @@ void HierarchyTree<BV>::init_0(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -138,6 +139,7 @@ void HierarchyTree<BV>::init_1(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -182,6 +184,7 @@ void HierarchyTree<BV>::init_2(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -226,6 +229,7 @@ void HierarchyTree<BV>::init_3(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -388,6 +392,7 @@ void HierarchyTree<BV>::balanceBottomup()
     extractLeaves(root_node, leaves_);
     root_node = NULL_NODE;
     std::copy(leaves, leaves + n_leaves, nodes);
+    delete [] leaves;
     freelist = n_leaves;
     n_nodes = n_leaves;
     for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
@@ -417,6 +422,7 @@ void HierarchyTree<BV>::balanceTopdown()
     extractLeaves(root_node, leaves_);
     root_node = NULL_NODE;
     std::copy(leaves, leaves + n_leaves, nodes);
+    delete [] leaves;
     freelist = n_leaves;
     n_nodes = n_leaves;
     for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-- 
2.43.0


From eb39d962657001ea70b6910dc83a49d6d2548112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 057/140] fix: array dynamic AABB tree manager: balancing
 renumbers the leaves

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index da87969..a7e6739 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -819,8 +819,14 @@ void DynamicAABBTreeCollisionManager_Array<S>::setup()
     if(height - std::log((S)num) / std::log(2.0) < max_tree_nonbalanced_level)
       dtree.balanceIncremental(tree_incremental_balance_pass);
     else
+    {
       dtree.balanceTopdown();
 
+      // balancing numbers the leaves anew
+      for(int i = 0; i < num; ++i)
+        table[static_cast<CollisionObject<S>*>(dtree.getNodes()[i].data)] = i;
+    }
+
     setup_ = true;
   }
 }
-- 
2.43.0


From 0e6fb2e78a85a597bef072407da904c83150fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 058/140] fix: dynamic AABB tree managers: a query of a manager
 against itself is a self query

---
 .../broadphase/broadphase_dynamic_AABB_tree-inl.h  | 14 ++++++++++++++
 .../broadphase_dynamic_AABB_tree_array-inl.h       | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 1a7341b..937347d 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -969,6 +969,13 @@ void DynamicAABBTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree::collisionRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -979,6 +986,13 @@ void DynamicAABBTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index a7e6739..8b791f7 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -980,6 +980,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::collide(BroadPhaseCollisionManage
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree_array::collisionRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -990,6 +997,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::distance(BroadPhaseCollisionManag
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
-- 
2.43.0


From d8d761c1f0c62659d63d39253eebd7a22bdfefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 059/140] fix: SaP manager: unregister a flat object

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 523a181..2f495e7 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -74,7 +74,9 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
     else
       curr->lo->prev[coord]->next[coord] = curr->lo->next[coord];
 
-    curr->lo->next[coord]->prev[coord] = curr->lo->prev[coord];
+    // for a flat box the "hi" endpoint may come first
+    if(curr->lo->next[coord] != nullptr)
+      curr->lo->next[coord]->prev[coord] = curr->lo->prev[coord];
 
     //then, delete the "hi" endpoint.
     if(curr->hi->prev[coord] == nullptr)
-- 
2.43.0


From 0b94ef760ea5a55b10d443f6f2f4a14fb72887e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 060/140] fix: IntervalTree::query skipped right subtrees for
 an interval unbounded below

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 5c93cc4..10d1c55 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -524,7 +524,7 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
       result_stack.push_back(x->stored_interval);
       recursion_node_stack[current_parent].try_right_branch = true;
     }
-    if(x->left->max_high >= low)
+    if(x->left != nil && x->left->max_high >= low)
     {
       if(recursion_node_stack_top == recursion_node_stack_size)
       {
-- 
2.43.0


From 265f7360bffb15b62126896b0cc822e0d9150fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 061/140] fix: IntervalTree::insert did not restore the
 red-black invariant on one side

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 10d1c55..e474c1a 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -217,8 +217,8 @@ IntervalTreeNode<S>* IntervalTree<S>::insert(SimpleInterval<S>* new_interval)
       y = x->parent->parent->right;
       if(y->red)
       {
-        x->parent->red = true;
-        y->red = true;
+        x->parent->red = false;
+        y->red = false;
         x->parent->parent->red = true;
         x = x->parent->parent;
       }
-- 
2.43.0


From b29738d1f51fa5ec69ccdc8800bf6a9ab93e40c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 062/140] fix: IntervalTree::deleteNode of an interval that is
 not in the tree

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index e474c1a..22daa40 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -410,7 +410,7 @@ template <typename S>
 void IntervalTree<S>::deleteNode(SimpleInterval<S>* ivl)
 {
   IntervalTreeNode<S>* node = recursiveSearch(root, ivl);
-  if(node)
+  if(node != nil)
     deleteNode(node);
 }
 
-- 
2.43.0


From fa48157ef1487414c505064fa25b50b2c0d26282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 063/140] fix: Morton codes of centers in a flat or unbounded
 range

---
 include/fcl/broadphase/detail/morton-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/morton-inl.h b/include/fcl/broadphase/detail/morton-inl.h
index cb23207..553572a 100644
--- a/include/fcl/broadphase/detail/morton-inl.h
+++ b/include/fcl/broadphase/detail/morton-inl.h
@@ -61,7 +61,10 @@ struct morton_functor<double, uint64>;
 template <typename S>
 uint32 quantize(S x, uint32 n)
 {
-  return std::max(std::min((uint32)(x * (S)n), uint32(n-1)), uint32(0));
+  // x is not a number where the range it was scaled by is empty or unbounded
+  if(!(x > 0)) return 0;
+  if(x >= 1) return n - 1;
+  return std::min((uint32)(x * (S)n), uint32(n-1));
 }
 
 //==============================================================================
-- 
2.43.0


From 3c0a1ca17aee9cd19bfdf9e0caae2e53943dbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 064/140] fix: the KDOP of a diagonal halfspace or plane
 bounded the wrong direction or side

---
 include/fcl/geometry/shape/utility-inl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 4312519..ddbdcac 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -450,7 +450,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -510,7 +510,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 18>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -575,7 +575,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -598,7 +598,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
       if(n[1] > 0) bv.dist(D + 8) = n[1] * d * 2;
       else bv.dist(8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       if(n[0] > 0) bv.dist(D + 9) = n[0] * d * 3;
       else bv.dist(9) = n[0] * d * 3;
@@ -751,7 +751,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Plane<S>>
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
     {
-      bv.dist(6) = bv.dist(D + 5) = n[1] * d * 2;
+      bv.dist(5) = bv.dist(D + 5) = n[1] * d * 2;
     }
     else if(n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
     {
@@ -879,7 +879,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Plane<S>>
     {
       bv.dist(8) = bv.dist(D + 8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] + n[2] == (S)0.0 && n[0] == n[1])
     {
       bv.dist(9) = bv.dist(D + 9) = n[0] * d * 3;
     }
-- 
2.43.0


From f1ca0f7da4169c66c804a696434a43e4c227b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 065/140] fix: octree queries bounded an unbounded shape by an
 overflowing OBB

---
 .../detail/traversal/octree/octree_solver-inl.h      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9c66696..766db74 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -190,10 +190,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv2;
-  computeBV(s, Transform3<S>::Identity(), bv2);
   OBB<S> obb2;
-  convertBV(bv2, tf2, obb2);
+  computeBV(s, tf2, obb2);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb2,
                               tf1, tf2);
@@ -215,10 +213,8 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv1;
-  computeBV(s, Transform3<S>::Identity(), bv1);
   OBB<S> obb1;
-  convertBV(bv1, tf1, obb1);
+  computeBV(s, tf1, obb1);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb1,
                               tf2, tf1);
@@ -239,6 +235,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  if(!tree->getRoot()) return; // an empty octree
+
   AABB<S> aabb2;
   computeBV(s, tf2, aabb2);
   OcTreeShapeDistanceRecurse(tree, tree->getRoot(), tree->getRootBV(),
@@ -261,6 +259,8 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  if(!tree->getRoot()) return; // an empty octree
+
   AABB<S> aabb1;
   computeBV(s, tf1, aabb1);
   OcTreeShapeDistanceRecurse(tree, tree->getRoot(), tree->getRootBV(),
-- 
2.43.0


From c58b510067ad64a57836e009298e753ced3a1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 066/140] fix: queries with an empty octree dereferenced its
 missing root or reported costs nobody asked for

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h  |  2 ++
 .../broadphase_dynamic_AABB_tree_array-inl.h           |  2 ++
 .../detail/traversal/octree/octree_solver-inl.h        | 10 ++++++++++
 3 files changed, 14 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 937347d..637bec2 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -480,6 +480,8 @@ template <typename S>
 FCL_EXPORT
 bool distanceRecurse(typename DynamicAABBTreeCollisionManager<S>::DynamicAABBNode* root1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& root2_bv, const Transform3<S>& tf2, void* cdata, DistanceCallBack<S> callback, S& min_dist)
 {
+  if(!root2) return false; // an empty octree
+
   if(tf2.linear().isIdentity())
     return distanceRecurse_(root1, tree2, root2, root2_bv, tf2.translation(), cdata, callback, min_dist);
   else
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 8b791f7..f137376 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -715,6 +715,8 @@ template <typename S>
 FCL_EXPORT
 bool distanceRecurse(typename DynamicAABBTreeCollisionManager_Array<S>::DynamicAABBNode* nodes1, size_t root1_id, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& root2_bv, const Transform3<S>& tf2, void* cdata, DistanceCallBack<S> callback, S& min_dist)
 {
+  if(!root2) return false; // an empty octree
+
   if(tf2.linear().isIdentity())
     return distanceRecurse_(nodes1, root1_id, tree2, root2, root2_bv, tf2.translation(), cdata, callback, min_dist);
   else
diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 766db74..5c58877 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -92,6 +92,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  if(!tree1->getRoot() || !tree2->getRoot()) return; // an empty octree
+
   OcTreeDistanceRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                         tree2, tree2->getRoot(), tree2->getRootBV(),
                         tf1, tf2);
@@ -130,6 +132,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshDistance(
   drequest = &request_;
   dresult = &result_;
 
+  if(!tree1->getRoot()) return; // an empty octree
+
   OcTreeMeshDistanceRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                             tree2, 0,
                             tf1, tf2);
@@ -335,6 +339,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
 {
   if(!root1)
   {
+    if(!crequest->enable_cost) return false; // an empty octree
+
     OBB<S> obb1;
     convertBV(bv1, tf1, obb1);
     if(obb1.overlap(obb2))
@@ -578,6 +584,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
 {
   if(!root1)
   {
+    if(!crequest->enable_cost) return false; // an empty octree
+
     if(tree2->getBV(root2).isLeaf())
     {
       OBB<S> obb1, obb2;
@@ -851,6 +859,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeDistanceRecurse(const OcTree<S>* tre
 template <typename NarrowPhaseSolver>
 bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tree1, const typename OcTree<S>::OcTreeNode* root1, const AABB<S>& bv1, const OcTree<S>* tree2, const typename OcTree<S>::OcTreeNode* root2, const AABB<S>& bv2, const Transform3<S>& tf1, const Transform3<S>& tf2) const
 {
+  if((!root1 || !root2) && !crequest->enable_cost) return false; // an empty octree
+
   if(!root1 && !root2)
   {
     OBB<S> obb1, obb2;
-- 
2.43.0


From 28e75631bbcd8a7919d6a5c86fea3efb5e27cd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 067/140] fix: Convex::findExtremeVertex may stop in a flat
 region facing away from the direction

---
 include/fcl/geometry/shape/convex-inl.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index ef3dc75..b52dfc9 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -300,14 +300,19 @@ const Vector3<S>& Convex<S>::findExtremeVertex(const Vector3<S>& v_C) const {
         }
       }
     }
-  } else {
-    // Simple linear search.
-    for (int i = 1; i < static_cast<int>(vertices.size()); ++i) {
-      S value = v_C.dot(vertices[i]);
-      if (value > extreme_value) {
-        extreme_index = i;
-        extreme_value = value;
-      }
+    // If the search starts inside a flat region that faces away from v_C, all
+    // neighbors are (up to rounding) equally bad and it may end right there.
+    // No extreme vertex lies behind the interior point.
+    if (extreme_value >= v_C.dot(interior_point_))
+      return vertices[extreme_index];
+  }
+
+  // Simple linear search.
+  for (int i = 1; i < static_cast<int>(vertices.size()); ++i) {
+    S value = v_C.dot(vertices[i]);
+    if (value > extreme_value) {
+      extreme_index = i;
+      extreme_value = value;
     }
   }
   return vertices[extreme_index];
-- 
2.43.0


From a39a33491a22dd8441ab863104c033da5621cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 068/140] fix: inertia of a Convex about its centre of mass
 subtracts the volume from a unit-mass inertia

---
 include/fcl/geometry/shape/convex-inl.h | 10 ++++++++++
 include/fcl/geometry/shape/convex.h     |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index b52dfc9..9ec8fe5 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -161,6 +161,16 @@ Matrix3<S> Convex<S>::computeMomentofInertia() const {
   return m * (6 / vol_times_six);
 }
 
+//==============================================================================
+template <typename S>
+Matrix3<S> Convex<S>::computeMomentofInertiaRelatedToCOM() const {
+  // computeMomentofInertia() is that of a polytope of unit mass (and not of
+  // unit density), so the parallel axis theorem applies without the volume.
+  const Vector3<S> com = computeCOM();
+  return computeMomentofInertia() -
+         (com.squaredNorm() * Matrix3<S>::Identity() - com * com.transpose());
+}
+
 //==============================================================================
 template <typename S>
 Vector3<S> Convex<S>::computeCOM() const {
diff --git a/include/fcl/geometry/shape/convex.h b/include/fcl/geometry/shape/convex.h
index 41f2cca..7d71853 100644
--- a/include/fcl/geometry/shape/convex.h
+++ b/include/fcl/geometry/shape/convex.h
@@ -158,6 +158,9 @@ public:
   // Documentation inherited.
   Matrix3<S> computeMomentofInertia() const override;
 
+  // Documentation inherited.
+  Matrix3<S> computeMomentofInertiaRelatedToCOM() const override;
+
   // Documentation inherited.
   Vector3<S> computeCOM() const override;
 
-- 
2.43.0


From 2e7cc266acea91cbb0b41c4837a5c70fd1abd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 069/140] fix: GJK (indep) stopped at support points within
 1e-3 of each other

The degenerate-simplex check compared a squared distance with the tolerance, so
any two support points closer than sqrt(1e-6) ended the search: distances
between objects of millimetres to centimetres were wrong by up to that much.
---
 .../fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index 0cdf60d..b61ba4a 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -122,7 +122,7 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
     bool found = false;
     for(size_t i = 0; i + 1 < curr_simplex.rank; ++i)
     {
-      if((w - curr_simplex.c[i]->w).squaredNorm() < tolerance)
+      if((w - curr_simplex.c[i]->w).squaredNorm() < tolerance * tolerance)
       {
         found = true; break;
       }
-- 
2.43.0


From 1cf7dd23009af2245dc0f61acf7b93b5d77b8d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 070/140] fix: GJK (libccd) took a short search direction for a
 degenerate one

The length of the search direction is an area or a volume: for objects of
centimetres it may fall below the absolute threshold although the search is
fine, and distance() then reported (about) zero for overlapping objects.
---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 89f548b..1a77b14 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1669,9 +1669,13 @@ static int __ccdGJK(const void *obj1, const void *obj2,
       return -1; // intersection not found
     }
 
-    if (ccdIsZero(ccdVec3Len2(&dir))){
+    // Only the direction matters; its length is an area or a volume and may be
+    // tiny for small objects without being degenerate.
+    const ccd_real_t dir_len2 = ccdVec3Len2(&dir);
+    if (!(dir_len2 > CCD_ZERO)) {
       return -1; // intersection not found
     }
+    ccdVec3Scale(&dir, CCD_ONE / CCD_SQRT(dir_len2));
   }
 
   // intersection wasn't found
-- 
2.43.0


From 58098f7619f5bed186485c77ca81661489c78db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 071/140] fix: the libccd distance query may fail to stop at
 flat faces

Follow-up of d1a98f2: with a flat face the support point stays far from the
closest point, so only rounding ended the search, or else the iteration limit,
after which -1 (penetrating) was returned for objects that are apart. Stop when
the closest point is within the tolerance.
---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 1a77b14..a783048 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -2138,8 +2138,11 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
     // point that is already in the simplex
     dist = ccdVec3Len2(&last.v);
     dist = CCD_SQRT(dist);
+    // closest_p is within CCD_SQRT(gap * last_dist) of the point of the Minkowski
+    // difference that is closest to the origin.
     const ccd_real_t gap = last_dist + ccdVec3Dot(&dir, &last.v);
     if (gap <= 10 * constants<ccd_real_t>::eps() * dist ||
+        gap * last_dist <= ccd->dist_tolerance * ccd->dist_tolerance ||
         (gap < ccd->dist_tolerance &&
          CCD_FABS(last_dist - dist) < ccd->dist_tolerance))
     {
-- 
2.43.0


From a0314e69ad7192b27a14c6f14879174b4eff1e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 072/140] fix: initialise InterpMotion fully in every
 constructor

---
 include/fcl/math/motion/interp_motion-inl.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index c006841..d5e2bcb 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -50,7 +50,13 @@ class FCL_EXPORT InterpMotion<double>;
 //==============================================================================
 template <typename S>
 InterpMotion<S>::InterpMotion()
-  : MotionBase<S>(), angular_axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    linear_vel(Vector3<S>::Zero()),
+    angular_axis(Vector3<S>::UnitX()),
+    reference_p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
@@ -67,7 +73,8 @@ InterpMotion<S>::InterpMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>(),
     tf1(Transform3<S>::Identity()),
-    tf2(Transform3<S>::Identity())
+    tf2(Transform3<S>::Identity()),
+    reference_p(Vector3<S>::Zero())
 {
   tf1.linear() = R1;
   tf1.translation() = T1;
@@ -85,7 +92,8 @@ InterpMotion<S>::InterpMotion(
 template <typename S>
 InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_)
-  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1)
+  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1),
+    reference_p(Vector3<S>::Zero())
 {
   // Compute the velocities for the motion
   computeVelocity();
@@ -122,7 +130,8 @@ InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_, const Vector3<S>& O)
   : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(O)
 {
-  // Do nothing
+  // Compute the velocities for the motion
+  computeVelocity();
 }
 
 //==============================================================================
-- 
2.43.0


From d389db670b7576cfa7db33b67b8547997c3e0a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 073/140] fix: use a unit axis for the translation of
 ScrewMotion, and initialise its default

---
 include/fcl/math/motion/screw_motion-inl.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index ae72d6c..6ef7281 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -50,7 +50,12 @@ class FCL_EXPORT ScrewMotion<double>;
 //==============================================================================
 template <typename S>
 ScrewMotion<S>::ScrewMotion()
-  : MotionBase<S>(), axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    axis(Vector3<S>::UnitX()),
+    p(Vector3<S>::Zero())
 {
   // Default angular velocity is zero
   angular_vel = 0;
@@ -174,6 +179,11 @@ void ScrewMotion<S>::computeScrewParameter()
     angular_vel = 0;
     axis = tf2.translation() - tf1.translation();
     linear_vel = axis.norm();
+    // The linear velocity is along the unit axis
+    if(linear_vel > 0)
+      axis /= linear_vel;
+    else
+      axis = Vector3<S>::UnitX();
     p = tf1.translation();
   }
   else
-- 
2.43.0


From 54d265092a1ed9a292e095d1213edb6180a33be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 074/140] fix: compute the Taylor model of TranslationMotion

---
 include/fcl/math/motion/translation_motion-inl.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fcl/math/motion/translation_motion-inl.h b/include/fcl/math/motion/translation_motion-inl.h
index a2aaf6c..c91c403 100644
--- a/include/fcl/math/motion/translation_motion-inl.h
+++ b/include/fcl/math/motion/translation_motion-inl.h
@@ -40,8 +40,6 @@
 
 #include "fcl/math/motion/translation_motion.h"
 
-#include "fcl/common/unused.h"
-
 namespace fcl
 {
 
@@ -115,11 +113,11 @@ void TranslationMotion<S>::getCurrentTransform(Transform3<S>& tf_) const
 template <typename S>
 void TranslationMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
-  FCL_UNUSED(tm);
-  FCL_UNUSED(tv);
+  tm = TMatrix3<S>(rot.toRotationMatrix(), this->getTimeInterval());
 
-  // Do nothing
-  // TODO(JS): Not implemented?
+  tv.setTimeInterval(this->getTimeInterval());
+  tv.setZero();
+  generateTVector3ForLinearFunc(tv, trans_start, trans_range);
 }
 
 //==============================================================================
-- 
2.43.0


From 8153eed573cb9a0bbe863c42fc6a749a71f03858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 075/140] fix: fill the last column of the product of a matrix
 and a Taylor model

---
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index f5b1843..e873cde 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -514,15 +514,15 @@ TMatrix3<S> operator * (const Matrix3<S>& m, const TaylorModel<S>& a)
   TMatrix3<S> res(a.getTimeInterval());
   res(0, 0) = a * m(0, 0);
   res(0, 1) = a * m(0, 1);
-  res(0, 1) = a * m(0, 2);
+  res(0, 2) = a * m(0, 2);
 
   res(1, 0) = a * m(1, 0);
   res(1, 1) = a * m(1, 1);
-  res(1, 1) = a * m(1, 2);
+  res(1, 2) = a * m(1, 2);
 
   res(2, 0) = a * m(2, 0);
   res(2, 1) = a * m(2, 1);
-  res(2, 1) = a * m(2, 2);
+  res(2, 2) = a * m(2, 2);
 
   return res;
 }
-- 
2.43.0


From adcb4aa68ee97f13dedd96857f7461f12164716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 076/140] fix: start the rotationConstrain() copies from their
 argument

---
 include/fcl/math/motion/taylor_model/interval_matrix-inl.h | 2 +-
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index bda8fc0..d7f80db 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -322,7 +322,7 @@ void IMatrix3<S>::print() const
 template <typename S>
 IMatrix3<S> rotationConstrain(const IMatrix3<S>& m)
 {
-  IMatrix3<S> res;
+  IMatrix3<S> res(m);
   for(std::size_t i = 0; i < 3; ++i)
   {
     for(std::size_t j = 0; j < 3; ++j)
diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index e873cde..4728ab5 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -482,7 +482,7 @@ TMatrix3<S>& TMatrix3<S>::rotationConstrain()
 template <typename S>
 TMatrix3<S> rotationConstrain(const TMatrix3<S>& m)
 {
-  TMatrix3<S> res;
+  TMatrix3<S> res(m);
 
   for(std::size_t i = 0; i < 3; ++i)
   {
-- 
2.43.0


From 85f6be5a658b693550456fd492d697e6c852a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 077/140] fix: return the lower ends from IMatrix3::getLow()

---
 include/fcl/math/motion/taylor_model/interval_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index d7f80db..c5a948a 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -165,9 +165,9 @@ template <typename S>
 Matrix3<S> IMatrix3<S>::getLow() const
 {
   Matrix3<S> m;
-  m << v_[0][0][1], v_[0][1][1], v_[0][2][1],
-       v_[1][0][1], v_[1][1][1], v_[1][2][1],
-       v_[2][0][1], v_[2][1][1], v_[2][2][1];
+  m << v_[0][0][0], v_[0][1][0], v_[0][2][0],
+       v_[1][0][0], v_[1][1][0], v_[1][2][0],
+       v_[2][0][0], v_[2][1][0], v_[2][2][0];
   return m;
 }
 
-- 
2.43.0


From 25e73b6543bba2941f639dcabf40e5521aed8b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 078/140] fix: keep both signs in the remainder of sine and
 cosine Taylor models

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 861f72d..46c0c24 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -551,7 +551,7 @@ void generateTaylorModelForCosFunc(TaylorModel<S>& tm, S w, S q0)
   // [0, midSize4] * fdddBounds
   if(fddddBounds[0] > 0)
     tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-  else if(fddddBounds[0] < 0)
+  else if(fddddBounds[1] < 0)
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
   else
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
@@ -578,7 +578,7 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
 
   Interval<S> fddddBounds;
 
-  if(w == 0) fddddBounds.setValue(0);
+  if(w == 0) tm.remainder().setValue(0);
   else
   {
     S sinQL = sin(w * tm.getTimeInterval()->t_[0] + q0);
@@ -622,7 +622,7 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
     // [0, midSize4] * fdddBounds
     if(fddddBounds[0] > 0)
       tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[0] < 0)
+    else if(fddddBounds[1] < 0)
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
     else
       tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
-- 
2.43.0


From 1bc4e6fac62325392e41769920e6b09dac59b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 079/140] fix: use the constant coefficient for both ends in
 TaylorModel::getBound()

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 46c0c24..01787b9 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -356,7 +356,7 @@ Interval<S> TaylorModel<S>::getBound(S t0, S t1) const
 template <typename S>
 Interval<S> TaylorModel<S>::getBound() const
 {
-  return Interval<S>(coeffs_[0] + r_[0], coeffs_[1] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
+  return Interval<S>(coeffs_[0] + r_[0], coeffs_[0] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
 }
 
 //==============================================================================
-- 
2.43.0


From 898bb1e8976ccc0c6c4b563fcd728891f3c8fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 080/140] fix: avoid cancellation in the extrema of nearly
 quadratic Taylor models

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 01787b9..fb82914 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -423,8 +423,10 @@ Interval<S> TaylorModel<S>::getTightBound(S t0, S t1) const
     if(delta < 0)
       return Interval<S>(LQ, RQ) + r_;
 
-    S r1 = (-coeffs_[2]-sqrt(delta))/(3*coeffs_[3]);
-    S r2 = (-coeffs_[2]+sqrt(delta))/(3*coeffs_[3]);
+    // avoid the cancellation for one of the roots when coeffs_[3] is small
+    S q = (coeffs_[2] < 0) ? (-coeffs_[2]+sqrt(delta)) : (-coeffs_[2]-sqrt(delta));
+    S r1 = q/(3*coeffs_[3]);
+    S r2 = (q == 0) ? r1 : coeffs_[1]/q;
 
     if(r1 <= t1 && r1 >= t0)
     {
-- 
2.43.0


From 44438ee42f9e2df96649548485901c6fa28f4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 081/140] fix: return a distance from Interval::getAbsUpper()
 of negative intervals

---
 include/fcl/math/motion/taylor_model/interval-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/interval-inl.h b/include/fcl/math/motion/taylor_model/interval-inl.h
index 2e2dbb1..cf0f939 100644
--- a/include/fcl/math/motion/taylor_model/interval-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval-inl.h
@@ -361,7 +361,7 @@ template <typename S>
 S Interval<S>::getAbsUpper() const
 {
   if(i_[0] + i_[1] >= 0) return i_[1];
-  return i_[0];
+  return -i_[0];
 }
 
 //==============================================================================
-- 
2.43.0


From 990edf4ca8f5c76a287bfb85552e43392f3e7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 082/140] fix: allow the product of an interval with itself in
 place

---
 .../math/motion/taylor_model/interval-inl.h   | 91 +------------------
 1 file changed, 2 insertions(+), 89 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval-inl.h b/include/fcl/math/motion/taylor_model/interval-inl.h
index cf0f939..2ed983b 100644
--- a/include/fcl/math/motion/taylor_model/interval-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval-inl.h
@@ -186,95 +186,8 @@ Interval<S> Interval<S>::operator * (const Interval<S>& other) const
 template <typename S>
 Interval<S>& Interval<S>::operator *= (const Interval<S>& other)
 {
-  if(other.i_[0] >= 0)
-  {
-    if(i_[0] >= 0)
-    {
-      i_[0] *= other.i_[0];
-      i_[1] *= other.i_[1];
-    }
-    else if(i_[1] <= 0)
-    {
-      i_[0] *= other.i_[1];
-      i_[1] *= other.i_[0];
-    }
-    else
-    {
-      i_[0] *= other.i_[1];
-      i_[1] *= other.i_[1];
-    }
-    return *this;
-  }
-
-  if(other.i_[1] <= 0)
-  {
-    if(i_[0] >= 0)
-    {
-      S tmp = i_[0];
-      i_[0] = i_[1] * other.i_[0];
-      i_[1] = tmp * other.i_[1];
-    }
-    else if(i_[1] <= 0)
-    {
-      S tmp = i_[0];
-      i_[0] = i_[1] * other.i_[1];
-      i_[1] = tmp * other.i_[0];
-    }
-    else
-    {
-      S tmp = i_[0];
-      i_[0] = i_[1] * other.i_[0];
-      i_[1] = tmp * other.i_[0];
-    }
-    return *this;
-  }
-
-  if(i_[0] >= 0)
-  {
-    i_[0] = i_[1] * other.i_[0];
-    i_[1] *= other.i_[1];
-    return *this;
-  }
-
-  if(i_[1] <= 0)
-  {
-    i_[1] = i_[0] * other.i_[0];
-    i_[0] *= other.i_[1];
-    return *this;
-  }
-
-  S v00 = i_[0] * other.i_[0];
-  S v11 = i_[1] * other.i_[1];
-  if(v00 <= v11)
-  {
-    S v01 = i_[0] * other.i_[1];
-    S v10 = i_[1] * other.i_[0];
-    if(v01 < v10)
-    {
-      i_[0] = v01;
-      i_[1] = v11;
-    }
-    else
-    {
-      i_[0] = v10;
-      i_[1] = v11;
-    }
-    return *this;
-  }
-
-  S v01 = i_[0] * other.i_[1];
-  S v10 = i_[1] * other.i_[0];
-  if(v01 < v10)
-  {
-    i_[0] = v01;
-    i_[1] = v00;
-  }
-  else
-  {
-    i_[0] = v10;
-    i_[1] = v00;
-  }
-
+  // other may be this interval
+  *this = *this * other;
   return *this;
 }
 
-- 
2.43.0


From d34114e830a564378512710a12126dc92958bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 083/140] fix: return the cube root, not a bool, from
 PolySolver::cbrt()

---
 include/fcl/math/detail/polysolver-inl.h | 4 ++--
 include/fcl/math/detail/polysolver.h     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/detail/polysolver-inl.h b/include/fcl/math/detail/polysolver-inl.h
index c2c538c..dd41683 100644
--- a/include/fcl/math/detail/polysolver-inl.h
+++ b/include/fcl/math/detail/polysolver-inl.h
@@ -183,9 +183,9 @@ bool PolySolver<S>::isZero(S v)
 
 //==============================================================================
 template <typename S>
-bool PolySolver<S>::cbrt(S v)
+S PolySolver<S>::cbrt(S v)
 {
-  return std::pow(v, 1.0 / 3.0);
+  return std::cbrt(v);
 }
 
 //==============================================================================
diff --git a/include/fcl/math/detail/polysolver.h b/include/fcl/math/detail/polysolver.h
index 52808a9..2039854 100644
--- a/include/fcl/math/detail/polysolver.h
+++ b/include/fcl/math/detail/polysolver.h
@@ -64,7 +64,7 @@ private:
   static bool isZero(S v);
 
   /// @brief Compute v^{1/3} 
-  static bool cbrt(S v);
+  static S cbrt(S v);
 
   static constexpr S getNearZeroThreshold();
 };
-- 
2.43.0


From 9bcd260f4e22810c4fac2906952bdcda33cf806d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 084/140] fix: make the motion bound of SplineMotion a speed,
 with the quartic and its extrema right

---
 include/fcl/math/motion/spline_motion-inl.h   | 43 ++++++-------------
 .../motion/tbv_motion_bound_visitor-inl.h     |  5 +--
 .../triangle_motion_bound_visitor-inl.h       |  5 +--
 3 files changed, 17 insertions(+), 36 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index e3d992d..c1fdf73 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -253,43 +253,25 @@ S SplineMotion<S>::computeTBound(const Vector3<S>& n) const
   S Tb = TB.dot(n);
   S Tc = TC.dot(n);
 
+  // The speed along n is (3 Ta t^2 + 2 Tb t + Tc) / 6: its maximum over the rest
+  // of the motion, [tf_t, 1], is at one of the ends or at the extremum between
   std::vector<S> T_potential;
   T_potential.push_back(tf_t);
   T_potential.push_back(1);
-  if(Tb * Tb - 3 * Ta * Tc >= 0)
+  if(Ta != 0)
   {
-    if(Ta == 0)
-    {
-      if(Tb != 0)
-      {
-        S tmp = -Tc / (2 * Tb);
-        if(tmp < 1 && tmp > tf_t)
-          T_potential.push_back(tmp);
-      }
-    }
-    else
-    {
-      S tmp_delta = sqrt(Tb * Tb - 3 * Ta * Tc);
-      S tmp1 = (-Tb + tmp_delta) / (3 * Ta);
-      S tmp2 = (-Tb - tmp_delta) / (3 * Ta);
-      if(tmp1 < 1 && tmp1 > tf_t)
-        T_potential.push_back(tmp1);
-      if(tmp2 < 1 && tmp2 > tf_t)
-        T_potential.push_back(tmp2);
-    }
+    S tmp = -Tb / (3 * Ta);
+    if(tmp < 1 && tmp > tf_t)
+      T_potential.push_back(tmp);
   }
 
-  S T_bound = Ta * T_potential[0] * T_potential[0] * T_potential[0] + Tb * T_potential[0] * T_potential[0] + Tc * T_potential[0];
+  S T_bound = 3 * Ta * T_potential[0] * T_potential[0] + 2 * Tb * T_potential[0] + Tc;
   for(unsigned int i = 1; i < T_potential.size(); ++i)
   {
-    S T_bound_tmp = Ta * T_potential[i] * T_potential[i] * T_potential[i] + Tb * T_potential[i] * T_potential[i] + Tc * T_potential[i];
+    S T_bound_tmp = 3 * Ta * T_potential[i] * T_potential[i] + 2 * Tb * T_potential[i] + Tc;
     if(T_bound_tmp > T_bound) T_bound = T_bound_tmp;
   }
 
-
-  S cur_delta = Ta * tf_t * tf_t * tf_t + Tb * tf_t * tf_t + Tc * tf_t;
-
-  T_bound -= cur_delta;
   T_bound /= 6.0;
 
   return T_bound;
@@ -334,21 +316,22 @@ S SplineMotion<S>::computeDWMax() const
   int da23[4] = {-12,6,2,0};
   int da33[4] = {4,0,0,0};
 
+  // the coefficients are in increasing order, as solveCubic() expects them
   S da[4];
   for(int i = 0; i < 4; ++i)
   {
-    da[i] = Rd0Rd0 * da00[i] + Rd0Rd1 * da01[i] + Rd0Rd2 * da02[i] + Rd0Rd3 * da03[i]
+    da[3 - i] = Rd0Rd0 * da00[i] + Rd0Rd1 * da01[i] + Rd0Rd2 * da02[i] + Rd0Rd3 * da03[i]
         + Rd0Rd1 * da01[i] + Rd1Rd1 * da11[i] + Rd1Rd2 * da12[i] + Rd1Rd3 * da13[i]
         + Rd0Rd2 * da02[i] + Rd1Rd2 * da12[i] + Rd2Rd2 * da22[i] + Rd2Rd3 * da23[i]
         + Rd0Rd3 * da03[i] + Rd1Rd3 * da13[i] + Rd2Rd3 * da23[i] + Rd3Rd3 * da33[i];
-    da[i] /= 4.0;
+    da[3 - i] /= 4.0;
   }
 
   S roots[3];
 
   int root_num = detail::PolySolver<S>::solveCubic(da, roots);
 
-  S dWdW_max = a[0] * tf_t * tf_t * tf_t + a[1] * tf_t * tf_t * tf_t + a[2] * tf_t * tf_t + a[3] * tf_t + a[4];
+  S dWdW_max = a[0] * tf_t * tf_t * tf_t * tf_t + a[1] * tf_t * tf_t * tf_t + a[2] * tf_t * tf_t + a[3] * tf_t + a[4];
   S dWdW_1 = a[0] + a[1] + a[2] + a[3] + a[4];
   if(dWdW_max < dWdW_1) dWdW_max = dWdW_1;
   for(int i = 0; i < root_num; ++i)
@@ -362,7 +345,7 @@ S SplineMotion<S>::computeDWMax() const
     }
   }
 
-  return sqrt(dWdW_max);
+  return sqrt(std::max(dWdW_max, (S)0));
 }
 
 //==============================================================================
diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index f33249d..8531e28 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -129,7 +129,6 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, SplineMotion<S>>
       const SplineMotion<S>& motion)
   {
     S T_bound = motion.computeTBound(visitor.n);
-    S tf_t = motion.getCurrentTime();
 
     Vector3<S> c1 = visitor.bv.To;
     Vector3<S> c2 = visitor.bv.To + visitor.bv.axis.col(0) * visitor.bv.l[0];
@@ -166,8 +165,8 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, SplineMotion<S>>
     if(tmp > cxn_max) cxn_max = tmp;
     cxn_max = sqrt(cxn_max);
 
-    S dWdW_max = motion.computeDWMax();
-    S ratio = std::min(1 - tf_t, dWdW_max);
+    // the angular speed is at most the speed of the rotation vector
+    S ratio = motion.computeDWMax();
 
     S R_bound = 2 * (cn_max + cmax + cxn_max + 3 * visitor.bv.r) * ratio;
 
diff --git a/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h b/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
index 59f37cb..b786775 100644
--- a/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
@@ -194,7 +194,6 @@ struct TriangleMotionBoundVisitorVisitImpl<S, SplineMotion<S>>
       const SplineMotion<S>& motion)
   {
     S T_bound = motion.computeTBound(visitor.n);
-    S tf_t = motion.getCurrentTime();
 
     S R_bound = std::abs(visitor.a.dot(visitor.n)) + visitor.a.norm() + (visitor.a.cross(visitor.n)).norm();
     S R_bound_tmp = std::abs(visitor.b.dot(visitor.n)) + visitor.b.norm() + (visitor.b.cross(visitor.n)).norm();
@@ -202,8 +201,8 @@ struct TriangleMotionBoundVisitorVisitImpl<S, SplineMotion<S>>
     R_bound_tmp = std::abs(visitor.c.dot(visitor.n)) + visitor.c.norm() + (visitor.c.cross(visitor.n)).norm();
     if(R_bound_tmp > R_bound) R_bound = R_bound_tmp;
 
-    S dWdW_max = motion.computeDWMax();
-    S ratio = std::min(1 - tf_t, dWdW_max);
+    // the angular speed is at most the speed of the rotation vector
+    S ratio = motion.computeDWMax();
 
     R_bound *= 2 * ratio;
 
-- 
2.43.0


From 8a050faf4d5c14e9e4202c3193a726abab0a6cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 085/140] fix: correct the Taylor model of SplineMotion

---
 include/fcl/math/motion/spline_motion-inl.h | 99 +++++++++++++--------
 1 file changed, 61 insertions(+), 38 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index c1fdf73..767b036 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -164,7 +164,7 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
   // set tv
   Vector3<S> c[4];
-  c[0] = (Td[0] + Td[1] * 4 + Td[2] + Td[3]) * (1/6.0);
+  c[0] = (Td[0] + Td[1] * 4 + Td[2]) * (1/6.0);
   c[1] = (-Td[0] + Td[2]) * (1/2.0);
   c[2] = (Td[0] - Td[1] * 2 + Td[2]) * (1/2.0);
   c[3] = (-Td[0] + Td[1] * 3 - Td[2] * 3 + Td[3]) * (1/6.0);
@@ -179,49 +179,72 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 
   // set tm
   Matrix3<S> I = Matrix3<S>::Identity();
-  // R(t) = R(t0) + R'(t0) (t-t0) + 1/2 R''(t0)(t-t0)^2 + 1 / 6 R'''(t0) (t-t0)^3 + 1 / 24 R''''(l)(t-t0)^4; t0 = 0.5
+  // R(t) = R(t0) + R'(t0) (t-t0) + 1/2 R''(t0)(t-t0)^2 + 1 / 6 R'''(l)(t-t0)^3; t0 = 0.5
   /// 1. compute M(1/2)
   Vector3<S> Rt0 = (Rd[0] + Rd[1] * 23 + Rd[2] * 23 + Rd[3]) * (1 / 48.0);
-  S Rt0_len = Rt0.norm();
-  S inv_Rt0_len = 1.0 / Rt0_len;
-  S inv_Rt0_len_3 = inv_Rt0_len * inv_Rt0_len * inv_Rt0_len;
-  S inv_Rt0_len_5 = inv_Rt0_len_3 * inv_Rt0_len * inv_Rt0_len;
-  S theta0 = Rt0_len;
-  S costheta0 = cos(theta0);
-  S sintheta0 = sin(theta0);
-
-  Vector3<S> Wt0 = Rt0 * inv_Rt0_len;
-  Matrix3<S> hatWt0;
-  hat(hatWt0, Wt0);
-  Matrix3<S> hatWt0_sqr = hatWt0 * hatWt0;
-  Matrix3<S> Mt0 = I + hatWt0 * sintheta0 + hatWt0_sqr * (1 - costheta0);
+  // M = I + f * hat(R) + g * hat(R)^2 with f = sin(theta)/theta, g = (1-cos(theta))/theta^2
+  // as functions of s = theta^2, which are smooth also at s = 0
+  const S s = Rt0.squaredNorm();
+  S f, df, ddf, g, dg, ddg;
+  if(s > 0.1)
+  {
+    const S theta = sqrt(s);
+    f = sin(theta) / theta;
+    g = (1 - cos(theta)) / s;
+    df = (cos(theta) - f) / (2 * s);
+    dg = (f / 2 - g) / s;
+    ddf = -(f / 2 + 3 * df) / (2 * s);
+    ddg = (df / 2 - 2 * dg) / s;
+  }
+  else
+  {
+    f = df = ddf = g = dg = ddg = 0;
+    S cf = 1; // (-1)^k / (2k+1)!
+    S p0 = 1, p1 = 0, p2 = 0; // s^k and its derivatives
+    for(int k = 0; k < 8; ++k)
+    {
+      const S cg = cf / (2 * k + 2);
+      f += cf * p0; df += cf * p1; ddf += cf * p2;
+      g += cg * p0; dg += cg * p1; ddg += cg * p2;
+      p2 = p2 * s + 2 * p1;
+      p1 = p1 * s + p0;
+      p0 = p0 * s;
+      cf = -cf / ((2 * k + 2) * (2 * k + 3));
+    }
+  }
+
+  Matrix3<S> hatRt0;
+  hat(hatRt0, Rt0);
+  const Matrix3<S> hatRt0_sqr = hatRt0 * hatRt0;
+  const Matrix3<S> Mt0 = I + hatRt0 * f + hatRt0_sqr * g;
   // TODO(JS): this could be improved by using exp(Wt0)
 
   /// 2. compute M'(1/2)
   Vector3<S> dRt0 = (-Rd[0] - Rd[1] * 5 + Rd[2] * 5 + Rd[3]) * (1 / 8.0);
-  S Rt0_dot_dRt0 = Rt0.dot(dRt0);
-  S dtheta0 = Rt0_dot_dRt0 * inv_Rt0_len;
-  Vector3<S> dWt0 = dRt0 * inv_Rt0_len - Rt0 * (Rt0_dot_dRt0 * inv_Rt0_len_3);
-  Matrix3<S> hatdWt0;
-  hat(hatdWt0, dWt0);
-  Matrix3<S> dMt0 = hatdWt0 * sintheta0 + hatWt0 * (costheta0 * dtheta0) + hatWt0_sqr * (sintheta0 * dtheta0) + (hatWt0 * hatdWt0 + hatdWt0 * hatWt0) * (1 - costheta0);
-
-  /// 3.1. compute M''(1/2)
+  Matrix3<S> hatdRt0;
+  hat(hatdRt0, dRt0);
+  const S ds = 2 * Rt0.dot(dRt0);
+  const Matrix3<S> dhatRt0_sqr = hatRt0 * hatdRt0 + hatdRt0 * hatRt0;
+  const Matrix3<S> dMt0 = hatRt0 * (df * ds) + hatdRt0 * f + hatRt0_sqr * (dg * ds) + dhatRt0_sqr * g;
+
+  /// 3. compute M''(1/2)
   Vector3<S> ddRt0 = (Rd[0] - Rd[1] - Rd[2] + Rd[3]) * 0.5;
-  S Rt0_dot_ddRt0 = Rt0.dot(ddRt0);
-  S dRt0_dot_dRt0 = dRt0.squaredNorm();
-  S ddtheta0 = (Rt0_dot_ddRt0 + dRt0_dot_dRt0) * inv_Rt0_len - Rt0_dot_dRt0 * Rt0_dot_dRt0 * inv_Rt0_len_3;
-  Vector3<S> ddWt0 = ddRt0 * inv_Rt0_len - (dRt0 * (2 * Rt0_dot_dRt0) + Rt0 * (Rt0_dot_ddRt0 + dRt0_dot_dRt0)) * inv_Rt0_len_3 + (Rt0 * (3 * Rt0_dot_dRt0 * Rt0_dot_dRt0)) * inv_Rt0_len_5;
-  Matrix3<S> hatddWt0;
-  hat(hatddWt0, ddWt0);
-  Matrix3<S> ddMt0 =
-      hatddWt0 * sintheta0 +
-      hatWt0 * (costheta0 * dtheta0 - sintheta0 * dtheta0 * dtheta0 + costheta0 * ddtheta0) +
-      hatdWt0 * (costheta0 * dtheta0) +
-      (hatWt0 * hatdWt0 + hatdWt0 * hatWt0) * (sintheta0 * dtheta0 * 2) +
-      hatdWt0 * hatdWt0 * (2 * (1 - costheta0)) +
-      hatWt0 * hatWt0 * (costheta0 * dtheta0 * dtheta0 + sintheta0 * ddtheta0) +
-      (hatWt0 * hatddWt0 + hatddWt0 + hatWt0) * (1 - costheta0);
+  Matrix3<S> hatddRt0;
+  hat(hatddRt0, ddRt0);
+  const S dds = 2 * (dRt0.squaredNorm() + Rt0.dot(ddRt0));
+  const Matrix3<S> ddMt0 =
+      hatRt0 * (ddf * ds * ds + df * dds) + hatdRt0 * (2 * df * ds) + hatddRt0 * f +
+      hatRt0_sqr * (ddg * ds * ds + dg * dds) + dhatRt0_sqr * (2 * dg * ds) +
+      (hatRt0 * hatddRt0 + hatdRt0 * hatdRt0 * 2 + hatddRt0 * hatRt0) * g;
+
+  /// 4. bound M'''(t) for all t by |R'|^3 + 3|R'||R''| + |R'''|, where R' and R''
+  /// are combinations of the differences of the deBoor points
+  S dR_max = 0, ddR_max = 0;
+  for(std::size_t i = 0; i < 3; ++i)
+    dR_max = std::max(dR_max, (Rd[i + 1] - Rd[i]).norm());
+  for(std::size_t i = 0; i < 2; ++i)
+    ddR_max = std::max(ddR_max, (Rd[i] - Rd[i + 1] * 2 + Rd[i + 2]).norm());
+  const S dddM_max = dR_max * dR_max * dR_max + 3 * dR_max * ddR_max + RA.norm();
 
   tm.setTimeInterval(this->getTimeInterval());
   for(std::size_t i = 0; i < 3; ++i)
@@ -233,7 +256,7 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
       tm(i, j).coeff(2) = ddMt0(i, j) * 0.5;
       tm(i, j).coeff(3) = 0;
 
-      tm(i, j).remainder() = Interval<S>(-1/48.0, 1/48.0); /// not correct, should fix
+      tm(i, j).remainder() = Interval<S>(-dddM_max / 48.0, dddM_max / 48.0);
     }
   }
 }
-- 
2.43.0


From b46586539f716df2964708e559d9e96f9f30b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 086/140] fix: build SplineMotion from an initial and a goal
 transform

---
 include/fcl/math/motion/spline_motion-inl.h | 69 +++++++++++----------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index 767b036..2cfe225 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -66,27 +66,7 @@ SplineMotion<S>::SplineMotion(
   Rd[2] = Rd2;
   Rd[3] = Rd3;
 
-  Rd0Rd0 = Rd[0].dot(Rd[0]);
-  Rd0Rd1 = Rd[0].dot(Rd[1]);
-  Rd0Rd2 = Rd[0].dot(Rd[2]);
-  Rd0Rd3 = Rd[0].dot(Rd[3]);
-  Rd1Rd1 = Rd[1].dot(Rd[1]);
-  Rd1Rd2 = Rd[1].dot(Rd[2]);
-  Rd1Rd3 = Rd[1].dot(Rd[3]);
-  Rd2Rd2 = Rd[2].dot(Rd[2]);
-  Rd2Rd3 = Rd[2].dot(Rd[3]);
-  Rd3Rd3 = Rd[3].dot(Rd[3]);
-
-  TA = Td[1] * 3 - Td[2] * 3 + Td[3] - Td[0];
-  TB = (Td[0] - Td[1] * 2 + Td[2]) * 3;
-  TC = (Td[2] - Td[0]) * 3;
-
-  RA = Rd[1] * 3 - Rd[2] * 3 + Rd[3] - Rd[0];
-  RB = (Rd[0] - Rd[1] * 2 + Rd[2]) * 3;
-  RC = (Rd[2] - Rd[0]) * 3;
-
-  tf.setIdentity();
-  integrate(0.0);
+  computeSplineParameter();
 }
 
 //==============================================================================
@@ -96,24 +76,29 @@ SplineMotion<S>::SplineMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>()
 {
-  FCL_UNUSED(R1);
-  FCL_UNUSED(T1);
-  FCL_UNUSED(R2);
-  FCL_UNUSED(T2);
+  const AngleAxis<S> aa1(R1);
+  const AngleAxis<S> aa2(R2);
+  const Vector3<S> w1 = aa1.axis() * aa1.angle();
+  const Vector3<S> w2 = aa2.axis() * aa2.angle();
+
+  // Equidistant deBoor points on the line through the initial and the goal
+  // configuration: the spline goes from the second to the third of them
+  for(int i = 0; i < 4; ++i)
+  {
+    Td[i] = T1 + (T2 - T1) * (i - 1);
+    Rd[i] = w1 + (w2 - w1) * (i - 1);
+  }
 
-  // TODO
+  computeSplineParameter();
 }
 
 //==============================================================================
 template <typename S>
 SplineMotion<S>::SplineMotion(
     const Transform3<S>& tf1, const Transform3<S>& tf2)
-  : MotionBase<S>()
+  : SplineMotion(tf1.linear(), tf1.translation(), tf2.linear(), tf2.translation())
 {
-  FCL_UNUSED(tf1);
-  FCL_UNUSED(tf2);
-
-  // TODO
+  // Do nothing
 }
 
 //==============================================================================
@@ -265,7 +250,27 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 template <typename S>
 void SplineMotion<S>::computeSplineParameter()
 {
-  // TODO(JS): Not implemented?
+  Rd0Rd0 = Rd[0].dot(Rd[0]);
+  Rd0Rd1 = Rd[0].dot(Rd[1]);
+  Rd0Rd2 = Rd[0].dot(Rd[2]);
+  Rd0Rd3 = Rd[0].dot(Rd[3]);
+  Rd1Rd1 = Rd[1].dot(Rd[1]);
+  Rd1Rd2 = Rd[1].dot(Rd[2]);
+  Rd1Rd3 = Rd[1].dot(Rd[3]);
+  Rd2Rd2 = Rd[2].dot(Rd[2]);
+  Rd2Rd3 = Rd[2].dot(Rd[3]);
+  Rd3Rd3 = Rd[3].dot(Rd[3]);
+
+  TA = Td[1] * 3 - Td[2] * 3 + Td[3] - Td[0];
+  TB = (Td[0] - Td[1] * 2 + Td[2]) * 3;
+  TC = (Td[2] - Td[0]) * 3;
+
+  RA = Rd[1] * 3 - Rd[2] * 3 + Rd[3] - Rd[0];
+  RB = (Rd[0] - Rd[1] * 2 + Rd[2]) * 3;
+  RC = (Rd[2] - Rd[0]) * 3;
+
+  tf.setIdentity();
+  integrate(0.0);
 }
 
 //==============================================================================
-- 
2.43.0


From 79e28d83309d8092a57c161fb5137f27d250c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 087/140] fix: scale the tolerances of continuous triangle
 intersection with the triangles

---
 .../detail/traversal/collision/intersect-inl.h       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index 4c9d606..8e8ff79 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -150,9 +150,12 @@ bool Intersect<S>::insideTriangle(const Vector3<S>& a, const Vector3<S>& b, cons
   Vector3<S> pb = b - p;
   Vector3<S> pc = c - p;
 
-  if((pb.cross(pc)).dot(n) < -getEpsilon()) return false;
-  if((pc.cross(pa)).dot(n) < -getEpsilon()) return false;
-  if((pa.cross(pb)).dot(n) < -getEpsilon()) return false;
+  // the tolerance is one on the barycentric coordinates of p
+  const S tolerance = getEpsilon() * n.squaredNorm();
+
+  if((pb.cross(pc)).dot(n) < -tolerance) return false;
+  if((pc.cross(pa)).dot(n) < -tolerance) return false;
+  if((pa.cross(pb)).dot(n) < -tolerance) return false;
 
   return true;
 }
@@ -190,7 +193,8 @@ bool Intersect<S>::linelineIntersect(const Vector3<S>& p1, const Vector3<S>& p2,
   S d1212 = p12.dot(p12);
 
   S denom = d1212 * d3434 - d3412 * d3412;
-  if(fabs(denom) < getEpsilon())
+  // parallel lines, whatever the length of the segments
+  if(fabs(denom) < getEpsilon() * d1212 * d3434)
     return false;
   S numer = d3134 * d3412 - d3112 * d3434;
 
-- 
2.43.0


From d71910c3932f630e42a98940ccff60126fba425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 088/140] fix: descend the mesh, not the shape, in shape-mesh
 distance traversals

---
 .../distance/shape_bvh_distance_traversal_node-inl.h       | 7 +++++++
 .../traversal/distance/shape_bvh_distance_traversal_node.h | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
index 1478e92..232665e 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
@@ -61,6 +61,13 @@ ShapeBVHDistanceTraversalNode<Shape, BV>::ShapeBVHDistanceTraversalNode()
   query_time_seconds = 0.0;
 }
 
+//==============================================================================
+template<typename Shape, typename BV>
+bool ShapeBVHDistanceTraversalNode<Shape, BV>::firstOverSecond(int, int) const
+{
+  return false;
+}
+
 //==============================================================================
 template<typename Shape, typename BV>
 bool ShapeBVHDistanceTraversalNode<Shape, BV>::isSecondNodeLeaf(int b) const
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
index 53176cf..1e63c66 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
@@ -59,6 +59,9 @@ public:
 
   ShapeBVHDistanceTraversalNode();
 
+  /// @brief Always extend the second model, which is a BVH model
+  bool firstOverSecond(int, int) const;
+
   /// @brief Whether the BV node in the second BVH tree is leaf
   bool isSecondNodeLeaf(int b) const;
 
-- 
2.43.0


From 3ca333e080551f7ebdaba8a8d217f25e33009201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 089/140] fix: bound the motion of bounding volumes other than
 RSS by their enclosing ball

---
 .../math/motion/tbv_motion_bound_visitor-inl.h    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index 8531e28..1d1ac2b 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -55,14 +55,23 @@ TBVMotionBoundVisitor<BV>::TBVMotionBoundVisitor(
 }
 
 //==============================================================================
+/// @brief Compute the motion bound for a bounding volume of any type: that of the
+/// ball around it
 template <typename S, typename BV, typename MotionT>
 struct TBVMotionBoundVisitorVisitImpl
 {
   static S run(
-      const TBVMotionBoundVisitor<BV>& /*visitor*/,
-      const MotionT& /*motion*/)
+      const TBVMotionBoundVisitor<BV>& visitor,
+      const MotionT& motion)
   {
-    return 0;
+    RSS<S> ball;
+    ball.axis.setIdentity();
+    ball.To = visitor.bv.center();
+    ball.l[0] = 0;
+    ball.l[1] = 0;
+    ball.r = 0.5 * Vector3<S>(visitor.bv.width(), visitor.bv.height(), visitor.bv.depth()).norm();
+
+    return TBVMotionBoundVisitor<RSS<S>>(ball, visitor.n).visit(motion);
   }
 };
 
-- 
2.43.0


From 48d711305d61670966559f9f4ce53fb862aa42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 090/140] fix: sample the start of the motion when continuous
 collision takes one sample

---
 include/fcl/narrowphase/continuous_collision-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b24d0b8..34eaab8 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -145,7 +145,8 @@ S continuousCollideNaive(
   Transform3<S> cur_tf1, cur_tf2;
   for(std::size_t i = 0; i < n_iter; ++i)
   {
-    S t = i / (S) (n_iter - 1);
+    // a single sample is taken at the start of the motion
+    S t = (n_iter > 1) ? i / (S) (n_iter - 1) : S(0);
     motion1->integrate(t);
     motion2->integrate(t);
 
-- 
2.43.0


From ba9dbc91b3910a7dea4aa8bd435423bad7d4fd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 091/140] fix: run polynomial continuous collision on copies of
 the models in the world frame

---
 .../narrowphase/continuous_collision-inl.h    | 56 +++++++++++--------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 34eaab8..a3fd374 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -189,38 +189,46 @@ typename BV::S continuousCollideBVHPolynomial(
 
   using S = typename BV::S;
 
-  const BVHModel<BV>* o1__ = static_cast<const BVHModel<BV>*>(o1_);
-  const BVHModel<BV>* o2__ = static_cast<const BVHModel<BV>*>(o2_);
+  motion1->integrate(0);
+  motion2->integrate(0);
+  Transform3<S> tf1;
+  Transform3<S> tf2;
+  motion1->getCurrentTransform(tf1);
+  motion2->getCurrentTransform(tf2);
 
-  // ugly, but lets do it now.
-  BVHModel<BV>* o1 = const_cast<BVHModel<BV>*>(o1__);
-  BVHModel<BV>* o2 = const_cast<BVHModel<BV>*>(o2__);
-  std::vector<Vector3<S>> new_v1(o1->num_vertices);
-  std::vector<Vector3<S>> new_v2(o2->num_vertices);
+  // the solver works on vertices in the world frame, at the beginning and at
+  // the end of the motion: move copies, the models belong to the user
+  BVHModel<BV> o1(*static_cast<const BVHModel<BV>*>(o1_));
+  BVHModel<BV> o2(*static_cast<const BVHModel<BV>*>(o2_));
+
+  const auto sweep = [](
+      BVHModel<BV>& model, const Transform3<S>& tf, const Vector3<S>& velocity)
+  {
+    std::vector<Vector3<S>> new_v(model.num_vertices);
+    for(std::size_t i = 0; i < new_v.size(); ++i)
+      new_v[i] = tf * model.vertices[i];
 
-  for(std::size_t i = 0; i < new_v1.size(); ++i)
-    new_v1[i] = o1->vertices[i] + motion1->getVelocity();
-  for(std::size_t i = 0; i < new_v2.size(); ++i)
-    new_v2[i] = o2->vertices[i] + motion2->getVelocity();
+    model.beginReplaceModel();
+    model.replaceSubModel(new_v);
+    model.endReplaceModel();
 
-  o1->beginUpdateModel();
-  o1->updateSubModel(new_v1);
-  o1->endUpdateModel(true, true);
+    for(std::size_t i = 0; i < new_v.size(); ++i)
+      new_v[i] += velocity;
 
-  o2->beginUpdateModel();
-  o2->updateSubModel(new_v2);
-  o2->endUpdateModel(true, true);
+    model.beginUpdateModel();
+    model.updateSubModel(new_v);
+    model.endUpdateModel(true, true);
+  };
+  sweep(o1, tf1, motion1->getVelocity());
+  sweep(o2, tf2, motion2->getVelocity());
 
   MeshContinuousCollisionTraversalNode<BV> node;
   CollisionRequest<S> c_request;
 
-  motion1->integrate(0);
-  motion2->integrate(0);
-  Transform3<S> tf1;
-  Transform3<S> tf2;
-  motion1->getCurrentTransform(tf1);
-  motion2->getCurrentTransform(tf2);
-  if(!initialize<BV>(node, *o1, tf1, *o2, tf2, c_request))
+  // the first contact is the earliest of all pairs
+  c_request.num_max_contacts = std::numeric_limits<std::size_t>::max();
+
+  if(!initialize<BV>(node, o1, Transform3<S>::Identity(), o2, Transform3<S>::Identity(), c_request))
     return -1.0;
 
   collide(&node);
-- 
2.43.0


From d834c938b43f4476ec7794963cb08d3a46212902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 092/140] fix: let sampled continuous collision use the
 requested solver

---
 include/fcl/narrowphase/continuous_collision-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index a3fd374..151a60e 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -154,6 +154,7 @@ S continuousCollideNaive(
     motion2->getCurrentTransform(cur_tf2);
 
     CollisionRequest<S> c_request;
+    c_request.gjk_solver_type = request.gjk_solver_type;
     CollisionResult<S> c_result;
 
     if(collide(o1, cur_tf1, o2, cur_tf2, c_request, c_result))
-- 
2.43.0


From 86b29913735ecefdca5f6a2219208ac48b3c3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 093/140] fix: start conservative advancement at the beginning
 of the motions

---
 include/fcl/narrowphase/continuous_collision-inl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 151a60e..294e157 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -340,6 +340,11 @@ typename NarrowPhaseSolver::S continuousCollideConservativeAdvancement(
   }
   else
   {
+    // the advancement starts at the beginning of the motions, whatever time
+    // they were last evaluated at
+    motion1->integrate(0);
+    motion2->integrate(0);
+
     res = looktable.conservative_advancement_matrix[node_type1][node_type2](o1, motion1, o2, motion2, nsolver, request, result);
   }
 
-- 
2.43.0


From 67febfa7225157b8c339f25b847b475f9de6d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 094/140] fix: give conservative advancement a solver tolerance
 it can reach

---
 include/fcl/narrowphase/continuous_collision-inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 294e157..bf07b8d 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -389,6 +389,9 @@ S continuousCollideConservativeAdvancement(
   case GST_INDEP:
     {
       detail::GJKSolver_indep<S> solver;
+      // the tolerance of a distance query; the solver's own default is so tight
+      // that it often fails to converge, which would be taken for a contact
+      solver.gjk_tolerance = DistanceRequest<S>().distance_tolerance;
       return detail::continuousCollideConservativeAdvancement(o1, motion1, o2, motion2, &solver, request, result);
     }
   default:
-- 
2.43.0


From 6326ecab6db409f94e7c267c11a02741b2125b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 095/140] fix: treat shapes as in contact when conservative
 advancement cannot separate them

---
 .../conservative_advancement_stack_data-inl.h | 57 +++++++++++++++++++
 .../conservative_advancement_stack_data.h     | 24 ++++++++
 ...servative_advancement_traversal_node-inl.h |  6 +-
 3 files changed, 84 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data-inl.h b/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data-inl.h
index 9c567ac..d09a07a 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h"
 
+#include "fcl/math/constants.h"
+
 namespace fcl
 {
 
@@ -61,6 +63,61 @@ ConservativeAdvancementStackData<S>::ConservativeAdvancementStackData(
   // Do nothing
 }
 
+//==============================================================================
+template <typename BV>
+FCL_EXPORT
+typename BV::S conservativeAdvancementSpeedBound(
+    const BV& bv, const MotionBase<typename BV::S>* motion)
+{
+  using S = typename BV::S;
+
+  S sum = 0;
+  for(int i = 0; i < 3; ++i)
+  {
+    const Vector3<S> n = Vector3<S>::Unit(i);
+    TBVMotionBoundVisitor<BV> forward(bv, n);
+    TBVMotionBoundVisitor<BV> backward(bv, -n);
+    const S bound = std::max(
+          motion->computeMotionBound(forward), motion->computeMotionBound(backward));
+    if(bound > 0) sum += bound * bound;
+  }
+
+  return std::sqrt(sum);
+}
+
+//==============================================================================
+template <typename BV>
+FCL_EXPORT
+typename BV::S conservativeAdvancementWorldSpeedBound(
+    const BV& bv, const MotionBase<typename BV::S>* motion)
+{
+  using S = typename BV::S;
+
+  Transform3<S> tf;
+  motion->getCurrentTransform(tf);
+
+  RSS<S> ball;
+  ball.axis.setIdentity();
+  ball.To = tf.inverse(Eigen::Isometry) * bv.center();
+  ball.l[0] = 0;
+  ball.l[1] = 0;
+  ball.r = 0.5 * Vector3<S>(bv.width(), bv.height(), bv.depth()).norm();
+
+  return conservativeAdvancementSpeedBound(ball, motion);
+}
+
+//==============================================================================
+template <typename S>
+FCL_EXPORT
+S conservativeAdvancementTimeStep(S distance, S bound)
+{
+  // touching or overlapping (or no answer): there is no separating direction
+  // along which the motion could be bounded
+  if(distance <= constants<S>::eps_12()) return 0;
+
+  return (bound <= distance) ? S(1) : distance / bound;
+}
+
 } // namespace detail
 } // namespace fcl
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h b/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h
index fb95a94..e04aaa0 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h
@@ -39,6 +39,9 @@
 #define FCL_TRAVERSAL_CONVERVATIVEADVANCEMENTSTACKDATA_H
 
 #include "fcl/common/types.h"
+#include "fcl/math/bv/RSS.h"
+#include "fcl/math/motion/motion_base.h"
+#include "fcl/math/motion/tbv_motion_bound_visitor.h"
 
 namespace fcl
 {
@@ -61,6 +64,27 @@ struct FCL_EXPORT ConservativeAdvancementStackData
   S d;
 };
 
+/// @brief Upper bound of the speed of any point of a bounding volume, in any
+/// direction. bv is given in the local frame of the moving object.
+template <typename BV>
+FCL_EXPORT
+typename BV::S conservativeAdvancementSpeedBound(
+    const BV& bv, const MotionBase<typename BV::S>* motion);
+
+/// @brief Same as above, for a bv given in the world frame at the current
+/// configuration of the motion.
+template <typename BV>
+FCL_EXPORT
+typename BV::S conservativeAdvancementWorldSpeedBound(
+    const BV& bv, const MotionBase<typename BV::S>* motion);
+
+/// @brief How much time two primitives can surely move for without touching,
+/// when they are distance apart and approach each other by at most bound per
+/// unit of time.
+template <typename S>
+FCL_EXPORT
+S conservativeAdvancementTimeStep(S distance, S bound);
+
 } // namespace detail
 } // namespace fcl
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
index 0944d4e..f5c0a50 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node.h"
 
+#include "fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h"
+
 namespace fcl
 {
 
@@ -87,9 +89,7 @@ leafTesting(int, int) const
 
   S bound = bound1 + bound2;
 
-  S cur_delta_t;
-  if(bound <= distance) cur_delta_t = 1;
-  else cur_delta_t = distance / bound;
+  S cur_delta_t = conservativeAdvancementTimeStep(distance, bound);
 
   if(cur_delta_t < delta_t)
     delta_t  = cur_delta_t;
-- 
2.43.0


From 54d5f5a0fd11b799fe45facf86ebc069f83fe65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 096/140] fix: advance meshes by no more than the motion bounds
 of what was culled

---
 ...conservative_advancement_func_matrix-inl.h |  22 +-
 ...servative_advancement_traversal_node-inl.h | 367 ++----------------
 ..._conservative_advancement_traversal_node.h |  44 +--
 ...servative_advancement_traversal_node-inl.h | 153 ++------
 ..._conservative_advancement_traversal_node.h |  15 -
 ...servative_advancement_traversal_node-inl.h |  96 ++---
 6 files changed, 143 insertions(+), 554 deletions(-)

diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index e9af921..c4d4124 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -95,10 +95,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
 
 
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
-
   MeshConservativeAdvancementTraversalNode<BV> node;
 
   node.motion1 = motion1;
@@ -107,7 +103,9 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   do
   {
     // repeatedly update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, *o2_tmp, tf2);
+    BVHModel<BV> o1_tmp(o1);
+    BVHModel<BV> o2_tmp(o2);
+    initialize(node, o1_tmp, tf1, o2_tmp, tf2);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -135,8 +133,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
   while(1);
 
-  delete o1_tmp;
-  delete o2_tmp;
 
   toc = node.toc;
 
@@ -310,8 +306,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
     return true;
   }
 
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-
   MeshShapeConservativeAdvancementTraversalNode<BV, Shape, NarrowPhaseSolver> node;
 
   node.motion1 = motion1;
@@ -320,7 +314,8 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   do
   {
     // initialize update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, o2, tf2, nsolver);
+    BVHModel<BV> o1_tmp(o1);
+    initialize(node, o1_tmp, tf1, o2, tf2, nsolver);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -347,7 +342,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
   while(1);
 
-  delete o1_tmp;
 
   toc = node.toc;
 
@@ -478,8 +472,6 @@ bool conservativeAdvancement(const Shape& o1,
     return true;
   }
 
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
   ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver> node;
 
   node.motion1 = motion1;
@@ -488,7 +480,8 @@ bool conservativeAdvancement(const Shape& o1,
   do
   {
     // initialize update mesh to global coordinate, so time consuming
-    initialize(node, o1, tf1, *o2_tmp, tf2, nsolver);
+    BVHModel<BV> o2_tmp(o2);
+    initialize(node, o1, tf1, o2_tmp, tf2, nsolver);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -515,7 +508,6 @@ bool conservativeAdvancement(const Shape& o1,
   }
   while(1);
 
-  delete o2_tmp;
 
   toc = node.toc;
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
index 44ddde5..d3ebb60 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
@@ -149,16 +149,19 @@ void MeshConservativeAdvancementTraversalNode<BV>::leafTesting(int b1, int b2) c
 
   Vector3<S> n = P2 - P1;
   n.normalize();
-  // here n is already in global frame as we assume the body is in original configuration (I, 0) for general BVH
-  TriangleMotionBoundVisitor<S> mb_visitor1(p1, p2, p3, n), mb_visitor2(q1, q2, q3, n);
+  // n and the vertices are in the global frame, but the motion bound of a triangle is about its vertices in the frame of the moving object
+  Transform3<S> tf1, tf2;
+  motion1->getCurrentTransform(tf1);
+  motion2->getCurrentTransform(tf2);
+  tf1 = tf1.inverse(Eigen::Isometry);
+  tf2 = tf2.inverse(Eigen::Isometry);
+  TriangleMotionBoundVisitor<S> mb_visitor1(tf1 * p1, tf1 * p2, tf1 * p3, n), mb_visitor2(tf2 * q1, tf2 * q2, tf2 * q3, -n);
   S bound1 = motion1->computeMotionBound(mb_visitor1);
   S bound2 = motion2->computeMotionBound(mb_visitor2);
 
   S bound = bound1 + bound2;
 
-  S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
-  else cur_delta_t = d / bound;
+  S cur_delta_t = conservativeAdvancementTimeStep(d, bound);
 
   if(cur_delta_t < delta_t)
     delta_t = cur_delta_t;
@@ -171,140 +174,27 @@ struct CanStopImpl
   static bool run(
       const MeshConservativeAdvancementTraversalNode<BV>& node, S c)
   {
-    if((c >= node.w * (node.min_distance - node.abs_err))
-       && (c * (1 + node.rel_err) >= node.w * node.min_distance))
-    {
-      const ConservativeAdvancementStackData<S>& data = node.stack.back();
-      S d = data.d;
-      Vector3<S> n;
-      int c1, c2;
-
-      if(d > c)
-      {
-        const ConservativeAdvancementStackData<S>& data2 = node.stack[node.stack.size() - 2];
-        d = data2.d;
-        n = data2.P2 - data2.P1; n.normalize();
-        c1 = data2.c1;
-        c2 = data2.c2;
-        node.stack[node.stack.size() - 2] = node.stack[node.stack.size() - 1];
-      }
-      else
-      {
-        n = data.P2 - data.P1; n.normalize();
-        c1 = data.c1;
-        c2 = data.c2;
-      }
-
-      assert(c == d);
-
-      TBVMotionBoundVisitor<BV> mb_visitor1(node.model1->getBV(c1).bv, n), mb_visitor2(node.model2->getBV(c2).bv, n);
-      S bound1 = node.motion1->computeMotionBound(mb_visitor1);
-      S bound2 = node.motion2->computeMotionBound(mb_visitor2);
-
-      S bound = bound1 + bound2;
-
-      S cur_delta_t;
-      if(bound <= c) cur_delta_t = 1;
-      else cur_delta_t = c / bound;
-
-      if(cur_delta_t < node.delta_t)
-        node.delta_t = cur_delta_t;
-
-      node.stack.pop_back();
-
-      return true;
-    }
-    else
-    {
-      const ConservativeAdvancementStackData<S>& data = node.stack.back();
-      S d = data.d;
-
-      if(d > c)
-        node.stack[node.stack.size() - 2] = node.stack[node.stack.size() - 1];
-
-      node.stack.pop_back();
-
-      return false;
-    }
-  }
-};
-
-//==============================================================================
-template <typename BV>
-bool MeshConservativeAdvancementTraversalNode<BV>::canStop(
-    typename BV::S c) const
-{
-  return CanStopImpl<typename BV::S, BV>::run(*this, c);
-}
-
-//==============================================================================
-template <typename S>
-struct CanStopImpl<S, OBB<S>>
-{
-  static bool run(
-      const MeshConservativeAdvancementTraversalNode<OBB<S>>& node,
-      S c)
-  {
-    return detail::meshConservativeAdvancementTraversalNodeCanStop(
-          c,
-          node.min_distance,
-          node.abs_err,
-          node.rel_err,
-          node.w,
-          node.model1,
-          node.model2,
-          node.motion1,
-          node.motion2,
-          node.stack,
-          node.delta_t);
-  }
-};
-
-//==============================================================================
-template <typename S>
-struct CanStopImpl<S, RSS<S>>
-{
-  static bool run(
-      const MeshConservativeAdvancementTraversalNode<RSS<S>>& node,
-      S c)
-  {
-    return detail::meshConservativeAdvancementTraversalNodeCanStop(
+    // the bounding volumes are in the global frame
+    return detail::meshConservativeAdvancementNodeCanStop(
           c,
           node.min_distance,
           node.abs_err,
           node.rel_err,
           node.w,
-          node.model1,
-          node.model2,
-          node.motion1,
-          node.motion2,
+          conservativeAdvancementWorldSpeedBound(node.model1->getBV(0).bv, node.motion1)
+          + conservativeAdvancementWorldSpeedBound(node.model2->getBV(0).bv, node.motion2),
           node.stack,
           node.delta_t);
   }
 };
 
 //==============================================================================
-template <typename S>
-struct CanStopImpl<S, OBBRSS<S>>
+template <typename BV>
+bool MeshConservativeAdvancementTraversalNode<BV>::canStop(
+    typename BV::S c) const
 {
-  static bool run(
-      const MeshConservativeAdvancementTraversalNode<OBBRSS<S>>& node,
-      S c)
-  {
-    return detail::meshConservativeAdvancementTraversalNodeCanStop(
-          c,
-          node.min_distance,
-          node.abs_err,
-          node.rel_err,
-          node.w,
-          node.model1,
-          node.model2,
-          node.motion1,
-          node.motion2,
-          node.stack,
-          node.delta_t);
-  }
-};
+  return CanStopImpl<typename BV::S, BV>::run(*this, c);
+}
 
 //==============================================================================
 template <typename BV>
@@ -399,16 +289,14 @@ leafTesting(int b1, int b2) const
 template <typename S>
 bool MeshConservativeAdvancementTraversalNodeRSS<S>::canStop(S c) const
 {
-  return detail::meshConservativeAdvancementOrientedNodeCanStop(
+  return detail::meshConservativeAdvancementNodeCanStop(
         c,
         this->min_distance,
         this->abs_err,
         this->rel_err,
         this->w,
-        this->model1,
-        this->model2,
-        this->motion1,
-        this->motion2,
+        conservativeAdvancementSpeedBound(this->model1->getBV(0).bv, this->motion1)
+        + conservativeAdvancementSpeedBound(this->model2->getBV(0).bv, this->motion2),
         this->stack,
         this->delta_t);
 }
@@ -454,209 +342,38 @@ leafTesting(int b1, int b2) const
 template <typename S>
 bool MeshConservativeAdvancementTraversalNodeOBBRSS<S>::canStop(S c) const
 {
-  return detail::meshConservativeAdvancementOrientedNodeCanStop(
+  return detail::meshConservativeAdvancementNodeCanStop(
         c,
         this->min_distance,
         this->abs_err,
         this->rel_err,
         this->w,
-        this->model1,
-        this->model2,
-        this->motion1,
-        this->motion2,
+        conservativeAdvancementSpeedBound(this->model1->getBV(0).bv, this->motion1)
+        + conservativeAdvancementSpeedBound(this->model2->getBV(0).bv, this->motion2),
         this->stack,
         this->delta_t);
 }
 
-/// @brief for OBB and RSS, there is local coordinate of BV, so normal need to be transformed
-
-//==============================================================================
-template <typename S, typename BV>
-struct GetBVAxisImpl
-{
-  const Vector3<S> operator()(const BV& bv, int i)
-  {
-    return bv.axis.col(i);
-  }
-};
-
-//==============================================================================
-template <typename BV>
-const Vector3<typename BV::S> getBVAxis(const BV& bv, int i)
-{
-  GetBVAxisImpl<typename BV::S, BV> getBVAxisImpl;
-  return getBVAxisImpl(bv, i);
-}
-
 //==============================================================================
 template <typename S>
-struct GetBVAxisImpl<S, OBBRSS<S>>
-{
-  const Vector3<S> operator()(const OBBRSS<S>& bv, int i)
-  {
-    return bv.obb.axis.col(i);
-  }
-};
-
-//==============================================================================
-template <typename BV>
-bool meshConservativeAdvancementTraversalNodeCanStop(
-    typename BV::S c,
-    typename BV::S min_distance,
-    typename BV::S abs_err,
-    typename BV::S rel_err,
-    typename BV::S w,
-    const BVHModel<BV>* model1,
-    const BVHModel<BV>* model2,
-    const MotionBase<typename BV::S>* motion1,
-    const MotionBase<typename BV::S>* motion2,
-    std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-    typename BV::S& delta_t)
+bool meshConservativeAdvancementNodeCanStop(
+    S c,
+    S min_distance,
+    S abs_err,
+    S rel_err,
+    S w,
+    S speed,
+    std::vector<ConservativeAdvancementStackData<S>>& stack,
+    S delta_t)
 {
-  using S = typename BV::S;
-
-  if((c >= w * (min_distance - abs_err)) && (c * (1 + rel_err) >= w * min_distance))
-  {
-    const ConservativeAdvancementStackData<S>& data = stack.back();
-    S d = data.d;
-    Vector3<S> n;
-    int c1, c2;
-
-    if(d > c)
-    {
-      const ConservativeAdvancementStackData<S>& data2 = stack[stack.size() - 2];
-      d = data2.d;
-      n = data2.P2 - data2.P1; n.normalize();
-      c1 = data2.c1;
-      c2 = data2.c2;
-      stack[stack.size() - 2] = stack[stack.size() - 1];
-    }
-    else
-    {
-      n = data.P2 - data.P1; n.normalize();
-      c1 = data.c1;
-      c2 = data.c2;
-    }
-
-    assert(c == d);
-
-    Vector3<S> n_transformed =
-        getBVAxis(model1->getBV(c1).bv, 0) * n[0] +
-        getBVAxis(model1->getBV(c1).bv, 1) * n[1] +
-        getBVAxis(model1->getBV(c1).bv, 2) * n[2];
-
-    TBVMotionBoundVisitor<BV> mb_visitor1(model1->getBV(c1).bv, n_transformed), mb_visitor2(model2->getBV(c2).bv, n_transformed);
-    S bound1 = motion1->computeMotionBound(mb_visitor1);
-    S bound2 = motion2->computeMotionBound(mb_visitor2);
-
-    S bound = bound1 + bound2;
-
-    S cur_delta_t;
-    if(bound <= c) cur_delta_t = 1;
-    else cur_delta_t = c / bound;
-
-    if(cur_delta_t < delta_t)
-      delta_t = cur_delta_t;
-
-    stack.pop_back();
-
-    return true;
-  }
-  else
-  {
-    const ConservativeAdvancementStackData<S>& data = stack.back();
-    S d = data.d;
-
-    if(d > c)
-      stack[stack.size() - 2] = stack[stack.size() - 1];
-
-    stack.pop_back();
-
-    return false;
-  }
-}
-
-//==============================================================================
-template <typename BV>
-bool meshConservativeAdvancementOrientedNodeCanStop(
-    typename BV::S c,
-    typename BV::S min_distance,
-    typename BV::S abs_err,
-    typename BV::S rel_err,
-    typename BV::S w,
-    const BVHModel<BV>* model1,
-    const BVHModel<BV>* model2,
-    const MotionBase<typename BV::S>* motion1,
-    const MotionBase<typename BV::S>* motion2,
-    std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-    typename BV::S& delta_t)
-{
-  using S = typename BV::S;
-
-  if((c >= w * (min_distance - abs_err)) && (c * (1 + rel_err) >= w * min_distance))
-  {
-    const ConservativeAdvancementStackData<S>& data = stack.back();
-    S d = data.d;
-    Vector3<S> n;
-    int c1, c2;
-
-    if(d > c)
-    {
-      const ConservativeAdvancementStackData<S>& data2 = stack[stack.size() - 2];
-      d = data2.d;
-      n = data2.P2 - data2.P1; n.normalize();
-      c1 = data2.c1;
-      c2 = data2.c2;
-      stack[stack.size() - 2] = stack[stack.size() - 1];
-    }
-    else
-    {
-      n = data.P2 - data.P1; n.normalize();
-      c1 = data.c1;
-      c2 = data.c2;
-    }
-
-    assert(c == d);
-
-    // n is in local frame of c1, so we need to turn n into the global frame
-    Vector3<S> n_transformed =
-      getBVAxis(model1->getBV(c1).bv, 0) * n[0] +
-      getBVAxis(model1->getBV(c1).bv, 1) * n[1] +
-      getBVAxis(model1->getBV(c1).bv, 2) * n[2];
-    Quaternion<S> R0;
-    motion1->getCurrentRotation(R0);
-    n_transformed = R0 * n_transformed;
-    n_transformed.normalize();
-
-    TBVMotionBoundVisitor<BV> mb_visitor1(model1->getBV(c1).bv, n_transformed), mb_visitor2(model2->getBV(c2).bv, -n_transformed);
-    S bound1 = motion1->computeMotionBound(mb_visitor1);
-    S bound2 = motion2->computeMotionBound(mb_visitor2);
-
-    S bound = bound1 + bound2;
-
-    S cur_delta_t;
-    if(bound <= c) cur_delta_t = 1;
-    else cur_delta_t = c / bound;
-
-    if(cur_delta_t < delta_t)
-      delta_t = cur_delta_t;
-
-    stack.pop_back();
-
-    return true;
-  }
-  else
-  {
-    const ConservativeAdvancementStackData<S>& data = stack.back();
-    S d = data.d;
-
-    if(d > c)
-      stack[stack.size() - 2] = stack[stack.size() - 1];
-
-    stack.pop_back();
-
-    return false;
-  }
+  stack.pop_back();
+
+  // A pair of bounding volumes at distance c can be left out if it is farther
+  // apart than the closest triangles found so far, and no triangles within could
+  // meet earlier than these.
+  return (c >= w * (min_distance - abs_err))
+      && (c * (1 + rel_err) >= w * min_distance)
+      && (c >= delta_t * speed);
 }
 
 //==============================================================================
@@ -737,9 +454,7 @@ void meshConservativeAdvancementOrientedNodeLeafTesting(
 
   S bound = bound1 + bound2;
 
-  S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
-  else cur_delta_t = d / bound;
+  S cur_delta_t = conservativeAdvancementTimeStep(d, bound);
 
   if(cur_delta_t < delta_t)
     delta_t = cur_delta_t;
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h
index be72620..1369bcc 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h
@@ -208,39 +208,19 @@ bool initialize(
     const Transform3<S>& tf2,
     S w = 1);
 
-template <typename S, typename BV>
-FCL_EXPORT
-const Vector3<S> getBVAxis(const BV& bv, int i);
-
-template <typename BV>
-FCL_EXPORT
-bool meshConservativeAdvancementTraversalNodeCanStop(
-    typename BV::S c,
-    typename BV::S min_distance,
-    typename BV::S abs_err,
-    typename BV::S rel_err,
-    typename BV::S w,
-    const BVHModel<BV>* model1,
-    const BVHModel<BV>* model2,
-    const MotionBase<typename BV::S>* motion1,
-    const MotionBase<typename BV::S>* motion2,
-    std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-    typename BV::S& delta_t);
-
-template <typename BV>
+/// @brief Whether a pair of bounding volumes at distance c can be left out of
+/// conservative advancement, given an upper bound of the closing speed
+template <typename S>
 FCL_EXPORT
-bool meshConservativeAdvancementOrientedNodeCanStop(
-    typename BV::S c,
-    typename BV::S min_distance,
-    typename BV::S abs_err,
-    typename BV::S rel_err,
-    typename BV::S w,
-    const BVHModel<BV>* model1,
-    const BVHModel<BV>* model2,
-    const MotionBase<typename BV::S>* motion1,
-    const MotionBase<typename BV::S>* motion2,
-    std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-    typename BV::S& delta_t);
+bool meshConservativeAdvancementNodeCanStop(
+    S c,
+    S min_distance,
+    S abs_err,
+    S rel_err,
+    S w,
+    S speed,
+    std::vector<ConservativeAdvancementStackData<S>>& stack,
+    S delta_t);
 
 template <typename BV>
 FCL_EXPORT
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
index 20ee58d..5b80479 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
@@ -41,6 +41,7 @@
 #include "fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h"
 
 #include "fcl/common/unused.h"
+#include "fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h"
 
 namespace fcl
 {
@@ -99,8 +100,10 @@ leafTesting(int b1, int b2) const
   const Vector3<S>& p3 = this->vertices[tri_id[2]];
 
   S d;
-  Vector3<S> P1, P2;
-  this->nsolver->shapeTriangleDistance(*(this->model2), this->tf2, p1, p2, p3, &d, &P2, &P1);
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
+  // the vertices are in the global frame already
+  this->nsolver->shapeTriangleDistance(*(this->model2), this->tf2, p1, p2, p3, Transform3<S>::Identity(), &d, &P2, &P1);
 
   if(d < this->min_distance)
   {
@@ -112,18 +115,19 @@ leafTesting(int b1, int b2) const
     last_tri_id = primitive_id;
   }
 
-  Vector3<S> n = this->tf2 * p2 - P1; n.normalize();
-  // here n should be in global frame
-  TriangleMotionBoundVisitor<S> mb_visitor1(p1, p2, p3, n);
-  TBVMotionBoundVisitor<BV> mb_visitor2(this->model2_bv, -n);
+  Vector3<S> n = P2 - P1; n.normalize();
+  // here n is in global frame, but the motion bounds are about volumes in the frame of the moving object
+  const Transform3<S> to_local = this->tf1.inverse(Eigen::Isometry);
+  TriangleMotionBoundVisitor<S> mb_visitor1(to_local * p1, to_local * p2, to_local * p3, n);
+  BV local_bv;
+  computeBV(*(this->model2), Transform3<S>::Identity(), local_bv);
+  TBVMotionBoundVisitor<BV> mb_visitor2(local_bv, -n);
   S bound1 = motion1->computeMotionBound(mb_visitor1);
   S bound2 = motion2->computeMotionBound(mb_visitor2);
 
   S bound = bound1 + bound2;
 
-  S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
-  else cur_delta_t = d / bound;
+  S cur_delta_t = conservativeAdvancementTimeStep(d, bound);
 
   if(cur_delta_t < delta_t)
     delta_t = cur_delta_t;
@@ -134,38 +138,17 @@ template <typename BV, typename Shape, typename NarrowPhaseSolver>
 bool MeshShapeConservativeAdvancementTraversalNode<BV, Shape, NarrowPhaseSolver>::
 canStop(S c) const
 {
-  if((c >= w * (this->min_distance - this->abs_err))
-     && (c * (1 + this->rel_err) >= w * this->min_distance))
-  {
-    const auto& data = stack.back();
-
-    Vector3<S> n = this->tf2 * data.P2 - data.P1; n.normalize();
-    int c1 = data.c1;
-
-    TBVMotionBoundVisitor<BV> mb_visitor1(this->model1->getBV(c1).bv, n);
-    TBVMotionBoundVisitor<BV> mb_visitor2(this->model2_bv, -n);
-    S bound1 = motion1->computeMotionBound(mb_visitor1);
-    S bound2 = motion2->computeMotionBound(mb_visitor2);
-
-    S bound = bound1 + bound2;
-
-    S cur_delta_t;
-    if(bound < c) cur_delta_t = 1;
-    else cur_delta_t = c / bound;
-
-    if(cur_delta_t < delta_t)
-      delta_t = cur_delta_t;
-
-    stack.pop_back();
-
-    return true;
-  }
-  else
-  {
-    stack.pop_back();
-
-    return false;
-  }
+  // the bounding volumes are in the global frame
+  return detail::meshConservativeAdvancementNodeCanStop(
+        c,
+        this->min_distance,
+        this->abs_err,
+        this->rel_err,
+        this->w,
+        conservativeAdvancementWorldSpeedBound(this->model1->getBV(0).bv, this->motion1)
+        + conservativeAdvancementWorldSpeedBound(this->model2_bv, this->motion2),
+        this->stack,
+        this->delta_t);
 }
 
 //==============================================================================
@@ -207,7 +190,7 @@ bool initialize(
   node.nsolver = nsolver;
   node.w = w;
 
-  computeBV(model2, Transform3<S>::Identity(), node.model2_bv);
+  computeBV(model2, tf2, node.model2_bv);
 
   return true;
 }
@@ -272,66 +255,12 @@ void meshShapeConservativeAdvancementOrientedNodeLeafTesting(
 
   S bound = bound1 + bound2;
 
-  S cur_delta_t;
-  if(bound <= distance) cur_delta_t = 1;
-  else cur_delta_t = distance / bound;
+  S cur_delta_t = conservativeAdvancementTimeStep(distance, bound);
 
   if(cur_delta_t < delta_t)
     delta_t = cur_delta_t;
 }
 
-//==============================================================================
-template <typename BV, typename Shape>
-bool meshShapeConservativeAdvancementOrientedNodeCanStop(
-    typename BV::S c,
-    typename BV::S min_distance,
-    typename BV::S abs_err,
-    typename BV::S rel_err,
-    typename BV::S w,
-    const BVHModel<BV>* model1,
-    const Shape& model2,
-    const BV& model2_bv,
-    const MotionBase<typename BV::S>* motion1,
-    const MotionBase<typename BV::S>* motion2,
-    std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-    typename BV::S& delta_t)
-{
-  FCL_UNUSED(model2);
-
-  using S = typename BV::S;
-
-  if((c >= w * (min_distance - abs_err)) && (c * (1 + rel_err) >= w * min_distance))
-  {
-    const auto& data = stack.back();
-    Vector3<S> n = data.P2 - data.P1; n.normalize();
-    int c1 = data.c1;
-
-    TBVMotionBoundVisitor<BV> mb_visitor1(model1->getBV(c1).bv, n);
-    TBVMotionBoundVisitor<BV> mb_visitor2(model2_bv, -n);
-
-    S bound1 = motion1->computeMotionBound(mb_visitor1);
-    S bound2 = motion2->computeMotionBound(mb_visitor2);
-
-    S bound = bound1 + bound2;
-
-    S cur_delta_t;
-    if(bound <= c) cur_delta_t = 1;
-    else cur_delta_t = c / bound;
-
-    if(cur_delta_t < delta_t)
-      delta_t = cur_delta_t;
-
-    stack.pop_back();
-
-    return true;
-  }
-  else
-  {
-    stack.pop_back();
-    return false;
-  }
-}
-
 //==============================================================================
 template <typename Shape, typename NarrowPhaseSolver>
 MeshShapeConservativeAdvancementTraversalNodeRSS<Shape, NarrowPhaseSolver>::
@@ -350,7 +279,8 @@ BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf1.linear(), this->tf1.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
+  const Transform3<S> tf = this->tf1.inverse(Eigen::Isometry) * this->tf2;
+  S d = distance(tf.linear(), tf.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
 
   this->stack.emplace_back(P1, P2, b1, b2, d);
 
@@ -391,17 +321,14 @@ bool
 MeshShapeConservativeAdvancementTraversalNodeRSS<Shape, NarrowPhaseSolver>::
 canStop(typename Shape::S c) const
 {
-  return detail::meshShapeConservativeAdvancementOrientedNodeCanStop(
+  return detail::meshConservativeAdvancementNodeCanStop(
         c,
         this->min_distance,
         this->abs_err,
         this->rel_err,
         this->w,
-        this->model1,
-        *(this->model2),
-        this->model2_bv,
-        this->motion1,
-        this->motion2,
+        conservativeAdvancementSpeedBound(this->model1->getBV(0).bv, this->motion1)
+        + conservativeAdvancementSpeedBound(this->model2_bv, this->motion2),
         this->stack,
         this->delta_t);
 }
@@ -425,6 +352,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model1.vertices;
+  node.tri_indices = model1.tri_indices;
+
   node.w = w;
 
   computeBV(model2, Transform3<S>::Identity(), node.model2_bv);
@@ -451,7 +381,8 @@ BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf1.linear(), this->tf1.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
+  const Transform3<S> tf = this->tf1.inverse(Eigen::Isometry) * this->tf2;
+  S d = distance(tf.linear(), tf.translation(), this->model1->getBV(b1).bv, this->model2_bv, &P1, &P2);
 
   this->stack.emplace_back(P1, P2, b1, b2, d);
 
@@ -492,17 +423,14 @@ bool
 MeshShapeConservativeAdvancementTraversalNodeOBBRSS<Shape, NarrowPhaseSolver>::
 canStop(typename Shape::S c) const
 {
-  return detail::meshShapeConservativeAdvancementOrientedNodeCanStop(
+  return detail::meshConservativeAdvancementNodeCanStop(
         c,
         this->min_distance,
         this->abs_err,
         this->rel_err,
         this->w,
-        this->model1,
-        *(this->model2),
-        this->model2_bv,
-        this->motion1,
-        this->motion2,
+        conservativeAdvancementSpeedBound(this->model1->getBV(0).bv, this->motion1)
+        + conservativeAdvancementSpeedBound(this->model2_bv, this->motion2),
         this->stack,
         this->delta_t);
 }
@@ -526,6 +454,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model1.vertices;
+  node.tri_indices = model1.tri_indices;
+
   node.w = w;
 
   computeBV(model2, Transform3<S>::Identity(), node.model2_bv);
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h
index a9f8d75..8b7c40c 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h
@@ -124,21 +124,6 @@ void meshShapeConservativeAdvancementOrientedNodeLeafTesting(
     typename BV::S& delta_t,
     int& num_leaf_tests);
 
-template <typename BV, typename Shape>
-bool meshShapeConservativeAdvancementOrientedNodeCanStop(
-    typename BV::S c,
-    typename BV::S min_distance,
-    typename BV::S abs_err,
-    typename BV::S rel_err,
-    typename BV::S w,
-    const BVHModel<BV>* model1,
-    const Shape& model2,
-    const BV& model2_bv,
-    const MotionBase<typename BV::S>* motion1,
-    const MotionBase<typename BV::S>* motion2,
-    std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-    typename BV::S& delta_t);
-
 template <typename Shape, typename NarrowPhaseSolver>
 class FCL_EXPORT MeshShapeConservativeAdvancementTraversalNodeRSS
     : public MeshShapeConservativeAdvancementTraversalNode<
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
index 45ae86f..97c2f6a 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
@@ -41,6 +41,7 @@
 #include "fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node.h"
 
 #include "fcl/common/unused.h"
+#include "fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h"
 
 namespace fcl
 {
@@ -98,8 +99,10 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
   const Vector3<S>& p3 = this->vertices[tri_id[2]];
 
   S d;
-  Vector3<S> P1, P2;
-  this->nsolver->shapeTriangleDistance(*(this->model1), this->tf1, p1, p2, p3, &d, &P1, &P2);
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
+  // the vertices are in the global frame already
+  this->nsolver->shapeTriangleDistance(*(this->model1), this->tf1, p1, p2, p3, Transform3<S>::Identity(), &d, &P1, &P2);
 
   if(d < this->min_distance)
   {
@@ -111,18 +114,19 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
     last_tri_id = primitive_id;
   }
 
-  Vector3<S> n = P2 - this->tf1 * p1; n.normalize();
-  // here n should be in global frame
-  TBVMotionBoundVisitor<BV> mb_visitor1(this->model1_bv, n);
-  TriangleMotionBoundVisitor<S> mb_visitor2(p1, p2, p3, -n);
+  Vector3<S> n = P2 - P1; n.normalize();
+  // here n is in global frame, but the motion bounds are about volumes in the frame of the moving object
+  BV local_bv;
+  computeBV(*(this->model1), Transform3<S>::Identity(), local_bv);
+  TBVMotionBoundVisitor<BV> mb_visitor1(local_bv, n);
+  const Transform3<S> to_local = this->tf2.inverse(Eigen::Isometry);
+  TriangleMotionBoundVisitor<S> mb_visitor2(to_local * p1, to_local * p2, to_local * p3, -n);
   S bound1 = motion1->computeMotionBound(mb_visitor1);
   S bound2 = motion2->computeMotionBound(mb_visitor2);
 
   S bound = bound1 + bound2;
 
-  S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
-  else cur_delta_t = d / bound;
+  S cur_delta_t = conservativeAdvancementTimeStep(d, bound);
 
   if(cur_delta_t < delta_t)
     delta_t = cur_delta_t;
@@ -133,37 +137,17 @@ template <typename Shape, typename BV, typename NarrowPhaseSolver>
 bool ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>::
 canStop(S c) const
 {
-  if((c >= w * (this->min_distance - this->abs_err)) && (c * (1 + this->rel_err) >= w * this->min_distance))
-  {
-    const auto& data = stack.back();
-
-    Vector3<S> n = data.P2 - this->tf1 * data.P1; n.normalize();
-    int c2 = data.c2;
-
-    TBVMotionBoundVisitor<BV> mb_visitor1(this->model1_bv, n);
-    TBVMotionBoundVisitor<BV> mb_visitor2(this->model2->getBV(c2).bv, -n);
-    S bound1 = motion1->computeMotionBound(mb_visitor1);
-    S bound2 = motion2->computeMotionBound(mb_visitor2);
-
-    S bound = bound1 + bound2;
-
-    S cur_delta_t;
-    if(bound < c) cur_delta_t = 1;
-    else cur_delta_t = c / bound;
-
-    if(cur_delta_t < delta_t)
-      delta_t = cur_delta_t;
-
-    stack.pop_back();
-
-    return true;
-  }
-  else
-  {
-    stack.pop_back();
-
-    return false;
-  }
+  // the bounding volumes are in the global frame
+  return detail::meshConservativeAdvancementNodeCanStop(
+        c,
+        this->min_distance,
+        this->abs_err,
+        this->rel_err,
+        this->w,
+        conservativeAdvancementWorldSpeedBound(this->model1_bv, this->motion1)
+        + conservativeAdvancementWorldSpeedBound(this->model2->getBV(0).bv, this->motion2),
+        this->stack,
+        this->delta_t);
 }
 
 //==============================================================================
@@ -205,7 +189,7 @@ bool initialize(
   node.nsolver = nsolver;
   node.w = w;
 
-  computeBV(model1, Transform3<S>::Identity(), node.model1_bv);
+  computeBV(model1, tf1, node.model1_bv);
 
   return true;
 }
@@ -231,7 +215,8 @@ BVTesting(int b1, int b2) const
 
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf2.linear(), this->tf2.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
+  const Transform3<S> tf = this->tf2.inverse(Eigen::Isometry) * this->tf1;
+  S d = distance(tf.linear(), tf.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
 
   this->stack.emplace_back(P1, P2, b1, b2, d);
 
@@ -270,17 +255,14 @@ template <typename Shape, typename NarrowPhaseSolver>
 bool ShapeMeshConservativeAdvancementTraversalNodeRSS<Shape, NarrowPhaseSolver>::
 canStop(typename Shape::S c) const
 {
-  return detail::meshShapeConservativeAdvancementOrientedNodeCanStop(
+  return detail::meshConservativeAdvancementNodeCanStop(
         c,
         this->min_distance,
         this->abs_err,
         this->rel_err,
         this->w,
-        this->model2,
-        *(this->model1),
-        this->model1_bv,
-        this->motion2,
-        this->motion1,
+        conservativeAdvancementSpeedBound(this->model1_bv, this->motion1)
+        + conservativeAdvancementSpeedBound(this->model2->getBV(0).bv, this->motion2),
         this->stack,
         this->delta_t);
 }
@@ -304,6 +286,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model2.vertices;
+  node.tri_indices = model2.tri_indices;
+
   node.w = w;
 
   computeBV(model1, Transform3<S>::Identity(), node.model1_bv);
@@ -331,7 +316,8 @@ BVTesting(int b1, int b2) const
 
   if(this->enable_statistics) this->num_bv_tests++;
   Vector3<S> P1, P2;
-  S d = distance(this->tf2.linear(), this->tf2.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
+  const Transform3<S> tf = this->tf2.inverse(Eigen::Isometry) * this->tf1;
+  S d = distance(tf.linear(), tf.translation(), this->model2->getBV(b2).bv, this->model1_bv, &P2, &P1);
 
   this->stack.emplace_back(P1, P2, b1, b2, d);
 
@@ -370,17 +356,14 @@ template <typename Shape, typename NarrowPhaseSolver>
 bool ShapeMeshConservativeAdvancementTraversalNodeOBBRSS<Shape, NarrowPhaseSolver>::
 canStop(typename Shape::S c) const
 {
-  return detail::meshShapeConservativeAdvancementOrientedNodeCanStop(
+  return detail::meshConservativeAdvancementNodeCanStop(
         c,
         this->min_distance,
         this->abs_err,
         this->rel_err,
         this->w,
-        this->model2,
-        *(this->model1),
-        this->model1_bv,
-        this->motion2,
-        this->motion1,
+        conservativeAdvancementSpeedBound(this->model1_bv, this->motion1)
+        + conservativeAdvancementSpeedBound(this->model2->getBV(0).bv, this->motion2),
         this->stack,
         this->delta_t);
 }
@@ -404,6 +387,9 @@ bool initialize(
   node.tf2 = tf2;
   node.nsolver = nsolver;
 
+  node.vertices = model2.vertices;
+  node.tri_indices = model2.tri_indices;
+
   node.w = w;
 
   computeBV(model1, Transform3<S>::Identity(), node.model1_bv);
-- 
2.43.0


From ecd5f34258801af56f5e205b0d8f692840d5f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 097/140] fix: compare the area of EPA faces with a squared
 tolerance

EPA compared twice the area of a candidate face with the tolerance, a length,
so that objects of a few millimetres had all their faces rejected as
degenerate and fell back to a penetration depth of zero.
---
 .../fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index c5186fa..465fc83 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -174,7 +174,7 @@ typename EPA<S>::SimplexF* EPA<S>::newFace(
     face->n.noalias() = (b->w - a->w).cross(c->w - a->w);
     S l = face->n.norm();
 
-    if(l > tolerance)
+    if(l > tolerance * tolerance) // l is twice the area of the face
     {
       if(!(getEdgeDist(face, a, b, face->d) ||
            getEdgeDist(face, b, c, face->d) ||
-- 
2.43.0


From a84c22e5e0de7638680230f2c6e63056dece484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 098/140] fix: pairs of half-spaces and planes: opposite
 normals, parallel planes, contacts

Two half-spaces (or a plane and a half-space) with opposite normals were
reported apart exactly when they overlap; parallel planes were only recognised
when the product of their normals is exactly 1; and no contact was reported, so
that collide() with contacts enabled called intersecting pairs free.
---
 .../narrowphase/detail/gjk_solver_indep-inl.h | 24 +-----
 .../detail/gjk_solver_libccd-inl.h            | 24 +-----
 .../primitive_shape_algorithm/halfspace-inl.h | 83 +++++++++++++++++--
 .../primitive_shape_algorithm/halfspace.h     | 21 +++++
 .../primitive_shape_algorithm/plane-inl.h     | 29 +++++--
 5 files changed, 128 insertions(+), 53 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index 25fbd91..3d8d40c 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -282,13 +282,7 @@ struct ShapeIntersectIndepImpl<S, Halfspace<S>, Halfspace<S>>
       const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    FCL_UNUSED(contacts);
-
-    Halfspace<S> s;
-    Vector3<S> p, d;
-    S depth;
-    int ret;
-    return detail::halfspaceIntersect(s1, tf1, s2, tf2, p, d, s, depth, ret);
+    return detail::halfspaceIntersect(s1, tf1, s2, tf2, contacts);
   }
 };
 
@@ -318,13 +312,7 @@ struct ShapeIntersectIndepImpl<S, Plane<S>, Halfspace<S>>
       const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    FCL_UNUSED(contacts);
-
-    Plane<S> pl;
-    Vector3<S> p, d;
-    S depth;
-    int ret;
-    return detail::planeHalfspaceIntersect(s1, tf1, s2, tf2, pl, p, d, depth, ret);
+    return detail::planeHalfspaceIntersect(s1, tf1, s2, tf2, contacts);
   }
 };
 
@@ -339,13 +327,7 @@ struct ShapeIntersectIndepImpl<S, Halfspace<S>, Plane<S>>
       const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    FCL_UNUSED(contacts);
-
-    Plane<S> pl;
-    Vector3<S> p, d;
-    S depth;
-    int ret;
-    return detail::halfspacePlaneIntersect(s1, tf1, s2, tf2, pl, p, d, depth, ret);
+    return detail::halfspacePlaneIntersect(s1, tf1, s2, tf2, contacts);
   }
 };
 
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 098fff8..639b4ce 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -278,13 +278,7 @@ struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Halfspace<S>>
       const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    FCL_UNUSED(contacts);
-
-    Halfspace<S> s;
-    Vector3<S> p, d;
-    S depth;
-    int ret;
-    return detail::halfspaceIntersect(s1, tf1, s2, tf2, p, d, s, depth, ret);
+    return detail::halfspaceIntersect(s1, tf1, s2, tf2, contacts);
   }
 };
 
@@ -314,13 +308,7 @@ struct ShapeIntersectLibccdImpl<S, Plane<S>, Halfspace<S>>
       const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    FCL_UNUSED(contacts);
-
-    Plane<S> pl;
-    Vector3<S> p, d;
-    S depth;
-    int ret;
-    return detail::planeHalfspaceIntersect(s1, tf1, s2, tf2, pl, p, d, depth, ret);
+    return detail::planeHalfspaceIntersect(s1, tf1, s2, tf2, contacts);
   }
 };
 
@@ -335,13 +323,7 @@ struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Plane<S>>
       const Transform3<S>& tf2,
       std::vector<ContactPoint<S>>* contacts)
   {
-    FCL_UNUSED(contacts);
-
-    Plane<S> pl;
-    Vector3<S> p, d;
-    S depth;
-    int ret;
-    return detail::halfspacePlaneIntersect(s1, tf1, s2, tf2, pl, p, d, depth, ret);
+    return detail::halfspacePlaneIntersect(s1, tf1, s2, tf2, contacts);
   }
 };
 
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 29cde8d..bc57e8c 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -639,7 +639,7 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
   {
     if((new_s1.n).dot(new_s2.n) > 0)
     {
-      if(new_s1.d < new_s2.d)
+      if(new_s1.d <= new_s2.d)
       {
         penetration_depth = new_s2.d - new_s1.d;
         ret = 1;
@@ -651,11 +651,11 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0)
+      if(new_s1.d + new_s2.d < 0)
         return false;
       else
       {
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         ret = 2;
         pl = new_s1;
         return true;
@@ -722,12 +722,12 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0) // not collision
+      if(new_s1.d + new_s2.d < 0) // not collision
         return false;
       else // in each other
       {
         ret = 3;
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         return true;
       }
     }
@@ -745,6 +745,79 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
   return true;
 }
 
+//==============================================================================
+template <typename S>
+bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
+                             const Halfspace<S>& s2, const Transform3<S>& tf2,
+                             std::vector<ContactPoint<S>>* contacts)
+{
+  Plane<S> pl;
+  Vector3<S> p, d;
+  S depth;
+  int ret;
+  if(!planeHalfspaceIntersect(s1, tf1, s2, tf2, pl, p, d, depth, ret))
+    return false;
+
+  if(contacts)
+  {
+    const Vector3<S> normal = -transform(s2, tf2).n; // pointing from s1 to s2
+    const Vector3<S> point = (ret == 3) ? p : (pl.n * pl.d).eval();
+    contacts->emplace_back(normal, point, depth);
+  }
+
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool halfspacePlaneIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
+                             const Plane<S>& s2, const Transform3<S>& tf2,
+                             std::vector<ContactPoint<S>>* contacts)
+{
+  const std::size_t first = contacts ? contacts->size() : 0;
+  const bool res = planeHalfspaceIntersect(s2, tf2, s1, tf1, contacts);
+
+  if(contacts)
+  {
+    for(std::size_t i = first; i < contacts->size(); ++i)
+      (*contacts)[i].normal = -(*contacts)[i].normal;
+  }
+
+  return res;
+}
+
+//==============================================================================
+template <typename S>
+bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
+                        const Halfspace<S>& s2, const Transform3<S>& tf2,
+                        std::vector<ContactPoint<S>>* contacts)
+{
+  Halfspace<S> s;
+  Vector3<S> p, d;
+  S depth;
+  int ret;
+  if(!halfspaceIntersect(s1, tf1, s2, tf2, p, d, s, depth, ret))
+    return false;
+
+  if(contacts)
+  {
+    const Vector3<S> normal = -transform(s2, tf2).n; // pointing from s1 to s2
+    Vector3<S> point;
+    if(ret == 4) // on the line of both boundaries
+      point = p;
+    else if(ret == 3) // in the middle of the slab
+    {
+      const Halfspace<S> new_s1 = transform(s1, tf1);
+      point = new_s1.n * (new_s1.d - depth * 0.5);
+    }
+    else // on the boundary of the inner halfspace
+      point = s.n * s.d;
+    contacts->emplace_back(normal, point, depth);
+  }
+
+  return true;
+}
+
 } // namespace detail
 } // namespace fcl
 
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace.h
index 62fda4c..618a93f 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace.h
@@ -212,6 +212,27 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
                         S& penetration_depth,
                         int& ret);
 
+/// @brief the same three tests, reporting a contact: the normal is the one of
+/// the halfspace (pointing from s1 to s2); the depth is infinite where no
+/// translation along it separates the two
+template <typename S>
+FCL_EXPORT
+bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
+                             const Halfspace<S>& s2, const Transform3<S>& tf2,
+                             std::vector<ContactPoint<S>>* contacts);
+
+template <typename S>
+FCL_EXPORT
+bool halfspacePlaneIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
+                             const Plane<S>& s2, const Transform3<S>& tf2,
+                             std::vector<ContactPoint<S>>* contacts);
+
+template <typename S>
+FCL_EXPORT
+bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
+                        const Halfspace<S>& s2, const Transform3<S>& tf2,
+                        std::vector<ContactPoint<S>>* contacts);
+
 } // namespace detail
 } // namespace fcl
 
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 4fa6390..8d68990 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -778,16 +778,33 @@ bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
 template <typename S>
 bool planeIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
                     const Plane<S>& s2, const Transform3<S>& tf2,
-                    std::vector<ContactPoint<S>>* /*contacts*/)
+                    std::vector<ContactPoint<S>>* contacts)
 {
   Plane<S> new_s1 = transform(s1, tf1);
   Plane<S> new_s2 = transform(s2, tf2);
 
-  S a = (new_s1.n).dot(new_s2.n);
-  if(a == 1 && new_s1.d != new_s2.d)
-    return false;
-  if(a == -1 && new_s1.d != -new_s2.d)
-    return false;
+  S depth = std::numeric_limits<S>::max();
+  Vector3<S> point;
+
+  const Vector3<S> dir = (new_s1.n).cross(new_s2.n);
+  const S dir_norm = dir.squaredNorm();
+  if(dir_norm < std::numeric_limits<S>::epsilon()) // parallel
+  {
+    const S d2 = (new_s1.n).dot(new_s2.n) > 0 ? new_s2.d : -new_s2.d;
+    if(new_s1.d != d2)
+      return false;
+
+    depth = 0;
+    point = new_s1.n * new_s1.d;
+  }
+  else
+  {
+    const Vector3<S> n = new_s2.n * new_s1.d - new_s1.n * new_s2.d;
+    point = n.cross(dir) * (1.0 / dir_norm);
+  }
+
+  if(contacts)
+    contacts->emplace_back(new_s1.n, point, depth);
 
   return true;
 }
-- 
2.43.0


From c1d96324b25e85a33da865c3f7635932ee4fa656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 099/140] fix: add the cost sources of octree-shape collisions

The overlap of an occupied or uncertain cell with the shape was computed but
never added to the result.
---
 .../fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 5c58877..f2532d3 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -419,6 +419,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -442,6 +443,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
       }
 
-- 
2.43.0


From 60a2a4685878f12f6789502ad0a90457ec0292c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 100/140] fix: cost sources of mesh-shape collisions

The uncertain case was also entered for occupied objects (a second narrow phase
test and a second, equal source), and for the oriented models it looked at
whether the shape is free the wrong way round.
---
 .../collision/mesh_shape_collision_traversal_node-inl.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index d24b467..4a92a45 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -112,7 +112,7 @@ void MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver>::leafTesting(
       this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
-  if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
+  else if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(*(this->model2), this->tf2, p1, p2, p3, nullptr, nullptr, nullptr))
     {
@@ -253,7 +253,7 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
-  else if((!model1->isFree() || model2.isFree()) && request.enable_cost)
+  else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(model2, tf2, p1, p2, p3, tf1, nullptr, nullptr, nullptr))
     {
-- 
2.43.0


From 1b6d6e2c9fa5d157de3dec68d8eb64dd1cce4ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 101/140] fix: shape collision without a cached guess does not
 turn the guess on

ShapeShapeCollide enabled the cached guess of the solver in both branches, so a
query without enable_cached_gjk_guess started from whatever an earlier query of
the same solver had left behind.
---
 include/fcl/narrowphase/detail/collision_func_matrix-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 2557d66..ee06885 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -298,7 +298,7 @@ std::size_t ShapeShapeCollide(
   }
   else
   {
-    nsolver->enableCachedGuess(true);
+    nsolver->enableCachedGuess(false);
   }
 
   initialize(node, *obj1, tf1, *obj2, tf2, nsolver, request, result);
-- 
2.43.0


From 78b543611dba8f73dcd171ebb3ca4298cc534449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:39 +0000
Subject: [PATCH 102/140] fix: keep cost sources that differ only in the far
 corner

The ordering of cost sources ignored aabb_max, so the set of sources dropped a
source with the same total, density and near corner as another.
---
 include/fcl/narrowphase/cost_source-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/cost_source-inl.h b/include/fcl/narrowphase/cost_source-inl.h
index abadfc9..a875f05 100644
--- a/include/fcl/narrowphase/cost_source-inl.h
+++ b/include/fcl/narrowphase/cost_source-inl.h
@@ -99,6 +99,10 @@ bool CostSource<S>::operator <(const CostSource& other) const
     if(aabb_min[i] != other.aabb_min[i])
       return aabb_min[i] < other.aabb_min[i];
 
+  for(size_t i = 0; i < 3; ++i)
+    if(aabb_max[i] != other.aabb_max[i])
+      return aabb_max[i] < other.aabb_max[i];
+
   return false;
 }
 
-- 
2.43.0


From eaf135f39d0a580066e49a06252dace8e8884356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 103/140] fix: no cost source where the boxes do not overlap

The boxes of two objects that just touch can miss each other by a rounding
error; the overlap is then never set and a source of an inverted, infinite box
was added.
---
 .../mesh_collision_traversal_node-inl.h       | 24 ++++++-------
 .../mesh_shape_collision_traversal_node-inl.h | 16 ++++-----
 .../shape_collision_traversal_node-inl.h      |  8 ++---
 .../shape_mesh_collision_traversal_node-inl.h |  8 ++---
 .../traversal/octree/octree_solver-inl.h      | 36 +++++++++----------
 5 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h
index 0a2731f..12961d9 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node-inl.h
@@ -184,8 +184,8 @@ void MeshCollisionTraversalNode<BV>::leafTesting(int b1, int b2) const
     if(is_intersect && this->request.enable_cost)
     {
       AABB<S> overlap_part;
-      AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
@@ -193,8 +193,8 @@ void MeshCollisionTraversalNode<BV>::leafTesting(int b1, int b2) const
     if(Intersect<S>::intersect_Triangle(p1, p2, p3, q1, q2, q3))
     {
       AABB<S> overlap_part;
-      AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(AABB<S>(q1, q2, q3), overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
@@ -604,8 +604,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(is_intersect && request.enable_cost)
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2->isFree()) && request.enable_cost)
@@ -613,8 +613,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(Intersect<S>::intersect_Triangle(p1, p2, p3, q1, q2, q3, R, T))
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
 }
@@ -697,8 +697,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(is_intersect && request.enable_cost)
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2->isFree()) && request.enable_cost)
@@ -706,8 +706,8 @@ void meshCollisionOrientedNodeLeafTesting(
     if(Intersect<S>::intersect_Triangle(p1, p2, p3, q1, q2, q3, tf))
     {
       AABB<S> overlap_part;
-      AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(AABB<S>(tf2 * q1, tf2 * q2, tf2 * q3), overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index 4a92a45..132b027 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -108,8 +108,8 @@ void MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model2), this->tf2, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
@@ -119,8 +119,8 @@ void MeshShapeCollisionTraversalNode<BV, Shape, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model2), this->tf2, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
@@ -249,8 +249,8 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(model2, tf2, shape_aabb);
-      /* bool res = */ AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
@@ -260,8 +260,8 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(model2, tf2, shape_aabb);
-      /* bool res = */ AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part);
-      result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
+      if(AABB<S>(tf1 * p1, tf1 * p2, tf1 * p3).overlap(shape_aabb, overlap_part))
+        result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
index 36a264d..deda18e 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
@@ -117,8 +117,8 @@ leafTesting(int, int) const
       computeBV(*model1, this->tf1, aabb1);
       computeBV(*model2, this->tf2, aabb2);
       AABB<S> overlap_part;
-      aabb1.overlap(aabb2, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(aabb1.overlap(aabb2, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!model1->isFree() && !model2->isFree()) && this->request.enable_cost)
@@ -129,8 +129,8 @@ leafTesting(int, int) const
       computeBV(*model1, this->tf1, aabb1);
       computeBV(*model2, this->tf2, aabb2);
       AABB<S> overlap_part;
-      aabb1.overlap(aabb2, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(aabb1.overlap(aabb2, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h
index d4fbdfb..091e182 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_mesh_collision_traversal_node-inl.h
@@ -112,8 +112,8 @@ void ShapeMeshCollisionTraversalNode<Shape, BV, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model1), this->tf1, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
   else if((!this->model1->isFree() && !this->model2->isFree()) && this->request.enable_cost)
@@ -123,8 +123,8 @@ void ShapeMeshCollisionTraversalNode<Shape, BV, NarrowPhaseSolver>::leafTesting(
       AABB<S> overlap_part;
       AABB<S> shape_aabb;
       computeBV(*(this->model1), this->tf1, shape_aabb);
-      AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part);
-      this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
+      if(AABB<S>(p1, p2, p3).overlap(shape_aabb, overlap_part))
+        this->result->addCostSource(CostSource<S>(overlap_part, cost_density), this->request.num_max_cost_sources);
     }
   }
 }
diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index f2532d3..cf0a125 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -355,8 +355,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
         AABB<S> aabb1, aabb2;
         computeBV(box, box_tf, aabb1);
         computeBV(s, tf2, aabb2);
-        aabb1.overlap(aabb2, overlap_part);
-        cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * s.cost_density), crequest->num_max_cost_sources);
+        if(aabb1.overlap(aabb2, overlap_part))
+          cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * s.cost_density), crequest->num_max_cost_sources);
       }
     }
 
@@ -418,8 +418,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           AABB<S> aabb1, aabb2;
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
-          aabb1.overlap(aabb2, overlap_part);
-          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -442,8 +442,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           AABB<S> aabb1, aabb2;
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
-          aabb1.overlap(aabb2, overlap_part);
-          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
       }
 
@@ -611,8 +611,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
           AABB<S> aabb1;
           computeBV(box, box_tf, aabb1);
           AABB<S> aabb2(tf2 * p1, tf2 * p2, tf2 * p3);
-          aabb1.overlap(aabb2, overlap_part);
-          cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->cost_density), crequest->num_max_cost_sources);
         }
       }
 
@@ -678,8 +678,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
           AABB<S> aabb1;
           computeBV(box, box_tf, aabb1);
           AABB<S> aabb2(tf2 * p1, tf2 * p2, tf2 * p3);
-          aabb1.overlap(aabb2, overlap_part);
-    cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -710,8 +710,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersectRecurse(const OcTree<S>
           AABB<S> aabb1;
           computeBV(box, box_tf, aabb1);
           AABB<S> aabb2(tf2 * p1, tf2 * p2, tf2 * p3);
-          aabb1.overlap(aabb2, overlap_part);
-    cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
+          if(aabb1.overlap(aabb2, overlap_part))
+            cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * tree2->cost_density), crequest->num_max_cost_sources);
         }
       }
 
@@ -880,8 +880,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
       AABB<S> aabb1, aabb2;
       computeBV(box1, box1_tf, aabb1);
       computeBV(box2, box2_tf, aabb2);
-      aabb1.overlap(aabb2, overlap_part);
-      cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->getOccupancyThres()), crequest->num_max_cost_sources);
+      if(aabb1.overlap(aabb2, overlap_part))
+        cresult->addCostSource(CostSource<S>(overlap_part, tree1->getOccupancyThres() * tree2->getOccupancyThres()), crequest->num_max_cost_sources);
     }
 
     return false;
@@ -1010,8 +1010,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
         AABB<S> aabb1, aabb2;
         computeBV(box1, box1_tf, aabb1);
         computeBV(box2, box2_tf, aabb2);
-        aabb1.overlap(aabb2, overlap_part);
-        cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
+        if(aabb1.overlap(aabb2, overlap_part))
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
       }
 
       return crequest->isSatisfied(*cresult);
@@ -1033,8 +1033,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
         AABB<S> aabb1, aabb2;
         computeBV(box1, box1_tf, aabb1);
         computeBV(box2, box2_tf, aabb2);
-        aabb1.overlap(aabb2, overlap_part);
-        cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
+        if(aabb1.overlap(aabb2, overlap_part))
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * root2->getOccupancy()), crequest->num_max_cost_sources);
       }
 
       return false;
-- 
2.43.0


From 178c489537260334e1415cc6c1becdcf3b7f99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 104/140] fix: judge the sides of a small tetrahedron without
 an absolute tolerance

---
 .../convexity_based_algorithm/gjk_libccd-inl.h   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index a783048..0ce3046 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -422,6 +422,10 @@ static bool isAbsValueLessThanEpsSquared(ccd_real_t val) {
                            std::numeric_limits<ccd_real_t>::epsilon();
 }
 
+// The sign of a value that may legitimately be tiny, like the volume spanned by
+// three short edges; unlike ccdSign() it has no absolute tolerance.
+static int exactSign(ccd_real_t val) { return (val > 0) - (val < 0); }
+
 // TODO(SeanCurtis-TRI): Define the return value:
 //   1: (like doSimplex2) --> origin is "in" the simplex.
 //   0:
@@ -562,15 +566,15 @@ static int doSimplex4(ccd_simplex_t *simplex, ccd_vec3_t *dir)
 
   // side (positive or negative) of B, C, D relative to planes ACD, ADB
   // and ABC respectively
-  B_on_ACD = ccdSign(ccdVec3Dot(&ACD, &AB));
-  C_on_ADB = ccdSign(ccdVec3Dot(&ADB, &AC));
-  D_on_ABC = ccdSign(ccdVec3Dot(&ABC, &AD));
+  B_on_ACD = exactSign(ccdVec3Dot(&ACD, &AB));
+  C_on_ADB = exactSign(ccdVec3Dot(&ADB, &AC));
+  D_on_ABC = exactSign(ccdVec3Dot(&ABC, &AD));
 
   // whether origin is on same side of ACD, ADB, ABC as B, C, D
   // respectively
-  AB_O = ccdSign(ccdVec3Dot(&ACD, &AO)) == B_on_ACD;
-  AC_O = ccdSign(ccdVec3Dot(&ADB, &AO)) == C_on_ADB;
-  AD_O = ccdSign(ccdVec3Dot(&ABC, &AO)) == D_on_ABC;
+  AB_O = exactSign(ccdVec3Dot(&ACD, &AO)) == B_on_ACD;
+  AC_O = exactSign(ccdVec3Dot(&ADB, &AO)) == C_on_ADB;
+  AD_O = exactSign(ccdVec3Dot(&ABC, &AO)) == D_on_ABC;
 
   if (AB_O && AC_O && AD_O){
     // origin is in tetrahedron
-- 
2.43.0


From 40eacc1f8cf45f24aedc442b9393c57cd4b374f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 105/140] fix: flip the contacts of half-space/plane pairs like
 the other reversed pairs

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h        | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index bc57e8c..2f24632 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -774,14 +774,10 @@ bool halfspacePlaneIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
                              const Plane<S>& s2, const Transform3<S>& tf2,
                              std::vector<ContactPoint<S>>* contacts)
 {
-  const std::size_t first = contacts ? contacts->size() : 0;
   const bool res = planeHalfspaceIntersect(s2, tf2, s1, tf1, contacts);
 
   if(contacts)
-  {
-    for(std::size_t i = first; i < contacts->size(); ++i)
-      (*contacts)[i].normal = -(*contacts)[i].normal;
-  }
+    flipNormal(*contacts);
 
   return res;
 }
-- 
2.43.0


From c4d3d5e614b332b4810e2112559a527530d133a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 106/140] fix: copies of a BVH model do not share the scratch
 state of its splitter and fitter

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 7f0a289..4e7db67 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -41,6 +41,8 @@
 #include "fcl/geometry/bvh/BVH_model.h"
 #include <new>
 #include <algorithm>
+#include <memory>
+#include <typeinfo>
 
 namespace fcl
 {
@@ -78,6 +80,22 @@ BVHModel<BV>::BVHModel() : vertices(nullptr),
   // Do nothing
 }
 
+namespace detail
+{
+
+/// @brief The object that does the same as other for another model; an object
+/// of a type derived by the user cannot be copied and is shared
+template <typename Base, typename Default>
+std::shared_ptr<Base> copyUnlessCustom(const std::shared_ptr<Base>& other)
+{
+  if(other && typeid(*other) == typeid(Default))
+    return std::make_shared<Default>(static_cast<const Default&>(*other));
+
+  return other;
+}
+
+} // namespace detail
+
 //==============================================================================
 template <typename BV>
 BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
@@ -85,8 +103,10 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     num_tris(other.num_tris),
     num_vertices(other.num_vertices),
     build_state(other.build_state),
-    bv_splitter(other.bv_splitter),
-    bv_fitter(other.bv_fitter),
+    // the model sets these up whenever it builds its hierarchy, hence a copy must
+    // not share them: queries copy models, possibly in several threads at once
+    bv_splitter(detail::copyUnlessCustom<detail::BVSplitterBase<BV>, detail::BVSplitter<BV>>(other.bv_splitter)),
+    bv_fitter(detail::copyUnlessCustom<detail::BVFitterBase<BV>, detail::BVFitter<BV>>(other.bv_fitter)),
     num_tris_allocated(other.num_tris_allocated),
     num_vertices_allocated(other.num_vertices_allocated),
     num_vertex_updated(other.num_vertex_updated)
-- 
2.43.0


From 9f16009b64966d13fd194a00ccb3c6e13a6ceca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 107/140] fix: initialise the guess of a collision result

---
 include/fcl/narrowphase/collision_result-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/narrowphase/collision_result-inl.h b/include/fcl/narrowphase/collision_result-inl.h
index c2bcac3..19598b8 100644
--- a/include/fcl/narrowphase/collision_result-inl.h
+++ b/include/fcl/narrowphase/collision_result-inl.h
@@ -50,6 +50,7 @@ struct CollisionResult<double>;
 //==============================================================================
 template <typename S>
 CollisionResult<S>::CollisionResult()
+  : cached_gjk_guess(Vector3<S>::UnitX())
 {
   // Do nothing
 }
-- 
2.43.0


From bcdb06d20e14f3cd41a89c4bed708a0b1432481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 108/140] fix: bound the iterations of EPA in the libccd solver

---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 0ce3046..ff24b3a 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1816,7 +1816,11 @@ static int __ccdEPA(const void *obj1, const void *obj2,
         return -2;
     }
 
-    while (1) {
+    // Where a whole smooth surface is equally near to the origin, as with
+    // concentric spheres, the polytope would have to approach all of it before
+    // the tolerance is reached. Hence, as with the distance, settle for the best
+    // answer after the allowed number of iterations.
+    for (unsigned long iter = 0; ; ++iter) {
       // get triangle nearest to origin
       *nearest = ccdPtNearest(polytope);
       if (polytope->nearest_type == CCD_PT_EDGE) {
@@ -1828,6 +1832,8 @@ static int __ccdEPA(const void *obj1, const void *obj2,
         *nearest = ccdPtNearest(polytope);
       }
 
+      if (iter >= ccd->max_iterations) break;
+
       // get next support point
       if (nextSupport(polytope, obj1, obj2, ccd, *nearest, &supp) != 0) {
         break;
-- 
2.43.0


From 0515e93fd7ad4c99cf2998112d186380a3ee798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 109/140] fix: sphere-capsule contact normal for a sphere
 centred nearly on the axis

---
 .../primitive_shape_algorithm/sphere_capsule-inl.h   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index 2de133b..293c903 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -38,6 +38,8 @@
 #ifndef FCL_NARROWPHASE_DETAIL_SPHERECAPSULE_INL_H
 #define FCL_NARROWPHASE_DETAIL_SPHERECAPSULE_INL_H
 
+#include <algorithm>
+
 #include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule.h"
 
 namespace fcl
@@ -92,13 +94,13 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
                             const Capsule<S>& s2, const Transform3<S>& tf2,
                             std::vector<ContactPoint<S>>* contacts)
 {
-  const Vector3<S> pos1(0., 0., 0.5 * s2.lz);
-  const Vector3<S> pos2(0., 0., -0.5 * s2.lz);
   const Vector3<S> s_c = tf2.inverse(Eigen::Isometry) * tf1.translation();
 
-  Vector3<S> segment_point;
-
-  lineSegmentPointClosestToPoint (s_c, pos1, pos2, segment_point);
+  // The point of the axis nearest to the sphere's center. Beside the segment the
+  // difference is orthogonal to the axis, however short it is.
+  const S half_length = 0.5 * s2.lz;
+  const Vector3<S> segment_point(
+      0, 0, std::max(-half_length, std::min(half_length, s_c[2])));
   Vector3<S> diff = s_c - segment_point;
 
   const S distance = diff.norm() - s1.radius - s2.radius;
-- 
2.43.0


From c5023454ca01b1cf058da2b84771b4e169bf1bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 110/140] fix: EPA from a segment through the origin took inner
 segments for touching contact

---
 .../gjk_libccd-inl.h                          | 172 +++++++-----------
 1 file changed, 66 insertions(+), 106 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index ff24b3a..23c6893 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -620,112 +620,6 @@ static int doSimplex(ccd_simplex_t *simplex, ccd_vec3_t *dir)
   }
 }
 
-/** Transforms simplex to polytope, two vertices required */
-static int simplexToPolytope2(const void *obj1, const void *obj2,
-                              const ccd_t *ccd,
-                              const ccd_simplex_t *simplex,
-                              ccd_pt_t *pt, ccd_pt_el_t **nearest)
-{
-    const ccd_support_t *a, *b;
-    ccd_vec3_t ab, ac, dir;
-    ccd_support_t supp[4];
-    ccd_pt_vertex_t *v[6];
-    ccd_pt_edge_t *e[12];
-    size_t i;
-    int found;
-
-    a = ccdSimplexPoint(simplex, 0);
-    b = ccdSimplexPoint(simplex, 1);
-
-    // This situation is a bit tricky. If only one segment comes from
-    // previous run of GJK - it means that either this segment is on
-    // minkowski edge (and thus we have touch contact) or it it isn't and
-    // therefore segment is somewhere *inside* minkowski sum and it *must*
-    // be possible to fully enclose this segment with polyhedron formed by
-    // at least 8 triangle faces.
-
-    // get first support point (any)
-    found = 0;
-    for (i = 0; i < ccd_points_on_sphere_len; i++){
-        __ccdSupport(obj1, obj2, &ccd_points_on_sphere[i], ccd, &supp[0]);
-        if (!ccdVec3Eq(&a->v, &supp[0].v) && !ccdVec3Eq(&b->v, &supp[0].v)){
-            found = 1;
-            break;
-        }
-    }
-    if (!found)
-        goto simplexToPolytope2_touching_contact;
-
-    // get second support point in opposite direction than supp[0]
-    ccdVec3Copy(&dir, &supp[0].v);
-    ccdVec3Scale(&dir, -CCD_ONE);
-    __ccdSupport(obj1, obj2, &dir, ccd, &supp[1]);
-    if (ccdVec3Eq(&a->v, &supp[1].v) || ccdVec3Eq(&b->v, &supp[1].v))
-        goto simplexToPolytope2_touching_contact;
-
-    // next will be in direction of normal of triangle a,supp[0],supp[1]
-    ccdVec3Sub2(&ab, &supp[0].v, &a->v);
-    ccdVec3Sub2(&ac, &supp[1].v, &a->v);
-    ccdVec3Cross(&dir, &ab, &ac);
-    __ccdSupport(obj1, obj2, &dir, ccd, &supp[2]);
-    if (ccdVec3Eq(&a->v, &supp[2].v) || ccdVec3Eq(&b->v, &supp[2].v))
-        goto simplexToPolytope2_touching_contact;
-
-    // and last one will be in opposite direction
-    ccdVec3Scale(&dir, -CCD_ONE);
-    __ccdSupport(obj1, obj2, &dir, ccd, &supp[3]);
-    if (ccdVec3Eq(&a->v, &supp[3].v) || ccdVec3Eq(&b->v, &supp[3].v))
-        goto simplexToPolytope2_touching_contact;
-
-    goto simplexToPolytope2_not_touching_contact;
-simplexToPolytope2_touching_contact:
-    v[0] = ccdPtAddVertex(pt, a);
-    v[1] = ccdPtAddVertex(pt, b);
-    *nearest = (ccd_pt_el_t *)ccdPtAddEdge(pt, v[0], v[1]);
-    if (*nearest == NULL)
-        return -2;
-
-    return -1;
-
-simplexToPolytope2_not_touching_contact:
-    // form polyhedron
-    v[0] = ccdPtAddVertex(pt, a);
-    v[1] = ccdPtAddVertex(pt, &supp[0]);
-    v[2] = ccdPtAddVertex(pt, b);
-    v[3] = ccdPtAddVertex(pt, &supp[1]);
-    v[4] = ccdPtAddVertex(pt, &supp[2]);
-    v[5] = ccdPtAddVertex(pt, &supp[3]);
-
-    e[0] = ccdPtAddEdge(pt, v[0], v[1]);
-    e[1] = ccdPtAddEdge(pt, v[1], v[2]);
-    e[2] = ccdPtAddEdge(pt, v[2], v[3]);
-    e[3] = ccdPtAddEdge(pt, v[3], v[0]);
-
-    e[4] = ccdPtAddEdge(pt, v[4], v[0]);
-    e[5] = ccdPtAddEdge(pt, v[4], v[1]);
-    e[6] = ccdPtAddEdge(pt, v[4], v[2]);
-    e[7] = ccdPtAddEdge(pt, v[4], v[3]);
-
-    e[8]  = ccdPtAddEdge(pt, v[5], v[0]);
-    e[9]  = ccdPtAddEdge(pt, v[5], v[1]);
-    e[10] = ccdPtAddEdge(pt, v[5], v[2]);
-    e[11] = ccdPtAddEdge(pt, v[5], v[3]);
-
-    if (ccdPtAddFace(pt, e[4], e[5], e[0]) == NULL
-            || ccdPtAddFace(pt, e[5], e[6], e[1]) == NULL
-            || ccdPtAddFace(pt, e[6], e[7], e[2]) == NULL
-            || ccdPtAddFace(pt, e[7], e[4], e[3]) == NULL
-
-            || ccdPtAddFace(pt, e[8],  e[9],  e[0]) == NULL
-            || ccdPtAddFace(pt, e[9],  e[10], e[1]) == NULL
-            || ccdPtAddFace(pt, e[10], e[11], e[2]) == NULL
-            || ccdPtAddFace(pt, e[11], e[8],  e[3]) == NULL){
-        return -2;
-    }
-
-    return 0;
-}
-
 #ifndef NDEBUG
 static bool isPolytopeEmpty(const ccd_pt_t& polytope) {
   ccd_pt_vertex_t* v = nullptr;
@@ -856,6 +750,72 @@ static int convert2SimplexToTetrahedron(const void* obj1, const void* obj2,
   }
 }
 
+/** Transforms a 1-simplex (line segment) to a polytope (tetrahedron), two
+ * vertices required. The origin lies on the segment. The segment is either on
+ * the boundary of the Minkowski difference obj1 ⊖ obj2, thus we have touching
+ * contact, or all around it there are further points of the difference.
+ * @see convert2SimplexToTetrahedron() for the parameters and the return value.
+ */
+static int simplexToPolytope2(const void *obj1, const void *obj2,
+                              const ccd_t *ccd,
+                              const ccd_simplex_t *simplex,
+                              ccd_pt_t *pt, ccd_pt_el_t **nearest)
+{
+  const ccd_support_t* a = ccdSimplexPoint(simplex, 0);
+  const ccd_support_t* b = ccdSimplexPoint(simplex, 1);
+
+  // Two directions orthogonal to the segment and to each other.
+  ccd_vec3_t ab, dir[4];
+  ccdVec3Sub2(&ab, &b->v, &a->v);
+  int smallest = 0;
+  for (int i = 1; i < 3; ++i) {
+    if (std::abs(ab.v[i]) < std::abs(ab.v[smallest])) smallest = i;
+  }
+  ccd_vec3_t axis{{0, 0, 0}};
+  axis.v[smallest] = 1;
+  ccdVec3Cross(&dir[0], &ab, &axis);
+  bool touching = ccdVec3Len2(&dir[0]) <= 0;
+  ccd_support_t c;
+  if (!touching) {
+    ccdVec3Cross(&dir[1], &ab, &dir[0]);
+    for (int i = 0; i < 2; ++i) {
+      ccdVec3Normalize(&dir[i]);
+      ccdVec3Copy(&dir[i + 2], &dir[i]);
+      ccdVec3Scale(&dir[i + 2], -CCD_ONE);
+    }
+
+    // Both vertices are at distance 0 along these directions. If nothing is
+    // farther, the segment is on the boundary; otherwise take the farthest.
+    ccd_real_t largest = -1;
+    for (int i = 0; i < 4 && !touching; ++i) {
+      ccd_support_t supp;
+      __ccdSupport(obj1, obj2, &dir[i], ccd, &supp);
+      const ccd_real_t dist = ccdVec3Dot(&supp.v, &dir[i]);
+      if (dist < ccd->epa_tolerance) touching = true;
+      if (dist > largest) {
+        largest = dist;
+        ccdSupportCopy(&c, &supp);
+      }
+    }
+  }
+
+  if (touching) {
+    ccd_pt_vertex_t* v0 = ccdPtAddVertex(pt, a);
+    ccd_pt_vertex_t* v1 = ccdPtAddVertex(pt, b);
+    *nearest = reinterpret_cast<ccd_pt_el_t*>(ccdPtAddEdge(pt, v0, v1));
+    if (*nearest == NULL) return -2;
+
+    return -1;
+  }
+
+  ccd_simplex_t triangle;
+  ccdSimplexInit(&triangle);
+  ccdSimplexAdd(&triangle, a);
+  ccdSimplexAdd(&triangle, b);
+  ccdSimplexAdd(&triangle, &c);
+  return convert2SimplexToTetrahedron(obj1, obj2, ccd, &triangle, pt, nearest);
+}
+
 /** Transforms simplex to polytope. It is assumed that simplex has 4
  *  vertices! */
 static int simplexToPolytope4(const void* obj1, const void* obj2,
-- 
2.43.0


From ea3a153f8f67208aa0b0edd0867e2ac12ffc5249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 111/140] fix: BVHModel::makeParentRelative() compiles

The recursion called its functor, which has no operator(), so that the
method could not be instantiated for any bounding volume; and it used the
RSS version for models of OBBRSS.
---
 include/fcl/geometry/bvh/BVH_model-inl.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 4e7db67..0b38e28 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -1064,10 +1064,10 @@ struct MakeParentRelativeRecurseImpl
     if(!model.bvs[bv_id].isLeaf())
     {
       MakeParentRelativeRecurseImpl<S, BV> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, parent_axis, model.bvs[bv_id].getCenter());
+      tmp1.run(model, model.bvs[bv_id].first_child, parent_axis, model.bvs[bv_id].getCenter());
 
       MakeParentRelativeRecurseImpl<S, BV> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, parent_axis, model.bvs[bv_id].getCenter());
+      tmp2.run(model, model.bvs[bv_id].first_child + 1, parent_axis, model.bvs[bv_id].getCenter());
     }
 
     model.bvs[bv_id].bv = translate(model.bvs[bv_id].bv, -parent_c);
@@ -1138,10 +1138,10 @@ struct MakeParentRelativeRecurseImpl<S, OBB<S>>
     if(!model.bvs[bv_id].isLeaf())
     {
       MakeParentRelativeRecurseImpl<S, OBB<S>> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
+      tmp1.run(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
 
       MakeParentRelativeRecurseImpl<S, OBB<S>> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
+      tmp2.run(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
     }
 
     // make self parent relative
@@ -1163,10 +1163,10 @@ struct MakeParentRelativeRecurseImpl<S, RSS<S>>
     if(!model.bvs[bv_id].isLeaf())
     {
       MakeParentRelativeRecurseImpl<S, RSS<S>> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, rss.axis, rss.To);
+      tmp1.run(model, model.bvs[bv_id].first_child, rss.axis, rss.To);
 
       MakeParentRelativeRecurseImpl<S, RSS<S>> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, rss.axis, rss.To);
+      tmp2.run(model, model.bvs[bv_id].first_child + 1, rss.axis, rss.To);
     }
 
     // make self parent relative
@@ -1188,11 +1188,11 @@ struct MakeParentRelativeRecurseImpl<S, OBBRSS<S>>
     RSS<S>& rss = model.bvs[bv_id].bv.rss;
     if(!model.bvs[bv_id].isLeaf())
     {
-      MakeParentRelativeRecurseImpl<S, RSS<S>> tmp1;
-      tmp1(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
+      MakeParentRelativeRecurseImpl<S, OBBRSS<S>> tmp1;
+      tmp1.run(model, model.bvs[bv_id].first_child, obb.axis, obb.To);
 
-      MakeParentRelativeRecurseImpl<S, RSS<S>> tmp2;
-      tmp2(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
+      MakeParentRelativeRecurseImpl<S, OBBRSS<S>> tmp2;
+      tmp2.run(model, model.bvs[bv_id].first_child + 1, obb.axis, obb.To);
     }
 
     // make self parent relative
-- 
2.43.0


From c0a092e07f7c73a9fd253f9e942b462bf37e2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 112/140] fix: collide2() of OBB trees relative to the parents
 composes the rotation

Going down the first tree, the rotation between the two nodes was
transposed (the rows of the original became columns), so that crossing
triangles were pruned.
---
 .../fcl/narrowphase/detail/traversal/traversal_recurse-inl.h  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index 1c46c1c..c0e9b71 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -161,7 +161,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv1 = node->model1->getBV(c1).bv;
 
-    Matrix3<S> Rc = R.transpose() * bv1.axis;
+    Matrix3<S> Rc = bv1.axis.transpose() * R;
     temp = T - bv1.To;
     Vector3<S> Tc = temp.transpose() * bv1.axis;
 
@@ -172,7 +172,7 @@ void collisionRecurse(MeshCollisionTraversalNodeOBB<S>* node, int b1, int b2, co
 
     const OBB<S>& bv2 = node->model1->getBV(c2).bv;
 
-    Rc.noalias() = R.transpose() * bv2.axis;
+    Rc.noalias() = bv2.axis.transpose() * R;
     temp = T - bv2.To;
     Tc[0] = bv2.axis.col(0).dot(temp);
     Tc[1] = bv2.axis.col(1).dot(temp);
-- 
2.43.0


From 6d0b0ce06a571913e56da46d660de3f003280d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 113/140] fix: a front list pass visits new leaf pairs once

Pairs found below an expanded front node were appended to the list being
walked, so that the same pass visited them again and reported their
contacts twice.
---
 .../narrowphase/detail/traversal/traversal_recurse-inl.h  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
index c0e9b71..647c334 100644
--- a/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h
@@ -489,16 +489,16 @@ void propagateBVHFrontListCollisionRecurse(CollisionTraversalNodeBase<S>* node,
           int c1 = node->getFirstLeftChild(b1);
           int c2 = node->getFirstRightChild(b1);
 
-          collisionRecurse(node, c1, b2, front_list);
-          collisionRecurse(node, c2, b2, front_list);
+          collisionRecurse(node, c1, b2, &append);
+          collisionRecurse(node, c2, b2, &append);
         }
         else
         {
           int c1 = node->getSecondLeftChild(b2);
           int c2 = node->getSecondRightChild(b2);
 
-          collisionRecurse(node, b1, c1, front_list);
-          collisionRecurse(node, b1, c2, front_list);
+          collisionRecurse(node, b1, c1, &append);
+          collisionRecurse(node, b1, c2, &append);
         }
       }
     }
-- 
2.43.0


From 65de700d784610e96dc1ec1b1e1523fadf0246e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 114/140] fix: distance between triangles with parallel edges

segPoints() returned a zero separating direction for segments parallel up
to rounding whose closest parameters are interior, and triDistance() then
took any such pair of edges for the closest features.
---
 .../primitive_shape_algorithm/triangle_distance-inl.h     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
index 33a1d4f..2a67f80 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
@@ -158,7 +158,13 @@ void TriangleDistance<S>::segPoints(const Vector3<S>& P, const Vector3<S>& A, co
     {
       X = P + A * t;
       VEC = A.cross(B);
-      if(VEC.dot(T) < 0)
+      if(VEC.squaredNorm() < 1e-14 * A_dot_A * B_dot_B)
+      {
+        // parallel segments: the cross product has no direction
+        TMP = T.cross(B);
+        VEC = B.cross(TMP);
+      }
+      else if(VEC.dot(T) < 0)
       {
         VEC = VEC * (-1);
       }
-- 
2.43.0


From 4885eb7b0b5e5b72812394859b370869c4fe561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 115/140] fix: PolySolver tells close roots apart

The discriminant was compared with 1e-9 whatever the scale of the roots, so
that three roots 0.1 apart were taken for a single and a double one.
---
 include/fcl/math/detail/polysolver-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/detail/polysolver-inl.h b/include/fcl/math/detail/polysolver-inl.h
index dd41683..cbd29de 100644
--- a/include/fcl/math/detail/polysolver-inl.h
+++ b/include/fcl/math/detail/polysolver-inl.h
@@ -78,7 +78,8 @@ int PolySolver<S>::solveQuadric(S c[3], S s[2])
   q = c[0] / c[2];
   D = p * p - q;
 
-  if(isZero(D))
+  // zero up to rounding, whatever the scale of the roots
+  if(std::abs(D) <= 1e-14 * (p * p + std::abs(q)))
   {
     // one S root
     s[0] = s[1] = -p;
@@ -125,9 +126,10 @@ int PolySolver<S>::solveCubic(S c[4], S s[3])
   cb_p = p * p * p;
   D = q * q + cb_p;
 
-  if(isZero(D))
+  // zero up to rounding, whatever the scale of the roots
+  if(std::abs(D) <= 1e-14 * (q * q + std::abs(cb_p)))
   {
-    if(isZero(q))
+    if(q == 0)
     {
       // one triple solution
       s[0] = 0.0;
-- 
2.43.0


From 1364ee87a782a890111459885578b962bd1735a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 116/140] fix: swept features: a Newton interval without a root
 is not a contact

The Newton step narrows the interval to where a root can be; an interval
narrowed below the resolution was accepted without one, so that features
still apart were reported in contact.
---
 .../narrowphase/detail/traversal/collision/intersect-inl.h  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index 8e8ff79..ac13d3e 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -124,6 +124,12 @@ bool Intersect<S>::solveCubicWithIntervalNewton(const Vector3<S>& a0, const Vect
   // sufficient temporal resolution, check root validity
   if((r-l)< getCcdResolution())
   {
+    // the Newton step says where a root can be, not that there is one
+    const S w[2] = {std::max(l - getCcdResolution(), (S)0), r + getCcdResolution()};
+    const S w2[2] = {w[0]*w[0], w[1]*w[1]};
+    if(coeffs[3]*w2[max3]*w[max3]+coeffs[2]*w2[max2]+coeffs[1]*w[max1]+coeffs[0] < 0) return false;
+    if(coeffs[3]*w2[min3]*w[min3]+coeffs[2]*w2[min2]+coeffs[1]*w[min1]+coeffs[0] > 0) return false;
+
     if(bVF)
       return checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r);
     else
-- 
2.43.0


From e1362dcf127c7dbc3b38f734b28b1fc854b04199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 117/140] fix: swept features: the first of several roots

Without Newton iteration the first valid root in the solver's order was
returned, not the earliest.
---
 .../narrowphase/detail/traversal/collision/intersect-inl.h  | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index ac13d3e..2fb72a7 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -438,11 +438,10 @@ bool Intersect<S>::intersect_VF(const Vector3<S>& a0, const Vector3<S>& b0, cons
     for(int i = 0; i < num; ++i)
     {
       S r = roots[i];
-      if(r < 0 || r > 1) continue;
+      if(r < 0 || r > 1 || r >= *collision_time) continue;
       if(checkRootValidity_VF(a0, b0, c0, p0, va, vb, vc, vp, r))
       {
         *collision_time = r;
-        break;
       }
     }
   }
@@ -504,12 +503,11 @@ bool Intersect<S>::intersect_EE(const Vector3<S>& a0, const Vector3<S>& b0, cons
     for(int i = 0; i < num; ++i)
     {
       S r = roots[i];
-      if(r < 0 || r > 1) continue;
+      if(r < 0 || r > 1 || r >= *collision_time) continue;
 
       if(checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r, p_i))
       {
         *collision_time = r;
-        break;
       }
     }
   }
-- 
2.43.0


From 181a5e56c1eb25d623f178ba538368340440f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 118/140] fix: the columns of Variance3::axis are the
 eigenvectors

---
 include/fcl/math/variance3-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/math/variance3-inl.h b/include/fcl/math/variance3-inl.h
index dea5340..8b535c6 100644
--- a/include/fcl/math/variance3-inl.h
+++ b/include/fcl/math/variance3-inl.h
@@ -65,7 +65,9 @@ Variance3<S>::Variance3(const Matrix3<S>& sigma) : Sigma(sigma)
 template <typename S>
 void Variance3<S>::init()
 {
+  // eigen_old() leaves the eigenvectors in the rows
   eigen_old(Sigma, sigma, axis);
+  axis.transposeInPlace();
 }
 
 //==============================================================================
-- 
2.43.0


From c57bba548630ecda33a63af164064fe0c1222fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 119/140] fix: SamplerSE2 samples between its bounds

---
 include/fcl/math/sampler/sampler_se2-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/sampler/sampler_se2-inl.h b/include/fcl/math/sampler/sampler_se2-inl.h
index aa3cb9a..1c20ea9 100644
--- a/include/fcl/math/sampler/sampler_se2-inl.h
+++ b/include/fcl/math/sampler/sampler_se2-inl.h
@@ -91,8 +91,8 @@ template <typename S>
 Vector3<S> SamplerSE2<S>::sample() const
 {
   Vector3<S> q;
-  q[0] = this->rng.uniformReal(lower_bound[0], lower_bound[1]);
-  q[1] = this->rng.uniformReal(lower_bound[1], lower_bound[2]);
+  q[0] = this->rng.uniformReal(lower_bound[0], upper_bound[0]);
+  q[1] = this->rng.uniformReal(lower_bound[1], upper_bound[1]);
   q[2] = this->rng.uniformReal(-constants<S>::pi(), constants<S>::pi());
 
   return q;
-- 
2.43.0


From 338e824486a95fe922b3990ebbc6f4ad72092359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 120/140] fix: SamplerSE3Quat returns all seven components

---
 include/fcl/math/sampler/sampler_se3_quat-inl.h | 4 ++--
 include/fcl/math/sampler/sampler_se3_quat.h     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/sampler/sampler_se3_quat-inl.h b/include/fcl/math/sampler/sampler_se3_quat-inl.h
index ed961ab..a54b3a0 100644
--- a/include/fcl/math/sampler/sampler_se3_quat-inl.h
+++ b/include/fcl/math/sampler/sampler_se3_quat-inl.h
@@ -81,9 +81,9 @@ void SamplerSE3Quat<S>::setBound(const Vector3<S>& lower_bound_, const Vector3<S
 
 //==============================================================================
 template <typename S>
-Vector6<S> SamplerSE3Quat<S>::sample() const
+Vector7<S> SamplerSE3Quat<S>::sample() const
 {
-  Vector6<S> q;
+  Vector7<S> q;
   q[0] = this->rng.uniformReal(lower_bound[0], upper_bound[0]);
   q[1] = this->rng.uniformReal(lower_bound[1], upper_bound[1]);
   q[2] = this->rng.uniformReal(lower_bound[2], upper_bound[2]);
diff --git a/include/fcl/math/sampler/sampler_se3_quat.h b/include/fcl/math/sampler/sampler_se3_quat.h
index 3c2ae98..e36d577 100644
--- a/include/fcl/math/sampler/sampler_se3_quat.h
+++ b/include/fcl/math/sampler/sampler_se3_quat.h
@@ -59,7 +59,7 @@ public:
   void getBound(Vector3<S>& lower_bound_,
                 Vector3<S>& upper_bound_) const;
 
-  Vector6<S> sample() const;
+  Vector7<S> sample() const;
 
 protected:
   Vector3<S> lower_bound;
-- 
2.43.0


From 142e73ef3606c34d76f6d4c06d0f81fea745c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 121/140] fix: the seeds of RNGs follow from the first seed

---
 src/math/detail/seed.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/detail/seed.cpp b/src/math/detail/seed.cpp
index fbcc444..85701f6 100644
--- a/src/math/detail/seed.cpp
+++ b/src/math/detail/seed.cpp
@@ -97,7 +97,7 @@ uint_fast32_t Seed::getNextSeed()
 {
   static std::mutex rngMutex;
   std::unique_lock<std::mutex> slock(rngMutex);
-  static std::ranlux24_base sGen;
+  static std::ranlux24_base sGen(getFirstSeed());
   static std::uniform_int_distribution<> sDist(1, 1000000000);
 
   return sDist(sGen);
-- 
2.43.0


From 3f5a05160af567a35240032bf63700e404401e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 122/140] fix: BVHExpand() expands the points of each node

---
 include/fcl/geometry/bvh/BVH_utility-inl.h | 35 ++++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_utility-inl.h b/include/fcl/geometry/bvh/BVH_utility-inl.h
index 2196ca4..65f05d7 100644
--- a/include/fcl/geometry/bvh/BVH_utility-inl.h
+++ b/include/fcl/geometry/bvh/BVH_utility-inl.h
@@ -55,11 +55,32 @@ extern template
 void BVHExpand(
     BVHModel<RSS<double>>& model, const Variance3<double>* ucs, double r);
 
+//==============================================================================
+namespace detail
+{
+
+/// @brief The primitives in the order in which the nodes refer to them
+template <typename BV>
+std::vector<int> orderedPrimitiveIds(const BVHModel<BV>& model)
+{
+  std::vector<int> ids(model.getNumBVs() > 0 ? model.getBV(0).num_primitives : 0);
+  for(int i = 0; i < model.getNumBVs(); ++i)
+  {
+    const BVNode<BV>& bvnode = model.getBV(i);
+    if(bvnode.isLeaf())
+      ids[bvnode.first_primitive] = bvnode.primitiveId();
+  }
+  return ids;
+}
+
+} // namespace detail
+
 //==============================================================================
 template <typename S, typename BV>
 FCL_EXPORT
 void BVHExpand(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
 {
+  const std::vector<int> ids = detail::orderedPrimitiveIds(model);
   for(int i = 0; i < model.num_bvs; ++i)
   {
     BVNode<BV>& bvnode = model.getBV(i);
@@ -67,10 +88,10 @@ void BVHExpand(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
     BV bv;
     for(int j = 0; j < bvnode.num_primitives; ++j)
     {
-      int v_id = bvnode.first_primitive + j;
+      int v_id = ids[bvnode.first_primitive + j];
       const Variance3<S>& uc = ucs[v_id];
 
-      Vector3<S>& v = model.vertices[bvnode.first_primitive + j];
+      Vector3<S>& v = model.vertices[v_id];
 
       for(int k = 0; k < 3; ++k)
       {
@@ -91,6 +112,7 @@ void BVHExpand(
     const Variance3<S>* ucs,
     S r)
 {
+  const std::vector<int> ids = detail::orderedPrimitiveIds(model);
   for(int i = 0; i < model.getNumBVs(); ++i)
   {
     BVNode<OBB<S>>& bvnode = model.getBV(i);
@@ -102,10 +124,10 @@ void BVHExpand(
 
     for(int j = 0; j < bvnode.num_primitives; ++j)
     {
-      int v_id = bvnode.first_primitive + j;
+      int v_id = ids[bvnode.first_primitive + j];
       const Variance3<S>& uc = ucs[v_id];
 
-      Vector3<S>&v = model.vertices[bvnode.first_primitive + j];
+      Vector3<S>&v = model.vertices[v_id];
 
       for(int k = 0; k < 3; ++k)
       {
@@ -135,6 +157,7 @@ void BVHExpand(
     const Variance3<S>* ucs,
     S r)
 {
+  const std::vector<int> ids = detail::orderedPrimitiveIds(model);
   for(int i = 0; i < model.getNumBVs(); ++i)
   {
     BVNode<RSS<S>>& bvnode = model.getBV(i);
@@ -146,10 +169,10 @@ void BVHExpand(
 
     for(int j = 0; j < bvnode.num_primitives; ++j)
     {
-      int v_id = bvnode.first_primitive + j;
+      int v_id = ids[bvnode.first_primitive + j];
       const Variance3<S>& uc = ucs[v_id];
 
-      Vector3<S>&v = model.vertices[bvnode.first_primitive + j];
+      Vector3<S>&v = model.vertices[v_id];
 
       for(int k = 0; k < 3; ++k)
       {
-- 
2.43.0


From 9714f0d2f0c1b46980b9223ac1a94f6cb5733dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 123/140] fix: BVHExpand() compiles for all bounding volumes

---
 include/fcl/geometry/bvh/BVH_utility-inl.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_utility-inl.h b/include/fcl/geometry/bvh/BVH_utility-inl.h
index 65f05d7..7fa150f 100644
--- a/include/fcl/geometry/bvh/BVH_utility-inl.h
+++ b/include/fcl/geometry/bvh/BVH_utility-inl.h
@@ -81,11 +81,11 @@ FCL_EXPORT
 void BVHExpand(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
 {
   const std::vector<int> ids = detail::orderedPrimitiveIds(model);
-  for(int i = 0; i < model.num_bvs; ++i)
+  for(int i = 0; i < model.getNumBVs(); ++i)
   {
     BVNode<BV>& bvnode = model.getBV(i);
 
-    BV bv;
+    std::vector<Vector3<S>> vs;
     for(int j = 0; j < bvnode.num_primitives; ++j)
     {
       int v_id = ids[bvnode.first_primitive + j];
@@ -95,11 +95,14 @@ void BVHExpand(BVHModel<BV>& model, const Variance3<S>* ucs, S r)
 
       for(int k = 0; k < 3; ++k)
       {
-        bv += (v + uc.axis.col(k) * (r * uc.sigma[k]));
-        bv += (v - uc.axis.col(k) * (r * uc.sigma[k]));
+        vs.push_back(v + uc.axis.col(k) * (r * uc.sigma[k]));
+        vs.push_back(v - uc.axis.col(k) * (r * uc.sigma[k]));
       }
     }
 
+    BV bv;
+    fit(vs.data(), static_cast<int>(vs.size()), bv);
+
     bvnode.bv = bv;
   }
 }
-- 
2.43.0


From 3453f69786033ce3da1d56b0fbab4432873bdc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 124/140] fix: keep the whole query cell id in contacts and
 distance results

---
 include/fcl/narrowphase/contact-inl.h         | 8 ++++----
 include/fcl/narrowphase/contact.h             | 4 ++--
 include/fcl/narrowphase/distance_result-inl.h | 8 ++++----
 include/fcl/narrowphase/distance_result.h     | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fcl/narrowphase/contact-inl.h b/include/fcl/narrowphase/contact-inl.h
index 88d26e5..e0b93dc 100644
--- a/include/fcl/narrowphase/contact-inl.h
+++ b/include/fcl/narrowphase/contact-inl.h
@@ -63,8 +63,8 @@ template <typename S>
 Contact<S>::Contact(
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_)
+    intptr_t b1_,
+    intptr_t b2_)
   : o1(o1_),
     o2(o2_),
     b1(b1_),
@@ -78,8 +78,8 @@ template <typename S>
 Contact<S>::Contact(
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_,
+    intptr_t b1_,
+    intptr_t b2_,
     const Vector3<S>& pos_,
     const Vector3<S>& normal_,
     S depth_)
diff --git a/include/fcl/narrowphase/contact.h b/include/fcl/narrowphase/contact.h
index eaa9b2f..6d750b5 100644
--- a/include/fcl/narrowphase/contact.h
+++ b/include/fcl/narrowphase/contact.h
@@ -82,9 +82,9 @@ struct FCL_EXPORT Contact
 
   Contact();
 
-  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_);
+  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_);
 
-  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_,
+  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_,
           const Vector3<S>& pos_, const Vector3<S>& normal_, S depth_);
 
   bool operator < (const Contact& other) const;
diff --git a/include/fcl/narrowphase/distance_result-inl.h b/include/fcl/narrowphase/distance_result-inl.h
index 424cffd..76c3230 100644
--- a/include/fcl/narrowphase/distance_result-inl.h
+++ b/include/fcl/narrowphase/distance_result-inl.h
@@ -67,8 +67,8 @@ void DistanceResult<S>::update(
     S distance,
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_)
+    intptr_t b1_,
+    intptr_t b2_)
 {
   if(min_distance > distance)
   {
@@ -87,8 +87,8 @@ void DistanceResult<S>::update(
     S distance,
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_,
+    intptr_t b1_,
+    intptr_t b2_,
     const Vector3<S>& p1,
     const Vector3<S>& p2)
 {
diff --git a/include/fcl/narrowphase/distance_result.h b/include/fcl/narrowphase/distance_result.h
index 97373a3..9f2c0b4 100644
--- a/include/fcl/narrowphase/distance_result.h
+++ b/include/fcl/narrowphase/distance_result.h
@@ -94,10 +94,10 @@ public:
   DistanceResult(S min_distance_ = std::numeric_limits<S>::max());
 
   /// @brief add distance information into the result
-  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_);
+  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_);
 
   /// @brief add distance information into the result
-  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_, const Vector3<S>& p1, const Vector3<S>& p2);
+  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_, const Vector3<S>& p1, const Vector3<S>& p2);
 
   /// @brief add distance information into the result
   void update(const DistanceResult& other_result);
-- 
2.43.0


From 32b7327c5a006c101643e1aae8f162fa32e5e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:08 +0000
Subject: [PATCH 125/140] fix: start objects with no user data

---
 include/fcl/narrowphase/collision_object-inl.h            | 8 +++++---
 include/fcl/narrowphase/continuous_collision_object-inl.h | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/collision_object-inl.h b/include/fcl/narrowphase/collision_object-inl.h
index 0c50e52..01a367d 100644
--- a/include/fcl/narrowphase/collision_object-inl.h
+++ b/include/fcl/narrowphase/collision_object-inl.h
@@ -51,7 +51,8 @@ class FCL_EXPORT CollisionObject<double>;
 template <typename S>
 CollisionObject<S>::CollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_)
-  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity())
+  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity()),
+    user_data(nullptr)
 {
   if (cgeom)
   {
@@ -65,7 +66,7 @@ template <typename S>
 CollisionObject<S>::CollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_,
     const Transform3<S>& tf)
-  : cgeom(cgeom_), cgeom_const(cgeom_), t(tf)
+  : cgeom(cgeom_), cgeom_const(cgeom_), t(tf), user_data(nullptr)
 {
   cgeom->computeLocalAABB();
   computeAABB();
@@ -77,7 +78,8 @@ CollisionObject<S>::CollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_,
     const Matrix3<S>& R,
     const Vector3<S>& T)
-  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity())
+  : cgeom(cgeom_), cgeom_const(cgeom_), t(Transform3<S>::Identity()),
+    user_data(nullptr)
 {
   t.linear() = R;
   t.translation() = T;
diff --git a/include/fcl/narrowphase/continuous_collision_object-inl.h b/include/fcl/narrowphase/continuous_collision_object-inl.h
index e8008e9..9206b85 100644
--- a/include/fcl/narrowphase/continuous_collision_object-inl.h
+++ b/include/fcl/narrowphase/continuous_collision_object-inl.h
@@ -51,7 +51,7 @@ class FCL_EXPORT ContinuousCollisionObject<double>;
 template <typename S>
 ContinuousCollisionObject<S>::ContinuousCollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_)
-  : cgeom(cgeom_), cgeom_const(cgeom_)
+  : cgeom(cgeom_), cgeom_const(cgeom_), user_data(nullptr)
 {
   // Do nothing
 }
@@ -61,7 +61,7 @@ template <typename S>
 ContinuousCollisionObject<S>::ContinuousCollisionObject(
     const std::shared_ptr<CollisionGeometry<S>>& cgeom_,
     const std::shared_ptr<MotionBase<S>>& motion_)
-  : cgeom(cgeom_), cgeom_const(cgeom), motion(motion_)
+  : cgeom(cgeom_), cgeom_const(cgeom), motion(motion_), user_data(nullptr)
 {
   // Do nothing
 }
-- 
2.43.0


From 67aef8aa0fcecbc574c41f5320fc1150af92ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 126/140] fix: support vertices of ellipsoids with a zero
 radius

Along a direction in which the ellipsoid has no extent both solvers divided
zero by zero.
---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h        | 5 ++++-
 .../detail/convexity_based_algorithm/minkowski_diff-inl.h    | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 23c6893..4adf0d8 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -2495,7 +2495,10 @@ static inline void supportEllipsoid(const void* obj, const ccd_vec3_t* dir_,
   v->v[1] = abc2.v[1] * dir.v[1];
   v->v[2] = abc2.v[2] * dir.v[2];
 
-  ccdVec3Scale(v, CCD_ONE / CCD_SQRT(ccdVec3Dot(v, &dir)));
+  // A flat ellipsoid seen along a direction in which it has no extent: its
+  // center (v is zero then) is a support vertex.
+  const ccd_real_t d = CCD_SQRT(ccdVec3Dot(v, &dir));
+  if (d > 0) ccdVec3Scale(v, CCD_ONE / d);
 
   // transform support vertex
   ccdQuatRotVec(v, &s->rot);
diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff-inl.h
index 9f1309e..1110a09 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/minkowski_diff-inl.h
@@ -123,6 +123,10 @@ Vector3<S> getSupport(
       const Vector3<S> v(a2 * dir[0], b2 * dir[1], c2 * dir[2]);
       const S d = std::sqrt(v.dot(dir));
 
+      // A flat ellipsoid seen along a direction in which it has no extent: its
+      // center is a support vertex.
+      if(!(d > 0)) return Vector3<S>::Zero();
+
       return v / d;
     }
     break;
-- 
2.43.0


From 851cb4b03962dc15413bbbcf4b73568239475619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 127/140] fix: contact position of two spheres without radius

---
 .../detail/primitive_shape_algorithm/sphere_sphere-inl.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_sphere-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_sphere-inl.h
index d12671c..0240123 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_sphere-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_sphere-inl.h
@@ -77,7 +77,9 @@ bool sphereSphereIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
     // If the centers of two sphere are at the same position, the normal is (0, 0, 0).
     // Otherwise, normal is pointing from center of object 1 to center of object 2
     const Vector3<S> normal = len > 0 ? (diff / len).eval() : diff;
-    const Vector3<S> point = tf1.translation() + diff * s1.radius / (s1.radius + s2.radius);
+    // Two spheres without radius touch only where their centers coincide.
+    const S radii = s1.radius + s2.radius;
+    const Vector3<S> point = radii > 0 ? (tf1.translation() + diff * s1.radius / radii).eval() : Vector3<S>(tf1.translation());
     const S penetration_depth = s1.radius + s2.radius - len;
     contacts->emplace_back(normal, point, penetration_depth);
   }
-- 
2.43.0


From 69754cf096533ebc7d7cf23fca19daed3cd13db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 128/140] fix: spheres against triangles without area

A triangle with coincident or collinear vertices has no normal. Every sphere
whose bounds met it was reported in contact, at distance -1, with contact
positions on the sphere's center. Such a triangle is now the union of its
edges.
---
 include/fcl/math/geometry-inl.h               | 12 ++++
 include/fcl/math/geometry.h                   |  6 ++
 .../sphere_triangle-inl.h                     | 55 ++++++++++++++++++-
 3 files changed, 71 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/geometry-inl.h b/include/fcl/math/geometry-inl.h
index d77a4fb..5365410 100644
--- a/include/fcl/math/geometry-inl.h
+++ b/include/fcl/math/geometry-inl.h
@@ -425,6 +425,18 @@ void normalize(Vector3<S>& v, bool* signal)
   }
 }
 
+//==============================================================================
+template <typename S>
+FCL_EXPORT
+bool isDegenerateTriangle(const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3)
+{
+  const Vector3<S> edge1 = P2 - P1;
+  const Vector3<S> edge2 = P3 - P1;
+  const S length = std::sqrt(std::max(edge1.squaredNorm(), std::max(edge2.squaredNorm(), (P3 - P2).squaredNorm())));
+  const S magnitude = std::max(P1.cwiseAbs().maxCoeff(), std::max(P2.cwiseAbs().maxCoeff(), P3.cwiseAbs().maxCoeff()));
+  return edge1.cross(edge2).norm() <= 16 * std::numeric_limits<S>::epsilon() * length * (length + magnitude);
+}
+
 //==============================================================================
 template <typename Derived>
 FCL_EXPORT
diff --git a/include/fcl/math/geometry.h b/include/fcl/math/geometry.h
index 90c2a5a..725000a 100644
--- a/include/fcl/math/geometry.h
+++ b/include/fcl/math/geometry.h
@@ -52,6 +52,12 @@ template <typename S>
 FCL_EXPORT
 void normalize(Vector3<S>& v, bool* signal);
 
+/// @brief Whether a triangle has no area beyond rounding error: it is a line
+/// segment or a point then, and its normal is meaningless.
+template <typename S>
+FCL_EXPORT
+bool isDegenerateTriangle(const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3);
+
 template <typename Derived>
 FCL_EXPORT
 typename Derived::RealScalar triple(const Eigen::MatrixBase<Derived>& x,
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index f8d190c..dcaeac9 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -41,6 +41,7 @@
 #include "fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle.h"
 
 #include "fcl/math/detail/project.h"
+#include "fcl/math/geometry.h"
 
 namespace fcl
 {
@@ -134,6 +135,28 @@ bool projectInTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3
   return false;
 }
 
+//==============================================================================
+// The point of the edges of a triangle nearest to p; returns its squared distance.
+template <typename S>
+S triangleEdgesSqrDistance(const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Vector3<S>& p, Vector3<S>& nearest)
+{
+  S min_distance_sqr = segmentSqrDistance(P1, P2, p, nearest);
+  Vector3<S> nearest_on_edge;
+  S distance_sqr = segmentSqrDistance(P2, P3, p, nearest_on_edge);
+  if(distance_sqr < min_distance_sqr)
+  {
+    min_distance_sqr = distance_sqr;
+    nearest = nearest_on_edge;
+  }
+  distance_sqr = segmentSqrDistance(P3, P1, p, nearest_on_edge);
+  if(distance_sqr < min_distance_sqr)
+  {
+    min_distance_sqr = distance_sqr;
+    nearest = nearest_on_edge;
+  }
+  return min_distance_sqr;
+}
+
 //==============================================================================
 template <typename S>
 bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
@@ -153,14 +176,15 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
     normal *= -1;
   }
 
-  bool is_inside_contact_plane = (distance_from_plane < radius_with_threshold);
+  const bool is_degenerate = isDegenerateTriangle(P1, P2, P3);
+  bool is_inside_contact_plane = is_degenerate || (distance_from_plane < radius_with_threshold);
 
   bool has_contact = false;
   bool is_face_contact = false;
   Vector3<S> contact_point;
   if(is_inside_contact_plane)
   {
-    if(projectInTriangle(P1, P2, P3, normal, center))
+    if(!is_degenerate && projectInTriangle(P1, P2, P3, normal, center))
     {
       has_contact = true;
       is_face_contact = true;
@@ -226,6 +250,27 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
   return false;
 }
 
+//==============================================================================
+template <typename S>
+bool degenerateTriangleSphereDistance(const Sphere<S>& sp, const Transform3<S>& tf,
+                                      const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3,
+                                      S* dist, Vector3<S>* p1, Vector3<S>* p2)
+{
+  const Vector3<S> center = tf.translation();
+  Vector3<S> nearest;
+  const S sqr_dist = triangleEdgesSqrDistance(P1, P2, P3, center, nearest);
+  if(sqr_dist > sp.radius * sp.radius)
+  {
+    if(dist) *dist = std::sqrt(sqr_dist) - sp.radius;
+    if(p1) *p1 = center + (nearest - center).normalized() * sp.radius;
+    if(p2) *p2 = nearest;
+    return true;
+  }
+
+  if(dist) *dist = -1;
+  return false;
+}
+
 //==============================================================================
 template <typename S>
 bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
@@ -234,6 +279,9 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
 {
   // from geometric tools, very different from the collision code.
 
+  if(isDegenerateTriangle(P1, P2, P3))
+    return degenerateTriangleSphereDistance(sp, tf, P1, P2, P3, dist, (Vector3<S>*)nullptr, (Vector3<S>*)nullptr);
+
   const Vector3<S>& center = tf.translation();
   S radius = sp.radius;
   Vector3<S> diff = P1 - center;
@@ -477,6 +525,9 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
 {
   if(p1 || p2)
   {
+    if(isDegenerateTriangle(P1, P2, P3))
+      return degenerateTriangleSphereDistance(sp, tf, P1, P2, P3, dist, p1, p2);
+
     Vector3<S> o = tf.translation();
     typename Project<S>::ProjectResult result;
     result = Project<S>::projectTriangle(P1, P2, P3, o);
-- 
2.43.0


From cc399ebfec42d929a37d429617265f2957113090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 129/140] fix: intersections of triangles without area

A segment or point that a mesh calls a triangle has no normal: the separating
axes were incomplete, so that such triangles were reported in contact with
triangles apart from them, and contacts were described by uninitialized
normals and depths.
---
 .../traversal/collision/intersect-inl.h       | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index 2fb72a7..a40b572 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -40,6 +40,8 @@
 
 #include "fcl/narrowphase/detail/traversal/collision/intersect.h"
 
+#include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
+
 namespace fcl
 {
 
@@ -805,6 +807,33 @@ bool Intersect<S>::intersect_Triangle(
   Vector3<S> h3 = f3.cross(m1);
   if (!project6(h3, p1, p2, p3, q1, q2, q3)) return false;
 
+  // A triangle without area has no normal, so the axes above need not include a
+  // separating one. Then the difference of the nearest points is one.
+  const bool degenerate1 = isDegenerateTriangle(P1, P2, P3);
+  const bool degenerate2 = isDegenerateTriangle(Q1, Q2, Q3);
+  if(degenerate1 || degenerate2)
+  {
+    Vector3<S> nearest1, nearest2;
+    TriangleDistance<S>::triDistance(p1, p2, p3, q1, q2, q3, nearest1, nearest2);
+    if (!project6(Vector3<S>(nearest2 - nearest1), p1, p2, p3, q1, q2, q3)) return false;
+
+    if(degenerate1 && degenerate2 && contact_points && num_contact_points && penetration_depth && normal)
+    {
+      // Two segments or points touch: any direction that both are perpendicular
+      // to will do.
+      const Vector3<S>& e = (e1.squaredNorm() > e2.squaredNorm()) ? e1 : (e2.squaredNorm() > e3.squaredNorm() ? e2 : e3);
+      const Vector3<S>& f = (f1.squaredNorm() > f2.squaredNorm()) ? f1 : (f2.squaredNorm() > f3.squaredNorm() ? f2 : f3);
+      Vector3<S> n = e.cross(f);
+      if(!(n.squaredNorm() > 0)) n = e.unitOrthogonal();
+      if(!n.allFinite() || !(n.squaredNorm() > 0)) n = Vector3<S>::UnitX();
+      contact_points[0] = P1 + nearest1;
+      *num_contact_points = 1;
+      *penetration_depth = 0;
+      *normal = n.normalized();
+      return true;
+    }
+  }
+
   if(contact_points && num_contact_points && penetration_depth && normal)
   {
     Vector3<S> n1, n2;
@@ -821,11 +850,11 @@ bool Intersect<S>::intersect_Triangle(
     Vector3<S> P[3] = {P1, P2, P3};
     Vector3<S> Q[3] = {Q1, Q2, Q3};
 
-    computeDeepestPoints(Q, 3, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
-    computeDeepestPoints(P, 3, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
+    if(!degenerate1) computeDeepestPoints(Q, 3, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
+    if(!degenerate2) computeDeepestPoints(P, 3, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
 
-
-    if(penetration_depth1 > penetration_depth2)
+    // only a triangle with a normal can tell the other one's depth
+    if(degenerate2 || (!degenerate1 && penetration_depth1 > penetration_depth2))
     {
       *num_contact_points = std::min(num_deepest_points2, (unsigned int)2);
       for(unsigned int i = 0; i < *num_contact_points; ++i)
-- 
2.43.0


From e3b8d032cbe6dbe75523ae358d73a01873457de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:00 +0000
Subject: [PATCH 130/140] fix: contacts of flat ellipsoids with planes and
 half-spaces

An ellipsoid without extent along the normal divided zero by zero and
reported a contact position that is not a number.
---
 .../detail/primitive_shape_algorithm/halfspace-inl.h   | 10 ++++++++--
 .../detail/primitive_shape_algorithm/plane-inl.h       | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 2f24632..e0929c8 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -205,8 +205,14 @@ bool ellipsoidHalfspaceIntersect(const Ellipsoid<S>& s1, const Transform3<S>& tf
     {
       // Transform the results to the world coordinates.
       const Vector3<S> normal = tf1.linear() * -new_s2.n; // pointing from s1 to s2
-      const Vector3<S> support_vector = (1.0/center_to_contact_plane) * Vector3<S>(radii2[0]*new_s2.n[0], radii2[1]*new_s2.n[1], radii2[2]*new_s2.n[2]);
-      const Vector3<S> point_in_halfspace_coords = support_vector * (0.5 * depth / new_s2.n.dot(support_vector) - 1.0);
+      // A flat ellipsoid that is parallel to the halfspace's boundary has no
+      // extent along the normal: its center is used as the contact position.
+      Vector3<S> point_in_halfspace_coords = Vector3<S>::Zero();
+      if (center_to_contact_plane > 0)
+      {
+        const Vector3<S> support_vector = (1.0/center_to_contact_plane) * Vector3<S>(radii2[0]*new_s2.n[0], radii2[1]*new_s2.n[1], radii2[2]*new_s2.n[2]);
+        point_in_halfspace_coords = support_vector * (0.5 * depth / center_to_contact_plane - 1.0);
+      }
       const Vector3<S> point = tf1 * point_in_halfspace_coords; // roughly speaking, a middle point of the intersecting volume
       const S penetration_depth = depth;
 
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 8d68990..a614dd0 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -176,8 +176,14 @@ bool ellipsoidPlaneIntersect(const Ellipsoid<S>& s1, const Transform3<S>& tf1,
     {
       // Transform the results to the world coordinates.
       const Vector3<S> normal = (signed_dist > 0) ? (tf1.linear() * -new_s2.n).eval() : (tf1.linear() * new_s2.n).eval(); // pointing from the ellipsoid's center to the plane
-      const Vector3<S> support_vector = (1.0/center_to_contact_plane) * Vector3<S>(radii2[0]*new_s2.n[0], radii2[1]*new_s2.n[1], radii2[2]*new_s2.n[2]);
-      const Vector3<S> point_in_plane_coords = support_vector * (depth / new_s2.n.dot(support_vector) - 1.0);
+      // A flat ellipsoid that is parallel to the plane has no extent along the
+      // normal: its center is used as the contact position.
+      Vector3<S> point_in_plane_coords = Vector3<S>::Zero();
+      if (center_to_contact_plane > 0)
+      {
+        const Vector3<S> support_vector = (1.0/center_to_contact_plane) * Vector3<S>(radii2[0]*new_s2.n[0], radii2[1]*new_s2.n[1], radii2[2]*new_s2.n[2]);
+        point_in_plane_coords = support_vector * (depth / center_to_contact_plane - 1.0);
+      }
       const Vector3<S> point = (signed_dist > 0) ? tf1 * point_in_plane_coords : tf1 * -point_in_plane_coords; // a middle point of the intersecting volume
       const S penetration_depth = depth;
 
-- 
2.43.0


From f52a8ef7e92c3ea9c58094e9cdc8fb6a3db4df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 131/140] fix: null face in the expanding polytope algorithm

For nearly degenerate pairs (a flat cylinder of radius 1e6 around a unit
sphere) rounding leaves an edge with one face, which was only asserted
against and dereferenced in release builds; report it like the other
inconsistencies of the polytope.
---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 4adf0d8..a48e554 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1214,7 +1214,11 @@ static void ComputeVisiblePatchRecursive(
   ccd_pt_edge_t* edge = f.edge[edge_index];
 
   ccd_pt_face_t* g = edge->faces[0] == &f ? edge->faces[1] : edge->faces[0];
-  assert(g != nullptr);
+  if (g == nullptr) {
+    // Rounding can leave the polytope of (nearly) degenerate shapes open.
+    FCL_THROW_FAILED_AT_THIS_CONFIGURATION(
+        "An edge of the polytope has only one adjacent face");
+  }
 
   bool is_visible = visible_faces->count(g) > 0;
   bool is_hidden = hidden_faces->count(g) > 0;
-- 
2.43.0


From dbfcbee3e4d2d8d50c93b3b982b319a523fbd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 132/140] fix: contacts of boxes without thickness

The clipping against a reference face without extent in one direction
discarded every point, so an intersecting pair was reported as free.
---
 .../detail/primitive_shape_algorithm/box_box-inl.h          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/box_box-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/box_box-inl.h
index 91ffeca..ef69c86 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/box_box-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/box_box-inl.h
@@ -750,8 +750,10 @@ int boxBox2(
 
   // find the size of the reference face
   S rect[2];
-  rect[0] = (*Sa)[code1];
-  rect[1] = (*Sa)[code2];
+  // A face without area keeps a minimal extent because the clipping discards
+  // the points on its boundary.
+  rect[0] = std::max((*Sa)[code1], std::numeric_limits<S>::min());
+  rect[1] = std::max((*Sa)[code2], std::numeric_limits<S>::min());
 
   // intersect the incident and reference faces
   S ret[16];
-- 
2.43.0


From 91d7d72bfea671fb4d226631da0cebfb2b53e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 133/140] fix: distance of triangles without area

The sign tests against the plane of a triangle whose corners are collinear
up to rounding used a meaningless normal, so a long needle that pierces
another triangle was reported far away from it; the absolute threshold also
dropped the faces of triangles with edges of about 1e-4.
---
 include/fcl/math/geometry-inl.h                   |  2 +-
 .../triangle_distance-inl.h                       | 15 ++++++++++++---
 .../primitive_shape_algorithm/triangle_distance.h |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fcl/math/geometry-inl.h b/include/fcl/math/geometry-inl.h
index 5365410..9357fe3 100644
--- a/include/fcl/math/geometry-inl.h
+++ b/include/fcl/math/geometry-inl.h
@@ -434,7 +434,7 @@ bool isDegenerateTriangle(const Vector3<S>& P1, const Vector3<S>& P2, const Vect
   const Vector3<S> edge2 = P3 - P1;
   const S length = std::sqrt(std::max(edge1.squaredNorm(), std::max(edge2.squaredNorm(), (P3 - P2).squaredNorm())));
   const S magnitude = std::max(P1.cwiseAbs().maxCoeff(), std::max(P2.cwiseAbs().maxCoeff(), P3.cwiseAbs().maxCoeff()));
-  return edge1.cross(edge2).norm() <= 16 * std::numeric_limits<S>::epsilon() * length * (length + magnitude);
+  return edge1.cross(edge2).norm() <= 4096 * std::numeric_limits<S>::epsilon() * length * (length + magnitude);
 }
 
 //==============================================================================
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
index 2a67f80..3312a14 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
@@ -265,9 +265,18 @@ S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3
   Sn = Sv[0].cross(Sv[1]); // Compute normal to T1 triangle
   Snl = Sn.dot(Sn);        // Compute square of length of normal
 
-  // If cross product is long enough,
+  const bool degenerate1 = isDegenerateTriangle(T1[0], T1[1], T1[2]);
+  const bool degenerate2 = isDegenerateTriangle(T2[0], T2[1], T2[2]);
 
-  if(Snl > 1e-15)
+  // Two triangles without area are segments: they only overlap where their
+  // edges meet.
+
+  if(degenerate1 && degenerate2)
+    shown_disjoint = 1;
+
+  // If the triangle has a normal,
+
+  if(!degenerate1)
   {
     // Get projection lengths of T2 points
 
@@ -335,7 +344,7 @@ S TriangleDistance<S>::triDistance(const Vector3<S> T1[3], const Vector3<S> T2[3
   Tn = Tv[0].cross(Tv[1]);
   Tnl = Tn.dot(Tn);
 
-  if(Tnl > 1e-15)
+  if(!degenerate2)
   {
     Vector3<S> Sp;
 
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h
index cb4b2e6..b37c318 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h
@@ -39,6 +39,7 @@
 #define FCL_NARROWPHASE_DETAIL_TRIANGLEDISTANCE_H
 
 #include "fcl/common/types.h"
+#include "fcl/math/geometry.h"
 
 namespace fcl
 {
-- 
2.43.0


From ac5807ee894f676b10149a009672cea3c052433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 134/140] fix: contact of cones without radius with planes

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index a614dd0..0e66cb7 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -544,7 +544,10 @@ bool conePlaneIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
       if (contacts)
       {
         const Vector3<S> normal = (d < 0) ? new_s2.n : (-new_s2.n).eval();
-        const Vector3<S> point = T - dir_z * (0.5 * s1.lz) + dir_z * (0.5 * depth / s1.radius * s1.lz) - new_s2.n * d;
+        // The part of the cone's height that the plane reaches; a cone without
+        // radius is a segment within the plane.
+        const S ratio = (s1.radius > 0) ? S(depth / s1.radius) : S(1);
+        const Vector3<S> point = T - dir_z * (0.5 * s1.lz) + dir_z * (0.5 * ratio * s1.lz) - new_s2.n * d;
         const S penetration_depth = depth;
 
         contacts->emplace_back(normal, point, penetration_depth);
-- 
2.43.0


From fe6f98dd103f4a7ff4a5deaae0f033ce647ffa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 135/140] fix: sign tests of small simplices in doSimplex3

The products of the triangle case have the fourth power of the length of the
edges and were compared with an absolute tolerance, so shapes of about 1e-4
that overlap could be reported at a distance of half their size.
---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index a48e554..94cdd45 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -471,9 +471,9 @@ static int doSimplex3(ccd_simplex_t *simplex, ccd_vec3_t *dir)
 
   ccdVec3Cross(&tmp, &ABC, &AC);
   dot = ccdVec3Dot(&tmp, &AO);
-  if (ccdIsZero(dot) || dot > CCD_ZERO){
+  if (dot >= CCD_ZERO){
     dot = ccdVec3Dot(&AC, &AO);
-    if (ccdIsZero(dot) || dot > CCD_ZERO){
+    if (dot >= CCD_ZERO){
       // C is already in place
       ccdSimplexSet(simplex, 1, A);
       ccdSimplexSetSize(simplex, 2);
@@ -481,7 +481,7 @@ static int doSimplex3(ccd_simplex_t *simplex, ccd_vec3_t *dir)
     }else{
     ccd_do_simplex3_45:
       dot = ccdVec3Dot(&AB, &AO);
-      if (ccdIsZero(dot) || dot > CCD_ZERO){
+      if (dot >= CCD_ZERO){
         ccdSimplexSet(simplex, 0, B);
         ccdSimplexSet(simplex, 1, A);
         ccdSimplexSetSize(simplex, 2);
@@ -495,11 +495,11 @@ static int doSimplex3(ccd_simplex_t *simplex, ccd_vec3_t *dir)
   }else{
     ccdVec3Cross(&tmp, &AB, &ABC);
     dot = ccdVec3Dot(&tmp, &AO);
-    if (ccdIsZero(dot) || dot > CCD_ZERO){
+    if (dot >= CCD_ZERO){
       goto ccd_do_simplex3_45;
     }else{
       dot = ccdVec3Dot(&ABC, &AO);
-      if (ccdIsZero(dot) || dot > CCD_ZERO){
+      if (dot >= CCD_ZERO){
         ccdVec3Copy(dir, &ABC);
       }else{
         ccd_support_t Ctmp;
-- 
2.43.0


From 7179c15a840d630449b498259e83ea090deb3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:12 +0000
Subject: [PATCH 136/140] fix: number of samples of the naive continuous
 collision

With a toc_err of zero (or below about 1e-20) the number of samples was
converted to an integer out of its range, which gave no sample at all on
common platforms: no contact was ever reported.
---
 include/fcl/narrowphase/continuous_collision-inl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index bf07b8d..b11570a 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -141,7 +141,11 @@ S continuousCollideNaive(
     const ContinuousCollisionRequest<S>& request,
     ContinuousCollisionResult<S>& result)
 {
-  std::size_t n_iter = std::min(request.num_max_iterations, (std::size_t)ceil(1 / request.toc_err));
+  // compared before the conversion: the number of samples for a small (or zero)
+  // error does not fit into an integer
+  std::size_t n_iter = request.num_max_iterations;
+  const S n_samples = std::ceil(1 / request.toc_err);
+  if(n_samples < n_iter) n_iter = static_cast<std::size_t>(n_samples);
   Transform3<S> cur_tf1, cur_tf2;
   for(std::size_t i = 0; i < n_iter; ++i)
   {
-- 
2.43.0


From 5a1e3da3b79a43fd01cf214bd0b8f8816ec7a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 137/140] fix: GJK stops when rounding keeps the ray from
 getting shorter, instead of cycling until it fails (single-precision
 distances of -1 between separated shapes)

---
 .../detail/convexity_based_algorithm/gjk-inl.h  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index b61ba4a..8f36192 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -156,8 +156,22 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 
     if(project_res.sqr_distance >= 0)
     {
+      Vector3<S> next_ray = Vector3<S>::Zero();
+      for(size_t i = 0; i < curr_simplex.rank; ++i)
+      {
+        if(project_res.encode & (1 << i))
+          next_ray += curr_simplex.c[i]->w * project_res.parameterization[i];
+      }
+
+      // check D: when the ray gets no shorter, rounding errors prevent further progress; stop rather than cycle until the iterations are exhausted
+      if(project_res.encode != 15 && next_ray.norm() >= rl)
+      {
+        removeVertex(simplices[current]);
+        break;
+      }
+
       next_simplex.rank = 0;
-      ray.setZero();
+      ray = next_ray;
       current = next;
       for(size_t i = 0; i < curr_simplex.rank; ++i)
       {
@@ -165,7 +179,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
         {
           next_simplex.c[next_simplex.rank] = curr_simplex.c[i];
           next_simplex.p[next_simplex.rank++] = project_res.parameterization[i]; // weights[i];
-          ray += curr_simplex.c[i]->w * project_res.parameterization[i]; // weights[i];
         }
         else
           free_v[nfree++] = curr_simplex.c[i];
-- 
2.43.0


From 776fcd2ef4fa6f7773519132c385516f68f30c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 138/140] fix: polynomial continuous collision reads the sign
 of single-precision coefficients from the right byte

---
 .../narrowphase/detail/traversal/collision/intersect-inl.h  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index a40b572..d65d3e0 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -72,9 +72,9 @@ bool Intersect<S>::solveCubicWithIntervalNewton(const Vector3<S>& a0, const Vect
 
   unsigned char min3, min2, min1, max3, max2, max1;
 
-  min3= *((unsigned char*)&coeffs[3]+7)>>7; max3=min3^1;
-  min2= *((unsigned char*)&coeffs[2]+7)>>7; max2=min2^1;
-  min1= *((unsigned char*)&coeffs[1]+7)>>7; max1=min1^1;
+  min3= std::signbit(coeffs[3]); max3=min3^1;
+  min2= std::signbit(coeffs[2]); max2=min2^1;
+  min1= std::signbit(coeffs[1]); max1=min1^1;
 
   // bound the cubic
 
-- 
2.43.0


From 5e6711480a6a442868c67626364d533452e5c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:36 +0000
Subject: [PATCH 139/140] fix: depth of a capsule whose end is within the
 tolerance of a plane it crosses

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 0e66cb7..a30a1e7 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -328,7 +328,7 @@ bool capsulePlaneIntersect(const Capsule<S>& s1, const Transform3<S>& tf1,
     // the contact point is the intersect of axis with the plane
     // the normal is the direction to avoid intersection
     // the depth is the minimum distance to resolve the collision
-    if(d1 * d2 < -planeIntersectTolerance<S>())
+    if(d1 * d2 < 0)
     {
       if(abs_d1 < abs_d2)
       {
-- 
2.43.0


From 8fbc08a9845be733ab468c1bca9f69d8c215b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:51 +0000
Subject: [PATCH 140/140] fix: free space between two octrees costs nothing
 where the other is unknown

---
 .../narrowphase/detail/traversal/octree/octree_solver-inl.h   | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index cf0a125..14fb1e0 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -888,6 +888,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
   }
   else if(!root1 && root2)
   {
+    if(tree2->isNodeFree(root2)) return false; // free space costs nothing
+
     if(tree2->nodeHasChildren(root2))
     {
       for(unsigned int i = 0; i < 8; ++i)
@@ -919,6 +921,8 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersectRecurse(const OcTree<S>* tr
   }
   else if(root1 && !root2)
   {
+    if(tree1->isNodeFree(root1)) return false; // free space costs nothing
+
     if(tree1->nodeHasChildren(root1))
     {
       for(unsigned int i = 0; i < 8; ++i)
-- 
2.43.0

