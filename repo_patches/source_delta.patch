From dc7c6701a80108603f6dbe912f7b7de5c30e4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 01/53] fix: computeCurl returned the opposite of the curl of
 the vector potential

---
 lib/nikfemm/src/mesh/mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..0e142f6 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -405,7 +405,8 @@ namespace nikfemm {
             
             // printf("dx = %.17g dy = %.17g for elem (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g)\n", dx, dy, x1, y1, z1, x2, y2, z2, x3, y3, z3);
 
-            out[i] = Vector(-dy, dx);
+            // curl(A z) = (dA/dy, -dA/dx)
+            out[i] = Vector(dy, -dx);
         }
 
         return out;
-- 
2.43.0


From 774a40fc298a0d02930f472788d31c21c5cf1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 02/53] fix: the surface current of a magnet was counted twice
 (once in full at each end of an edge)

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..42a709b 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -184,8 +184,9 @@ namespace nikfemm {
                     if (dist1 < epsilon * 0.1 && dist2 < epsilon * 0.1) {
                         // this edge is subject to a surface current
                         double length = Vector::distance(p1, p2);
-                        system.b[edge.v1] += length * segment.Jm;
-                        system.b[edge.v2] += length * segment.Jm;
+                        // the current of the edge is shared between its two ends
+                        system.b[edge.v1] += 0.5 * length * segment.Jm;
+                        system.b[edge.v2] += 0.5 * length * segment.Jm;
                     }
                 }
             }
-- 
2.43.0


From 9daa276fb5488e7075643afe13e1b32de5ef0122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 03/53] fix: getMu used the segment after the one that contains
 B, and read past the end of the curve on the last one

---
 lib/nikfemm/src/magnetostatic/properties.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..2ad6381 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -43,11 +43,11 @@ namespace nikfemm {
             // printf("B is larger than the largest B in the curve, returning mu %.17g\n", m);
             return m;
         } else {
-            // forward difference
-            double B1 = it->B;
-            double H1 = it->H;
-            double B2 = (++it)->B;
+            // segment of the curve that contains B
+            double B2 = it->B;
             double H2 = it->H;
+            double B1 = (--it)->B;
+            double H1 = it->H;
 
             // mu = dB/dH
             double m = (B2 - B1) / (H2 - H1);
-- 
2.43.0


From b9e7c6ba0de39476b945c07e1566d326630207b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 04/53] fix: getEnclosingCircle measured its radius from the
 origin instead of its own center

---
 lib/nikfemm/src/geometry/circle.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..ad8d972 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -87,16 +87,22 @@ namespace nikfemm {
     }
 
     Circle Circle::getEnclosingCircle(std::vector<Vector> points) {
-        double maxmod = 0;
+        if (points.empty()) {
+            return Circle();
+        }
         Vector center = {0, 0};
         for (auto p : points) {
-            double mod = p.norm();
+            center += p;
+        }
+        center /= points.size();
+        // the radius has to be measured from the center, not from the origin
+        double maxmod = 0;
+        for (auto p : points) {
+            double mod = Vector::distance(p, center);
             if (mod > maxmod) {
                 maxmod = mod;
             }
-            center += p;
         }
-        center /= points.size();
         return Circle(center, maxmod);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 668e657146f59515bdfb35962cd755e4e8fe1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 05/53] fix: drawSegment skipped the intersection check unless
 an end of the new segment was in the box of the old one

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..7a19bc2 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -236,7 +236,10 @@ namespace nikfemm {
                 continue;
             }
             // before checking for intersection, check if the segments have overlapping bounding boxes to avoid unnecessary intersection checks
-            if (!(Segment::pointInSegmentBB(p1, points[s.p1], points[s.p2]) || Segment::pointInSegmentBB(p2, points[s.p1], points[s.p2]))) {
+            Vector s1 = points[s.p1];
+            Vector s2 = points[s.p2];
+            if (std::max(p1.x, p2.x) < std::min(s1.x, s2.x) || std::min(p1.x, p2.x) > std::max(s1.x, s2.x) ||
+                std::max(p1.y, p2.y) < std::min(s1.y, s2.y) || std::min(p1.y, p2.y) > std::max(s1.y, s2.y)) {
                 continue;
             }
             // check for intersection
-- 
2.43.0


From 98aa1d76ae296d63280f86801388065b8d3811fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 06/53] fix: drawPoint added points that were already in the
 drawing, which left vertices without elements in the mesh

---
 lib/nikfemm/src/drawing/drawing.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 7a19bc2..0f7adc3 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -258,6 +258,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPoint(Vector p) {
+        // a point that is already in the drawing must not be added again
+        for (const Vector& point : points) {
+            if (point == p) {
+                return;
+            }
+        }
         points.push_back(p);
     }
 
-- 
2.43.0


From 7a9d99a801c5e74cbde801957f99d8ee718ea731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 07/53] fix: interconnections had half of their resistance and
 discarded other couplings between the same nodes

---
 .../src/current_density/multilayer_simulation.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..30bb9f2 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -221,15 +221,20 @@ namespace nikfemm {
             uint64_t m2 = interconnection.node2_id + offsets[interconnection.mesh2_id];
             double R = interconnection.R;
 
+            // both ends on the same node, no current can flow
+            if (m1 == m2) {
+                continue;
+            }
+
             // 1.
-            merged_system.A(m1, m1) += 2/R;
-            merged_system.A(m2, m2) += 2/R;
+            merged_system.A(m1, m1) += 1/R;
+            merged_system.A(m2, m2) += 1/R;
 
-            // 2.
+            // 2. the two nodes may already be coupled by the mesh or by another interconnection
             if (m1 >= m2) {
-                merged_system.A(m2, m1) = -2/R;
+                merged_system.A(m2, m1) -= 1/R;
             } else {
-                merged_system.A(m1, m2) = -2/R;
+                merged_system.A(m1, m2) -= 1/R;
             }
         }
 
-- 
2.43.0


From e40bf149a756c50c0121166bbd70737cdf088dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 08/53] fix: the triangle switches overflowed their buffer for
 large triangle areas

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 0e142f6..dbaa88c 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -216,8 +216,8 @@ namespace nikfemm {
             i++;
         }
         // printf("----------------------\n");
-        char switches[42];
-        sprintf(switches, "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        char switches[400];  // %f needs more than 300 characters for the largest doubles
+        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From 13688615e21cf7f3627f3a2427f21ece2815b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 09/53] fix: matrices with a diagonal element missing from the
 COO matrix overflowed the CSR arrays

---
 lib/nikfemm/src/algebra/csr.cpp        | 5 ++++-
 lib/nikfemm/src/algebra/non_linear.cpp | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index 74025f0..e5c8c67 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -62,7 +62,10 @@ namespace nikfemm {
             return a.first < b.first;
         });
 
-        nnz = elems.size() - m;
+        // not every diagonal element has to be stored in the COO matrix
+        nnz = std::count_if(elems.begin(), elems.end(), [](const auto& elem) {
+            return (elem.first >> 32) != (elem.first & 0xFFFFFFFF);
+        });
 
         row_ptr = std::vector<uint32_t>(m + 1, 0);
         col_ind = std::vector<uint32_t>(nnz);
diff --git a/lib/nikfemm/src/algebra/non_linear.cpp b/lib/nikfemm/src/algebra/non_linear.cpp
index f9a2e96..960f10b 100644
--- a/lib/nikfemm/src/algebra/non_linear.cpp
+++ b/lib/nikfemm/src/algebra/non_linear.cpp
@@ -14,6 +14,11 @@ namespace nikfemm {
     NonLinearMatCSRSymmetric::NonLinearMatCSRSymmetric(MatCOOSymmetric<NonLinearExpression>& coo) {
         m = coo.m;
 
+        // every diagonal element needs an expression
+        for (uint32_t i = 0; i < m; i++) {
+            coo(i, i);
+        }
+
         std::vector<uint64_t> keys(coo.elems.size());
 
         std::transform(coo.elems.begin(), coo.elems.end(), keys.begin(), [](const auto& elem) {
-- 
2.43.0


From f219691d9a8aa144d81c6eabfeb4d9d738fe7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 10/53] fix: the distance from a segment of zero length was NaN

---
 lib/nikfemm/src/geometry/segment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 50ec3de..361f768 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -84,7 +84,11 @@ namespace nikfemm {
         return Vector::distance(p, projection);
         */
         // return pointSegmentDistance(p, Segment(p1, p2));
-        double param = ((p - p1) * (p2 - p1)) / Vector::distanceSquared(p1, p2);
+        double len_sq = Vector::distanceSquared(p1, p2);
+        if (len_sq == 0) {  // in case of 0 length line
+            return Vector::distance(p, p1);
+        }
+        double param = ((p - p1) * (p2 - p1)) / len_sq;
         if (param < 0) {
             return Vector::distance(p, p1);
         }
-- 
2.43.0


From 7f4de2750521de838ff0949ab3e33cd1d5222a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 11/53] fix: the counters of a mesh were uninitialised before
 the mesh was generated

---
 lib/nikfemm/src/mesh/mesh.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index dbaa88c..21eeee8 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -23,33 +23,33 @@ namespace nikfemm {
         Vector *pointlist = nullptr;                                               /* In / out */
         TRI_REAL *pointattributelist = nullptr;                                      /* In / out */
         int *pointmarkerlist = nullptr;                                          /* In / out */
-        int numberofpoints;                                            /* In / out */
-        int numberofpointattributes;                                   /* In / out */
+        int numberofpoints = 0;                                            /* In / out */
+        int numberofpointattributes = 0;                                   /* In / out */
 
         Elem *trianglelist = nullptr;                                             /* In / out */
         TRI_REAL *triangleattributelist = nullptr;                                   /* In / out */
         TRI_REAL *trianglearealist = nullptr;                                         /* In only */
         int *neighborlist = nullptr;                                             /* Out only */
-        int numberoftriangles;                                         /* In / out */
-        int numberofcorners;                                           /* In / out */
-        int numberoftriangleattributes;                                /* In / out */
+        int numberoftriangles = 0;                                         /* In / out */
+        int numberofcorners = 0;                                           /* In / out */
+        int numberoftriangleattributes = 0;                                /* In / out */
 
         int *segmentlist = nullptr;                                              /* In / out */
         int *segmentmarkerlist = nullptr;                                        /* In / out */
-        int numberofsegments;                                          /* In / out */
+        int numberofsegments = 0;                                          /* In / out */
 
         TRI_REAL *holelist = nullptr;                        /* In / pointer to array copied out */
-        int numberofholes;                                      /* In / copied out */
+        int numberofholes = 0;                                      /* In / copied out */
 
         TRI_REAL *regionlist = nullptr;                      /* In / pointer to array copied out */
-        int numberofregions;                                    /* In / copied out */
+        int numberofregions = 0;                                    /* In / copied out */
 
         int *edgelist = nullptr;                                                 /* Out only */
         int *edgemarkerlist = nullptr;            /* Not used with Voronoi diagram; out only */
         TRI_REAL *normlist = nullptr;                /* Used only with Voronoi diagram; out only */
-        int numberofedges;                                             /* Out only */
+        int numberofedges = 0;                                             /* Out only */
 
-        int hullsize;                                                  /* Out only */
+        int hullsize = 0;                                                  /* Out only */
 
         inline Vector getElemBarycenter(uint32_t elem_id) {
             Elem myelem = trianglelist[elem_id];
-- 
2.43.0


From ed039c40665f16f54287f5d8dc19fed7d8316c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 12/53] fix: the CG and Jacobi CG solvers turned an exact
 initial guess into NaN or an unconverged result

---
 lib/nikfemm/src/algebra/solvers.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..7618120 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -90,12 +90,17 @@ namespace nikfemm {
         copy(p, r);
         double rTr = squareSum(r);
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double pAp = dot(p, Ap);
-            if (fabs(pAp) < std::numeric_limits<double>::epsilon()) {
-                pAp = std::numeric_limits<double>::epsilon();
-                nlogwarn("warning: pAp is zero. approximating with epsilon");
+            // pAp scales with the square of the residual, so only an exact zero is a breakdown
+            if (pAp == 0) {
+                nlogwarn("warning: pAp is zero");
+                break;
             }
             double alpha = rTr / pAp;
             addScaled(x, x, alpha, p);
@@ -131,6 +136,10 @@ namespace nikfemm {
         std::vector<double> Ap(b.size());
         double rTzold;
         double squareError = squareSum(r);
+        if (squareError < maxError * maxError) {
+            nloginfo("converged after 0 iterations");
+            return;
+        }
         for (uint32_t i = 0; i < maxIterations; i++) {
             mult(Ap, A, p);
             double alpha = dot(r, z) / dot(p, Ap);
-- 
2.43.0


From 527280073029a53dde036fae46971226d915686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 13/53] fix: a vertex with more than 18 adjacent elements
 corrupted memory

---
 lib/nikfemm/src/current_density/mesh.cpp     | 40 +++++++++++---------
 lib/nikfemm/src/magnetostatic/mesh.cpp       | 14 ++++---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 11 +++---
 lib/nikfemm/src/magnetostatic/simulation.hpp |  4 +-
 4 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..0675802 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,15 +11,17 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        // a vertex can have any number of adjacent elements
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
+                adjelems_count[myid]++;
             }
         }
 
@@ -29,7 +31,7 @@ namespace nikfemm {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
@@ -96,26 +98,30 @@ namespace nikfemm {
 
         auto start = std::chrono::high_resolution_clock::now();
 
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        // a vertex can have any number of adjacent elements
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
+                adjelems_count[myid]++;
             }
         }
 
-        auto adjverts_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjverts_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjverts_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjverts_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 1) % 3];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 2) % 3];
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 1) % 3]);
+                adjverts_count[myid]++;
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 2) % 3]);
+                adjverts_count[myid]++;
             }
         }
 
@@ -125,7 +131,7 @@ namespace nikfemm {
             // to do this we iterate over all adjacent vertices and for each we try to find the two adjacent triangles
             // the two adjacent triangles are the ones that both contain the current vertex and the adjacent vertex
             double sum = 0;
-            for (uint8_t j = 0; j < adjverts_count[i]; j++) {
+            for (uint32_t j = 0; j < adjverts_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 v2 = adjverts_ids[i][j];
@@ -133,7 +139,7 @@ namespace nikfemm {
                 // find the two triangles that contain the current vertex and the adjacent vertex
                 uint32_t t1 = 0, t2 = 0;
                 bool found_t1 = false, found_t2 = false;
-                for (uint8_t k = 0; k < adjelems_count[i]; k++) {
+                for (uint32_t k = 0; k < adjelems_count[i]; k++) {
                     if (data.trianglelist[adjelems_ids[i][k]][0] == v1 || data.trianglelist[adjelems_ids[i][k]][1] == v1 || data.trianglelist[adjelems_ids[i][k]][2] == v1) {
                         if (data.trianglelist[adjelems_ids[i][k]][0] == v2 || data.trianglelist[adjelems_ids[i][k]][1] == v2 || data.trianglelist[adjelems_ids[i][k]][2] == v2) {
                             if (!found_t1) {
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 42a709b..301cc4d 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,23 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        // a vertex can have any number of adjacent elements
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(data.numberofpoints, 0);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
+                adjelems_count[myid]++;
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4128817..445eddc 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -223,14 +223,15 @@ namespace nikfemm {
         // EGGSHELL WITH LAPLACE PROBLEM
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(mesh.data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(mesh.data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(mesh.data.numberofpoints);
+        auto adjelems_count = std::vector<uint32_t>(mesh.data.numberofpoints, 0);
 
         nloginfo("computing adjelems_ids");
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = mesh.data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]++] = i;
+                adjelems_ids[myid].push_back(i);
+                adjelems_count[myid]++;
             }
         }
 
@@ -352,7 +353,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
@@ -514,7 +515,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_count[i]; j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 75243f5..c54b626 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -19,8 +19,8 @@
 
 namespace nikfemm {
     struct SurroundingRegionBlockIntegralAssets {
-        std::vector<std::array<uint32_t, 18>> adjelems_ids;
-        std::vector<uint8_t> adjelems_count;
+        std::vector<std::vector<uint32_t>> adjelems_ids;
+        std::vector<uint32_t> adjelems_count;
         std::vector<double> elem_field_errors;
         double min_err;
         double max_err;
-- 
2.43.0


From f922b70d7fa88490b35ae5d1c9f153830d932598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 14/53] fix: the geometric integrals dropped or added triangles
 depending on the rounding of the vertices on the boundary

---
 lib/nikfemm/src/mesh/mesh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 21eeee8..dadae9b 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -498,7 +498,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 area += Vector::area(p1, p2, p3);
             }
         }
@@ -524,7 +524,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 area += triangle_area;
                 barycenter += ((p1 + p2 + p3) / 3) * triangle_area;
@@ -545,7 +545,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
+            if (integration_region.contains((p1 + p2 + p3) / 3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter - center;
-- 
2.43.0


From 19683815bd22609eda855e50dd9b577712c2eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 15/53] fix: barycenter, inertia moment and torque mixed up
 drawing and mesh coordinates

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 ++
 lib/nikfemm/src/mesh/mesh.hpp                | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 445eddc..144df19 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -494,6 +494,8 @@ namespace nikfemm {
 
     double MagnetostaticSimulation::computeTorqueIntegral(std::vector<Vector> B, SurroundingRegionBlockIntegralAssets assets, Vector p, Vector center) {
         auto start = std::chrono::high_resolution_clock::now();
+
+        center -= mesh.center;  // the mesh is centered on the origin
         
         auto [
             adjelems_ids, 
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index dadae9b..2b9059b 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -531,13 +531,15 @@ namespace nikfemm {
             }
         }
 
-        return barycenter / area;
+        // the mesh is centered on the origin
+        return barycenter / area + this->center;
     }
 
     template <typename Prop>
     double Mesh<Prop>::computeInertiaMoment(Vector p, Vector center, double density) {
         Polygon integration_region = getInnermostPolygon(p);
 
+        center -= this->center;  // the mesh is centered on the origin
         double moment = 0;
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
-- 
2.43.0


From 8645e0e5a51d313b148d32b6feaf6b947fb26816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 16/53] fix: the force integrals used the outermost polygon as
 surrounding region and erased from a vector while iterating on it

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 41 +++++++-------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 144df19..4ff3efd 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -180,37 +180,26 @@ namespace nikfemm {
                 polygons_that_contain_integration_region.push_back(polygon);
             }
         }
-        // if there is more than one polygon that contains the integration region then we have to keep
-        // removing polygons that aren't contained by any other polygon that contains the integration region
-        // until we are left with one polygon
-        int count = 0;
-        while (polygons_that_contain_integration_region.size() > 1) {
-            for (auto polygon : polygons_that_contain_integration_region) {
-                bool is_outermost_polygon = true;
-                for (auto other_polygon : polygons_that_contain_integration_region) {
-                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                        is_outermost_polygon = false;
-                        break;
-                    }
-                }
-                if (is_outermost_polygon) {
-                    // remove polygon from polygons_that_contain_integration_region
-                    polygons_that_contain_integration_region.erase(
-                        std::remove(polygons_that_contain_integration_region.begin(),
-                                    polygons_that_contain_integration_region.end(),
-                                    polygon),
-                        polygons_that_contain_integration_region.end());
+        if (polygons_that_contain_integration_region.empty()) {
+            nexit("error: no polygon surrounds the integration region");
+        }
+        // if there is more than one polygon that contains the integration region then the one that
+        // immediately surrounds it is the one that doesn't contain any of the others
+        boundary_region = polygons_that_contain_integration_region[0];
+        for (auto polygon : polygons_that_contain_integration_region) {
+            bool is_innermost_polygon = true;
+            for (auto other_polygon : polygons_that_contain_integration_region) {
+                if (polygon != other_polygon && polygon.contains(other_polygon)) {
+                    is_innermost_polygon = false;
+                    break;
                 }
             }
-            count++;
-            if (count > 100) {
-                nexit("error: could not find outermost polygon");
+            if (is_innermost_polygon) {
+                boundary_region = polygon;
+                break;
             }
         }
 
-        // the boundary region is the polygon that is left
-        boundary_region = *polygons_that_contain_integration_region.begin();
-
         // find the holes in the boundary region (every polygon that is contained by the boundary region but isn't contained by the integration region)
         for (auto polygon : mesh.drawing.polygons) {
             if (boundary_region.contains(polygon) && !integration_region.contains(polygon) && polygon != boundary_region && polygon != integration_region) {
-- 
2.43.0


From 4ce93dfe2dd90957fd708967ece25d15d738f23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 17/53] fix: the eggshell function of force and torque did not
 satisfy its boundary conditions unless the field was weak

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 92 ++++++++------------
 1 file changed, 38 insertions(+), 54 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4ff3efd..7fbfec0 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -316,6 +316,32 @@ namespace nikfemm {
         };
     }
 
+    // the eggshell function is 0 on the vertices of the zero region and 1 on the vertices of the one region
+    static void imposeEggshellBoundaryConditions(MatCOOSymmetric<double>& coo, std::vector<double>& b, const std::vector<bool>& zero_region, const std::vector<bool>& one_region) {
+        for (auto& [id, value] : coo.elems) {
+            uint32_t m = id >> 32;
+            uint32_t n = id & 0xFFFFFFFF;
+            bool m_fixed = zero_region[m] || one_region[m];
+            bool n_fixed = zero_region[n] || one_region[n];
+
+            if (m == n) {
+                // an element without field gives no equation for its vertices
+                if (m_fixed || value == 0) value = 1;
+                continue;
+            }
+            // the matrix is symmetric but only its upper triangle is stored, so both ends have to be checked
+            if (m_fixed || n_fixed) {
+                if (!m_fixed && one_region[n]) b[m] -= value;
+                if (!n_fixed && one_region[m]) b[n] -= value;
+                value = 0;
+            }
+        }
+        for (uint32_t i = 0; i < b.size(); i++) {
+            if (zero_region[i]) b[i] = 0;
+            if (one_region[i]) b[i] = 1;
+        }
+    }
+
     Vector MagnetostaticSimulation::computeForceIntegrals(std::vector<Vector> B, SurroundingRegionBlockIntegralAssets assets, Vector p) {
         auto start = std::chrono::high_resolution_clock::now();
         
@@ -398,34 +424,13 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
-        for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
-
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
-                }
-            }
-            val++;
+        std::vector<bool> zero_region(mesh.data.numberofpoints);
+        std::vector<bool> one_region(mesh.data.numberofpoints);
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            zero_region[i] = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
+            one_region[i] = !zero_region[i] && vertex_inside_integration_region_with_boundary[i];
         }
+        imposeEggshellBoundaryConditions(coo, b, zero_region, one_region);
 
         MatCSRSymmetric Ai(coo);
         // Ai.write_to_file("Ad.txt");
@@ -565,34 +570,13 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
-        for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
-
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
-                }
-            }
-            val++;
+        std::vector<bool> zero_region(mesh.data.numberofpoints);
+        std::vector<bool> one_region(mesh.data.numberofpoints);
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            zero_region[i] = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
+            one_region[i] = !zero_region[i] && vertex_inside_integration_region_with_boundary[i];
         }
+        imposeEggshellBoundaryConditions(coo, b, zero_region, one_region);
 
         MatCSRSymmetric Ai(coo);
         // Ai.write_to_file("Ad.txt");
-- 
2.43.0


From c3ac9abb5358aec51d904a047f14e9ae344897fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 18/53] fix: the exterior mesh of a magnetostatic simulation
 had dangling vertices when its boundary was split

---
 lib/nikfemm/src/magnetostatic/simulation.cpp |  3 ++-
 lib/nikfemm/src/mesh/mesh.hpp                | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 7fbfec0..2a9506c 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -73,7 +73,8 @@ namespace nikfemm {
             mesh.drawing.addRefiningPoints();
         }
 
-        mesh.mesh(max_triangle_area, min_angle);
+        // the boundary must not be split, its vertices are shared with the kelvin mesh
+        mesh.mesh(max_triangle_area, min_angle, false);
         // mesh.plot();
         mesh.addKelvinBoundaryConditions(boundary_points);
         mesh.computeEpsilon();
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 2b9059b..3be4fc7 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -105,7 +105,7 @@ namespace nikfemm {
 
         ~Mesh();
 
-        void mesh(double max_triangle_area = 1.0, int min_angle = 33);
+        void mesh(double max_triangle_area = 1.0, int min_angle = 33, bool split_boundary = true);
         void addKelvinBoundaryConditions(uint32_t boundary_points);
         void kelvinTransformCentered();
         void computeEpsilon();
@@ -170,7 +170,7 @@ namespace nikfemm {
     }
 
     template <typename Prop>
-    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle) {
+    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle, bool split_boundary) {
         triangulateio in;
 
         /* set up the input */
@@ -217,7 +217,7 @@ namespace nikfemm {
         }
         // printf("----------------------\n");
         char switches[400];  // %f needs more than 300 characters for the largest doubles
-        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        snprintf(switches, sizeof(switches), "pzq%d%sAQa%.17f", min_angle, split_boundary ? "" : "Y", max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
@@ -291,7 +291,9 @@ namespace nikfemm {
         // add region near the edge of the circle
         kelvin_mesh.drawing.drawRegion(Vector(0, 0), default_prop);
 
-        kelvin_mesh.mesh();
+        // the boundary must not be split, its vertices are shared with this mesh
+        // the area has to be relative to the circle, it is not known how big it is
+        kelvin_mesh.mesh(0.01 * radius * radius, 33, false);
         kelvin_mesh.center = Vector(0, 0);
         kelvin_mesh.radius = radius;
 
-- 
2.43.0


From 82550428da7e585d0445831b9977a8e72e450973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 19/53] fix: the boundary of a magnetostatic simulation had too
 few points to surround a drawing smaller than a triangle

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 2a9506c..657bf6c 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -59,6 +59,8 @@ namespace nikfemm {
         Circle boundary_circle = Circle(Vector(0, 0), smallest_circle.radius * coeff);
         double circumferential_length = boundary_circle.circumference();
         uint32_t boundary_points = (uint32_t)((circumferential_length / sqrt((max_triangle_area * 4) / sqrt(3))) * 2);
+        // with large triangles there may be too few points to surround the drawing
+        boundary_points = std::max(boundary_points, (uint32_t)32);
         nloginfo("boundary points: %d", boundary_points);
         mesh.drawing.drawCircle(boundary_circle, boundary_points);
         // add region near the edge of the circle
-- 
2.43.0


From 8b6157ae50c30344ce9ddc8ad44c6457abc59516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 20/53] fix: the python binding dereferenced NULL when a point
 or polygon had too few elements

---
 python/nikfemm.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4c193f2..42a5c3c 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -7,6 +7,11 @@
 
 #include <Python.h>
 
+// a point is a list of two coordinates
+static bool nikfemm_isPointList(PyObject* object) {
+    return PyList_Check(object) && PyList_Size(object) == 2;
+}
+
 typedef struct {
     PyObject_HEAD
     nikfemm::System<double>* system;
@@ -269,7 +274,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the first argument of type System");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!nikfemm_isPointList(PyTuple_GetItem(args, 1))) {
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the second argument of type [double, double]");
             return NULL;
         }
@@ -323,11 +328,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
         PyErr_SetString(PyExc_TypeError, "add_interconnection must have 5 arguments: [double, double], [double, double], uint64_t, uint64_t, double");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!nikfemm_isPointList(PyTuple_GetItem(args, 0))) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the first argument of type [double, double] or [int, int]");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!nikfemm_isPointList(PyTuple_GetItem(args, 1))) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the second argument of type [double, double] or [int, int]");
             return NULL;
         }
@@ -391,11 +396,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
         PyErr_SetString(PyExc_TypeError, "drawRectangle must have 3 arguments: (double, double), (double, double), uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!nikfemm_isPointList(PyTuple_GetItem(args, 0))) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the first argument of type (double, double)");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!nikfemm_isPointList(PyTuple_GetItem(args, 1))) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the second argument of type (double, double)");
             return NULL;
         }
@@ -439,7 +444,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "drawRegion must have 3 arguments: (double, double), double, uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!nikfemm_isPointList(PyTuple_GetItem(args, 0))) {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
         }
@@ -524,6 +529,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
     }
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
 
+    if (points.empty()) {
+        PyErr_SetString(PyExc_ValueError, "drawPolygon must have at least one point");
+        return NULL;
+    }
+
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
 
-- 
2.43.0


From 473e131351d15990e5d1e9dab1911506a8fd637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 21/53] fix: the python binding accessed layers out of range

---
 python/nikfemm.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 42a5c3c..b0e3eb1 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -105,6 +105,19 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
     return (PyObject*)self;
 }
 
+// gets a layer id from a python int, returns false and sets an error if there is no such layer
+static bool nikfemm_getLayerId(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* object, uint64_t* layer_id) {
+    *layer_id = PyLong_AsUnsignedLong(object);
+    if (PyErr_Occurred()) {
+        return false;
+    }
+    if (*layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer id out of range");
+        return false;
+    }
+    return true;
+}
+
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
     // generateSystem may have from 0 to 2 arguments which are: bool, double
     PyObject* refine = Py_True;
@@ -312,7 +325,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "setVoltage must have the third argument of type double");
         return NULL;
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer_id;
+    if (!nikfemm_getLayerId(self, PyTuple_GetItem(args, 3), &layer_id)) {
+        return NULL;
+    }
 
     self->simulation->setVoltage(*system, p, V, layer_id);
 
@@ -369,8 +385,14 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     // for each item if it is a long convert it to double, if it is a double use it
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer1_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
-    uint64_t layer2_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    uint64_t layer1_id;
+    if (!nikfemm_getLayerId(self, PyTuple_GetItem(args, 2), &layer1_id)) {
+        return NULL;
+    }
+    uint64_t layer2_id;
+    if (!nikfemm_getLayerId(self, PyTuple_GetItem(args, 3), &layer2_id)) {
+        return NULL;
+    }
     double R;
     if (PyFloat_Check(PyTuple_GetItem(args, 4))) {
         R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
@@ -428,7 +450,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     }
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!nikfemm_getLayerId(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
@@ -474,7 +499,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
     }
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
     double material = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    uint64_t layer_id;
+    if (!nikfemm_getLayerId(self, PyTuple_GetItem(args, 2), &layer_id)) {
+        return NULL;
+    }
 
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
@@ -527,7 +555,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         }
         points.push_back(nikfemm::Vector(coords[0], coords[1]));
     }
-    uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
+    uint64_t layer_id;
+    if (!nikfemm_getLayerId(self, PyTuple_GetItem(args, 1), &layer_id)) {
+        return NULL;
+    }
 
     if (points.empty()) {
         PyErr_SetString(PyExc_ValueError, "drawPolygon must have at least one point");
-- 
2.43.0


From 373495e18b21eb0a97f2f87f772aa6260aaf4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 22/53] fix: the python binding crashed on a System that was
 not generated by the simulation

---
 python/nikfemm.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index b0e3eb1..e727abc 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -118,6 +118,20 @@ static bool nikfemm_getLayerId(nikfemm_MultiLayerCurrentDensitySimulation* self,
     return true;
 }
 
+// gets the system of a python System, returns NULL and sets an error if it was not generated from the current mesh
+static nikfemm::System<double>* nikfemm_getSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* object) {
+    nikfemm::System<double>* system = ((nikfemm_System*)object)->system;
+    uint64_t num_nodes = 0;
+    for (auto& mesh : self->simulation->meshes) {
+        num_nodes += mesh.data.numberofpoints;
+    }
+    if (system == NULL || system->b.size() != num_nodes) {
+        PyErr_SetString(PyExc_ValueError, "the system was not generated by this simulation");
+        return NULL;
+    }
+    return system;
+}
+
 static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfemm_MultiLayerCurrentDensitySimulation* self, PyObject* args, PyObject* kwds) {
     // generateSystem may have from 0 to 2 arguments which are: bool, double
     PyObject* refine = Py_True;
@@ -214,7 +228,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
         }
     }
 
-    nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    nikfemm::System<double>* system = nikfemm_getSystem(self, PyTuple_GetItem(args, 0));
+    if (system == NULL) {
+        return NULL;
+    }
     std::vector<double> V = self->simulation->solve(*system);
     std::vector<double> P = self->simulation->computePowerDensity(V);
 
@@ -301,7 +318,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         }
     }
 
-    nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    nikfemm::System<double>* system = nikfemm_getSystem(self, PyTuple_GetItem(args, 0));
+    if (system == NULL) {
+        return NULL;
+    }
     double coords[2];
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 1), i);
-- 
2.43.0


From f6428ad099059c19236f9737d709a2b6e9d6fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 23/53] fix: the python binding let C++ exceptions abort the
 interpreter

---
 python/nikfemm.cpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index e727abc..ea93dcf 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -165,8 +165,6 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         default:
             break;
     }
-    auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
-
     nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
 
     if (py_system == NULL) {
@@ -175,8 +173,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     }
 
     try {
+        auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
         py_system->system = new nikfemm::System(system);
     } catch (std::exception& e) {
+        Py_DECREF(py_system);
         PyErr_SetString(PyExc_RuntimeError, e.what());
         return NULL;
     }
@@ -232,8 +232,15 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     if (system == NULL) {
         return NULL;
     }
-    std::vector<double> V = self->simulation->solve(*system);
-    std::vector<double> P = self->simulation->computePowerDensity(V);
+    std::vector<double> V;
+    std::vector<double> P;
+    try {
+        V = self->simulation->solve(*system);
+        P = self->simulation->computePowerDensity(V);
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
 
     // create list of tuples like this: [(int, double, double, double), ...]
     // where the first element is the layer id, and the next three are the x, y, and voltage
@@ -350,7 +357,12 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         return NULL;
     }
 
-    self->simulation->setVoltage(*system, p, V, layer_id);
+    try {
+        self->simulation->setVoltage(*system, p, V, layer_id);
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
 
     // printf("setVoltage: p = (%f, %f), V = %f, layer_id = %lu\n", p.x, p.y, V, layer_id);
 
@@ -476,7 +488,12 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     }
 
     // draw rectangle
-    self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
+    try {
+        self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
 
     // printf("drawRectangle: p1 = (%f, %f), p2 = (%f, %f), layer_id = %lu\n", p1.x, p1.y, p2.x, p2.y, layer_id);
 
@@ -586,7 +603,12 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
     }
 
     // draw polygon
-    self->simulation->meshes[layer_id].drawing.drawPolygon(points);
+    try {
+        self->simulation->meshes[layer_id].drawing.drawPolygon(points);
+    } catch (std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
 
     // printf("drawPolygon: layer_id = %lu\n", layer_id);
 
-- 
2.43.0


From f4931e77f329a330d79feb4a224f1eabba36c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 24/53] fix: the python binding leaked every number and list it
 returned

---
 python/nikfemm.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index ea93dcf..79f2e73 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -194,9 +194,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         PyObject* mytriangles = PyList_New(self->simulation->meshes[i].data.numberoftriangles);
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(3, PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i]));
+            PyObject* triangle = Py_BuildValue("(kkk)", (unsigned long)(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
+                                                        (unsigned long)(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
+                                                        (unsigned long)(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i]));
             PyList_SetItem(mytriangles, j, triangle);
         }
         PyList_SetItem(triangles, i, mytriangles);
@@ -206,13 +206,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* vertex = PyTuple_Pack(2, PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
-                                              PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y));
+            PyObject* vertex = Py_BuildValue("(dd)", self->simulation->meshes[i].data.pointlist[j].x,
+                                                     self->simulation->meshes[i].data.pointlist[j].y);
             PyList_SetItem(vertices, j + layer_offsets[i], vertex);
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, (PyObject*)py_system, triangles, vertices);
+    PyObject* result = Py_BuildValue("(NNN)", (PyObject*)py_system, triangles, vertices);
 
     return (PyObject*)result;
 }
@@ -256,10 +256,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* voltage = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
-                                                PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
-                                                PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y), 
-                                                PyFloat_FromDouble(V[j + layer_offsets[i]]));
+            PyObject* voltage = Py_BuildValue("(kddd)", (unsigned long)i, 
+                                                         self->simulation->meshes[i].data.pointlist[j].x,
+                                                         self->simulation->meshes[i].data.pointlist[j].y, 
+                                                         V[j + layer_offsets[i]]);
             PyList_SetItem(voltages, j + layer_offsets[i], voltage);
         }
     }
@@ -270,7 +270,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     PyObject* power_densities = PyList_New(P.size());
 
     for (uint64_t i = 0; i < P.size(); i++) {
-        PyObject* power_density = PyTuple_Pack(2, PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
+        PyObject* power_density = Py_BuildValue("(kd)", (unsigned long)i, P[i]);
         PyList_SetItem(power_densities, i, power_density);
     }
 
@@ -288,16 +288,16 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
-                                                 PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i])
+            PyObject* triangle = Py_BuildValue("(kkkk)", (unsigned long)i, 
+                                                          (unsigned long)(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
+                                                          (unsigned long)(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
+                                                          (unsigned long)(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i])
             );
             PyList_SetItem(triangles, j + triangle_offsets[i], triangle);
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, voltages, triangles, power_densities);
+    PyObject* result = Py_BuildValue("(NNN)", voltages, triangles, power_densities);
 
     return result;
 }
-- 
2.43.0


From ca4c963793d8ca35a915695cb0ed084df2f10512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 25/53] fix: generating a mesh without regions crashed

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 3be4fc7..c4426f4 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -171,6 +171,11 @@ namespace nikfemm {
 
     template <typename Prop>
     void Mesh<Prop>::mesh(double max_triangle_area, int min_angle, bool split_boundary) {
+        if (drawing.regions.empty()) {
+            // triangle doesn't output the region of the triangles in this case
+            nexit("Error: no regions in the drawing");
+        }
+
         triangulateio in;
 
         /* set up the input */
-- 
2.43.0


From d04ce6246b818b00125f1e442f70c4d7e659a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:42 +0000
Subject: [PATCH 26/53] fix: a segment of zero length added its point twice

---
 lib/nikfemm/src/drawing/drawing.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 0f7adc3..0cefe99 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -202,6 +202,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawSegment(Vector p1, Vector p2) {
+        // a segment of zero length is just a point
+        if (p1 == p2) {
+            drawPoint(p1);
+            return;
+        }
+
         // check if point is already in points
         bool p1_found = false;
         bool p2_found = false;
-- 
2.43.0


From c5cfc0334c45401c7207bb4815ca49db3865a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 27/53] fix: meshing again leaked the previous mesh, and left
 its counters behind if it failed

---
 lib/nikfemm/src/mesh/mesh.hpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index c4426f4..928244f 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -51,6 +51,22 @@ namespace nikfemm {
 
         int hullsize = 0;                                                  /* Out only */
 
+        inline void freeLists() {
+            // we don't know how triangle allocated the memory
+            if (pointlist != nullptr) free(pointlist);
+            if (pointattributelist != nullptr) free(pointattributelist);
+            if (pointmarkerlist != nullptr) free(pointmarkerlist);
+            if (trianglelist != nullptr) free(trianglelist);
+            if (triangleattributelist != nullptr) free(triangleattributelist);
+            if (neighborlist != nullptr) free(neighborlist);
+            if (segmentlist != nullptr) free(segmentlist);
+            if (segmentmarkerlist != nullptr) free(segmentmarkerlist);
+            if (holelist != nullptr) free(holelist);
+            if (edgelist != nullptr) free(edgelist);
+            if (edgemarkerlist != nullptr) free(edgemarkerlist);
+            *this = MeshData();
+        }
+
         inline Vector getElemBarycenter(uint32_t elem_id) {
             Elem myelem = trianglelist[elem_id];
             Vector p1 = pointlist[myelem[0]];
@@ -134,18 +150,7 @@ namespace nikfemm {
 
     template <typename Prop>
     Mesh<Prop>::~Mesh() {
-        // we don't know how triangle allocated the memory
-        if (data.pointlist != nullptr) free(data.pointlist);
-        if (data.pointattributelist != nullptr) free(data.pointattributelist);
-        if (data.pointmarkerlist != nullptr) free(data.pointmarkerlist);
-        if (data.trianglelist != nullptr) free(data.trianglelist);
-        if (data.triangleattributelist != nullptr) free(data.triangleattributelist);
-        if (data.neighborlist != nullptr) free(data.neighborlist);
-        if (data.segmentlist != nullptr) free(data.segmentlist);
-        if (data.segmentmarkerlist != nullptr) free(data.segmentmarkerlist);
-        if (data.holelist != nullptr) free(data.holelist);
-        if (data.edgelist != nullptr) free(data.edgelist);
-        if (data.edgemarkerlist != nullptr) free(data.edgemarkerlist);
+        data.freeLists();
     }
 
     template <typename Prop>
@@ -228,6 +233,8 @@ namespace nikfemm {
         /* Make necessary initializations so that Triangle can return a */
         /*   triangulation in `mid' and a voronoi diagram in `vorout'.  */
 
+        data.freeLists();
+
         data.pointlist = (Vector *) NULL;            /* Not needed if -N switch used. */
         /* Not needed if -N switch used or number of point attributes is zero: */
         data.pointattributelist = (TRI_REAL *) NULL;
-- 
2.43.0


From 35a751bdca831e8477ee3361cbd68488d14c0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 28/53] fix: plots of drawings or matrices with only negative
 numbers had the wrong range

---
 lib/nikfemm/src/algebra/csr.cpp     | 2 +-
 lib/nikfemm/src/drawing/drawing.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/algebra/csr.cpp b/lib/nikfemm/src/algebra/csr.cpp
index e5c8c67..829dc03 100644
--- a/lib/nikfemm/src/algebra/csr.cpp
+++ b/lib/nikfemm/src/algebra/csr.cpp
@@ -123,7 +123,7 @@ namespace nikfemm {
 
         // find min and max
         double min = std::numeric_limits<double>::max();
-        double max = std::numeric_limits<double>::min();
+        double max = std::numeric_limits<double>::lowest();
 
         for (uint32_t i = 0; i < nnz; i++) {
             if (val[i] < min) {
diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 0cefe99..634c999 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -441,9 +441,9 @@ namespace nikfemm {
     template <typename Prop>
     void Drawing<Prop>::plotRend(cv::Mat* image, double width, double height) {
         // get mesh enclosing rectangle
-        double max_x = std::numeric_limits<double>::min();
+        double max_x = std::numeric_limits<double>::lowest();
         double min_x = std::numeric_limits<double>::max();
-        double max_y = std::numeric_limits<double>::min();
+        double max_y = std::numeric_limits<double>::lowest();
         double min_y = std::numeric_limits<double>::max();
 
         for (auto p : points) {
-- 
2.43.0


From 22c22fa9017ba2166187c36321ac7f87616bc290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 29/53] fix: plotting a vertex with more than 255 triangles
 never ended

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 928244f..feda7cb 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -667,7 +667,7 @@ namespace nikfemm {
             
             // find the center of the points
             cv::Point center = {0, 0};
-            for (uint8_t j = 0; j < points.size(); j++) {
+            for (uint32_t j = 0; j < points.size(); j++) {
                 center.x += points[j].x;
                 center.y += points[j].y;
             }
-- 
2.43.0


From c263f56260aa96d68da640f8a6f1511de1738a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 30/53] fix: getPolygonProp returned a default property for a
 polygon that contains others

---
 lib/nikfemm/src/drawing/drawing.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 634c999..53729ee 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -412,7 +412,8 @@ namespace nikfemm {
             // if there are multiple regions, this means that there are polygons inside this polygon
             std::vector<Polygon> polygons_contained_by_polygon;
             for (Polygon polygon : polygons) {
-                if (p.contains(polygon)) {
+                // a polygon contains its own vertices
+                if (polygon != p && p.contains(polygon)) {
                     polygons_contained_by_polygon.push_back(polygon);
                 }
             }
-- 
2.43.0


From 41c9c9d3da3815987a7b364df9048e13d900eb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 31/53] fix: the outline of a circle far from the origin or
 with a large radius was not closed

---
 lib/nikfemm/src/drawing/drawing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index 53729ee..ca5156a 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -133,6 +133,10 @@ namespace nikfemm {
         for (uint32_t i = 0; i < n_segments; i++) {
             angle += angle_step;
             p2 = Vector(p.x + radius * cos(angle), p.y + radius * sin(angle));
+            if (i == n_segments - 1) {
+                // the last segment ends exactly where the first one starts, otherwise the rounding may leave large circles open
+                p2 = Vector(p.x + radius, p.y);
+            }
             drawSegment(p1, p2);
             p1 = p2;
             my_points.push_back(p2);
-- 
2.43.0


From 21a13d2b4e968b295b256ca66fb09380b0e43944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 32/53] fix: the minimum enclosing circle of duplicate,
 collinear or cocircular points could leave points out

---
 lib/nikfemm/src/geometry/circle.cpp | 44 +++++++++++++++++------------
 lib/nikfemm/src/geometry/circle.hpp |  4 ---
 2 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index ad8d972..60fd84c 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -52,29 +52,37 @@ namespace nikfemm {
         return getCircleFromPoints(points[0], points[1], points[2]);
     }
 
-    Circle Circle::welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n) {
-        if (n == 0 || R.size() == 3) {
-            return trivialCircleFromPoints(R);
-        }
-
-        uint32_t k = rand() % n;
-        Vector p = points[k];
-
-        std::swap(points[k], points[n - 1]);
-        Circle c = welzlHelper(points, R, n - 1);
-
-        if (c.contains(p)) {
-            return c;
-        }
-
-        R.push_back(p);
-        return welzlHelper(points, R, n - 1);
+    // the points that define a circle may be slightly outside of it because of the rounding of its center
+    static bool containsWithinRounding(const Circle& c, const Vector& p) {
+        double tolerance = 1e-12 * (c.radius + std::max(fabs(p.x), fabs(p.y)));
+        return Vector::distance(c.center, p) <= c.radius + tolerance;
     }
 
     Circle Circle::getMinimumEnclosingCircle(std::vector<Vector> points) {
         auto rng = std::default_random_engine {};
         std::shuffle(points.begin(), points.end(), rng);
-        return welzlHelper(points, std::vector<Vector>(), points.size());
+
+        // Welzl's algorithm: a point that is outside of the circle of the points before it is on the boundary of
+        // the circle that contains it too
+        Circle c = trivialCircleFromPoints({});
+        for (size_t i = 0; i < points.size(); i++) {
+            if (i > 0 && containsWithinRounding(c, points[i])) {
+                continue;
+            }
+            c = trivialCircleFromPoints({points[i]});
+            for (size_t j = 0; j < i; j++) {
+                if (containsWithinRounding(c, points[j])) {
+                    continue;
+                }
+                c = trivialCircleFromPoints({points[i], points[j]});
+                for (size_t k = 0; k < j; k++) {
+                    if (!containsWithinRounding(c, points[k])) {
+                        c = getCircleFromPoints(points[i], points[j], points[k]);
+                    }
+                }
+            }
+        }
+        return c;
     }
 
     Circle Circle::getMinimumEnclosingCircle(std::unordered_set<Vector> points) {
diff --git a/lib/nikfemm/src/geometry/circle.hpp b/lib/nikfemm/src/geometry/circle.hpp
index 509d008..fa7098a 100644
--- a/lib/nikfemm/src/geometry/circle.hpp
+++ b/lib/nikfemm/src/geometry/circle.hpp
@@ -60,10 +60,6 @@ namespace nikfemm {
             }
 
             static Circle trivialCircleFromPoints(std::vector<Vector> points);
-
-        protected:
-            static Circle welzlHelper(std::vector<Vector> points, std::vector<Vector> R, uint32_t n);
-        public:
             static Circle getMinimumEnclosingCircle(std::vector<Vector> points);
             static Circle getMinimumEnclosingCircle(std::unordered_set<Vector> points);
             static Circle getEnclosingCircle(std::vector<Vector> points);
-- 
2.43.0


From eb7823ae736127888ac0becf7854999488e6e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:31 +0000
Subject: [PATCH 33/53] fix: small triangle areas lost their digits or became
 zero in the triangle switches

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index feda7cb..2005b73 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -227,7 +227,7 @@ namespace nikfemm {
         }
         // printf("----------------------\n");
         char switches[400];  // %f needs more than 300 characters for the largest doubles
-        snprintf(switches, sizeof(switches), "pzq%d%sAQa%.17f", min_angle, split_boundary ? "" : "Y", max_triangle_area);
+        snprintf(switches, sizeof(switches), "pzq%d%sAQa%.40f", min_angle, split_boundary ? "" : "Y", max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From e0a2972d43c9f77fddc2f20d67190a1e290fca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 34/53] fix: the inertia moment neglected the moments of the
 triangles about their own barycenter

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 2005b73..b133768 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -565,7 +565,9 @@ namespace nikfemm {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter - center;
-                moment += triangle_area * r.normSquared();
+                // polar moment of the triangle about its own barycenter
+                double own_moment = triangle_area / 36 * ((p1 - p2).normSquared() + (p2 - p3).normSquared() + (p3 - p1).normSquared());
+                moment += triangle_area * r.normSquared() + own_moment;
             }
         }
 
-- 
2.43.0


From 1f57a5a3c9ff3cc6705c93d883ac4613c66e8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:03 +0000
Subject: [PATCH 35/53] fix: the inner edges of magnets with holes had no
 surface current

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 128 +------------------------
 1 file changed, 4 insertions(+), 124 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 301cc4d..6547667 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -66,131 +66,11 @@ namespace nikfemm {
 
                 // set the b vector
                 system.b[i] += (double_area * adjelems_props[i][j]->J) / 6;
-            }
-        }
-
-        // line integral
-        // in this section we find all the edges where there is a surface current (i.e. the edges where the M vector changes from element to element)
-        // to do this first of all we find all the segments in the drawing that are subject to a surface current and their outward normal
-        struct SurfaceCurrentSegment {
-            Vector p1, p2; // the two points that define the segment
-            double Jm; // surface current density on the segment (M x n) (pointing normal to the simulation plane)
-        };
-
-        // first we have to find the polygons that are magnets
-        // if the polygon contains a region that is a magnet and it does not contain any other polygon that contains the same region then it is a magnet
-        std::map<uint32_t, std::vector<Polygon>> polygons_that_contain_magnet_region;
-        for (auto region :drawing.regions) {
-            if (drawing.region_map[region.second].M != Vector(0, 0)) {
-                for (auto polygon : drawing.polygons) {
-                    if (polygon.contains(region.first)) {
-                        polygons_that_contain_magnet_region[region.second].push_back(polygon);
-                    }
-                }
-            }
-        }
-
-        struct Magnet {
-            Polygon polygon;
-            Vector M;
-            std::vector<SurfaceCurrentSegment> segments;
-        };
-
-        std::vector<Magnet> magnets;
-        for (auto region_poly_array : polygons_that_contain_magnet_region) {
-            if (region_poly_array.second.size() == 1) {
-                // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back({region_poly_array.second[0], drawing.region_map[region_poly_array.first].M, {}});
-                }
-            } else {
-                // this array contains a magnet and other polygons that contain the polygon that is a magnet
-                // we need to find the polygon that does not contain any other polygon that contains the same region
-                for (auto polygon : region_poly_array.second) {
-                    bool is_magnet = true;
-                    for (auto other_polygon : region_poly_array.second) {
-                        if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                            is_magnet = false;
-                            break;
-                        }
-                    }
-                    if (is_magnet) {
-                        magnets.push_back({polygon, drawing.region_map[region_poly_array.first].M, {}});
-                    }
-                }
-            }
-        }
-
-        // now we have to find the segments that are subject to a surface current and their outward normal
-        for (auto &magnet : magnets) {
-            for (uint32_t i = 0; i < magnet.polygon.points.size(); i++) {
-                uint32_t j = (i + 1) % magnet.polygon.points.size();
-                Vector p1 = magnet.polygon.points[i];
-                Vector p2 = magnet.polygon.points[j];
-                Vector n = (p2 - p1).normal().normalize();
-                // we need the outward normal
-                Vector test = Vector::midPoint(p1, p2) + (n * epsilon * 0.1);  // 0.1 just to make sure that we get no false negatives
-                if (magnet.polygon.contains(test)) {
-                    n = n * -1;
-                }
-                // draw arrow from the middle of p1 and p2 in the direction of n
-                Vector mid = Vector::midPoint(p1, p2);
-                double Jm = magnet.M ^ n;
-                magnet.segments.push_back({p1, p2, Jm});
-            }
-        }
-
-        // now we have to find the edges that are subject to a surface current
-        // i.e. the edges that lie on a segment that is subject to a surface current
-        // edges should be unique
 
-        // we need an unique list of edges
-        struct Edge {
-            uint32_t v1, v2;
-        };
-
-        struct EdgeHash {
-            static uint64_t edge_unique_hash(uint32_t v1, uint32_t v2) {
-                return (uint64_t)v1 << 32 | (uint64_t)v2;
-            }
-            std::size_t operator()(const Edge& edge) const {
-                return edge_unique_hash(edge.v1, edge.v2) * (edge.v1 > edge.v2) + edge_unique_hash(edge.v2, edge.v1) * (edge.v1 <= edge.v2);
-            }
-        };
-
-        struct EdgeEqual {
-            bool operator()(const Edge& edge1, const Edge& edge2) const {
-                return (edge1.v1 == edge2.v1 && edge1.v2 == edge2.v2) || (edge1.v1 == edge2.v2 && edge1.v2 == edge2.v1);
-            }
-        };
-
-        std::unordered_set<Edge, EdgeHash, EdgeEqual> edges;
-        edges.reserve((data.numberofpoints - 2) * 3);
-
-        for (uint32_t i = 0; i < data.numberoftriangles; i++) {
-            edges.insert({(uint32_t)data.trianglelist[i][0], (uint32_t)data.trianglelist[i][1]});
-            edges.insert({(uint32_t)data.trianglelist[i][1], (uint32_t)data.trianglelist[i][2]});
-            edges.insert({(uint32_t)data.trianglelist[i][2], (uint32_t)data.trianglelist[i][0]});
-        }
-
-        nloginfo("number of edges: %d, predicted number of edges: %d", edges.size(), (data.numberofpoints - 2) * 3);
-        
-
-        for (auto edge : edges) {
-            Vector p1 = data.pointlist[edge.v1];
-            Vector p2 = data.pointlist[edge.v2];
-            for (auto magnet : magnets) {
-                for (auto segment : magnet.segments) {
-                    double dist1 = Segment::pointSegmentDistance(p1, segment.p1, segment.p2);
-                    double dist2 = Segment::pointSegmentDistance(p2, segment.p1, segment.p2);
-                    if (dist1 < epsilon * 0.1 && dist2 < epsilon * 0.1) {
-                        // this edge is subject to a surface current
-                        double length = Vector::distance(p1, p2);
-                        // the current of the edge is shared between its two ends
-                        system.b[edge.v1] += 0.5 * length * segment.Jm;
-                        system.b[edge.v2] += 0.5 * length * segment.Jm;
-                    }
-                }
+                // the magnetization acts as a surface current M x n wherever M changes from element to element
+                // (edges of magnets, of their holes and between two magnets), this is its weak form
+                Vector M = adjelems_props[i][j]->M;
+                system.b[i] += double_area * (M.x * c1 - M.y * b1) * 0.5;
             }
         }
 
-- 
2.43.0


From d0af1ddc355c7afc3083421c11cba3eb51ead223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:52 +0000
Subject: [PATCH 36/53] fix: the geometric integrals could add elements of the
 exterior mesh

---
 lib/nikfemm/src/mesh/mesh.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index b133768..3a3e2db 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -128,6 +128,7 @@ namespace nikfemm {
         std::vector<Vector> computeCurl(std::vector<double>& in) const;
         std::vector<Vector> computeGrad(std::vector<double>& in) const;
         Polygon getInnermostPolygon(Vector p);
+        bool isElemInside(uint32_t elem_id, const Polygon& polygon) const;
         double computeAreaIntegral(Vector p);
         double computeMass(Vector p, double density);
         Vector computeBarycenter(Vector p);
@@ -501,6 +502,24 @@ namespace nikfemm {
         return integration_region;
     }
 
+    template <typename Prop>
+    bool Mesh<Prop>::isElemInside(uint32_t elem_id, const Polygon& polygon) const {
+        Elem myelem = data.trianglelist[elem_id];
+        Vector p1 = data.pointlist[myelem[0]];
+        Vector p2 = data.pointlist[myelem[1]];
+        Vector p3 = data.pointlist[myelem[2]];
+
+        // the elements of the kelvin mesh are outside, even if the barycenter of those around infinity can be anywhere
+        if (radius > 0) {
+            double max_norm = radius * (1 + 1e-9);
+            if (p1.norm() > max_norm || p2.norm() > max_norm || p3.norm() > max_norm) {
+                return false;
+            }
+        }
+
+        return polygon.contains((p1 + p2 + p3) / 3);
+    }
+
     template <typename Prop>
     double Mesh<Prop>::computeAreaIntegral(Vector p) {
         Polygon integration_region = getInnermostPolygon(p);
@@ -512,7 +531,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains((p1 + p2 + p3) / 3)) {
+            if (isElemInside(i, integration_region)) {
                 area += Vector::area(p1, p2, p3);
             }
         }
@@ -538,7 +557,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains((p1 + p2 + p3) / 3)) {
+            if (isElemInside(i, integration_region)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 area += triangle_area;
                 barycenter += ((p1 + p2 + p3) / 3) * triangle_area;
@@ -561,7 +580,7 @@ namespace nikfemm {
             Vector p2 = data.pointlist[data.trianglelist[i][1]];
             Vector p3 = data.pointlist[data.trianglelist[i][2]];
 
-            if (integration_region.contains((p1 + p2 + p3) / 3)) {
+            if (isElemInside(i, integration_region)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
                 Vector r = triangle_barycenter - center;
-- 
2.43.0


From 5bdc63023606713a18678837617fa8951225c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:50 +0000
Subject: [PATCH 37/53] fix: refining around magnets needed exponentially many
 points

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 6547667..da26419 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -155,13 +155,14 @@ namespace nikfemm {
             }
         }
         nloginfo("Found %lu magnets", magnets.size());
+        // the points added on an edge must not make the spacing of those of the next one smaller
+        double epsilon = drawing.getCurrentEpsilon();
         for (auto polygon : magnets) {
             for (uint32_t i = 0; i < polygon.points.size(); i++) {
                 Vector p1 = polygon.points[i];
                 Vector p2 = polygon.points[(i + 1) % polygon.points.size()];
                 
                 double multiplier = 10;
-                double epsilon = drawing.getCurrentEpsilon();
                 uint32_t n_points = Vector::distance(p1, p2) / (epsilon / multiplier);
                 // multiply by 1.1 to make sure that the points are far enough to not trigger conformity checks
                 // Vector normal = Vector::normal(p1, p2).versor() * (drawing.epsilon / multiplier) * 1.1;
-- 
2.43.0


From 879beceff8bc36f5f8c05047dcb4e864ac81b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 38/53] fix: the points around magnets could be on other edges,
 the corners could not be refined afterwards

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index da26419..987e1b0 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -189,8 +189,7 @@ namespace nikfemm {
                                     // check if the point is at least drawing.epsilon away from the edge
                                     Vector p3 = other_polygon.points[l];
                                     Vector p4 = other_polygon.points[(l + 1) % other_polygon.points.size()];
-                                    if (Vector::distance(mypoints[k], p3) < epsilon / multiplier ||
-                                        Vector::distance(mypoints[k], p4) < epsilon / multiplier) {
+                                    if (Segment::pointSegmentDistance(mypoints[k], p3, p4) < epsilon / multiplier) {
                                         mypoints_ok[k] = false;
                                         break;
                                     }
-- 
2.43.0


From 4a8dd236b3d0f3387bac89ff0bd6451866de6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 39/53] fix: judge the convergence of the nonlinear solver with
 the permeabilities of the field

The residual was taken with the damped permeabilities, which in the first iteration are those of the initial
residual of 1e10, squared, so that the iteration was declared converged with the wrong material.
---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 22 ++++++++++++++------
 lib/nikfemm/src/magnetostatic/simulation.hpp |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 657bf6c..1d1683d 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -20,7 +20,7 @@
 #include "../algebra/math.hpp"
 
 namespace nikfemm {
-    void MagnetostaticSimulation::updateMu(std::vector<Vector> B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, double residual, uint32_t iter) {
+    void MagnetostaticSimulation::updateMu(std::vector<Vector> B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, uint32_t iter) {
         assert(mu.size() == B.size());
         double kalman_scemo = exp(-((double)iter) / 5.);
         // printf("kalman_scemo: %.17g\n", kalman_scemo);
@@ -32,7 +32,7 @@ namespace nikfemm {
             if (props[i]->isLinear()) {
                 mu[i] = props[i]->getMu(Bmag);
             } else {
-                mu[i] = (props[i]->getMu(Bmag) * (1 - kalman_scemo)) + ((mu[i] + magnetostatic_materials::vacuum * residual * residual) * kalman_scemo); 
+                mu[i] = (props[i]->getMu(Bmag) * (1 - kalman_scemo)) + (mu[i] * kalman_scemo); 
                 // mu[i] += (props[i]->getMu(Bmag) - mu[i]) * 0.1;  // mu += (mu_new - mu) * 0.1
                 // mu[i] += props[i]->getMu(Bmag);  // pure newton-raphson
             }
@@ -129,6 +129,7 @@ namespace nikfemm {
         } else {
             nloginfo("nonlinear magnetostatic_materials detected, starting non linear newton solver");
             std::vector<double> r(system.b.size());  // residual
+            std::vector<double> mu_field(mu.size());
 
             double residual = 1e10;
             for (uint32_t i = 0; i < 500; i++) {
@@ -142,11 +143,14 @@ namespace nikfemm {
                 B = mesh.computeCurl(A);
                 // mesh.Bplot(B);
 
-                // check if the solution is correct
-                MagnetostaticSimulation::updateMu(B, props, mu, residual, i);
-                FemMat.evaluate(mu);
+                // check if the solution is correct, with the permeabilities that the materials have in this field
+                // (the damped ones of the iteration may still be far from those)
+                for (uint32_t i = 0; i < B.size(); i++) {
+                    mu_field[i] = props[i]->getMu(B[i].norm());
+                }
+                FemMat.evaluate(mu_field);
                 for (uint32_t i = 0; i < system.b.size(); i++) {
-                    b[i] = system.b[i].evaluate(mu);
+                    b[i] = system.b[i].evaluate(mu_field);
                 }
                 mult(r, FemMat, A);
                 sub(r, b, r);
@@ -160,6 +164,12 @@ namespace nikfemm {
                 // print mu
                 // nloginfo("%f,", residual);
                 fflush(stdout);
+
+                MagnetostaticSimulation::updateMu(B, props, mu, i);
+                FemMat.evaluate(mu);
+                for (uint32_t i = 0; i < system.b.size(); i++) {
+                    b[i] = system.b[i].evaluate(mu);
+                }
             }
         }
         auto tend = std::chrono::high_resolution_clock::now();
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index c54b626..bff64e7 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -48,7 +48,7 @@ namespace nikfemm {
             Vector computeForceIntegrals(std::vector<Vector> B, SurroundingRegionBlockIntegralAssets assets, Vector p);
             double computeTorqueIntegral(std::vector<Vector> B, SurroundingRegionBlockIntegralAssets assets, Vector p, Vector center);
         protected:
-            static void updateMu(std::vector<Vector> B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, double residual, uint32_t iter);
+            static void updateMu(std::vector<Vector> B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, uint32_t iter);
             auto getSurroundingRegionBlockIntegralAssets(std::vector<Vector> B, Vector p);
     };
 }
-- 
2.43.0


From dc9d94069427f4c56a7948815bda2ba103541bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:49 +0000
Subject: [PATCH 40/53] fix: let the eggshell function of forces and torques
 vanish on the outlines of the surrounding region

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 26 ++++++++++++++++----
 lib/nikfemm/src/magnetostatic/simulation.hpp |  1 +
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 1d1683d..02fc475 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -296,6 +296,8 @@ namespace nikfemm {
         std::vector<bool> vertex_inside_integration_region_with_boundary(mesh.data.numberofpoints);
         std::vector<bool> vertex_inside_boundary_region(mesh.data.numberofpoints);
         std::vector<bool> vertex_inside_boundary_region_hole(mesh.data.numberofpoints);
+        // the outlines where the eggshell ends: the one of the boundary region and the ones of its holes
+        std::vector<bool> vertex_on_eggshell_outline(mesh.data.numberofpoints);
 
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             Vector mypoint = mesh.data.pointlist[i];
@@ -303,17 +305,22 @@ namespace nikfemm {
             bool inside_integration_region = integration_region.contains(mypoint, false, mesh.epsilon);
             bool inside_boundary_region = boundary_region.contains(mypoint, true, mesh.epsilon);
             bool inside_boundary_region_hole = false;
+            bool on_eggshell_outline = inside_boundary_region && !boundary_region.contains(mypoint, false, mesh.epsilon);
             for (auto& hole : boundary_region_holes) {
                 if (hole.contains(mypoint, false, mesh.epsilon)) {
                     inside_boundary_region_hole = true;
                     break;
                 }
+                if (hole.contains(mypoint, true, mesh.epsilon)) {
+                    on_eggshell_outline = true;
+                }
             }
 
             vertex_inside_integration_region[i] = inside_integration_region;
             vertex_inside_integration_region_with_boundary[i] = inside_integration_region_with_boundary;
             vertex_inside_boundary_region[i] = inside_boundary_region;
             vertex_inside_boundary_region_hole[i] = inside_boundary_region_hole;
+            vertex_on_eggshell_outline[i] = on_eggshell_outline;
         }
 
         return SurroundingRegionBlockIntegralAssets{
@@ -325,7 +332,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_on_eggshell_outline
         };
     }
 
@@ -367,7 +375,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_on_eggshell_outline
         ] = assets;
 
         auto coo = MatCOOSymmetric<double>(mesh.data.numberofpoints);
@@ -442,12 +451,15 @@ namespace nikfemm {
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             zero_region[i] = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
             one_region[i] = !zero_region[i] && vertex_inside_integration_region_with_boundary[i];
+            // the function has to vanish on the outlines of the eggshell too, or the stress on them would be missing
+            if (vertex_on_eggshell_outline[i] && !one_region[i]) zero_region[i] = true;
         }
         imposeEggshellBoundaryConditions(coo, b, zero_region, one_region);
 
         MatCSRSymmetric Ai(coo);
         // Ai.write_to_file("Ad.txt");
-        auto g = std::vector<double>(mesh.data.numberofpoints);
+        // the vertices with a fixed value have to have exactly that value, however far the solver gets
+        auto g = std::vector<double>(one_region.begin(), one_region.end());
 
         // the error for this function varies a lot, so I just set the gradient to do at least 100 iterations and eventually stop at 1e-100
         preconditionedSSORConjugateGradientSolver(Ai, b, g, 1.5, 1e-100, 100);
@@ -513,7 +525,8 @@ namespace nikfemm {
             vertex_inside_integration_region,
             vertex_inside_integration_region_with_boundary,
             vertex_inside_boundary_region,
-            vertex_inside_boundary_region_hole
+            vertex_inside_boundary_region_hole,
+            vertex_on_eggshell_outline
         ] = assets;
 
         auto coo = MatCOOSymmetric<double>(mesh.data.numberofpoints);
@@ -588,12 +601,15 @@ namespace nikfemm {
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
             zero_region[i] = !vertex_inside_boundary_region[i] || vertex_inside_boundary_region_hole[i];
             one_region[i] = !zero_region[i] && vertex_inside_integration_region_with_boundary[i];
+            // the function has to vanish on the outlines of the eggshell too, or the stress on them would be missing
+            if (vertex_on_eggshell_outline[i] && !one_region[i]) zero_region[i] = true;
         }
         imposeEggshellBoundaryConditions(coo, b, zero_region, one_region);
 
         MatCSRSymmetric Ai(coo);
         // Ai.write_to_file("Ad.txt");
-        auto g = std::vector<double>(mesh.data.numberofpoints);
+        // the vertices with a fixed value have to have exactly that value, however far the solver gets
+        auto g = std::vector<double>(one_region.begin(), one_region.end());
 
         // the error for this function varies a lot, so I just set the gradient to do at least 100 iterations and eventually stop at 1e-100
         preconditionedSSORConjugateGradientSolver(Ai, b, g, 1.5, 1e-100, 100);
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index bff64e7..975a780 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -28,6 +28,7 @@ namespace nikfemm {
         std::vector<bool> vertex_inside_integration_region_with_boundary;
         std::vector<bool> vertex_inside_boundary_region;
         std::vector<bool> vertex_inside_boundary_region_hole;
+        std::vector<bool> vertex_on_eggshell_outline;
     };
 
     struct StressTensor {
-- 
2.43.0


From b10f7a1203a597f60fa489ad6053303a32cc5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 41/53] fix: an interconnection on a layer without conductors
 crashed the generation

---
 lib/nikfemm/src/current_density/multilayer_simulation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index 30bb9f2..4597d1f 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -76,6 +76,9 @@ namespace nikfemm {
             double epsilon2 = std::numeric_limits<double>::max();
             auto& drawing1 = meshes[interconnection.layer1_id].drawing;
             auto& drawing2 = meshes[interconnection.layer2_id].drawing;
+            if (drawing1.segments.empty() || drawing2.segments.empty()) {
+                nexit("error: interconnection on a layer without conductors");
+            }
 
             for (uint64_t i = 0; i < drawing1.segments.size(); i++) {
                 double dist = Segment::pointSegmentDistance(interconnection.p1, drawing1.points[drawing1.segments[i].p1], drawing1.points[drawing1.segments[i].p2]);
-- 
2.43.0


From 7490623ffe7a777d973f36c6796635300083c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 42/53] fix: refining a drawing with a point on a segment added
 points on top of its corners, which crashed the mesher

---
 lib/nikfemm/src/drawing/drawing.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index ca5156a..e588d0c 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -290,6 +290,10 @@ namespace nikfemm {
                     continue;
                 }
                 double dist = Segment::pointSegmentDistance(point, points[segment.p1], points[segment.p2]);
+                // a point that lies on a segment is part of it
+                if (dist < EPSILON) {
+                    continue;
+                }
                 if (dist < min_dist) {
                     min_dist = dist;
                 }
@@ -350,8 +354,8 @@ namespace nikfemm {
                 double angle = j * M_PI / 9;
                 Vector p = Vector(points[i].x + (epsilon / 100) * cos(angle), points[i].y + (epsilon / 100) * sin(angle));
                 
-                // check distance to segments
-                bool too_close = false;
+                // check distance to segments, and that the point isn't the corner itself because of rounding
+                bool too_close = p.x == points[i].x && p.y == points[i].y;
                 for (uint32_t k = 0; k < segments_containing_point.size(); k++) {
                     if (Segment::pointSegmentDistance(p, Segment(points[segments_containing_point[k].p1], points[segments_containing_point[k].p2])) < (epsilon / 100) / 2) {
                         too_close = true;
-- 
2.43.0


From 5dbe0abd6be315081afc3af3b24d1469064cb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 43/53] fix: the python binding used numbers that are too large
 for a double and then failed with a SystemError

---
 python/nikfemm.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 79f2e73..cd3ae6f 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -94,6 +94,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
             Py_XDECREF(self);
             return NULL;
         }
+        if (PyErr_Occurred()) {
+            // the number is too large
+            Py_XDECREF(self);
+            return NULL;
+        }
     }
 
     for (uint32_t i = 0; i < num_layers; i++) {
@@ -165,6 +170,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         default:
             break;
     }
+    if (PyErr_Occurred()) {
+        // a number is too large
+        return NULL;
+    }
     nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
 
     if (py_system == NULL) {
@@ -434,6 +443,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
         PyErr_SetString(PyExc_TypeError, "add_interconnection must have the fifth argument of type double");
         return NULL;
     }
+    if (PyErr_Occurred()) {
+        // the number is too large
+        return NULL;
+    }
 
     // printf("add_interconnection: p1 = (%f, %f), p2 = (%f, %f), layer1_id = %lu, layer2_id = %lu, R = %f\n", p1.x, p1.y, p2.x, p2.y, layer1_id, layer2_id, R);
 
-- 
2.43.0


From 0552f1a855ebe943498716f8f5ef2f0e6d59b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:23 +0000
Subject: [PATCH 44/53] fix: the mesher ignored a negative maximum area or
 minimum angle and never ended with an angle above 60 degrees

---
 lib/nikfemm/src/mesh/mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 3a3e2db..5808152 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -181,6 +181,13 @@ namespace nikfemm {
             // triangle doesn't output the region of the triangles in this case
             nexit("Error: no regions in the drawing");
         }
+        // triangle ignores a sign in its switches, and never ends with an angle that no triangle can have
+        if (!(max_triangle_area > 0)) {
+            nexit("Error: the maximum triangle area must be positive");
+        }
+        if (min_angle < 0 || min_angle > 60) {
+            nexit("Error: the minimum angle must be between 0 and 60 degrees");
+        }
 
         triangulateio in;
 
-- 
2.43.0


From 47d23fc348c3e4542766d8951ce5e18a969993b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:38 +0000
Subject: [PATCH 45/53] fix: the mesher crashed looking for a region outside of
 the convex hull of the drawing

---
 lib/nikfemm/src/triangle/triangle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index 74074e0..f2936d8 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -7794,7 +7794,12 @@ struct otri *searchtri;
   if (ahead < 0.0) {
     /* Turn around so that `searchpoint' is to the left of the */
     /*   edge specified by `searchtri'.                        */
-    symself(*searchtri);
+    sym(*searchtri, sampletri);
+    if (sampletri.tri == m->dummytri) {
+      /* There is nothing on the other side of an edge of the hull. */
+      return OUTSIDE;
+    }
+    otricopy(sampletri, *searchtri);
   } else if (ahead == 0.0) {
     /* Check if `searchpoint' is between `torg' and `tdest'. */
     if (((torg[0] < searchpoint[0]) == (searchpoint[0] < tdest[0])) &&
-- 
2.43.0


From 3d79838c4db6f5fb29177424f7f6e9e7972f0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 46/53] fix: plotting a field of nodes with a point that
 belongs to no triangle failed

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 5808152..83e6b2e 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -693,6 +693,11 @@ namespace nikfemm {
                 }
             }
             
+            // a point that belongs to no triangle has no cell
+            if (points.empty()) {
+                continue;
+            }
+
             // find the center of the points
             cv::Point center = {0, 0};
             for (uint32_t j = 0; j < points.size(); j++) {
-- 
2.43.0


From 155c6a8dde0d9edebd0cefe72429c96a26e36be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:28 +0000
Subject: [PATCH 47/53] fix: solving a system without unknowns read outside of
 the matrix

---
 lib/nikfemm/src/algebra/solvers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index 7618120..ba32a51 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -23,7 +23,7 @@ namespace nikfemm {
         }
 
         // invert upper triangle
-        for (int64_t i = A.m - 1; i >= 0; i--) {
+        for (int64_t i = (int64_t)A.m - 1; i >= 0; i--) {
             for (uint32_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) {
                 result[i] -= A.val[k] * result[A.col_ind[k]] * omega;
             }
-- 
2.43.0


From 84eb810f093d37fc0a2d344bcc6b6668679dc9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:28 +0000
Subject: [PATCH 48/53] fix: drawing a polygon without points read outside of
 its list of points

---
 lib/nikfemm/src/drawing/drawing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e588d0c..904444e 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -151,6 +151,10 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPolygon(Vector* points, uint32_t n_points) {
+        if (n_points == 0) {
+            nexit("Error: polygon without points");
+        }
+
         for (uint32_t i = 0; i < n_points - 1; i++) {
             drawSegment(points[i], points[i + 1]);
         }
-- 
2.43.0


From dbbb3c76609ef7d1b717128846010b10d0a713ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 49/53] fix: the mesher wrote outside of its queues when two of
 its points coincided

---
 lib/nikfemm/src/triangle/triangle.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/nikfemm/src/triangle/triangle.cpp b/lib/nikfemm/src/triangle/triangle.cpp
index f2936d8..d67d58f 100644
--- a/lib/nikfemm/src/triangle/triangle.cpp
+++ b/lib/nikfemm/src/triangle/triangle.cpp
@@ -7042,6 +7042,14 @@ vertex enqdest;
 {
   struct badtriang *newbad;
 
+  if (isinf(1.0 / minedge)) {
+    /* There is no queue for triangles with such a short edge. */
+    printf("Error:  Ran out of precision at (%.12g, %.12g).\n",
+           enqapex[0], enqapex[1]);
+    printf("A triangle has an edge without length.\n");
+    triexit(1);
+  }
+
   /* Allocate space for the bad triangle. */
   newbad = (struct badtriang *) poolalloc(&m->badtriangles);
   newbad->poortri = encode(*enqtri);
-- 
2.43.0


From 03289ce6ffe08bf54dcc4573fbc13a3c34ffac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:29 +0000
Subject: [PATCH 50/53] fix: a mesh could have points that are not finite

---
 lib/nikfemm/src/mesh/mesh.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 83e6b2e..7a2ebe0 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -262,6 +262,13 @@ namespace nikfemm {
         free(in.pointlist);
         free(in.segmentlist);
         free(in.regionlist);
+
+        for (uint32_t i = 0; i < data.numberofpoints; i++) {
+            if (!std::isfinite(data.pointlist[i].x) || !std::isfinite(data.pointlist[i].y)) {
+                // the center of the circle through the corners of a flat triangle
+                nexit("Error: the mesher ran out of precision");
+            }
+        }
     }
 
     template <typename Prop>
-- 
2.43.0


From cb858d184386bd7a4aac61476eea25f1be6f009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:40 +0000
Subject: [PATCH 51/53] fix: no flat triangles at the segments when no minimum
 angle is asked for

---
 lib/nikfemm/src/mesh/mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 7a2ebe0..4abee14 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -235,7 +235,8 @@ namespace nikfemm {
         }
         // printf("----------------------\n");
         char switches[400];  // %f needs more than 300 characters for the largest doubles
-        snprintf(switches, sizeof(switches), "pzq%d%sAQa%.40f", min_angle, split_boundary ? "" : "Y", max_triangle_area);
+        // with an angle of zero a point that is inserted on a segment may be taken for one beside it: a triangle without area
+        snprintf(switches, sizeof(switches), "pzq%d%sAQa%.40f", std::max(min_angle, 1), split_boundary ? "" : "Y", max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From 5ac6f8f7a158edec6de40db927491d2cc1a2756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:16 +0000
Subject: [PATCH 52/53] fix: polygons with the same outline are equal, from
 whichever vertex they are drawn

---
 lib/nikfemm/src/geometry/polygon.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/geometry/polygon.cpp b/lib/nikfemm/src/geometry/polygon.cpp
index 2a7e08e..e1821cd 100644
--- a/lib/nikfemm/src/geometry/polygon.cpp
+++ b/lib/nikfemm/src/geometry/polygon.cpp
@@ -24,13 +24,21 @@ namespace nikfemm {
             return false;
         }
 
-        for (size_t i = 0; i < points.size(); i++) {
-            if (points[i] != p.points[i]) {
-                return false;
+        // the same outline can start from any vertex and go around either way
+        size_t n = points.size();
+        for (size_t start = 0; start < n; start++) {
+            bool same_way = true;
+            bool other_way = true;
+            for (size_t i = 0; i < n && (same_way || other_way); i++) {
+                same_way = same_way && points[i] == p.points[(start + i) % n];
+                other_way = other_way && points[i] == p.points[(start + n - i) % n];
+            }
+            if (same_way || other_way) {
+                return true;
             }
         }
 
-        return true;
+        return n == 0;
     }
 
     bool Polygon::operator!=(const Polygon& p) const {
-- 
2.43.0


From 6c3dac462225aa0923c28a96de0ec41d7187ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:58 +0000
Subject: [PATCH 53/53] fix: plotting a mesh that has not been generated read
 beyond the end of the empty list of values

---
 lib/nikfemm/src/mesh/mesh.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 4abee14..fc392f3 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -660,6 +660,10 @@ namespace nikfemm {
     #ifdef NIKFEMM_USE_OPENCV
     template <typename Prop>
     void Mesh<Prop>::NodeScalarPlotRend(cv::Mat* image, double width, double height, std::vector<double>& scalar, bool plot_mesh, bool plot_regions, bool clip_to_radius) {
+        if (scalar.empty()) {
+            nexit("Error: there are no values to plot");
+        }
+
         double x_scale, y_scale, x_offset, y_offset;
 
         getMeshScaleOffset(width, height, x_scale, y_scale, x_offset, y_offset, clip_to_radius);
@@ -800,6 +804,10 @@ namespace nikfemm {
 
     template <typename Prop>
     void Mesh<Prop>::ElemScalarPlotRend(cv::Mat* image, double width, double height, std::vector<double>& scalar, bool plot_mesh, bool plot_regions, bool clip_to_radius) {
+        if (scalar.empty()) {
+            nexit("Error: there are no values to plot");
+        }
+
         double x_scale, y_scale, x_offset, y_offset;
 
         getMeshScaleOffset(width, height, x_scale, y_scale, x_offset, y_offset, clip_to_radius);
-- 
2.43.0

