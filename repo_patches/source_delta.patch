From c0ab00451fd3567410c4f8624a70a191c8dc3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 01/98] fix: curve_point treats control points as homogeneous
 like insertion, splitting, boxes and surfaces do

---
 cmmcore/nurbs_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..3e1ecfd 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -133,8 +133,9 @@ namespace cmmcore {
 
         for (int i = 0; i < pp; ++i) {
             const int idx = span - p + i;
-            const double b = N[i] * P[idx].w;
-            sum_of_weights += b;
+            // control points are homogeneous: (w*x, w*y, w*z, w)
+            const double b = N[i];
+            sum_of_weights += b * P[idx].w;
             result.x += b * P[idx].x;
             result.y += b * P[idx].y;
             result.z += b * P[idx].z;
-- 
2.43.0


From 52892ff3cd83c18f9df88e460e9478cdc124f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:47 +0000
Subject: [PATCH 02/98] fix: basis function derivatives work for every degree
 up to CMMCORE_MAX_DEGREE, not only up to 3

---
 cmmcore/nurbs_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 3e1ecfd..4790a39 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -163,18 +163,18 @@ namespace cmmcore {
      * @param ders Output 2D vector where `ders[k][j]` contains the `k`-th derivative of the `j`-th nonzero basis function at `u`.
      */
     inline void ders_basis_funs(const int i, const double u, const int p, const int n, const std::vector<double> &U,
-                                std::vector<vec4> &ders) {
+                                std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > &ders) {
         int pp = p + 1;
         int nn = n + 1;
 
         // Initialize ders with zeros
-        ders.assign(nn, vec4( 0.0,0.0,0.0,.0));
+        ders.assign(nn, std::array<double, CMMCORE_DEG_STACK_SIZE>{});
 
-        std::array<vec4,CMMCORE_DEG_STACK_SIZE> ndu{};
+        std::array<std::array<double,CMMCORE_DEG_STACK_SIZE>,CMMCORE_DEG_STACK_SIZE> ndu{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> left{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> right{};
         //std::vector<double> right(pp, 0.0);
-        std::array<vec4,2>  a;
+        std::array<std::array<double,CMMCORE_DEG_STACK_SIZE>,2> a{};
 
         ndu[0][0] = 1.0;
 
@@ -276,7 +276,7 @@ namespace cmmcore {
 
         int span = find_span(n, p, u, U, is_periodic);
 
-        std::vector<vec4> nders;
+        std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > nders;
         ders_basis_funs(span, u, p, du, U, nders);
 
         int pp = p + 1;
-- 
2.43.0


From 8eb6f276e82d89efffb5dc802abbbe6b92c685db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 03/98] fix: derivatives of rational curves use the quotient
 rule, orders above the degree are zero instead of read out of bounds

---
 cmmcore/nurbs.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..2c71c9c 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -329,6 +329,7 @@ namespace cmmcore {
             std::vector<vec4> CK(1);
 
             curve_derivs_alg1(n, _degree, knots, control_points, t, 1, CK, _periodic);
+            project_derivatives(CK);
             auto der = CK[1];
 
             //printf("(%f,%f,%f,%f)\n",der.x,der.y,der.z,der.w);
@@ -337,6 +338,24 @@ namespace cmmcore {
             result.z = der.z;
         }
 
+        // Turn derivatives of the homogeneous curve into derivatives of the curve itself (quotient rule)
+        static void project_derivatives(std::vector<vec4> &CK) {
+            const double w = CK[0].w;
+            for (size_t k = 0; k < CK.size(); ++k) {
+                double binom = 1.0;
+                for (size_t i = 1; i <= k; ++i) {
+                    binom = binom * (k - i + 1) / i;
+                    const double b = binom * CK[i].w;
+                    CK[k].x -= b * CK[k - i].x;
+                    CK[k].y -= b * CK[k - i].y;
+                    CK[k].z -= b * CK[k - i].z;
+                }
+                CK[k].x /= w;
+                CK[k].y /= w;
+                CK[k].z /= w;
+            }
+        }
+
 
         double length(const double t0, const double t1, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
             double result = 0.0;
@@ -383,6 +402,9 @@ namespace cmmcore {
 
             std::vector<vec4> CK(result.size());
             curve_derivs_alg1(n, _degree, knots, control_points, t, d, CK, _periodic);
+            // orders above the degree vanish for the homogeneous curve
+            CK.resize(std::max(CK.size(), d), vec4(0.0, 0.0, 0.0, 0.0));
+            project_derivatives(CK);
             for (int i = 0; i < d; ++i) {
                 auto &der = CK[i];
                 auto &target = result[i];
-- 
2.43.0


From fb33c22df386b6b720b6575eb44c01abe106d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 04/98] fix: second_derivative_fdm computes the second
 difference it documents, not the first

---
 cmmcore/nurbs.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 2c71c9c..e73363c 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -444,11 +444,13 @@ namespace cmmcore {
          \frac{d^2 f(t)}{dt^2} \approx \frac{f(t + h) - 2f(t) + f(t - h)}{h^2}
          */
         void second_derivative_fdm(const double t, vec3 &result) const {
-            vec3 temp;
+            vec3 temp, mid;
             evaluate(t - 1e-5, temp);
+            evaluate(t, mid);
             evaluate(t + 1e-5, result);
-            result -= temp;
-            result /= 2e-5;
+            result -= (2 * mid);
+            result += temp;
+            result /= 1e-10;
         }
 
 
-- 
2.43.0


From 03a75da2bc5928ad395d2f5c407d98d23b5fbe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 05/98] fix: vector lengths are computed in double precision

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..9c2cee7 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -415,7 +415,7 @@ struct vec3 {
     #else
     double sq=x*x+y*y+z*z;
     #endif
-    return sqrtf(sq);
+    return std::sqrt(sq);
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
@@ -948,7 +948,7 @@ struct vec4 {
     return res;
     #else
     double sq=x*x+y*y+z*z+w*w;
-    return sqrtf(sq);
+    return std::sqrt(sq);
     #endif
 
   }
-- 
2.43.0


From 103626b7e546e464d79b1a70d19b8a9fc4af9263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 06/98] fix: unitize also normalises vectors shorter than one

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9c2cee7..9e09fe6 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -419,7 +419,7 @@ struct vec3 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else {
       x/=l;
       y/=l;
@@ -954,7 +954,7 @@ struct vec4 {
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else
     {
       x/=(w*l);
-- 
2.43.0


From 82be39518bff7c296c5bccf22d1a9fc95e62e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 07/98] fix: batch dot product does not touch the element past
 the end

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9e09fe6..ba41211 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -599,7 +599,7 @@ inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
 
 #else
 inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
-  for (int i=0; i  <= vecs.size; i ++) {
+  for (size_t i=0; i < vecs.size; i ++) {
     result[i]=v.dot(vecs.x[i],vecs.y[i],vecs.z[i]);
   }
 }
-- 
2.43.0


From 464c18c72c32b64b7f4e20b72d251d49e802bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/98] fix: mag2 squares the first component

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index ba41211..bf25615 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -607,7 +607,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 #define sqr(x) ((x)*(x))
 double mag2(const vec3 &a)
 {
-  double l=std::sqrt(a[0]);
+  double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
   return l;
 }
-- 
2.43.0


From 755944f5d1f30c90cf1c739683f877891766038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 09/98] fix: dist is the Euclidean distance

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index bf25615..facd240 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -617,7 +617,7 @@ inline double dot(const vec3& a, const vec3& b) {
 }
 inline double dist(const vec3& a, const vec3& b) {
 
-  return  std::sqrt((a.x-b.x)+(a.y-b.y)+(a.z-b.z));;
+  return (a-b).length();
 }
 inline double dist2(const vec3& a, const vec3& b) {
 
-- 
2.43.0


From 03d3c4bae584978f04ec11e655a53f332390a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 10/98] fix: cross product of homogeneous vectors mixes both
 operands correctly

---
 cmmcore/vec.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index facd240..9f5d22e 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -857,9 +857,9 @@ struct vec4 {
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
     auto v2=b.to_vec3();
-    result.x = v1.y * v2.z -  v2.z *  v2.y;
-    result.y=  v1.z * v2.x  - v2.x * v2.z;
-    result.z=  v1.x * v2.y  - v2.y * v2.x;
+    result.x = v1.y * v2.z -  v1.z *  v2.y;
+    result.y=  v1.z * v2.x  - v1.x * v2.z;
+    result.z=  v1.x * v2.y  - v1.y * v2.x;
     result.w=1.;
   }
   void cross( const vec3& b, vec3& result ) const {
-- 
2.43.0


From 22f62ff84982e11c189ea0d9f15c8645b0d9f359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 11/98] fix: vec4::add sets the fourth component, as its NEON
 path does

---
 cmmcore/vec.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9f5d22e..ca59836 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -929,6 +929,7 @@ struct vec4 {
     result.x=x + b.x;
     result.y=y + b.y;
     result.z=z + b.z;
+    result.w=w + b.w;
 #endif
 
   }
-- 
2.43.0


From e4b4aa2a3f9e6cb9e846db8bbfe720ac23de5285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 12/98] fix: vec4::dot includes the fourth component, as its
 NEON path does

---
 cmmcore/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index ca59836..21a02c6 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -842,7 +842,7 @@ struct vec4 {
 
 #else
 
-    return x * b.x + y * b.y + z * b.z;
+    return x * b.x + y * b.y + z * b.z + w * b.w;
 #endif
   }
 
-- 
2.43.0


From ba10a00961d0de05ebcfcc424faaa6e8d5512093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 13/98] fix: vec4 equality compares all four components

---
 cmmcore/vec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 21a02c6..f461300 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -762,7 +762,8 @@ struct vec4 {
 
     return std::abs(x - other.x) < std::numeric_limits<double>::epsilon() &&
            std::abs(y - other.y) < std::numeric_limits<double>::epsilon()&&
-           std::abs(z - other.z) < std::numeric_limits<double>::epsilon();
+           std::abs(z - other.z) < std::numeric_limits<double>::epsilon()&&
+           std::abs(w - other.w) < std::numeric_limits<double>::epsilon();
   }
   /**
  * @brief Access vector components by index.
-- 
2.43.0


From 80f73a4cf17c5b4140106ba8d7d3b51459000a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 14/98] fix: printed vectors separate all components

---
 cmmcore/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f461300..f8b1922 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -995,13 +995,13 @@ struct vec4 {
     return os;
   }
   std::ostream& operator<<(std::ostream& os, const vec3& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z <<"]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z <<"]";
     return os;
   }
 
 
   std::ostream& operator<<(std::ostream& os, const vec4& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z << obj.w << "]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z << "," << obj.w << "]";
     return os;
   }
 
-- 
2.43.0


From 5bcc5b543d92d9df54f710394672a55acf3769af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 15/98] fix: moving a curve keeps its periodicity

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index e73363c..d38e099 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From b442c5ba3ce6c0cfa48b65455319be19e3bae054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:45 +0000
Subject: [PATCH 16/98] fix: the bounding box of a curve follows its control
 points

---
 cmmcore/nurbs.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index d38e099..ff61643 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -263,6 +263,7 @@ namespace cmmcore {
             // Update curve
             knots = std::move(k_v);
             update_interval();
+            rebuildAABB();
         }
 
         // Split the curve at a given parameter value
@@ -471,6 +472,7 @@ namespace cmmcore {
                                  derivative.control_points);
 
             derivative.update_interval();
+            derivative.rebuildAABB();
         }
 
         NURBSCurve get_derivative() const {
@@ -478,6 +480,7 @@ namespace cmmcore {
             get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
                                  derivative.control_points);
             derivative.update_interval();
+            derivative.rebuildAABB();
             return derivative;
         }
 
@@ -513,6 +516,7 @@ namespace cmmcore {
                     generate_knots();
                 }
             }
+            rebuildAABB();
         }
 
         int get_degree() const {
-- 
2.43.0


From 197cba777bde0588017ddc76a57c8bc40bd96bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 17/98] fix: derivative surfaces can be evaluated (size, domain
 and weights were never set)

---
 cmmcore/nurbs.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index ff61643..56527c0 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1187,8 +1187,16 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             };
             result._control_points = new_control_points;
             result._degree = new_degrees;
+            // like the derivative curve, the derivative surface is not rational
+            for (auto &row: result._control_points) {
+                for (auto &pt: row) {
+                    pt.w = 1.0;
+                }
+            }
             result._knots_u = direction == 0 ? new_knots : _knots_u;
             result._knots_v = direction == 1 ? new_knots : _knots_v;
+            result._size = {result._control_points.size(), result._control_points[0].size()};
+            result.update_interval();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From 6fd60b8f6829839a07f7b6cdd423afa066a483d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 18/98] fix: aabb() of a surface is the box of its control
 points

---
 cmmcore/nurbs.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 56527c0..af44f63 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -760,6 +760,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         NURBSSurface(const std::vector<std::vector<vec3> > &control_points, const std::array<int, 2> &degree,
@@ -786,6 +787,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         std::array<size_t, 2> &shape() {
@@ -894,6 +896,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _size[0] += count;
 
                 _knots_u = kv;
+                rebuildAABB();
             } else {
                 insert_knot_v(t, count);
             }
@@ -921,6 +924,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             _knots_v = std::move(k_v);
             _size[1] = new_count_v;
             update_interval();
+            rebuildAABB();
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_u(double param, double tol = 1e-7) const {
@@ -1104,6 +1108,17 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             return _aabb;
         }
 
+        // Recompute the box returned by aabb() from the control points
+        void rebuildAABB() {
+            _aabb.min.set(_control_points[0][0].to_vec3());
+            _aabb.max.set(_control_points[0][0].to_vec3());
+            for (const auto &row: _control_points) {
+                for (const auto &pt: row) {
+                    _aabb.expand(pt.to_vec3());
+                }
+            }
+        }
+
         AABB &bbox() {
             _bbox.min.set(_control_points[0][0].to_vec3());
             _bbox.max.set(_control_points[0][0].to_vec3());
@@ -1197,6 +1212,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._knots_v = direction == 1 ? new_knots : _knots_v;
             result._size = {result._control_points.size(), result._control_points[0].size()};
             result.update_interval();
+            result.rebuildAABB();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From 076a9859b6f4f7652e2fc065e88fc780a3245ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 19/98] fix: extracted isocurves carry their bounding box

---
 cmmcore/nurbs.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index af44f63..418c31d 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1271,6 +1271,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     crv.control_points[i] = point;
                 }
                 crv.update_interval();
+                crv.rebuildAABB();
 
                 return crv;
             } else {
@@ -1304,6 +1305,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     }
                     crv.control_points[i] = point;
                 }
+                crv.rebuildAABB();
 
                 return crv;
             }
-- 
2.43.0


From 5dd69dbad99903af4e10b3c693f0847d18cfc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 20/98] fix: splitting and inserting next to an existing knot
 use that knot, as the multiplicity count does

---
 cmmcore/nurbs.h       | 10 ++++++++--
 cmmcore/nurbs_utils.h | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 418c31d..b94ab5f 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -242,6 +242,7 @@ namespace cmmcore {
 
         // Insert knots into the curve
         void insert_knot(double t, int count) {
+            t = snap_to_knot(t, knots);
             int n = static_cast<int>(control_points.size());
             int new_count = n + count;
             const std::vector<vec4> cpts = control_points;
@@ -267,7 +268,8 @@ namespace cmmcore {
         }
 
         // Split the curve at a given parameter value
-        std::pair<NURBSCurve, NURBSCurve> split(const double param, const bool normalize_knots = false) const {
+        std::pair<NURBSCurve, NURBSCurve> split(double param, const bool normalize_knots = false) const {
+            param = snap_to_knot(param, knots);
             if (param <= _interval[0] || param >= _interval[1] ||
                 std::fabs(param - _interval[0]) <= 1e-12 || std::fabs(param - _interval[1]) <= 1e-12) {
                 throw std::invalid_argument("Cannot split from the domain edge.");
@@ -871,8 +873,9 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result.normalize();
         }
 
-        void insert_knot(const double t, const int direction, const int count) {
+        void insert_knot(double t, const int direction, const int count) {
             if (direction == 0) {
+                t = snap_to_knot(t, _knots_u);
                 int s = find_multiplicity(t, _knots_u);
                 int span = find_span(_control_points.size() - 1, _degree[0], t, _knots_u, false);
 
@@ -907,6 +910,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         void insert_knot_v(double t, int count) {
+            t = snap_to_knot(t, _knots_v);
             std::size_t new_count_u = _control_points.size();
             std::size_t new_count_v = _control_points[0].size() + count;
             auto cpts = _control_points;
@@ -928,6 +932,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_u(double param, double tol = 1e-7) const {
+            param = snap_to_knot(param, _knots_u);
             if (param <= _interval[0][0] || param >= _interval[0][1] || std::fabs(param - _interval[0][0]) <= tol ||
                 std::fabs(param - _interval[0][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
@@ -960,6 +965,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_v(double param, double tol = 1e-7) const {
+            param = snap_to_knot(param, _knots_v);
             if (param <= _interval[1][0] || param >= _interval[1][1] || std::fabs(param - _interval[1][0]) <= tol ||
                 std::fabs(param - _interval[1][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 4790a39..b84fa35 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -593,6 +593,22 @@ namespace cmmcore {
         return mult;
     }
 
+    /**
+     * @brief The knot that find_multiplicity takes for the given parameter, or the parameter itself if there is none.
+     *
+     * @param u The parameter value.
+     * @param knot_vector The knot vector.
+     * @return The existing knot within the tolerance of find_multiplicity, otherwise u.
+     */
+    inline double snap_to_knot(const double u, const std::vector<double> &knot_vector) noexcept {
+        for (const auto &kv: knot_vector) {
+            if (std::fabs(u - kv) <= 1e-12) {
+                return kv;
+            }
+        }
+        return u;
+    }
+
     /**
  * @brief Computes the alpha value for knot insertion.
  *
-- 
2.43.0


From 227a59c7bfe37a89bb3660429a18d68724330084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 21/98] fix: derivative surfaces of surfaces with equal weights
 other than one

---
 cmmcore/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index b94ab5f..864c5d4 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1186,7 +1186,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 for (std::size_t j = 0; j < _size[1]; ++j) {
                     for (std::size_t i = 0; i < _size[0] - 1; ++i) {
                         double factor = _degree[0] / (_knots_u[i + _degree[0] + 1] - _knots_u[i + 1]);
-                        new_control_points[i][j] = (_control_points[i + 1][j] - _control_points[i][j]) * factor;
+                        new_control_points[i][j].set((_control_points[i + 1][j].to_vec3() - _control_points[i][j].to_vec3()) * factor);
                     }
                 }
             } else {
@@ -1198,7 +1198,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 for (std::size_t i = 0; i < _size[0]; ++i) {
                     for (std::size_t j = 0; j < _size[1] - 1; ++j) {
                         double factor = _degree[1] / (_knots_v[j + _degree[1] + 1] - _knots_v[j + 1]);
-                        new_control_points[i][j] = (_control_points[i][j + 1] - _control_points[i][j]) * factor;
+                        new_control_points[i][j].set((_control_points[i][j + 1].to_vec3() - _control_points[i][j].to_vec3()) * factor);
                     }
                 }
             }
-- 
2.43.0


From c034df2ae18265ac01c48fdec821497c506c1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 22/98] fix: free extract_isocurve keeps the knots of a fixed-v
 curve and the bounding boxes

---
 cmmcore/boundary_intersection.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..32e744e 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -63,6 +63,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point);
         }
         crv.update_interval();
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -86,6 +87,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        crv.knots = surface._knots_u;
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
@@ -95,6 +98,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             }
             crv.control_points[i] = point;
         }
+        crv.rebuildAABB();
 
         return crv;
     }
-- 
2.43.0


From 6dfc588890bb665cbae4918a2f72ee03b0abb3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 23/98] fix: knot removal removes the right control points, and
 only where the curve allows it

---
 cmmcore/nurbs_utils.h | 55 ++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index b84fa35..8f5d3b9 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -769,7 +769,7 @@ namespace cmmcore {
      * @param tol Tolerance for point distance comparison.
      * @param num Number of times to remove the knot.
      * @param is_periodic Indicates if the curve is periodic.
-     * @return New control points after knot removal.
+     * @return New control points after knot removal; as many fewer as knots could be removed within the tolerance.
      */
     inline std::vector<vec4> knot_removal(int degree, const std::vector<double> &knots,
                                                           const std::vector<vec4> &ctrlpts,
@@ -786,21 +786,22 @@ namespace cmmcore {
         std::vector<vec4> ctrlpts_new = ctrlpts;
         std::vector<vec4> temp(2 * degree + 1,vec4(0.,0.,0.,0.));
 
-        for (int t = 0; t < num; ++t) {
-            temp[0] = ctrlpts[first - 1];
-            temp[last - first + 2] = ctrlpts[last + 1];
+        int t = 0;
+        for (; t < num; ++t) {
+            temp[0] = ctrlpts_new[first - 1];
+            temp[last - first + 2] = ctrlpts_new[last + 1];
             int i = first;
             int j = last;
             int ii = 1;
             int jj = last - first + 1;
             bool remflag = false;
 
-            while (j - i >= t) {
+            while (j - i > t) {
                 double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
                 double alpha_j = knot_removal_alpha_j(u, degree, knots, t, j);
                 for (int k = 0; k < dim; ++k) {
-                    temp[ii][k] = (ctrlpts[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
-                    temp[jj][k] = (ctrlpts[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
+                    temp[ii][k] = (ctrlpts_new[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
+                    temp[jj][k] = (ctrlpts_new[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
                 }
                 i += 1;
                 j -= 1;
@@ -818,28 +819,44 @@ namespace cmmcore {
                 for (int k = 0; k < dim; ++k) {
                     ptn[k] = alpha_i * temp[ii + t + 1][k] + (1.0 - alpha_i) * temp[ii - 1][k];
                 }
-                if (point_distance(&ctrlpts[i].x, &ptn.x, dim) <= tol) {
+                if (point_distance(&ctrlpts_new[i].x, &ptn.x, dim) <= tol) {
                     remflag = true;
                 }
             }
 
-            if (remflag) {
-                i = first;
-                j = last;
-                while (j - i > t) {
-                    ctrlpts_new[i] = temp[i - first + 1];
-                    ctrlpts_new[j] = temp[j - first + 1];
-                    i += 1;
-                    j -= 1;
-                }
+            if (!remflag) {
+                break;
+            }
+            i = first;
+            j = last;
+            while (j - i > t) {
+                ctrlpts_new[i] = temp[i - first + 1];
+                ctrlpts_new[j] = temp[j - first + 1];
+                i += 1;
+                j -= 1;
             }
 
             first -= 1;
             last += 1;
         }
 
-        int t_total = num;
-        int new_size = static_cast<int>(ctrlpts_new.size()) - t_total;
+        // Shift the control points that follow the removed ones
+        int j = (2 * r - s - degree) / 2;
+        int i = j;
+        for (int k = 1; k < t; ++k) {
+            if (k % 2 == 1) {
+                i += 1;
+            } else {
+                j -= 1;
+            }
+        }
+        if (t > 0) {
+            for (int k = i + 1; k <= n; ++k) {
+                ctrlpts_new[j] = ctrlpts_new[k];
+                j += 1;
+            }
+        }
+        int new_size = static_cast<int>(ctrlpts_new.size()) - t;
 
         ctrlpts_new.resize(new_size);
 
-- 
2.43.0


From d4c1c84fc0418b6543638bd80c8831322504c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 24/98] fix: surface_deriv_cpts with a window that does not
 start at the first row

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 8f5d3b9..7a5e3f4 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -410,7 +410,7 @@ namespace cmmcore {
 
                 // Extract the control points for the current U-curve
                 for (int j = 0; j <= s; ++j) {
-                    temp_cpts_v[j] = PKL[k][0][i][j];
+                    temp_cpts_v[ss[0] + j] = PKL[k][0][i][j];
                 }
 
                 // Compute derivative control points in V direction
-- 
2.43.0


From df4b24ab7d9c97f3cfd4b61da40ab70ff6863390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 25/98] fix: ccx rebuilds the bounding boxes first, as
 documented

---
 cmmcore/ccx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index ef226fb..8f1999d 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -91,8 +91,8 @@ namespace cmmcore {
     */
     inline void ccx(NURBSCurve &c1, NURBSCurve &c2, double tol, std::vector<std::pair<double, double> > &result) {
 
-        auto &bb1 = c1.aabb();
-        auto &bb2 = c2.aabb();
+        auto &bb1 = c1.bbox();
+        auto &bb2 = c2.bbox();
         auto iv1 = c1.interval();
         auto iv2 = c2.interval();
         if (bb1.intersects(bb2)) {
-- 
2.43.0


From 157c47bc8e6f8293de916e42492bc32be5185e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 26/98] fix: ccx does not miss crossings where the boxes only
 touch

---
 cmmcore/ccx.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index 8f1999d..41db55c 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -95,7 +95,9 @@ namespace cmmcore {
         auto &bb2 = c2.bbox();
         auto iv1 = c1.interval();
         auto iv2 = c2.interval();
-        if (bb1.intersects(bb2)) {
+        // Boxes that touch (the curves meet at a split, or lie in a common plane) must not be missed by rounding
+        const vec3 margin(0.01 * tol, 0.01 * tol, 0.01 * tol);
+        if (AABB(bb1.min - margin, bb1.max + margin).intersects(bb2)) {
             if ((bb1.max - bb1.min).length() < tol && (bb2.max - bb2.min).length() < tol) {
                 size_t l = result.size();
                 double _first = 0.5 * (iv1[0] + iv1[1]);
-- 
2.43.0


From 9d7d0a6c5655a1a1e0a3275bbe70a1c5fe7b8cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 27/98] fix: closestPointOnSegm measures the position along the
 segment in units of the segment

---
 cmmcore/closest_point.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 72bd767..26a7c50 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -46,7 +46,8 @@ namespace cmmcore{
     {
         vec3 d=end-start;
         vec3 o=a-start;
-        double t=d.dot(o);
+        const double dd=d.sqLength();
+        double t=dd>0. ? d.dot(o)/dd : -1.; // a segment of no length is its start
 
         if (t<0.)
         {
-- 
2.43.0


From 405a0535e4850a9075a3059c00db8c66ae913750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 28/98] fix: closest point to the origin on a segment whose
 ends coincide is not NaN

---
 cmmcore/closest_point.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 26a7c50..20b5b1b 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -72,7 +72,9 @@ namespace cmmcore{
     // Closest point on the segment (a,b) to the point (0.,0.,0.)
     inline vec3 closestPointOnSegm(const vec3& a, const vec3& b) {
         const vec3 ab = b - a;
-        double t = -(a.dot(ab)) / ab.sqLength();
+        const double dd = ab.sqLength();
+        if (dd == 0.0) return a; // both ends coincide
+        double t = -(a.dot(ab)) / dd;
         t = std::clamp<double>(t, 0.0, 1.0);
         return a + ab * t;
     }
-- 
2.43.0


From 5c175fb17cbbb89f2ce94444c033f468fb40d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:36 +0000
Subject: [PATCH 29/98] fix: closestPointOnTriangle returns the point in the
 coordinates of its arguments

---
 cmmcore/closest_point.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 20b5b1b..a14c5c6 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -126,7 +126,7 @@ namespace cmmcore{
     }
     inline void closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c,vec3& result)
     {
-        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt));
+        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt)+pt);
 
     }
     inline vec3 closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c)
-- 
2.43.0


From 92a45a82716361edd6553d3bfb7ad0e37d90669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 30/98] fix: the spatial convex hull of flat, collinear and
 small point sets is their hull, at any scale

---
 cmmcore/_convexhull/quickhull.hpp | 108 +++++++++++++++++++++---------
 1 file changed, 78 insertions(+), 30 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index c412040..9aa1c1b 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -76,8 +76,8 @@ namespace cmmcore {
         matrix matrix_;
         matrix det_matrix_;
         matrix shadow_matrix_;
-        size_type affine_dim_; // New member variable to store the affine dimension
-        bool lower_dimensional_hull_; // Flag to indicate a lower-dimensional hull
+        size_type affine_dim_ = 0; // New member variable to store the affine dimension
+        bool lower_dimensional_hull_ = false; // Flag to indicate a lower-dimensional hull
 
     public :
         quick_hull(size_type, value_type const &&) = delete; // bind eps to lvalue only
@@ -1043,55 +1043,102 @@ namespace cmmcore {
         }
     };
 
-    inline void convex_hull3d(const std::vector<vec3> &pts, std::vector<vec3> &hull) {
-        if (pts.empty()) {
-            return;
+    // Hull of points that lie in a plane, on a line or in one place: the corners of the polygon, the ends of the
+    // segment, or the point. Returns the dimension of what the points span.
+    inline int flat_convex_hull3d(const std::vector<vec3> &pts, std::vector<vec3> &hull, const double tol) {
+        hull.clear();
+        auto farthest = [&](auto &&measure) {
+            return *std::max_element(pts.begin(), pts.end(), [&](const vec3 &a, const vec3 &b) {
+                return measure(a) < measure(b);
+            });
+        };
+        const vec3 o = farthest([&](const vec3 &p) { return (p - pts[0]).sqLength(); });
+        const vec3 e = farthest([&](const vec3 &p) { return (p - o).sqLength(); }) - o;
+        if (e.length() <= tol) {
+            hull.push_back(pts[0]);
+            return 0;
+        }
+        const vec3 u = e / e.length();
+        auto off = [&](const vec3 &p) { return (p - o) - u * u.dot(p - o); };
+        const vec3 r = off(farthest([&](const vec3 &p) { return off(p).sqLength(); }));
+        if (r.length() <= tol) {
+            hull.push_back(farthest([&](const vec3 &p) { return -u.dot(p - o); }));
+            hull.push_back(farthest([&](const vec3 &p) { return u.dot(p - o); }));
+            return 1;
         }
-        if (pts.size() < 5) {
-            hull.clear();
-            hull.reserve(pts.size());
-            for (auto &p: pts) {
-                hull.emplace_back(p);
+        const vec3 v = r / r.length();
+        std::vector<std::array<double, 2> > q(pts.size());
+        std::vector<size_t> order(pts.size());
+        for (size_t i = 0; i < pts.size(); ++i) {
+            q[i] = {u.dot(pts[i] - o), v.dot(pts[i] - o)};
+            order[i] = i;
+        }
+        std::sort(order.begin(), order.end(), [&](size_t a, size_t b) { return q[a] < q[b]; });
+        auto turn = [&](size_t a, size_t b, size_t c) {
+            return (q[b][0] - q[a][0]) * (q[c][1] - q[a][1]) - (q[b][1] - q[a][1]) * (q[c][0] - q[a][0]);
+        };
+        std::vector<size_t> chain; // monotone chain: lower part, then upper part
+        for (int part = 0; part < 2; ++part) {
+            const size_t start = chain.size();
+            for (size_t i: order) {
+                while (chain.size() >= start + 2 && turn(chain[chain.size() - 2], chain.back(), i) <= 0) {
+                    chain.pop_back();
+                }
+                chain.push_back(i);
             }
-            return;
+            chain.pop_back();
+            std::reverse(order.begin(), order.end());
+        }
+        for (size_t i: chain) {
+            hull.push_back(pts[i]);
+        }
+        return 2;
+    }
+
+    // Vertices of the convex hull. Returns the dimension of what the points span (-1 if there are none).
+    inline int convex_hull3d(const std::vector<vec3> &pts, std::vector<vec3> &hull) {
+        hull.clear();
+        if (pts.empty()) {
+            return -1;
         }
         using Points = std::vector<std::array<double, 3> >;
         Points points(pts.size());
+        double scale = 0;
         size_t i = 0;
         for (i = 0; i < pts.size(); ++i) {
             points[i][0] = pts[i].x;
             points[i][1] = pts[i].y;
             points[i][2] = pts[i].z;
+            scale = std::max(scale, pts[i].length());
         }
 
-        const auto eps = CMMCORE_NUMERIC_EPSILON_DOUBLE;
+        const double tol = 1e-12 * scale;
+        const double eps = 10 * CMMCORE_NUMERIC_EPSILON_DOUBLE * scale;
 
         quick_hull<typename Points::const_iterator> qh{3, eps};
 
         qh.add_points(std::cbegin(points), std::cend(points));
 
         auto initial_simplex = qh.get_affine_basis();
-        //for (auto v: initial_simplex) {
-            //std::cout <<"["<< (*v[0])<<"," << (*v[1])<<","<< (*v[2])<<"],";
-
-            //for (auto p: *v) {
-
-
-                //std::cout <<(p)<<", ";
-           // }
-            //std::cout <<"],";
-        //}    std::cout <<"]\n";
 
-
-        if (initial_simplex.size() < 4) {
-            hull.clear();
-            hull.reserve(initial_simplex.size());
-            for (const auto &p: initial_simplex) {
-                hull.emplace_back(*p);
+        double thickness = 0;
+        if (initial_simplex.size() == 4) {
+            auto it = initial_simplex.begin();
+            std::array<vec3, 4> b;
+            for (size_t k = 0; k < 4; ++k, ++it) {
+                b[k].set((**it)[0], (**it)[1], (**it)[2]);
+            }
+            const vec3 n = (b[1] - b[0]).cross(b[2] - b[0]);
+            if (n.length() > tol * (b[1] - b[0]).length()) {
+                thickness = std::fabs(n.dot(b[3] - b[0])) / n.length();
             }
-            return;
         }
-        qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex)));
+        if (thickness <= tol) {
+            return flat_convex_hull3d(pts, hull, tol);
+        }
+        if (qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex))) == 0) {
+            return flat_convex_hull3d(pts, hull, tol);
+        }
         qh.create_convex_hull();
 
         // Extract the convex hull points
@@ -1103,5 +1150,6 @@ namespace cmmcore {
                 }
             }
         }
+        return 3;
     }
 }
-- 
2.43.0


From 90cb08d2ee93797c88799e0856e3e74ba9593805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 31/98] fix: convex_hull of coplanar points keeps all their
 coordinates and reports the dimension of the hull, not the vertex count

---
 cmmcore/convexhull.h | 34 +++++-----------------------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/cmmcore/convexhull.h b/cmmcore/convexhull.h
index d2dc85f..20b2812 100644
--- a/cmmcore/convexhull.h
+++ b/cmmcore/convexhull.h
@@ -14,36 +14,12 @@ namespace cmmcore {
     };
 
     inline ConvexHullResult convex_hull(const std::vector<vec3> &pts1, std::vector<vec3>& pts1hull) {
-        if (pts1.empty()) {
-            return ConvexHullResult::EMPTY;
-        }
-        const size_t pts_length=pts1.size();
-        if (isPtsCoplanar(pts1)) {
-            if (pts_length> 3) {
-                std::vector<vec2> _pt1(pts_length);
-                for (size_t i = 0; i < pts_length; i++) {
-                    _pt1[i].set(pts1[i].x, pts1[i].y);
-                }
-                auto hull12d = convex_hull2d(_pt1);
-                pts1hull.reserve(hull12d.size());
-                for (auto &i: hull12d) {
-                    auto res = std::find(pts1.begin(), pts1.end(), i);
-                    pts1hull.emplace_back(*res);
-                }
-            } else {
-                pts1hull.resize(pts_length);
-                   memcpy(pts1hull.data(), pts1.data(),  pts_length * sizeof(vec3));
-
-            }
-        } else {
-            convex_hull3d(pts1, pts1hull);
-        };
-        switch (pts1hull.size()) {
-            case 1: return ConvexHullResult::POINT;
-            case 2: return ConvexHullResult::LINE;
-            case 3: return ConvexHullResult::FLAT;
+        switch (convex_hull3d(pts1, pts1hull)) {
+            case -1: return ConvexHullResult::EMPTY;
+            case 0: return ConvexHullResult::POINT;
+            case 1: return ConvexHullResult::LINE;
+            case 2: return ConvexHullResult::FLAT;
             default: return ConvexHullResult::VOLUME;
-
         }
     }
 
-- 
2.43.0


From 47bc5d3afb4b4bbb086b27c24beab6fe81c899ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 32/98] fix: planar separating axis test looks at the edges of
 both polygons

---
 cmmcore/separability.h | 71 ++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 47 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index c80cbe9..8026a46 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -40,9 +40,30 @@ namespace cmmcore
     } else { return {mm1, mm2}; }
   };
 
-  inline bool SAT2D(const polygon2 &a, const polygon2 &b) {
-
+  // true if the line through the polygon's edge or, for a segment, across one of its ends separates the polygons
+  inline bool separatedByEdge2D(const polygon2 &polygon, const polygon2 &a, const polygon2 &b) {
     UnorderedNormal2Set normals;
+    auto separates = [&](const vec2 &n) {
+      if (contains(normals, n)) {
+        return false;
+      }
+      vec2 minmax1, minmax2;
+      polygonProject(a, n, minmax1);
+      polygonProject(b, n, minmax2);
+      normals.insert(n);
+      auto [m1, m2] = swapIntervals(minmax1, minmax2);
+      return m1.y < m2.x;
+    };
+    for (size_t i = 0; i < polygon.size(); i++) {
+      const vec2 e = polygon[(i + 1) % polygon.size()] - polygon[i];
+      if (separates({e.y, -e.x}) || (polygon.size() == 2 && separates(e))) {
+        return true;
+      }
+    }
+    return false;
+  }
+
+  inline bool SAT2D(const polygon2 &a, const polygon2 &b) {
     if (a.empty()|| b.empty()){
       throw std::runtime_error("SAT2D: empty polygon");
     }
@@ -50,51 +71,7 @@ namespace cmmcore
     {
       return b!=a;
     }
-    if (a.size()<2)
-    {
-      for (size_t i = 0; i <b.size(); i++)
-      {
-        size_t j = (i + 1) % b.size();
-        vec2 n = {b[j].y - b[i].y, b[i].x - b[j].x};
-
-        if (contains(normals, n)) {
-          continue;
-        }
-        vec2 minmax1, minmax2;
-
-        polygonProject(a, n, minmax1);
-        polygonProject(b, n, minmax2);
-
-        if (auto [m1,m2] = swapIntervals(minmax1, minmax2); m1.y < m2.x) {
-          return true;
-        };
-
-
-        normals.insert(n);
-      }
-    } else
-    {
-      for (size_t i = 0; i < a.size(); i++)
-      {
-        size_t j = (i + 1) % a.size();
-        vec2 n = {a[j].y - a[i].y, a[i].x - a[j].x};
-
-        if (contains(normals, n)) {
-          continue;
-        }
-        vec2 minmax1, minmax2;
-        polygonProject(a, n, minmax1);
-        polygonProject(b, n, minmax2);
-
-        if (auto [m1,m2] = swapIntervals(minmax1, minmax2); m1.y < m2.x) {
-          return true;
-        };
-
-
-        normals.insert(n);
-      }
-    }
-    return false;
+    return (a.size() > 1 && separatedByEdge2D(a, a, b)) || (b.size() > 1 && separatedByEdge2D(b, a, b));
   }
   /*
     class  SAT3DHandler {
-- 
2.43.0


From f73feac0e7533cec71ae6a4615b31632ecb37b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 33/98] fix: GJK finds the distance of the hulls, not of the
 last simplex it looked at

---
 cmmcore/gjk.h | 126 +++++++++++++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 52 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 79921e9..9db9dc8 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -171,6 +171,7 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
             auto pt=closestPointOnTriangle(simplex[CMMCORE_SIMPLEX_FACES[i][0]], simplex[ CMMCORE_SIMPLEX_FACES[i][1]], simplex[CMMCORE_SIMPLEX_FACES[i][2]]);
             double dst=pt.sqLength();
             if (dst<mindist) {
+              mindist=dst;
               cpt=pt;
             }
             
@@ -204,69 +205,90 @@ inline vec3 support(const std::vector<vec3>& verticesA, const std::vector<vec3>&
     return verticesA[indexA] - verticesB[indexB];
 }
 
+// Drops the points of the simplex that its point closest to the origin does not depend on, and returns that
+// point. The simplex is left whole, and the origin returned, if it is a tetrahedron around the origin.
+inline vec3 reduceSimplex(std::vector<vec3>& simplex) {
+    if (simplex.size() == 4) {
+        bool inside = true;
+        std::vector<vec3> face(3), best;
+        double mindist = std::numeric_limits<double>::max();
+        for (size_t i = 0; i < 4; ++i) {
+            for (size_t j = 0; j < 3; ++j) {
+                face[j] = simplex[CMMCORE_SIMPLEX_FACES[i][j]];
+            }
+            const vec3 n = (face[1] - face[0]).cross(face[2] - face[0]);
+            const vec3 apex = simplex[i] - face[0];
+            const double height = n.dot(apex);
+            // the origin is strictly on the same side of the face as the opposite vertex, which is off the face
+            if (!(height * n.dot(-face[0]) > 0) || std::fabs(height) <= 1e-12 * n.length() * apex.length()) {
+                inside = false;
+            }
+            const double dst = closestPointOnSimplex(face).sqLength();
+            if (dst < mindist) {
+                mindist = dst;
+                best = face;
+            }
+        }
+        if (inside) {
+            return vec3(0, 0, 0);
+        }
+        simplex = best;
+    }
+    const vec3 closest = closestPointOnSimplex(simplex);
+    const double dst = closest.sqLength();
+    for (size_t i = 0; i < simplex.size() && simplex.size() > 1;) {
+        std::vector<vec3> face = simplex;
+        face.erase(face.begin() + i);
+        if (closestPointOnSimplex(face).sqLength() <= dst) {
+            simplex = face;
+            i = 0;
+        } else {
+            ++i;
+        }
+    }
+    return closest;
+}
+
+// Distance of the convex hulls of two point sets (Gilbert, Johnson, Keerthi). Returns true, and the origin as the
+// closest point, if the hulls are not farther apart than the tolerance. Otherwise closestPointToOrigin is the
+// shortest vector from a point of the hull of B to a point of the hull of A.
 inline bool GJK(const std::vector<vec3>&verticesA,
     const std::vector<vec3>& verticesB,
     std::vector<vec3>& simplex,
     vec3& closestPointToOrigin,
     const double tolerance = std::numeric_limits<double>::epsilon(),
     const size_t maxIterations = 25) {
-
- // Swap A and B to make the algorithm easier to read
-
-
-
-
-    vec3 direction = verticesB[0] - verticesA[0]; // Initial direction
-    if (direction.sqLength() == 0) {
-        direction = vec3(1, 0, 0); // Arbitrary direction
-    }
-
-    // Initial support point
-    vec3 point = support(verticesA, verticesB, direction);
-    simplex.push_back(point);
-
-    // New direction towards the origin
-    direction = -point;
-
-
-    int iterations = 0;
-
-
-    while (iterations++ < maxIterations) {
-        point = support(verticesA, verticesB, direction);
-        if (point.dot(direction) < 0) {
-            // No collision
-            // Compute the closest point to the origin on the simplex
-            closestPointToOrigin = closestPointOnSimplex(simplex);
-            #ifdef CMMCORE_DEBUG
-            printf("GJK iterations: %d\n", iterations);
-            #endif
-
+    double scale = 0;
+    for (const auto& v: verticesA) scale = std::max(scale, v.length());
+    for (const auto& v: verticesB) scale = std::max(scale, v.length());
+    const double rounding = 16 * std::numeric_limits<double>::epsilon() * scale;
+
+    simplex.clear();
+    simplex.push_back(verticesA[0] - verticesB[0]);
+    vec3 closest = simplex[0];
+    for (size_t iterations = 0; iterations < maxIterations; ++iterations) {
+        const double dist = closest.length();
+        if (dist <= std::max(tolerance, rounding)) {
+            break;
+        }
+        const vec3 point = support(verticesA, verticesB, -closest);
+        // No point of the difference is closer than this, up to rounding
+        const double lower = point.dot(closest) / dist;
+        if (dist - lower <= std::max(1e-12 * dist, rounding) ||
+            (iterations + 1 == maxIterations && lower > tolerance)) {
+            closestPointToOrigin = closest;
             return false;
         }
-
         simplex.push_back(point);
-
-        if (handleSimplex(simplex, direction, tolerance)) {
-            // Collision detected
-            #ifdef CMMCORE_DEBUG
-            printf("GJK iterations: %d\n", iterations);
-            #endif
-
-            return true;
+        const vec3 next = reduceSimplex(simplex);
+        if (!(next.length() < dist)) {
+            // No progress is possible in floating point
+            closestPointToOrigin = closest;
+            return false;
         }
+        closest = next;
     }
-    closestPointToOrigin = closestPointOnSimplex(simplex);
-    // Should not reach here
-#ifdef CMMCORE_DEBUG
-    printf("GJK iterations: %d\n", iterations);
-    printf(("["+format_vec3vec( verticesA)+","+format_vec3vec( verticesB)+"]\n\n" ).c_str() );
-#endif
-    closestPointToOrigin = {0.0, 0.0, 0.0};
-#ifdef CMMCORE_DEBUG
-    printf("WARNING GJK did not converge");
-#endif
-
+    closestPointToOrigin = vec3(0, 0, 0);
     return true;
 }
 }
-- 
2.43.0


From 92bc91af975dc414a721c56ee1a431f75b1cb399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:16 +0000
Subject: [PATCH 34/98] fix: closest point of a triangle whose corners are on a
 line is not NaN

---
 cmmcore/closest_point.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index a14c5c6..1fb2a37 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -86,6 +86,15 @@ namespace cmmcore{
         vec3 ac = c - a;
         vec3 ao = -a;
 
+        // Corners on a line (up to rounding) have no face, only edges
+        if (ab.cross(ac).sqLength() <= 1e-24 * ab.sqLength() * ac.sqLength()) {
+            vec3 best = closestPointOnSegm(a, b);
+            for (const vec3& q: {closestPointOnSegm(b, c), closestPointOnSegm(c, a)}) {
+                if (q.sqLength() < best.sqLength()) best = q;
+            }
+            return best;
+        }
+
         double d1 = ab.dot(ao);
         double d2 = ac.dot(ao);
         if (d1 <= 0 && d2 <= 0) return a; // Vertex region A
-- 
2.43.0


From 42a2b1296b2df5bb13f1aa9d7f44ea967957c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 35/98] fix: infinity() recognises the box of nothing

---
 cmmcore/aabb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index f9311cb..094215e 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -31,8 +31,9 @@ namespace cmmcore{
       }
     }
     bool infinity() const {
-      return (max.x == max.y == max.z == std::numeric_limits<double>::min() && min.x == min.y == min.z ==
-              std::numeric_limits<double>::max());
+      const double lowest = std::numeric_limits<double>::lowest(), highest = std::numeric_limits<double>::max();
+      return max.x == lowest && max.y == lowest && max.z == lowest &&
+             min.x == highest && min.y == highest && min.z == highest;
     }
 
     /**
-- 
2.43.0


From aae38321b3b7368adc116581f6dc84c2280386f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 36/98] fix: copies of a hierarchy keep its objects

---
 cmmcore/bvh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..4e5492c 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -143,7 +143,7 @@ public:
 
     bounding_box = other.bounding_box;
 
-    object=other.object? object : nullptr;
+    object = other.object;
 
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-- 
2.43.0


From fa7d1a9d699c7e6920714dfd15ae99def29a9427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 37/98] fix: setRight sets the right child

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 4e5492c..485eb2d 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -136,7 +136,7 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
-- 
2.43.0


From d2641fbd5cab4dc3dd4a66309d88216d7f811539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 38/98] fix: a k-d tree that owns its nodes cannot be copied
 shallowly and freed twice

---
 cmmcore/kdtree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 7c43e17..d342d4c 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -163,6 +163,10 @@ public:
     // Constructor
     KDTree() : root(nullptr), size_(0) {}
 
+    // The tree owns its nodes
+    KDTree(const KDTree&) = delete;
+    KDTree& operator=(const KDTree&) = delete;
+
     // Destructor
     ~KDTree() {
         deleteKDTree(root);
-- 
2.43.0


From bebaed867e7c4814b11b027954872f7745003ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 39/98] fix: spherical separability means a plane through the
 centre of the sphere separates the sets

---
 cmmcore/separability.h | 142 +++++++++--------------------------------
 1 file changed, 31 insertions(+), 111 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index 8026a46..8ceaa2f 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -269,64 +269,29 @@ namespace cmmcore
 
 
 
-  inline bool SphericalCentralProjectionTest(std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    std::vector<vec2> poly1(pts1.size());
-    std::vector<vec2> poly2(pts2.size());
-
-    vec3 O(0,0,1);
-    for (size_t i=0;i<pts1.size();i++)
-    {
-
-      centerProjectionToXY(O, pts1[i].unit(),poly1[i]);
-    }
-    for (size_t j=0;j<pts2.size();j++)
-    {
-      centerProjectionToXY(O, pts2[j].unit(),poly2[j]);
-
+  // true if a plane through the origin has one set of directions strictly on one side and the other set on the other
+  // side, that is, if the hull of the directions of the one set and the opposites of the other does not contain the
+  // origin. A direction of no length counts as any direction.
+  inline bool separableByPlaneThroughOrigin(const std::vector<vec3>& dirs1, const std::vector<vec3>& dirs2) {
+    std::vector<vec3> dirs;
+    dirs.reserve(dirs1.size() + dirs2.size());
+    for (const auto& d: dirs1) {
+      if (!(d.length() > 0)) return false;
+      dirs.push_back(d / d.length());
     }
-
-#ifdef CMMCORE_DEBUG
-    printf("\n\n[");
-    for (auto& p:poly1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:poly2)
-    {
-      printf("[%f,%f],", p.x,p.y);
+    for (const auto& d: dirs2) {
+      if (!(d.length() > 0)) return false;
+      dirs.push_back(-(d / d.length()));
     }
-    printf("]\n");
-#endif
-
-    auto h1=convex_hull2d(poly1);
-     auto h2=convex_hull2d(poly2);
-    if (h1.empty())
-    {
-      h1.push_back(poly1[0]);
-    }
-    if (h2.empty())
-    {
-      h2.push_back(poly2[0]);
-    }
-#ifdef CMMCORE_DEBUG
-    printf("[");
-    for (auto& p:h1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:h2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    return SAT2D(h1,h2);
+    if (dirs.empty()) return true;
+    std::vector<vec3> simplex;
+    vec3 closest;
+    return !GJK(dirs, {vec3(0, 0, 0)}, simplex, closest, 1e-12, 100);
+  }
 
-    }
+  inline bool SphericalCentralProjectionTest(std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
+    return separableByPlaneThroughOrigin(pts1, pts2);
+  }
 inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
 
     //printf(("SEPTEST\n\n["+format_vec3vec(pts1)+"],["+format_vec3vec(pts2)+"]").c_str());
@@ -372,62 +337,17 @@ inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3
      * */
 
   inline bool SphericalCentralProjectionTest2(vec3 origin, std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    std::vector<vec2> poly1(pts1.size());
-    std::vector<vec2> poly2(pts2.size());
-
-
-    for (size_t i=0;i<pts1.size();i++)
-    {
-
-      centerProjectionToXY(origin, pts1[i].unit(),poly1[i]);
-    }
-    for (size_t j=0;j<pts2.size();j++)
-    {
-      centerProjectionToXY(origin, pts2[j].unit(),poly2[j]);
-
-    }
-
-#ifdef CMMCORE_DEBUG
-    printf("\n\n[");
-    for (auto& p:poly1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:poly2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    auto h1=convex_hull2d(poly1);
-    auto h2=convex_hull2d(poly2);
-    if (h1.empty())
-    {
-      h1.push_back(poly1[0]);
-    }
-    if (h2.empty())
-    {
-      h2.push_back(poly2[0]);
-    }
-#ifdef CMMCORE_DEBUG
-    printf("[");
-    for (auto& p:h1)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("],[");
-    for (auto& p:h2)
-    {
-      printf("[%f,%f],", p.x,p.y);
-    }
-    printf("]\n");
-#endif
-
-    return SAT2D(h1,h2);
-
+    auto directions = [&](const std::vector<vec3>& pts) {
+      double scale = origin.length();
+      for (const auto& p: pts) scale = std::max(scale, p.length());
+      std::vector<vec3> dirs;
+      for (const auto& p: pts) {
+        // the vertex at the common point has no direction
+        if ((p - origin).length() > 1e-9 * scale) dirs.push_back(p - origin);
+      }
+      return dirs;
+    };
+    return separableByPlaneThroughOrigin(directions(pts1), directions(pts2));
   }
   }
 
-- 
2.43.0


From 3c79cf93325380ca91a725efb1d72b6aba8838de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:23 +0000
Subject: [PATCH 40/98] fix: the wedges of SphericalAABB span the points, and
 only separate where that means a plane does

---
 cmmcore/aabb.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index 094215e..b9cdd2c 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -326,11 +326,19 @@ namespace cmmcore{
       }
     }
 
+    // Wedges narrower than a half-plane are convex, so sets in disjoint wedges about an axis are separable
     bool separable(const SphericalAABB &other) const {
-
       for (int axis = 0; axis < 3; ++axis) {
-        if ((end[axis] < other.start[axis] && other.end[axis] > start[axis]) || (
-              other.end[axis] < start[axis] && end[axis] > other.start[axis])) {
+        const double width = end[axis] - start[axis];
+        const double other_width = other.end[axis] - other.start[axis];
+        if (!(width < M_PI - 1e-12 && other_width < M_PI - 1e-12)) {
+          continue;
+        }
+        double offset = std::fmod(other.start[axis] - start[axis], 2 * M_PI);
+        if (offset < 0) {
+          offset += 2 * M_PI;
+        }
+        if (offset > width + 1e-12 && offset + other_width < 2 * M_PI - 1e-12) {
           return true;
         }
       }
@@ -352,9 +360,16 @@ namespace cmmcore{
       }
     }
 
+    // The wedge runs from start to end counter-clockwise, with start <= end. It is the whole plane if a point lies
+    // on the axis, where it has no angle.
     void find_smallest_wedge(const std::vector<vec2> &points_2d, size_t dim) {
       std::vector<double> angles(points_2d.size());
-      for (int i = 0; i < points_2d.size(); ++i) {
+      for (size_t i = 0; i < points_2d.size(); ++i) {
+        if (points_2d[i].x == 0 && points_2d[i].y == 0) {
+          start[dim] = -M_PI;
+          end[dim] = M_PI;
+          return;
+        }
         angles[i] = std::atan2(points_2d[i].y, points_2d[i].x);
       }
       std::sort(angles.begin(), angles.end());
@@ -367,7 +382,7 @@ namespace cmmcore{
       size_t max_gap_idx = std::distance(angle_diffs.begin(), max_gap_it);
 
       start[dim] = angles[max_gap_idx];
-      end[dim] = angles[(max_gap_idx + 1) % angles.size()];
+      end[dim] = start[dim] + 2 * M_PI - *max_gap_it;
     }
   };
 }
-- 
2.43.0


From 4edd51c4ac9e3365e09057c4c6a912fc5cd4e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 41/98] fix: a 2x2 matrix made of a nested list has the
 elements of the list

---
 cmmcore/matrix.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index e6acf76..85f7a47 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -31,7 +31,19 @@ private:
     std::array<std::array<double, 2>, 2> _m{};
 public:
     Matrix2x2() = default;
-    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){};
+    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr)
+    {
+        if (arr.size() != 2) {
+            throw std::invalid_argument("Matrix2x2 needs two rows.");
+        }
+        size_t i = 0;
+        for (const auto& row : arr) {
+            if (row.size() != 2) {
+                throw std::invalid_argument("Matrix2x2 needs two columns.");
+            }
+            std::copy(row.begin(), row.end(), _m[i++].begin());
+        }
+    };
     Matrix2x2(std::array<double,2>& ab, std::array<double,2>& cd)
     {
         _m[0][0]=ab[0];
-- 
2.43.0


From 19b7405da9c515c0240b1190039f7b9ef906cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 42/98] fix: whether a matrix is singular does not depend on
 its scale

---
 cmmcore/matrix.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index 85f7a47..304d71c 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -9,6 +9,7 @@
 #include <stdexcept>
 #include <array>
 #include <algorithm>
+#include <limits>
 
 namespace cmmcore{
     // Square matrix N x N template
@@ -233,6 +234,13 @@ public:
                 }
             }
 
+            // a pivot that is only rounding noise compared with the elements of the matrix is zero
+            double largest = 0.0;
+            for (const double x : data) {
+                largest = std::max(largest, std::abs(x));
+            }
+            const double smallestPivot = 16.0 * rows * std::numeric_limits<double>::epsilon() * largest;
+
             for (size_t i = 0; i < rows; ++i) {
                 size_t pivot = i;
                 for (size_t j = i + 1; j < rows; ++j) {
@@ -247,7 +255,7 @@ public:
                 }
 
                 double pivotValue = augmented(i, i);
-                if (std::abs(pivotValue) < 1e-10) {
+                if (!(std::abs(pivotValue) > smallestPivot)) {
                     throw std::runtime_error("Matrix is singular and cannot be inverted");
                 }
 
-- 
2.43.0


From d592e9072d42a05c5779b8448b846d1a17fba9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 43/98] fix: a column of a matrix has as many elements as the
 matrix has rows

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index 1dfbe74..c46c789 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -32,7 +32,7 @@ namespace cmmcore {
 
     template <typename T>
     void vectorColumn(const std::vector<std::vector<T>>& matrix, const  size_t columnIndex,std::vector<T>& column) {
-        column.resize(matrix[0].size());
+        column.resize(matrix.size());
         size_t i=0;
         for (const auto& row : matrix) {
 
-- 
2.43.0


From 7b92d655f860c4a4a94b94388adf8f1c89374cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 44/98] fix: binomial coefficients outside the table are not
 read from memory outside the table

---
 cmmcore/binom.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmcore/binom.h b/cmmcore/binom.h
index ecd5249..145c6f7 100644
--- a/cmmcore/binom.h
+++ b/cmmcore/binom.h
@@ -22,6 +22,7 @@ SOFTWARE.
 
 #ifndef BINOM_H
 #define BINOM_H
+#include <stdexcept>
 
 namespace cmmcore {
 
@@ -1052,7 +1053,10 @@ namespace cmmcore {
     };
 
     inline int binomial_coefficient(int n, int k) {
-        return binom_coeffs[n][k];
+        if (n < 0 || n > 30) {
+            throw std::out_of_range("binomial_coefficient is tabulated for n from 0 to 30.");
+        }
+        return (k < 0 || k > n) ? 0 : binom_coeffs[n][k];
     }
 };
 #endif //BINOM_H
-- 
2.43.0


From 42ea35a51040a4d032e915d2dafd08aae5fa5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 45/98] fix: an assigned monomial patch converts to Bezier form
 like the original

---
 cmmcore/monomial.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..6c35113 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -252,6 +252,8 @@ namespace cmmcore
             if (this == &other) return *this; // Handle self-assignment
             n = other.n, m = other.m;
             coefficients = other.coefficients;
+            Mu = other.Mu, Mv = other.Mv;
+            Mu_inv = other.Mu_inv, Mv_inv = other.Mv_inv;
             return *this;
         }
     };
-- 
2.43.0


From 0def2b361b6baa627d70fe84785755bab14540a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 46/98] fix: a patch converted from monomial form carries its
 bounding box

---
 cmmcore/monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 6c35113..8da3355 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -227,7 +227,7 @@ namespace cmmcore
             surf.generate_knots_u();
             surf.generate_knots_v();
             surf.update_interval();
-
+            surf.rebuildAABB();
 
         }
 
-- 
2.43.0


From 66dd13cde7992ce6b7ef05e4a339453d2a14cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 47/98] fix: the derivative of a patch that is constant in a
 direction is zero, not empty

---
 cmmcore/monomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8da3355..737a868 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -71,7 +71,7 @@ namespace cmmcore
 
         if (variable == SurfaceParameter::U)
         {
-            CMMCORE_RESIZE_TENSOR2D(result, n-1, m, vec3, 0, 0, 0);
+            CMMCORE_RESIZE_TENSOR2D(result, std::max(n-1, 1), m, vec3, 0, 0, 0);
             for (int i = 1; i < n; ++i)
             {
                 for (int j = 0; j < m; ++j)
@@ -84,7 +84,7 @@ namespace cmmcore
         }
         else if (variable == SurfaceParameter::V)
         {
-            CMMCORE_RESIZE_TENSOR2D(result, n, m-1, vec3, 0, 0, 0);
+            CMMCORE_RESIZE_TENSOR2D(result, n, std::max(m-1, 1), vec3, 0, 0, 0);
 
             for (int i = 0; i < n; ++i)
             {
-- 
2.43.0


From d45b5184e3b20865de06aee00ccbe15e93b7e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 48/98] fix: monomial results written over existing ones do not
 keep their rows and values

---
 cmmcore/monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 737a868..5b2e182 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,7 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
-- 
2.43.0


From bb7f2f0e23f0f29a1f58a3740260f57a6791bd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 49/98] fix: minimize_scalar_bounded does not exceed a limit of
 one function evaluation

---
 cmmcore/minimize_scalar.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmmcore/minimize_scalar.h b/cmmcore/minimize_scalar.h
index 1d23859..14af0b2 100644
--- a/cmmcore/minimize_scalar.h
+++ b/cmmcore/minimize_scalar.h
@@ -86,6 +86,11 @@ void minimize_scalar_bounded(
 
     // Main optimization loop
     while (std::abs(xf - xm) > (tol2 - 0.5 * (b - a))) {
+        if (num >= maxfun) {
+            flag = 1;
+            break;
+        }
+
         bool golden = true;
 
         // Check for parabolic fit
@@ -170,13 +175,7 @@ void minimize_scalar_bounded(
 
         xm = 0.5 * (a + b);
         tol1 = sqrt_eps * std::abs(xf) + xatol / 3.0;
-        tol2 = 2.0 * tol1;
-
-        if (num >= maxfun) {
-            flag = 1;
-            break;
-        }
-    }
+        tol2 = 2.0 * tol1;    }
 
     if (std::isnan(xf) || std::isnan(fx) || std::isnan(fu)) {
         flag = 2;
-- 
2.43.0


From a97695ef9e9d0e9b6770574fdbb180c6cfd126e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 50/98] fix: the line search of the Newton minimiser ends where
 the function is not a number

---
 cmmcore/newthon2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/newthon2.h b/cmmcore/newthon2.h
index c8a0032..5f348a9 100644
--- a/cmmcore/newthon2.h
+++ b/cmmcore/newthon2.h
@@ -227,7 +227,8 @@ constexpr double lineSearch(const std::function<double(const Vector<N>&)>& f,
     double grad_dot_dir = dotProduct(grad, direction);
     Vector<N> new_point;
 
-    while (true) {
+    // an infinite or undefined function may have no acceptable step: then the step is zero
+    while (alpha > 0.0) {
         for (size_t i = 0; i < N; ++i)
             new_point[i] = point[i] + alpha * direction[i];
         double f_new = f(new_point);
-- 
2.43.0


From 26fa24194fbcb0898b9e065bbe9894ab8e25d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 51/98] fix: GJK does not report hulls as apart when it runs
 out of precision

---
 cmmcore/gjk.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 9db9dc8..b014072 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -282,7 +282,10 @@ inline bool GJK(const std::vector<vec3>&verticesA,
         simplex.push_back(point);
         const vec3 next = reduceSimplex(simplex);
         if (!(next.length() < dist)) {
-            // No progress is possible in floating point
+            // No progress is possible in floating point: the hulls are apart if that much is certain
+            if (!(lower > tolerance)) {
+                break;
+            }
             closestPointToOrigin = closest;
             return false;
         }
-- 
2.43.0


From 98287afa0367c8fe473455c672acc020cb76bbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 52/98] fix: plane equations of three points are computed in
 double precision

---
 cmmcore/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 10684a5..7b8da2a 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -11,9 +11,9 @@ namespace cmmcore
 {
     inline void plane_eq_from_pts(const vec3& pt0, const vec3& pt1, const vec3& pt2, vec4& equation)
     {
-        const float x3 = pt0.y * pt1.z;
-        const float x4 = pt1.y * pt2.z;
-        const float x5 = pt2.y * pt0.z;
+        const double x3 = pt0.y * pt1.z;
+        const double x4 = pt1.y * pt2.z;
+        const double x5 = pt2.y * pt0.z;
         equation.x = x3 + x4 + x5 - pt0.y * pt2.z - pt1.y * pt0.z - pt2.y * pt1.z;
         equation.y = -pt0.x * pt1.z + pt0.x * pt2.z + pt1.x * pt0.z - pt1.x * pt2.z - pt2.x * pt0.z + pt2.x * pt1.z;
         equation.z = pt0.x * pt1.y - pt0.x * pt2.y - pt1.x * pt0.y + pt1.x * pt2.y + pt2.x * pt0.y - pt2.x * pt1.y;
-- 
2.43.0


From 2d6adebd99ccbb87dd386330ac828156fd6f0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 53/98] fix: the origin of a plane given by coefficients or
 points lies on the plane

---
 cmmcore/plane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 7b8da2a..a1ef58f 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -40,7 +40,7 @@ namespace cmmcore
             computeDenominator();
 
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         }
 
         plane(const vec3& _normal) : denominator(_normal.length()), equation(_normal.x, _normal.y, _normal.z, 0),
@@ -61,7 +61,7 @@ namespace cmmcore
             plane_eq_from_pts(std::get<0>(_pts), std::get<1>(_pts), std::get<2>(_pts), equation);
             computeDenominator();
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         };
 
         void computeDenominator()
-- 
2.43.0


From 5ed95ca537bb51967dcff64b66369529101972a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 54/98] fix: a plane given by an origin and a normal contains
 the origin

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index a1ef58f..b5f0440 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -50,7 +50,7 @@ namespace cmmcore
 
         plane(const vec3& _origin, const vec3& _normal) : denominator(_normal.length()),
                                                           equation(_normal.x, _normal.y, _normal.z,
-                                                                   -(_normal.x * _origin.x, _normal.y * _origin.y,
+                                                                   -(_normal.x * _origin.x + _normal.y * _origin.y +
                                                                        _normal.z * _origin.z)),
                                                           normal(_normal / denominator), origin(_origin)
         {
-- 
2.43.0


From 1c5e698266605baf1493af680e66c5bd370088a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 55/98] fix: planes that are not parallel intersect, whatever
 their position to the coordinate planes

---
 cmmcore/plane.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index b5f0440..8dc77f4 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -160,26 +160,26 @@ namespace cmmcore
                 return false;
             }
 
-            double a1 = equation.x;
-            double b1 = equation.y;
-            double c1 = equation.z;
-            double d1 = equation.w;
+            double a1 = normal.x;
+            double b1 = normal.y;
+            double c1 = normal.z;
+            double d1 = equation.w / denominator;
 
-            double a2 = other.equation.x;
-            double b2 = other.equation.y;
-            double c2 = other.equation.z;
-            double d2 = other.equation.w;
+            double a2 = other.normal.x;
+            double b2 = other.normal.y;
+            double c2 = other.normal.z;
+            double d2 = other.equation.w / other.denominator;
 
-            // Choose the variable to eliminate
+            // Choose the variable to eliminate: the line crosses that coordinate plane best
             int maxIndex = 0;
-            double maxAbs = std::abs(a1);
+            double maxAbs = std::abs(dir.x);
 
-            if (std::abs(b1) > maxAbs)
+            if (std::abs(dir.y) > maxAbs)
             {
                 maxIndex = 1;
-                maxAbs = std::abs(b1);
+                maxAbs = std::abs(dir.y);
             }
-            if (std::abs(c1) > maxAbs)
+            if (std::abs(dir.z) > maxAbs)
             {
                 maxIndex = 2;
             }
-- 
2.43.0


From 22cd70eb50a8838924de62a8d91d565f16069a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 56/98] fix: intersections with a plane do not depend on the
 length of its normal

---
 cmmcore/plane.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 8dc77f4..879b2ea 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -89,10 +89,10 @@ namespace cmmcore
             double N = -(equation.x * start.x + equation.y * start.y + equation.z * start.z + equation.w);
             double D = equation.x * direction.x + equation.y * direction.y + equation.z * direction.z;
 
-            if (std::abs(D) < epsilon)
+            if (std::abs(D) < epsilon * denominator * direction.length())
             {
                 // The direction is parallel to the plane
-                if (std::abs(N) < epsilon)
+                if (std::abs(N) < epsilon * denominator)
                 {
                     // The starting point is on the plane
                     pt = start;
@@ -119,10 +119,10 @@ namespace cmmcore
             double N = -(equation.x * start.x + equation.y * start.y + equation.z * start.z + equation.w);
             double D = equation.x * direction.x + equation.y * direction.y + equation.z * direction.z;
 
-            if (std::abs(D) < epsilon)
+            if (std::abs(D) < epsilon * denominator * direction.length())
             {
                 // The segment is parallel to the plane
-                if (std::abs(N) < epsilon)
+                if (std::abs(N) < epsilon * denominator)
                 {
                     // The entire segment lies on the plane
                     pt = start;
@@ -250,7 +250,8 @@ namespace cmmcore
                                         a2, b2, c2,
                                         a3, b3, c3);
 
-            if (std::abs(Det) < epsilon)
+            // relative to the lengths of the normals
+            if (std::abs(Det) < epsilon * denominator * other1.denominator * other2.denominator)
             {
                 return false;
             }
-- 
2.43.0


From 13f81ca1cc2cd25c15048d80f883e7a2fc8d019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 57/98] fix: isPtsCoplanar looks at every point, and copes with
 collinear ones

---
 cmmcore/plane.h | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 879b2ea..fa2c88d 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -293,10 +293,36 @@ namespace cmmcore
         {
             return true;
         }
-        plane p = {{pts[0], pts[1], pts[2]}};
+        // a plane through three of the points that span one best: the farthest from the first, and from their line
+        size_t far1 = 0, far2 = 0;
+        double dist1 = 0, dist2 = 0;
+        for (size_t i = 1; i < pts.size(); i++)
+        {
+            const double dist = (pts[i] - pts[0]).length();
+            if (dist > dist1)
+            {
+                dist1 = dist;
+                far1 = i;
+            }
+        }
+        for (size_t i = 1; i < pts.size(); i++)
+        {
+            const double dist = (pts[far1] - pts[0]).cross(pts[i] - pts[0]).length();
+            if (dist > dist2)
+            {
+                dist2 = dist;
+                far2 = i;
+            }
+        }
+        if (dist2 <= eps * dist1)
+        {
+            // All points lie on a line
+            return true;
+        }
+        plane p = {{pts[0], pts[far1], pts[far2]}};
 
 
-        for (size_t i = 4; i < pts.size(); i++)
+        for (size_t i = 1; i < pts.size(); i++)
         {
             if (std::abs(p.signedDistance(pts[i])) >= eps)
             {
-- 
2.43.0


From 55053dc6766de3fe4f38910df46138e1d3a47fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 58/98] fix: the signed distance to a placed plane does not
 count its origin twice

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index fa2c88d..b33b316 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -352,7 +352,7 @@ namespace cmmcore
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
         };
-        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt - origin); };
+        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt); };
 
         void evaluate(double u, double v, vec3& result) const
         {
-- 
2.43.0


From 2dca3ca78873babf663762b98c0afdca2ffcf44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 59/98] fix: the axes of a plane through three points do not
 vanish when the first is its origin

---
 cmmcore/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index b33b316..253bc7a 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -347,7 +347,7 @@ namespace cmmcore
 
         cplane(const std::tuple<vec3, vec3, vec3>& _pts): plane(_pts)
         {
-            xaxis = std::get<0>(_pts) - origin;
+            xaxis = std::get<1>(_pts) - std::get<0>(_pts);
             xaxis.unitize();
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
-- 
2.43.0


From 9faa9ceed2c25aae852308cec419d3ab759523bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 60/98] fix: size() of an array view counts its elements, also
 of a view without dimensions

---
 cmmcore/memoryview.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..4258e65 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -9,7 +9,10 @@
 #include <vector>
 #include <numeric>
 #include <iostream>
+#include <algorithm>
 #include <cassert>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <typeinfo>
@@ -53,10 +56,9 @@ namespace cmmcore
         }
     };
 
-    // Helper function to compute the total number of elements from shape
-    size_t compute_total_size(const std::vector<size_t>& shape)
+    // Helper function to compute the total number of elements from shape (a view without dimensions has one)
+    inline size_t compute_total_size(const std::vector<size_t>& shape)
     {
-        if (shape.empty()) return 0;
         return std::accumulate(shape.begin(), shape.end(), static_cast<size_t>(1), std::multiplies<size_t>());
     }
 
@@ -93,12 +95,7 @@ namespace cmmcore
         }
         size_t size() const
         {
-            size_t size=1;
-            for (size_t i = 0 ; i<shape_.size();i++)
-            {
-                i*=shape_[i];
-            }
-            return size;
+            return compute_total_size(shape_);
         }
         MemoryView<T>* copy() const
         {
-- 
2.43.0


From 1798da39b2c0cc01e0355f2feb471b34f15ab64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 61/98] fix: slices with a negative or large step select what
 they select in an n-dimensional array

---
 cmmcore/memoryview.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 4258e65..02fcaee 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -144,25 +144,24 @@ namespace cmmcore
                 else
                 {
                     // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
-                    int step = s.step;
-
-                    // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
-
-                    // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
-
+                    const long long n = static_cast<long long>(shape_[i]);
+                    const long long step = s.step;
                     if (step == 0)
                     {
                         throw std::invalid_argument("Slice step cannot be zero");
                     }
+                    // Going backwards starts at the last element and ends before the first
+                    const long long first = step > 0 ? 0 : -1;
+                    const long long last = step > 0 ? n : n - 1;
+                    long long start = step > 0 ? first : last;
+                    long long stop = step > 0 ? last : first;
+
+                    // Handle negative indices, clamp start and stop
+                    if (s.has_start) start = std::max(first, std::min(s.start < 0 ? s.start + n : s.start, last));
+                    if (s.has_stop) stop = std::max(first, std::min(s.stop < 0 ? s.stop + n : s.stop, last));
 
                     // Compute the number of elements in this slice
-                    int length = 0;
+                    long long length = 0;
                     if (step > 0)
                     {
                         if (start < stop)
@@ -177,10 +176,13 @@ namespace cmmcore
                             length = (start - stop - step - 1) / (-step);
                         }
                     }
-                    length = std::max(length, 0);
+                    length = std::max(length, 0LL);
                     new_shape.push_back(static_cast<size_t>(length));
                     new_strides.push_back(strides_[i] * step);
-                    new_offset += start * strides_[i];
+                    if (length > 0)
+                    {
+                        new_offset += start * strides_[i];
+                    }
                 }
             }
 
-- 
2.43.0


From d751e6136af1e5e5da9fb02fad0a49485c427674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 62/98] fix: reshaping a view that is not contiguous keeps its
 elements or is refused

---
 cmmcore/memoryview.h | 70 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 64 insertions(+), 6 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 02fcaee..9854009 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -205,8 +205,13 @@ namespace cmmcore
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
+            std::vector<size_t> new_strides = contiguous_strides(new_shape);
+            if (new_total != 0 && !reshaped_strides(new_shape, new_strides))
+            {
+                throw std::invalid_argument("A view that is not contiguous cannot be reshaped this way");
+            }
             shape_ = new_shape;
-            compute_strides();
+            strides_ = new_strides;
         }
 
         // Overload the [] operator to slice the first dimension
@@ -493,16 +498,69 @@ namespace cmmcore
 
 
 
+        static std::vector<size_t> contiguous_strides(const std::vector<size_t>& shape)
+        {
+            std::vector<size_t> strides(shape.size(), 1);
+            for (int i = static_cast<int>(shape.size()) - 2; i >= 0; --i)
+            {
+                strides[i] = strides[i + 1] * shape[i + 1];
+            }
+            return strides;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-            strides_.resize(shape_.size());
-            if (shape_.empty()) return;
-            strides_[shape_.size() - 1] = 1;
-            for (int i = static_cast<int>(shape_.size()) - 2; i >= 0; --i)
+            strides_ = contiguous_strides(shape_);
+        }
+
+        // Strides with which a new shape (of as many elements, not empty) shows the same elements in the same order.
+        // False if there are none: dimensions can only be merged if they are contiguous with one another.
+        bool reshaped_strides(const std::vector<size_t>& new_shape, std::vector<size_t>& new_strides) const
+        {
+            std::vector<size_t> shape, strides;
+            for (size_t i = 0; i < shape_.size(); ++i)
             {
-                strides_[i] = strides_[i + 1] * shape_[i + 1];
+                if (shape_[i] != 1)
+                {
+                    shape.push_back(shape_[i]);
+                    strides.push_back(strides_[i]);
+                }
+            }
+            new_strides.assign(new_shape.size(), 1);
+            size_t oi = 0, ni = 0;
+            while (oi < shape.size() && ni < new_shape.size())
+            {
+                // the next groups of old and new dimensions with the same number of elements
+                size_t oj = oi + 1, nj = ni + 1;
+                size_t old_count = shape[oi], new_count = new_shape[ni];
+                while (old_count != new_count)
+                {
+                    if (new_count < old_count)
+                    {
+                        new_count *= new_shape[nj++];
+                    }
+                    else
+                    {
+                        old_count *= shape[oj++];
+                    }
+                }
+                for (size_t k = oi; k + 1 < oj; ++k)
+                {
+                    if (strides[k] != strides[k + 1] * shape[k + 1])
+                    {
+                        return false;
+                    }
+                }
+                new_strides[nj - 1] = strides[oj - 1];
+                for (size_t k = nj - 1; k > ni; --k)
+                {
+                    new_strides[k - 1] = new_strides[k] * new_shape[k];
+                }
+                oi = oj;
+                ni = nj;
             }
+            return true;
         }
     };
 }
-- 
2.43.0


From 48abe1b902a2c8c1c4b3b6afbe1ccbe94b64cedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 63/98] fix: a copy of an array view has the elements of the
 view, and is freed once

---
 cmmcore/memoryview.h | 50 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 9854009..679625d 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -78,6 +78,29 @@ namespace cmmcore
             : data_(data), shape_(shape), strides_(strides), offset_(offset)
         {
         }
+        // A copy of a view shares its data; only copy() owns them
+        MemoryView(const MemoryView& other)
+            : data_(other.data_), shape_(other.shape_), strides_(other.strides_), offset_(other.offset_)
+        {
+        }
+
+        MemoryView& operator=(const MemoryView& other)
+        {
+            if (this != &other)
+            {
+                if (is_managed_ && data_ != other.data_)
+                {
+                    free(data_);
+                    is_managed_ = false;
+                }
+                data_ = other.data_;
+                shape_ = other.shape_;
+                strides_ = other.strides_;
+                offset_ = other.offset_;
+            }
+            return *this;
+        }
+
         T* data()
         {
             return data_;
@@ -99,15 +122,13 @@ namespace cmmcore
         }
         MemoryView<T>* copy() const
         {
-            size_t _size=size();
-            T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
+            T* ptr = (T*)malloc(size()*sizeof(T));
+            size_t i = 0;
+            for_each_element([&](const T& value) { ptr[i++] = value; });
+            auto* mv=new MemoryView<T>(ptr,shape_);
             mv->is_managed_=true;
             return mv;
 
-
-
         }
         // Slice method
         MemoryView<T> slice(const std::vector<Slice>& slices) const
@@ -498,6 +519,23 @@ namespace cmmcore
 
 
 
+        // Calls f with the first elements (all by default) in row-major order, wherever they are
+        template <typename F>
+        void for_each_element(F f, size_t count = std::numeric_limits<size_t>::max()) const
+        {
+            count = std::min(count, compute_total_size(shape_));
+            std::vector<size_t> indices(shape_.size(), 0);
+            for (size_t done = 0; done < count; ++done)
+            {
+                f((*this)(indices));
+                for (size_t i = shape_.size(); i-- > 0;)
+                {
+                    if (++indices[i] < shape_[i]) break;
+                    indices[i] = 0;
+                }
+            }
+        }
+
         static std::vector<size_t> contiguous_strides(const std::vector<size_t>& shape)
         {
             std::vector<size_t> strides(shape.size(), 1);
-- 
2.43.0


From 3bb6065b859f1a9b1924a8c84c3a6b27012b082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 64/98] fix: printing an array view does not read outside its
 data

---
 cmmcore/memoryview.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 679625d..75a805a 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -303,11 +303,12 @@ namespace cmmcore
 
             size_t total_elements = compute_total_size(shape_);
             size_t display_count = std::min(preview_limit, total_elements);
-            for (size_t i = 0; i < display_count; ++i)
+            size_t i = 0;
+            for_each_element([&](const T& value)
             {
-                oss << data_[offset_ + i * strides_[0]];
-                if (i != display_count - 1) oss << ", ";
-            }
+                oss << value;
+                if (++i != display_count) oss << ", ";
+            }, display_count);
             if (display_count < total_elements)
             {
                 oss << ", ...";
-- 
2.43.0


From 2ed7db8673ce8ddf9cadd30a1345b1aa35021bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 65/98] fix: serialising a view that is not contiguous writes
 its elements

---
 cmmcore/memoryview.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 75a805a..99f14db 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -352,10 +352,11 @@ namespace cmmcore
                           reinterpret_cast<const char*>(shape_.data()),
                           reinterpret_cast<const char*>(shape_.data()) + sizeof(size_t) * ndim);
 
-            // Serialize Strides
+            // Serialize Strides (of the data that follow)
+            const std::vector<size_t> strides = contiguous_strides(shape_);
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(strides_.data()),
-                          reinterpret_cast<const char*>(strides_.data()) + sizeof(size_t) * strides_.size());
+                          reinterpret_cast<const char*>(strides.data()),
+                          reinterpret_cast<const char*>(strides.data()) + sizeof(size_t) * strides.size());
 
             // Serialize Offset
             buffer.insert(buffer.end(),
@@ -363,10 +364,12 @@ namespace cmmcore
                           reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
 
             // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
-            buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+            for_each_element([&](const T& value)
+            {
+                buffer.insert(buffer.end(),
+                              reinterpret_cast<const char*>(&value),
+                              reinterpret_cast<const char*>(&value) + sizeof(T));
+            });
 
             return buffer;
         }
-- 
2.43.0


From e7fd34b127b79c02d548ef20993fa54d9debf5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:18 +0000
Subject: [PATCH 66/98] fix: array views are not read from bytes that do not
 describe them

---
 cmmcore/memoryview.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 99f14db..7afecaf 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -390,7 +390,7 @@ namespace cmmcore
             std::memcpy(&type_name_length, buffer.data() + pos, sizeof(size_t));
             pos += sizeof(size_t);
 
-            if (pos + type_name_length > buffer.size())
+            if (type_name_length > buffer.size() - pos)
             {
                 throw std::invalid_argument("Buffer too small to contain type name");
             }
@@ -413,21 +413,21 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Shape
-            if (pos + sizeof(size_t) * ndim > buffer.size())
+            if (ndim > (buffer.size() - pos) / sizeof(size_t))
             {
                 throw std::invalid_argument("Buffer too small to contain shape");
             }
             std::vector<size_t> shape(ndim);
-            std::memcpy(shape.data(), buffer.data() + pos, sizeof(size_t) * ndim);
+            std::copy_n(buffer.data() + pos, sizeof(size_t) * ndim, reinterpret_cast<char*>(shape.data()));
             pos += sizeof(size_t) * ndim;
 
             // Deserialize Strides
-            if (pos + sizeof(size_t) * ndim > buffer.size())
+            if (ndim > (buffer.size() - pos) / sizeof(size_t))
             {
                 throw std::invalid_argument("Buffer too small to contain strides");
             }
             std::vector<size_t> strides(ndim);
-            std::memcpy(strides.data(), buffer.data() + pos, sizeof(size_t) * ndim);
+            std::copy_n(buffer.data() + pos, sizeof(size_t) * ndim, reinterpret_cast<char*>(strides.data()));
             pos += sizeof(size_t) * ndim;
 
             // Deserialize Offset
@@ -440,12 +440,22 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Data
-            size_t total_elements = compute_total_size(shape);
-            size_t data_size = total_elements * sizeof(T);
-            if (pos + data_size > buffer.size())
+            const size_t max_elements = (buffer.size() - pos) / sizeof(T);
+            const bool empty = std::find(shape.begin(), shape.end(), size_t(0)) != shape.end();
+            size_t total_elements = empty ? 0 : 1;
+            for (const size_t n : shape)
+            {
+                if (!empty && (n > max_elements || total_elements > max_elements / n))
+                {
+                    throw std::invalid_argument("Buffer too small to contain data");
+                }
+                total_elements *= n;
+            }
+            if (total_elements > max_elements || strides != contiguous_strides(shape))
             {
-                throw std::invalid_argument("Buffer too small to contain data");
+                throw std::invalid_argument("Buffer does not describe its data");
             }
+            size_t data_size = total_elements * sizeof(T);
 
             // Allocate memory for data
             T* data = new T[total_elements];
-- 
2.43.0


From b95d24e3972f1bec85e9a7af9c687fecea5247fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 67/98] fix: a serialised curve is read back as periodic only
 if it was

---
 cmmcore/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 32c087e..080ae5f 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -117,7 +117,7 @@ namespace cmmcore {
     std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curve.get_degree());
-        serializeBool(buffer, curve.is_periodic());
+        serializeBool(buffer, curve._periodic);
         serializeVectorVec4(buffer, curve.control_points);
         serializeVectorDouble(buffer, curve.knots);
         return buffer;
-- 
2.43.0


From f1368dfecacff5652b9d9349ad9087da6bd32402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 68/98] fix: writing curves to a file reports data that could
 not be written

---
 cmmcore/serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 080ae5f..8f1a5f1 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -162,6 +162,7 @@ namespace cmmcore {
             return false;
         }
         file.write(reinterpret_cast<const char *>(data.data()), data.size());
+        file.close();
         return file.good();
     }
 
-- 
2.43.0


From be3aaa9134926399e9226743e4a1acee22f5a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 69/98] fix: polyline end points are quantised without overflow
 and found again when removed

---
 cmmcore/polyline.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 6c82be3..5c6c15a 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -28,6 +28,7 @@ SOFTWARE.
 #include <list>
 #include <unordered_set>
 #include <cmath>
+#include <cstdint>
 #include <limits>
 #ifdef CYTHON_ABI
 #include "vec.h"
@@ -42,17 +43,18 @@ const double eps = std::numeric_limits<double>::epsilon();
 
 // Quantization function for spatial hashing
 struct PointKey {
-    int x, y, z;
+    std::int64_t x, y, z;
     PointKey() = default;
-    PointKey(double x, double y, double z) : x(x), y(y), z(z) {}
+    PointKey(std::int64_t x, std::int64_t y, std::int64_t z) : x(x), y(y), z(z) {}
 
 
-      PointKey(const vec3& point) {
-        x = static_cast<int>(std::floor(point.x / eps + 0.5));
-        y = static_cast<int>(std::floor(point.y / eps + 0.5));
-        z = static_cast<int>(std::floor(point.z / eps + 0.5));
-    }
+      PointKey(const vec3& point) : x(quantize(point.x)), y(quantize(point.y)), z(quantize(point.z)) {}
 
+    // Cells beyond the range of the key share the outermost one
+    static std::int64_t quantize(double value) {
+        constexpr double limit = 4611686018427387904.; // 2^62
+        return static_cast<std::int64_t>(std::fmax(-limit, std::fmin(limit, std::floor(value / eps + 0.5))));
+    }
 
     bool operator==(const PointKey& other) const {
         return x == other.x && y == other.y && z == other.z;
@@ -92,7 +94,7 @@ void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
 
 // Function to remove an endpoint from the spatial index
 void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
-    PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
+    PointKey key(endpoint->point);
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
     if (vec.empty()) {
-- 
2.43.0


From 330ab0758ebbfaca30f55586fff6069ffe9e3afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:18 +0000
Subject: [PATCH 70/98] fix: the parentheses of every entity in a STEP file
 match

---
 cmmcore/nurbs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 864c5d4..caef921 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1520,7 +1520,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Create PRODUCT_RELATED_PRODUCT_CATEGORY entity
     int product_related_category_id = entity_id++;
-    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << ");\n";
+    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << "));\n";
 
     // Create APPLICATION_PROTOCOL_DEFINITION entity
     int application_protocol_def_id = entity_id++;
-- 
2.43.0


From 3df712a59bc6e994a7f8004de0099af85a14c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:47 +0000
Subject: [PATCH 71/98] fix: the control points of a rational curve in a STEP
 file are points of space

---
 cmmcore/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index caef921..c02ec28 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -690,13 +690,13 @@ namespace cmmcore {
          * @return The STEP entity ID of the created B-spline curve.
          */
 int toSTEP(std::ostream &out, int &entity_id) const {
-            // Write CARTESIAN_POINT entities with homogeneous coordinates
+            // Write CARTESIAN_POINT entities with coordinates divided by the weight
             std::vector<int> cp_ids(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x << ", " << cp.y << ", " << cp.z << "));\n";
+                    << cp.x / cp.w << ", " << cp.y / cp.w << ", " << cp.z / cp.w << "));\n";
             }
 
             // Get knot multiplicities and unique knots
-- 
2.43.0


From 38346ce46bc8c6459bd798cc696c5ff3c1068381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 72/98] fix: the edges of a face in a STEP file join the ends
 of their curves and form a loop

---
 cmmcore/nurbs.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index c02ec28..9fc8929 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1420,12 +1420,17 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         curve_ids[i] = boundaries[i].toSTEP(out, entity_id);
     }
 
+    // The boundaries in the order and direction in which they go around the surface
+    constexpr std::array<int, 4> loop = {2, 1, 3, 0};
+    constexpr std::array<bool, 4> same_sense = {true, true, false, false};
+
     // Create and write VERTEX_POINT entities for corners
     std::array<int, 4> vertex_ids;
     for (int i = 0; i < 4; ++i) {
         vec3 point;
-        double param = (i < 2) ? boundaries[i].interval()[0] : boundaries[i].interval()[1];
-        boundaries[i].evaluate(param, point);
+        const NURBSCurve &boundary = boundaries[loop[i]];
+        double param = same_sense[i] ? boundary.interval()[0] : boundary.interval()[1];
+        boundary.evaluate(param, point);
         int cartesian_id = entity_id++;
         out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << point.x << ", " << point.y << ", " << point.z << "));\n";
         vertex_ids[i] = entity_id++;
@@ -1438,7 +1443,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         int next = (i + 1) % 4;
         int edge_id = entity_id++;
         out << "#" << edge_id << " = EDGE_CURVE('', #" << vertex_ids[i] << ", #" << vertex_ids[next]
-            << ", #" << curve_ids[i] << ", .T.);\n";
+            << ", #" << curve_ids[loop[i]] << ", " << (same_sense[i] ? ".T." : ".F.") << ");\n";
         edge_ids[i] = edge_id;
     }
 
-- 
2.43.0


From 2740661372f83a2e9b03d2e9554be16b187294d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 73/98] fix: scaling a plane vector in place is not ambiguous

---
 cmmcore/vec.h | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f8b1922..93691e2 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -203,11 +203,6 @@ namespace cmmcore {
     bool collinear(const vec2& other) const {
       return CMMCORE_VEC_COLLINEAR(*this,other);
     }
-    void operator*=(const double val) {
-      x*=val;
-      y*=val;
-
-    }
     friend std::ostream&  operator<<(std::ostream& os, const vec2& obj);
 
   };
-- 
2.43.0


From f475b141eb3ee90d33058631cd1382e0f6ed8116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 74/98] fix: the cross product of homogeneous points does not
 depend on the form in which it is called

---
 cmmcore/vec.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 93691e2..41aa576 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -843,12 +843,9 @@ struct vec4 {
   }
 
   vec4 cross( const vec4& b) const {
-    return {
-      y * b.z - z * b.y,
-      z * b.x - x * b.z,
-      x * b.y - y * b.x,
-      1.
-  };
+    vec4 result;
+    cross(b, result);
+    return result;
   }
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
-- 
2.43.0


From 5008e579a20f1e6f9cdce0f1cce62762465096ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:42 +0000
Subject: [PATCH 75/98] fix: collinear vectors are recognised although their
 unit vectors are rounded

---
 cmmcore/vec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 41aa576..b21d97a 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -67,8 +67,10 @@ namespace cmmcore {
   };
 #define CMMCORE_VEC_PROJECTION(self,other) ((self).dot(other) / (other).dot(other))
 #define CMMCORE_VEC_PROJECT(self,other) other*((self).dot(other) / (other).dot(other))
-#define CMMCORE_VEC_COLLINEAR(self,other) std::abs((self).unit().dot((other).unit()))==1.
-#define CMMCORE_VEC_PARALLEL(self,other) (self).unit().dot((other).unit())==1.
+// The product of two unit vectors is one only up to rounding
+#define CMMCORE_VEC_UNIT_TOL (16*std::numeric_limits<double>::epsilon())
+#define CMMCORE_VEC_COLLINEAR(self,other) (std::abs((self).unit().dot((other).unit()))>=1.-CMMCORE_VEC_UNIT_TOL)
+#define CMMCORE_VEC_PARALLEL(self,other) ((self).unit().dot((other).unit())>=1.-CMMCORE_VEC_UNIT_TOL)
 #define CMMCORE_VEC_PERP(self,other) (self).unit().dot((other).unit())==0
   
   struct vec2 {
-- 
2.43.0


From a5df6429cc7572701aaff1eda23b9eba07b35585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:12 +0000
Subject: [PATCH 76/98] fix: the distance of segments does not extend them to
 lines, and holds for parallel ones

---
 cmmcore/numeric_utils.h | 49 ++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/cmmcore/numeric_utils.h b/cmmcore/numeric_utils.h
index 888f581..5e5f3a8 100644
--- a/cmmcore/numeric_utils.h
+++ b/cmmcore/numeric_utils.h
@@ -10,10 +10,13 @@
 
 
 
+#include <cmath>
 #include <cstring>
 namespace cmmcore {
+// Closest points of the segments p1-p2 and q1-q2: cpt1 = p1+t*(p2-p1) and cpt2 = q1+u*(q2-q1) with t, u from 0 to 1
 inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2,
                       double& t,double& u, vec3& cpt1, vec3& cpt2 ){
+  const auto limit=[](const double value) { return std::fmin(std::fmax(value, 0.), 1.); };
   auto d1=p2-p1;
   auto d2=q2-q1;
   auto r=p1-q1;
@@ -23,39 +26,25 @@ inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,cons
   c = d2.dot( d2)   ;
   d = d1.dot( r)    ;
   e = d2.dot( r)    ;
-    denom = a * c - b * b;
-   if (denom != 0){
-            t = (b * e - c * d) / denom;
-            u = (a * e - b * d) / denom;
-} else {
-  t = u = 0;
-}
-    p1.add(t * d1,cpt1);
-    q1.add(u * d2,cpt2);
-    auto diffvec=cpt2-cpt1;
-    return diffvec.length();
+  // squared length of the cross product, without the cancellation of a * c - b * b
+  denom = d1.cross(d2).sqLength();
+  t = denom > 1e-24 * a * c ? limit((b * e - c * d) / denom) : 0;
+  u = c > 0 ? (b * t + e) / c : 0;
+  if (!(u >= 0 && u <= 1) || c == 0) {
+    // the closest point of the second segment is an end, which the first one is projected on
+    u = limit(u);
+    t = a > 0 ? limit((b * u - d) / a) : 0;
+  }
+  p1.add(t * d1,cpt1);
+  q1.add(u * d2,cpt2);
+  auto diffvec=cpt2-cpt1;
+  return diffvec.length();
 }
     inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2
                        ){
-    auto d1=p2-p1;
-    auto d2=q2-q1;
-    auto r=p1-q1;
-    double a,b,c,d,e,denom,t,u;
-    a=d1.dot(d1);
-    b = d1.dot( d2)   ;
-    c = d2.dot( d2)   ;
-    d = d1.dot( r)    ;
-    e = d2.dot( r)    ;
-    denom = a * c - b * b;
-    if (denom != 0){
-        t = (b * e - c * d) / denom;
-        u = (a * e - b * d) / denom;
-    } else {
-        t = u = 0;
-    }
-    auto cpt1=p1+t * d1;
-    auto cpt2=q1+u * d2;
-    return (cpt2-cpt1).length();
+    double t,u;
+    vec3 cpt1,cpt2;
+    return segmentsDistance(p1,p2,q1,q2,t,u,cpt1,cpt2);
 }
 
     inline void centerProjectionToXY(const vec3& origin, const vec3& point, vec2& projected) {
-- 
2.43.0


From 4a1d1edaa7fbab1bc2e003b95efd512818e7fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:39 +0000
Subject: [PATCH 77/98] fix: the partial derivatives of a surface do not depend
 on points outside its domain

---
 cmmcore/nurbs.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 9fc8929..c600d47 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -848,21 +848,33 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         void derivative_u(double u, double v, vec3 &result) const {
-            vec3 temp1, temp2;
-            evaluate(u - 1e-5, v, temp1);
-            evaluate(u + 1e-5, v, temp2);
-            temp2 -= temp1;
-            result.set(temp2 / (2 * 1e-5
-                       ));
+            partial_derivative(u, v, 1, 0, result);
         }
 
         void derivative_v(double u, double v, vec3 &result) const {
-            vec3 temp1, temp2;
-            evaluate(u, v - 1e-5, temp1);
-            evaluate(u, v + 1e-5, temp2);
-            temp2 -= temp1;
-            result.set(temp2 / (2 * 1e-5
-                       ));
+            partial_derivative(u, v, 0, 1, result);
+        }
+
+        // The first partial derivative in one direction (quotient rule for the homogeneous surface)
+        void partial_derivative(double u, double v, const int order_u, const int order_v, vec3 &result) const {
+            const int span_u = find_span(static_cast<int>(_size[0]) - 1, _degree[0], u, _knots_u, false);
+            const int span_v = find_span(static_cast<int>(_size[1]) - 1, _degree[1], v, _knots_v, false);
+            std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > nu, nv;
+            ders_basis_funs(span_u, u, _degree[0], order_u, _knots_u, nu);
+            ders_basis_funs(span_v, v, _degree[1], order_v, _knots_v, nv);
+            vec4 point(0., 0., 0., 0.), der(0., 0., 0., 0.);
+            for (int i = 0; i <= _degree[0]; ++i) {
+                for (int j = 0; j <= _degree[1]; ++j) {
+                    const vec4 &cpt = _control_points[span_u - _degree[0] + i][span_v - _degree[1] + j];
+                    for (size_t d = 0; d < 4; ++d) {
+                        point[d] += nu[0][i] * nv[0][j] * cpt[d];
+                        der[d] += nu[order_u][i] * nv[order_v][j] * cpt[d];
+                    }
+                }
+            }
+            result.set((der.x - der.w * point.x / point.w) / point.w,
+                       (der.y - der.w * point.y / point.w) / point.w,
+                       (der.z - der.w * point.z / point.w) / point.w);
         }
 
         void normal(double u, double v, vec3 &result) const {
-- 
2.43.0


From 574aac45bec0ab7df8891e8ea2cf062eed89ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 78/98] fix: the second part of a curve is intersected although
 the first part is separated

---
 cmmcore/csx.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index d15354b..a0880e6 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -128,22 +128,13 @@ namespace cmmcore {
                         std::vector<vec3> curve_points = curve1.get_control_points3d();
                         std::vector<vec3> surface_points = s.control_points_flat3d();
 
-                        if ( SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
-                            continue;
-
-                        }else{
+                        if (!SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
                             _curve_surface_intersect(curve1, s);
-
-                    }
+                        }
                     std::vector<vec3> curve_points2 = curve2.get_control_points3d();
 
-
-                    if ( SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
-                        continue;
-
-                    }else{
+                    if (!SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
                         _curve_surface_intersect(curve2, s);
-
                     }
 
 
-- 
2.43.0


From d1345f7a6645f716de251b9987a2a14a54d6bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 79/98] fix: a curve-surface intersection on the border of two
 pieces is reported once

---
 cmmcore/csx.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index a0880e6..9926c7f 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -105,7 +105,9 @@ namespace cmmcore {
 
 
 
-                if (_is_degenerate(params, curve, surface)) {
+                if (_is_known(point)) {
+                    // found before, in a neighbouring piece
+                } else if (_is_degenerate(params, curve, surface)) {
                     intersections.emplace_back(CSXType::DEGENERATE, point, params);
                 } else {
                     intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
@@ -142,6 +144,12 @@ namespace cmmcore {
             }
         }
 
+        bool _is_known(const vec3 &point) const {
+            return std::any_of(intersections.begin(), intersections.end(), [&](const CSXInt &known) {
+                return (std::get<1>(known) - point).length() <= tolerance;
+            });
+        }
+
         bool _no_new_intersections(const NURBSCurve &curve, const NURBSSurface &surface) const {
             // Implement separability test
             auto e1=curve.get_control_points3d();
-- 
2.43.0


From 6814a1796edb05975a925c75b2303c767d246cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 80/98] fix: curve-surface intersections stay inside the
 domains, and crossings at the end of a piece are found

---
 cmmcore/csx.h | 94 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 19 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 9926c7f..987cc86 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -32,7 +32,8 @@ namespace cmmcore {
     class NURBSCurveSurfaceIntersector {
     public:
         NURBSCurveSurfaceIntersector(const NURBSCurve &curve, const NURBSSurface &surface, double tolerance = 1e-3, double ptol = 1e-7)
-            : _curve(curve), _surface(surface), tolerance(tolerance), ptol(ptol) {}
+            : _curve(curve), _surface(surface), tolerance(tolerance), ptol(ptol),
+              ptol_u(_surface_ptol(surface, 0)), ptol_v(_surface_ptol(surface, 1)) {}
 
          CSXIntersections& intersect() {
             intersections.clear();
@@ -44,7 +45,9 @@ namespace cmmcore {
         const NURBSCurve &_curve;
         const NURBSSurface &_surface;
         double tolerance;
-        double ptol;
+        double ptol;   // parametric tolerance of the curve
+        double ptol_u; // parametric tolerances of the surface
+        double ptol_v;
         CSXIntersections intersections;
 
         bool _is_valid_point(vec3 point, const NURBSCurve& curve, const NURBSSurface& surface,
@@ -65,8 +68,8 @@ namespace cmmcore {
             // Check if we're already at a too small subdivision
 
             if (std::abs(curve._interval[1] - curve._interval[0]) < ptol ||
-                std::abs(surface._interval[0][1] - surface._interval[0][0]) < ptol ||
-                std::abs(surface._interval[1][1] - surface._interval[1][0] )< ptol) {
+                std::abs(surface._interval[0][1] - surface._interval[0][0]) < ptol_u ||
+                std::abs(surface._interval[1][1] - surface._interval[1][0] )< ptol_v) {
                 return;
             }
 
@@ -80,12 +83,10 @@ namespace cmmcore {
             double u = (u0 + u1) * 0.5;
             double v = (v0 + v1) * 0.5;
 
-            if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
-                return;
-            }
-
             if (!new_point.has_value()) {
+                if (_is_too_small(surface)) {
+                    return;
+                }
 
                 double f=0.5 * (curve._interval[0] + curve._interval[1]);
                 auto [curve1, curve2] = curve.split(f, false); // normalize_knots=false
@@ -112,10 +113,13 @@ namespace cmmcore {
                 } else {
                     intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
                 }
-                if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
+                if (_is_too_small(surface)) {
                     return;
-                                }
+                }
+                // An intersection at the end of a domain does not divide it: there may be others inside
+                t = _division(t, curve._interval, ptol);
+                u = _division(u, surface._interval[0], ptol_u);
+                v = _division(v, surface._interval[1], ptol_v);
                 // Add spherical separability check
 
 
@@ -150,6 +154,32 @@ namespace cmmcore {
             });
         }
 
+        // true if the surface cannot be divided further
+        bool _is_too_small(const NURBSSurface &surface) const {
+            return 0.5 * (surface._interval[0][1] - surface._interval[0][0]) < ptol_u ||
+                   0.5 * (surface._interval[1][1] - surface._interval[1][0]) < ptol_v;
+        }
+
+        static double _division(const double param, const std::array<double, 2> &interval, const double eps) {
+            return param - interval[0] > eps && interval[1] - param > eps ? param : 0.5 * (interval[0] + interval[1]);
+        }
+
+        // The parametric length of the tolerance along the longest row or column of control points
+        double _surface_ptol(const NURBSSurface &surface, const size_t direction) const {
+            double longest = 0;
+            for (size_t j = 0; j < surface._size[1 - direction]; ++j) {
+                double length = 0;
+                for (size_t i = 1; i < surface._size[direction]; ++i) {
+                    const vec4 &a = direction == 0 ? surface._control_points[i - 1][j] : surface._control_points[j][i - 1];
+                    const vec4 &b = direction == 0 ? surface._control_points[i][j] : surface._control_points[j][i];
+                    length += a.to_vec3().distance(b.to_vec3());
+                }
+                longest = std::max(longest, length);
+            }
+            const double range = surface._interval[direction][1] - surface._interval[direction][0];
+            return longest > tolerance ? range * tolerance / longest : range;
+        }
+
         bool _no_new_intersections(const NURBSCurve &curve, const NURBSSurface &surface) const {
             // Implement separability test
             auto e1=curve.get_control_points3d();
@@ -172,9 +202,27 @@ namespace cmmcore {
             auto equation = [&](const Vector<3> &params) -> double {
                 // First validate parameters are in range
                     vec3 curve_pt, surface_pt;
-                    curve.evaluate(params[0], curve_pt);
-                    surface.evaluate(params[1], params[2], surface_pt);
-                    const auto d = (curve_pt - surface_pt);
+                    // Neither curve nor surface is defined outside its domain
+                    const Vector<3> inside = _clamp(params, curve._interval, surface._interval);
+                    curve.evaluate(inside[0], curve_pt);
+                    surface.evaluate(inside[1], inside[2], surface_pt);
+                    auto d = (curve_pt - surface_pt);
+                    // there they continue along their tangents
+                    if (params[0] != inside[0]) {
+                        vec3 tangent;
+                        curve.derivative(inside[0], tangent);
+                        d += tangent * (params[0] - inside[0]);
+                    }
+                    if (params[1] != inside[1]) {
+                        vec3 tangent;
+                        surface.derivative_u(inside[1], inside[2], tangent);
+                        d -= tangent * (params[1] - inside[1]);
+                    }
+                    if (params[2] != inside[2]) {
+                        vec3 tangent;
+                        surface.derivative_v(inside[1], inside[2], tangent);
+                        d -= tangent * (params[2] - inside[2]);
+                    }
                     return d.sqLength();
 
             };
@@ -183,9 +231,10 @@ namespace cmmcore {
                                                    (surface._interval[0][0] + surface._interval[0][1]) * 0.5,
                                                    (surface._interval[1][0] + surface._interval[1][1]) * 0.5};
 
-            auto result = newtonsMethod<3>(equation, initial_guess,ptol, 15);
+            auto result = newtonsMethod<3>(equation, initial_guess,std::min({ptol, ptol_u, ptol_v}), 15);
 
             if (_is_valid_parameter(result, curve._interval, surface._interval)) {
+                result = _clamp(result, curve._interval, surface._interval);
                 vec3 curve_pt, surface_pt;
                 curve.evaluate(result[0], curve_pt);
                 surface.evaluate(result[1], result[2], surface_pt);
@@ -199,9 +248,16 @@ namespace cmmcore {
 
         bool _is_valid_parameter(const Vector<3> &params, const std::array<double, 2> &curve_interval,
                                  const std::array<std::array<double, 2>, 2> &surface_interval) {
-            return (params[0] >= curve_interval[0] && params[0] <= curve_interval[1]) &&
-                   (params[1] >= surface_interval[0][0] && params[1] <= surface_interval[0][1]) &&
-                   (params[2] >= surface_interval[1][0] && params[2] <= surface_interval[1][1]);
+            const Vector<3> inside = _clamp(params, curve_interval, surface_interval);
+            return std::abs(params[0] - inside[0]) <= ptol && std::abs(params[1] - inside[1]) <= ptol_u &&
+                   std::abs(params[2] - inside[2]) <= ptol_v;
+        }
+
+        static Vector<3> _clamp(const Vector<3> &params, const std::array<double, 2> &curve_interval,
+                                const std::array<std::array<double, 2>, 2> &surface_interval) {
+            return {std::clamp(params[0], curve_interval[0], curve_interval[1]),
+                    std::clamp(params[1], surface_interval[0][0], surface_interval[0][1]),
+                    std::clamp(params[2], surface_interval[1][0], surface_interval[1][1])};
         }
 
         bool _is_degenerate(const Vector<3> &params, const NURBSCurve &curve, const NURBSSurface &surface) const {
-- 
2.43.0


From a425786bc4a9f4f7af137ae134e0a028f2841828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:30 +0000
Subject: [PATCH 81/98] fix: hashed vectors are told apart to the decimals of a
 double

---
 cmmcore/cm_hash.h | 15 +++++++++------
 cmmcore/polygon.h |  2 +-
 cmmcore/vec.h     | 20 ++++++++++----------
 cmmcore/vec.pxd   |  2 +-
 4 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/cmmcore/cm_hash.h b/cmmcore/cm_hash.h
index f81d10b..01b1161 100644
--- a/cmmcore/cm_hash.h
+++ b/cmmcore/cm_hash.h
@@ -4,7 +4,9 @@
 
 #ifndef CMMCORE_HASH_H
 #define CMMCORE_HASH_H
+#include <cmath>
 #include <unordered_set>
+#include <utility>
 #ifdef CYTHON_ABI
 #include "cm_limits.h"
 #else
@@ -16,9 +18,10 @@ namespace cmmcore
     // Quantize to CMMCORE_DECIMALS decimal places
     static std::hash<double> doubleHash;
 
-    inline int quantize(const double value, const int decimals)
+    inline double quantize(const double value, const int decimals)
     {
-        return static_cast<int>(value * decimals);
+        // the number of quanta of a large value does not fit into an integer
+        return std::trunc(value * std::pow(10.0, decimals));
     }
 
     namespace _hashimpl
@@ -27,10 +30,10 @@ namespace cmmcore
         {
             size_t operator()(const std::pair<double, double>& v) const
             {
-                int qx = quantize(v.first, CMMCORE_DECIMALS);
-                int qy = quantize(v.first,CMMCORE_DECIMALS);
-                size_t h1 = std::hash<int>()(qx);
-                size_t h2 = std::hash<int>()(qy);
+                double qx = quantize(v.first, CMMCORE_DECIMALS);
+                double qy = quantize(v.second,CMMCORE_DECIMALS);
+                size_t h1 = std::hash<double>()(qx);
+                size_t h2 = std::hash<double>()(qy);
                 return h1 ^ (h2 << 1);
             }
         };
diff --git a/cmmcore/polygon.h b/cmmcore/polygon.h
index a090fde..3fafef8 100644
--- a/cmmcore/polygon.h
+++ b/cmmcore/polygon.h
@@ -26,7 +26,7 @@ namespace cmmcore{
             auto _x1=quantize(-_a.x,std::numeric_limits<double>::digits10);
             auto _y1=quantize(-_a.y,std::numeric_limits<double>::digits10);
 
-            return   std::max(_x ^ (_y << 1),    _x1 ^ (_y1 << 1));
+            return   std::max(_x + 2 * _y,    _x1 + 2 * _y1);
 
         };
     };
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index b21d97a..b9cb2ef 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -467,10 +467,10 @@ struct vec3 {
 
   struct Vec2Hash {
     size_t operator()(const vec2& v) const {
-      int qx = quantize(v.x, CMMCORE_DECIMALS);
-      int qy = quantize(v.y,CMMCORE_DECIMALS);
-      size_t h1 = std::hash<int>()(qx);
-      size_t h2 = std::hash<int>()(qy);
+      double qx = quantize(v.x, CMMCORE_DECIMALS);
+      double qy = quantize(v.y,CMMCORE_DECIMALS);
+      size_t h1 = std::hash<double>()(qx);
+      size_t h2 = std::hash<double>()(qy);
       return h1 ^ (h2 << 1) ;
     }
 
@@ -489,12 +489,12 @@ struct vec3 {
 
 struct Vec3Hash {
   size_t operator()(const vec3& v) const {
-    int qx = quantize(v.x, CMMCORE_DECIMALS);
-    int qy = quantize(v.y,CMMCORE_DECIMALS);
-    int qz = quantize(v.z,CMMCORE_DECIMALS);
-    size_t h1 = std::hash<int>()(qx);
-    size_t h2 = std::hash<int>()(qy);
-    size_t h3 = std::hash<int>()(qz);
+    double qx = quantize(v.x, CMMCORE_DECIMALS);
+    double qy = quantize(v.y,CMMCORE_DECIMALS);
+    double qz = quantize(v.z,CMMCORE_DECIMALS);
+    size_t h1 = std::hash<double>()(qx);
+    size_t h2 = std::hash<double>()(qy);
+    size_t h3 = std::hash<double>()(qz);
     return h1 ^ (h2 << 1) ^ (h3 << 2);
   }
 
diff --git a/cmmcore/vec.pxd b/cmmcore/vec.pxd
index 40cafb1..abeb97d 100644
--- a/cmmcore/vec.pxd
+++ b/cmmcore/vec.pxd
@@ -128,7 +128,7 @@ cdef extern from "vec.h" namespace "cmmcore" nogil:
         vec4 unit() const
 
     # Function prototypes
-    int quantize(double value, int decimals)
+    double quantize(double value, int decimals)
     string format_vec3(const vec3& v)
     string format_vec3vec(vector[vec3]& vecs)
     double dot_product(const vec3& a, const vec3& b)
-- 
2.43.0


From bc6207c55eb234ddefc8f0743d77a7a14b26bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:54 +0000
Subject: [PATCH 82/98] fix: boundary intersections are duplicates only within
 the tolerance

---
 cmmcore/boundary_intersection.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 32e744e..f5a338f 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -281,23 +281,18 @@ inline void find_boundary_intersections(
     
     // Remove duplicate points (within tolerance)
 
-    auto unique_points=Vec3Set();
     const size_t sx=intersection_points.size();
     for (int i = sx- 1; i >= 0; --i) {
 
-
         auto& point=intersection_points[i];
 
-        if (!contains(unique_points, point.point))
+        if (std::any_of(intersection_points.begin()+i+1, intersection_points.end(), [&](const IntersectionPoint& other) {
+            return (other.point - point.point).length() <= tol;
+        }))
         {
-            unique_points.emplace(point.point);
-            continue;
-
+            intersection_points.erase(intersection_points.begin()+i);
         }
 
-        intersection_points.erase(intersection_points.begin()+i);
-
-
     }
     
     //return unique_points;
-- 
2.43.0


From deb1d5c3af6a29258afa8fedd6504f1a2e657f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 83/98] fix: a flat surface intersects the surfaces that pass
 through it, whatever their size

---
 cmmcore/ssx.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index f92bcfc..a652f3b 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -204,8 +204,12 @@ namespace cmmcore
         bb1.intersection(bb2, aabb1);
         auto _dims = (aabb1.max - aabb1.min);
 
-        if ((aabb1.volume() < tol || std::abs(_dims.x) <= tol) || (std::abs(_dims.y) <= tol) || (std::abs(_dims.z) <=
-            tol))
+        // Boxes that only touch. A flat surface that passes through the box of the other is not touching it.
+        auto touching = [tol](double common, double first, double second)
+        {
+            return std::abs(common) <= tol && (first <= tol) == (second <= tol);
+        };
+        if (touching(_dims.x, bb1d.x, bb2d.x) || touching(_dims.y, bb1d.y, bb2d.y) || touching(_dims.z, bb1d.z, bb2d.z))
         {
 #ifdef CMMCORE_DEBUG
             printf("a surface is planar. depth: %d\n", depth);
-- 
2.43.0


From 8cc930020cedec2b252afbef693369429053a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 84/98] fix: the inversion of a point on a curve returns the
 parameter it converged to, within the domain

---
 cmmcore/point_inversion.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index f3b60fc..efaa0eb 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -3,6 +3,7 @@
 
 #include "newthon2.h" // For the Newton's method implementation
 #include "nurbs.h" // For NURBS classes
+#include <algorithm>
 #include <limits>
 
 namespace cmmcore {
@@ -44,11 +45,13 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
                            int max_iter = 100) {
     // Temporary storage for evaluated points/derivatives 
     vec3 C_point, C_prime, C_double_prime;
-    
+    std::vector<vec3> ders;
+
     // Get initial point on curve and derivatives
     curve.evaluate(u0, C_point);
     curve.derivative(u0, C_prime);
-    curve.second_derivative_fdm(u0, C_double_prime);
+    curve.derivative(u0, ders, 3);
+    C_double_prime = ders[2];
     
     double ui = u0;
     
@@ -64,11 +67,13 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
             break;
         }
         
-        // Newton step
-        double ui1 = ui - fi / fpi;
-        
+        // Newton step, which does not leave the curve
+        double ui1 = std::clamp(ui - fi / fpi, curve._interval[0], curve._interval[1]);
+        const double step = std::abs(ui1 - ui) * C_prime.length();
+        ui = ui1;
+
         // Convergence check 1: Parameter change small enough
-        if (std::abs(ui1 - ui) * C_prime.length() <= tol1) {
+        if (step <= tol1) {
             break;
         }
         
@@ -89,8 +94,8 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
             break;
         }
         
-        curve.second_derivative_fdm(ui1, C_double_prime);
-        ui = ui1;
+        curve.derivative(ui1, ders, 3);
+        C_double_prime = ders[2];
     }
     
     return ui;
-- 
2.43.0


From f50fa05cfe313f91ef2e69e53baf922e7260d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 85/98] fix: the inversion of a point on a surface iterates
 until it converges, within the domain

---
 cmmcore/point_inversion.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index efaa0eb..16bb65c 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -150,17 +150,19 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
             throw std::runtime_error("Failed to solve 2x2 system in surface inversion");
         }
         
-        // Update parameters
+        // Update parameters, which do not leave the surface
         std::array<double,2> ui1vi1 = {
-            uivi[0] - delta[0],
-            uivi[1] - delta[1]
+            std::clamp(uivi[0] - delta[0], surface._interval[0][0], surface._interval[0][1]),
+            std::clamp(uivi[1] - delta[1], surface._interval[1][0], surface._interval[1][1])
         };
+        const double step = std::abs(ui1vi1[0] - uivi[0]) * du.length() +
+            std::abs(ui1vi1[1] - uivi[1]) * dv.length();
+        uivi = ui1vi1;
         
         // Check convergence criteria
         
         // 1. Parameter update small enough?
-        if ((ui1vi1[0] - uivi[0]) * du.length() + 
-            (ui1vi1[1] - uivi[1]) * dv.length() <= tol1) {
+        if (step <= tol1) {
             break;
         }
         
@@ -172,13 +174,14 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
         
         // 3. Perpendicularity condition met?
         surface.derivative_u(ui1vi1[0], ui1vi1[1], du);
+        surface.derivative_v(ui1vi1[0], ui1vi1[1], dv);
         vec3 pt_diff = S_point - P;
         if (std::abs(du.dot(pt_diff)) / 
-            (du.length() * pt_diff.length()) <= tol2) {
+            (du.length() * pt_diff.length()) <= tol2 &&
+            std::abs(dv.dot(pt_diff)) /
+            (dv.length() * pt_diff.length()) <= tol2) {
             break;
         }
-        
-        uivi = ui1vi1;
     }
     
     return uivi;
-- 
2.43.0


From acaebc44449253addb55e8cd92fd80f389073f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:41 +0000
Subject: [PATCH 86/98] fix: a step in the tangent plane is found whatever the
 orientation of the tangents

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index a652f3b..54ab1cb 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -43,7 +43,7 @@ namespace cmmcore
             for (size_t i = 0; i < 3; ++i)
             {
                 temp = mat[i].det();
-                if (temp > dett)
+                if (std::abs(temp) > std::abs(dett))
                 {
                     dett = temp;
                     n = i;
-- 
2.43.0


From c0602e5f36945b06471c3f306c3941efa823a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:51 +0000
Subject: [PATCH 87/98] fix: a joined curve runs through the points of both
 curves

---
 cmmcore/nurbs.h | 55 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index c600d47..ce88dbd 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -616,6 +616,11 @@ namespace cmmcore {
                 return false;
             }
 
+            // Curves of different degrees have no common knot vector
+            if (_degree != second._degree) {
+                return false;
+            }
+
             // Get endpoints of both curves
             vec3 first_start, first_end, second_start, second_end;
             evaluate(_interval[0], first_start);
@@ -637,33 +642,43 @@ namespace cmmcore {
                 return false;
             }
 
-            // Get control points from both curves
-            std::vector<vec4> new_control_points;
-            new_control_points.reserve(control_points.size() + second.control_points.size());
+            // Get control points and knots from both curves
+            std::vector<vec4> new_control_points = control_points, second_control_points = second.control_points;
+            std::vector<double> new_knots = knots, second_knots = second.knots;
+            auto reverse = [](std::vector<vec4> &points, std::vector<double> &knot_vector) {
+                const double sum = knot_vector.front() + knot_vector.back();
+                std::reverse(points.begin(), points.end());
+                std::reverse(knot_vector.begin(), knot_vector.end());
+                for (auto &knot: knot_vector) knot = sum - knot;
+            };
 
             // Join based on which endpoints match
             if (end_start) {
                 // Normal case: first end to second start
-                new_control_points = control_points;
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.begin(), second.control_points.end());
             } else if (start_start) {
                 // Reverse first curve
-                new_control_points.insert(new_control_points.end(),
-                                          control_points.rbegin(), control_points.rend());
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.begin(), second.control_points.end());
+                reverse(new_control_points, new_knots);
             } else if (end_end) {
                 // Reverse second curve
-                new_control_points = control_points;
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.rbegin(), second.control_points.rend());
+                reverse(second_control_points, second_knots);
             } else if (start_end) {
                 // Reverse first curve and reverse second curve
-                new_control_points.insert(new_control_points.end(),
-                                          control_points.rbegin(), control_points.rend());
-                new_control_points.insert(new_control_points.end(),
-                                          second.control_points.rbegin(), second.control_points.rend());
+                reverse(new_control_points, new_knots);
+                reverse(second_control_points, second_knots);
+            }
+
+            // The curves share the point at the joint, where their weights have to agree
+            const double scale = new_control_points.back().w / second_control_points.front().w;
+            for (size_t i = 1; i < second_control_points.size(); ++i) {
+                const vec4 &point = second_control_points[i];
+                new_control_points.emplace_back(point.x * scale, point.y * scale, point.z * scale, point.w * scale);
+            }
+
+            // The second curve continues at the end of the first one
+            new_knots.pop_back();
+            const double shift = new_knots.back() - second_knots[_degree];
+            for (size_t i = _degree + 1; i < second_knots.size(); ++i) {
+                new_knots.push_back(second_knots[i] + shift);
             }
 
             // If both start and end points match (after potential reversals), make it periodic
@@ -677,7 +692,11 @@ namespace cmmcore {
             }
 
             // Create result curve
-            result = NURBSCurve(new_control_points, _degree, should_be_periodic);
+            if (should_be_periodic) {
+                result = NURBSCurve(new_control_points, _degree, true);
+            } else {
+                result = NURBSCurve(new_control_points, _degree, new_knots, false);
+            }
             return true;
         }
 
-- 
2.43.0


From b8aaea77abf31f7d2606b47d372d59c21d231948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 88/98] fix: surfaces can be intersected in several threads:
 the step counter is not shared

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index 54ab1cb..b2d0438 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -82,7 +82,7 @@ namespace cmmcore
         uv_new.set(point_inversion_surface(surf, xyz_new, uv_old.x, uv_old.y, tol, tol, max_iter));
     }
 
-    static int counter = 0;
+    static thread_local int counter = 0;
     using UnorderedSetPairDouble = std::unordered_set<
         std::pair<double, double>, _hashimpl::PairDoubleHash, _hashimpl::PairDoubleEqual>;
 
-- 
2.43.0


From 1c4315080a832d50a47875164cc87113f5c1ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:50 +0000
Subject: [PATCH 89/98] fix: a small pivot neither hides nor feigns that a
 matrix is singular

---
 cmmcore/matrix.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index 304d71c..ad8ff18 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -234,12 +234,12 @@ public:
                 }
             }
 
-            // a pivot that is only rounding noise compared with the elements of the matrix is zero
-            double largest = 0.0;
-            for (const double x : data) {
-                largest = std::max(largest, std::abs(x));
+            // bounds of the rounding errors of the elements: a pivot that may be only rounding noise is zero
+            const double eps = std::numeric_limits<double>::epsilon();
+            MatrixD error(rows, cols);
+            for (size_t i = 0; i < data.size(); ++i) {
+                error.data[i] = eps * std::abs(data[i]);
             }
-            const double smallestPivot = 16.0 * rows * std::numeric_limits<double>::epsilon() * largest;
 
             for (size_t i = 0; i < rows; ++i) {
                 size_t pivot = i;
@@ -252,16 +252,24 @@ public:
                     for (size_t j = 0; j < 2 * cols; ++j) {
                         std::swap(augmented(i, j), augmented(pivot, j));
                     }
+                    for (size_t j = 0; j < cols; ++j) {
+                        std::swap(error(i, j), error(pivot, j));
+                    }
                 }
 
                 double pivotValue = augmented(i, i);
-                if (!(std::abs(pivotValue) > smallestPivot)) {
+                const double pivotError = error(i, i);
+                if (!(std::abs(pivotValue) > 4.0 * pivotError)) {
                     throw std::runtime_error("Matrix is singular and cannot be inverted");
                 }
 
                 for (size_t j = 0; j < 2 * cols; ++j) {
                     augmented(i, j) /= pivotValue;
                 }
+                for (size_t j = i; j < cols; ++j) {
+                    const double x = std::abs(augmented(i, j));
+                    error(i, j) = (error(i, j) + x * pivotError) / std::abs(pivotValue) + eps * x;
+                }
 
                 for (size_t k = 0; k < rows; ++k) {
                     if (k != i) {
@@ -269,6 +277,11 @@ public:
                         for (size_t j = 0; j < 2 * cols; ++j) {
                             augmented(k, j) -= factor * augmented(i, j);
                         }
+                        const double factorError = error(k, i);
+                        for (size_t j = i; j < cols; ++j) {
+                            const double x = std::abs(augmented(i, j));
+                            error(k, j) += std::abs(factor) * (error(i, j) + eps * x) + factorError * x + eps * std::abs(augmented(k, j));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 37bc533d786e027544ec9d5e04671bf6723d37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:18 +0000
Subject: [PATCH 90/98] fix: an open curve whose last control points repeat the
 first is not periodic before it is made so

---
 cmmcore/nurbs.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index ce88dbd..5b0ea38 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -161,7 +161,12 @@ namespace cmmcore {
         // Methods
 
         // Check if the NURBS curve is periodic
-        constexpr bool is_periodic() const {
+        bool is_periodic() const {
+            return control_points_wrap() && knots_wrap();
+        }
+
+        // Check if the last control points repeat the first ones
+        bool control_points_wrap() const {
             for (int j = 0; j < _degree; ++j) {
                 for (int i = 0; i < 4; ++i) {
                     if (control_points[j][i] != control_points[control_points.size() - _degree + j][i]) {
@@ -172,6 +177,22 @@ namespace cmmcore {
             return true;
         }
 
+        // Check if the knots that the seam depends on repeat with the period of the curve
+        bool knots_wrap() const {
+            const size_t n = control_points.size();
+            if (knots.size() != n + _degree + 1) {
+                return false;
+            }
+            const double period = knots[n] - knots[_degree];
+            const double tol = 1e-12 * (std::fabs(knots[n]) + std::fabs(knots[_degree]));
+            for (int i = 1; i < 2 * _degree; ++i) {
+                if (!(std::fabs(knots[i + n - _degree] - knots[i] - period) <= tol)) {
+                    return false;
+                }
+            }
+            return true;
+        }
+
         // Update interval based on knots
         void update_interval() {
             _interval[0] = std::min_element(knots.begin(), knots.end())[0];
@@ -213,6 +234,12 @@ namespace cmmcore {
             if (is_periodic()) {
                 return;
             }
+            if (control_points_wrap()) {
+                // Only the knots are those of an open curve
+                generate_knots_periodic();
+                _periodic = true;
+                return;
+            }
             int n = static_cast<int>(control_points.size());
             int new_n = n + _degree;
             std::vector<vec4> new_control_points(new_n);
-- 
2.43.0


From 1dee2500deec8ddf8f4f053cec0150b592ca5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:11 +0000
Subject: [PATCH 91/98] fix: small planar point sets have a hull, too

---
 cmmcore/_convexhull/convexhull2d.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index 9f1c739..16275cf 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -8,6 +8,7 @@
 #include <vector>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include "cmmcore/vec.h"
 
 namespace cmmcore{
@@ -38,9 +39,10 @@ inline double distSq(const vec2& p1, const vec2& p2) {
 // 1 --> Clockwise
 // 2 --> Counterclockwise
 inline int orientation(const vec2& p, const vec2& q, const vec2& r) {
-    double val = (q.y - p.y) * (r.x - q.x) - (q.x - p.x) * (r.y - q.y);
-    const double epsilon = 1e-9;
-    if (std::abs(val) < epsilon) return 0;  // collinear
+    const double a = (q.y - p.y) * (r.x - q.x), b = (q.x - p.x) * (r.y - q.y), val = a - b;
+    // what rounding can contribute, at whatever scale the points are
+    const double epsilon = 4 * std::numeric_limits<double>::epsilon() * (std::abs(a) + std::abs(b));
+    if (std::abs(val) <= epsilon) return 0;  // collinear
     return (val > 0) ? 1 : 2; // clock or counterclock wise
 }
 
@@ -71,7 +73,7 @@ inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
     int ymin = 0;
     for (int i = 1; i < n; i++) {
         if (points[i].y < points[ymin].y || 
-           (std::abs(points[i].y - points[ymin].y) < 1e-9 && points[i].x < points[ymin].x))
+           (points[i].y == points[ymin].y && points[i].x < points[ymin].x))
             ymin = i;
     }
 
-- 
2.43.0


From f66bf4e746fc1e9ddad65c9b292608f13c33e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 92/98] fix: the hull of points does not depend on their scale

---
 cmmcore/_convexhull/quickhull.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 9aa1c1b..c198d98 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -1106,14 +1106,20 @@ namespace cmmcore {
         double scale = 0;
         size_t i = 0;
         for (i = 0; i < pts.size(); ++i) {
-            points[i][0] = pts[i].x;
-            points[i][1] = pts[i].y;
-            points[i][2] = pts[i].z;
             scale = std::max(scale, pts[i].length());
         }
+        // lengths, areas and volumes are compared with one threshold, so the points are brought to unit size (by a
+        // power of two, which is exact)
+        const int exponent = scale > 0 && std::isfinite(scale) ? std::ilogb(scale) : 0;
+        for (i = 0; i < pts.size(); ++i) {
+            points[i][0] = std::ldexp(pts[i].x, -exponent);
+            points[i][1] = std::ldexp(pts[i].y, -exponent);
+            points[i][2] = std::ldexp(pts[i].z, -exponent);
+        }
 
         const double tol = 1e-12 * scale;
-        const double eps = 10 * CMMCORE_NUMERIC_EPSILON_DOUBLE * scale;
+        const double unit_tol = std::ldexp(tol, -exponent);
+        const double eps = 10 * CMMCORE_NUMERIC_EPSILON_DOUBLE * std::ldexp(scale, -exponent);
 
         quick_hull<typename Points::const_iterator> qh{3, eps};
 
@@ -1129,11 +1135,11 @@ namespace cmmcore {
                 b[k].set((**it)[0], (**it)[1], (**it)[2]);
             }
             const vec3 n = (b[1] - b[0]).cross(b[2] - b[0]);
-            if (n.length() > tol * (b[1] - b[0]).length()) {
+            if (n.length() > unit_tol * (b[1] - b[0]).length()) {
                 thickness = std::fabs(n.dot(b[3] - b[0])) / n.length();
             }
         }
-        if (thickness <= tol) {
+        if (thickness <= unit_tol) {
             return flat_convex_hull3d(pts, hull, tol);
         }
         if (qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex))) == 0) {
@@ -1146,7 +1152,8 @@ namespace cmmcore {
         for (const auto &facet: qh.facets_) {
             for (const auto &vertex: facet.vertices_) {
                 if (unique_points.insert(&(*vertex)[0]).second) {
-                    hull.emplace_back(*vertex);
+                    hull.emplace_back(std::ldexp((*vertex)[0], exponent), std::ldexp((*vertex)[1], exponent),
+                                      std::ldexp((*vertex)[2], exponent));
                 }
             }
         }
-- 
2.43.0


From 424922d5d140051c36660d77447b9fe510400e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:50 +0000
Subject: [PATCH 93/98] fix: points on a line are not reported as a flat set
 without a hull

---
 cmmcore/_convexhull/convexhull2d.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index 16275cf..7760b49 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -65,7 +65,7 @@ public:
 
 // Prints convex hull of a set of n points.
 inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
-    if (points.size() < 3) return points;  // Convex hull not possible with less than 3 points
+    if (points.empty()) return {};
 
     int n = points.size();
     
@@ -97,8 +97,11 @@ inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
         m++;
     }
 
-    // If modified array of points has less than 3 points, convex hull is not possible
-    if (m < 3) return {};
+    // The points are on a line: its ends, or one point if they are all the same
+    if (m < 3) {
+        if (m == 2 && distSq(points[0], points[1]) > 0) return {points[0], points[1]};
+        return {points[0]};
+    }
 
     // Create an empty stack and push first three points to it.
     std::vector<vec2> hull;
-- 
2.43.0


From a7cc58911f45ccd6b2b5ac9b6e64f49362f9fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:09 +0000
Subject: [PATCH 94/98] fix: matrices with small pivots, such as that of the
 Bernstein polynomials of degree 8, are not singular

---
 cmmcore/matrix.h | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index ad8ff18..5295cb4 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -234,13 +234,6 @@ public:
                 }
             }
 
-            // bounds of the rounding errors of the elements: a pivot that may be only rounding noise is zero
-            const double eps = std::numeric_limits<double>::epsilon();
-            MatrixD error(rows, cols);
-            for (size_t i = 0; i < data.size(); ++i) {
-                error.data[i] = eps * std::abs(data[i]);
-            }
-
             for (size_t i = 0; i < rows; ++i) {
                 size_t pivot = i;
                 for (size_t j = i + 1; j < rows; ++j) {
@@ -252,24 +245,16 @@ public:
                     for (size_t j = 0; j < 2 * cols; ++j) {
                         std::swap(augmented(i, j), augmented(pivot, j));
                     }
-                    for (size_t j = 0; j < cols; ++j) {
-                        std::swap(error(i, j), error(pivot, j));
-                    }
                 }
 
                 double pivotValue = augmented(i, i);
-                const double pivotError = error(i, i);
-                if (!(std::abs(pivotValue) > 4.0 * pivotError)) {
+                if (pivotValue == 0.0) {
                     throw std::runtime_error("Matrix is singular and cannot be inverted");
                 }
 
                 for (size_t j = 0; j < 2 * cols; ++j) {
                     augmented(i, j) /= pivotValue;
                 }
-                for (size_t j = i; j < cols; ++j) {
-                    const double x = std::abs(augmented(i, j));
-                    error(i, j) = (error(i, j) + x * pivotError) / std::abs(pivotValue) + eps * x;
-                }
 
                 for (size_t k = 0; k < rows; ++k) {
                     if (k != i) {
@@ -277,11 +262,6 @@ public:
                         for (size_t j = 0; j < 2 * cols; ++j) {
                             augmented(k, j) -= factor * augmented(i, j);
                         }
-                        const double factorError = error(k, i);
-                        for (size_t j = i; j < cols; ++j) {
-                            const double x = std::abs(augmented(i, j));
-                            error(k, j) += std::abs(factor) * (error(i, j) + eps * x) + factorError * x + eps * std::abs(augmented(k, j));
-                        }
                     }
                 }
             }
@@ -292,6 +272,20 @@ public:
                     result(i, j) = augmented(i, j + cols);
                 }
             }
+
+            // a singular matrix that rounding made regular has an inverse that reaches the reciprocal of the rounding
+            const double limit = 1.0 / (4096.0 * std::numeric_limits<double>::epsilon());
+            for (size_t i = 0; i < rows; ++i) {
+                for (size_t j = 0; j < cols; ++j) {
+                    double condition = 0.0;
+                    for (size_t k = 0; k < rows; ++k) {
+                        condition += std::abs(result(i, k)) * std::abs((*this)(k, j));
+                    }
+                    if (!(condition < limit)) {
+                        throw std::runtime_error("Matrix is singular and cannot be inverted");
+                    }
+                }
+            }
             return result;
         }
     };
-- 
2.43.0


From 82c5cb5d980d58d0a77a60d5754fdedd6586d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:41 +0000
Subject: [PATCH 95/98] fix: curve intersections are not taken for the previous
 one because their parameters differ by less than the tolerance, which is a
 distance

---
 cmmcore/ccx.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index 41db55c..e083ef3 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -89,7 +89,20 @@ namespace cmmcore {
     *         std::cout << "Intersection at parameter: (" << t1 << ", " << t2 << ")" << std::endl;
     *     }
     */
-    inline void ccx(NURBSCurve &c1, NURBSCurve &c2, double tol, std::vector<std::pair<double, double> > &result) {
+    inline void ccx(NURBSCurve &c1, NURBSCurve &c2, double tol, std::vector<std::pair<double, double> > &result);
+
+    // True if the curve is not farther than tol from its point at t0, neither at t1 nor half way there
+    inline bool stays_within(const NURBSCurve &curve, const double t0, const double t1, const double tol) {
+        vec3 start, middle, end;
+        curve.evaluate(t0, start);
+        curve.evaluate(0.5 * (t0 + t1), middle);
+        curve.evaluate(t1, end);
+        return start.distance(end) <= tol && start.distance(middle) <= tol;
+    }
+
+    // Intersections of the pieces c1 and c2 of two curves, whose results begin at `begin`
+    inline void ccx_pieces(const NURBSCurve &whole1, const NURBSCurve &whole2, NURBSCurve &c1, NURBSCurve &c2, double tol,
+                           size_t begin, std::vector<std::pair<double, double> > &result) {
 
         auto &bb1 = c1.bbox();
         auto &bb2 = c2.bbox();
@@ -102,11 +115,10 @@ namespace cmmcore {
                 size_t l = result.size();
                 double _first = 0.5 * (iv1[0] + iv1[1]);
                 double _second = 0.5 * (iv2[0] + iv2[1]);
-                if (l > 0) {
-                    if ((std::abs(result[l - 1].first - _first) <= tol) && (
-                            std::abs(result[l - 1].second - _second) <= tol)) {
-                        return;
-                    }
+                // The same intersection may be found in neighbouring pieces
+                if (l > begin && stays_within(whole1, result[l - 1].first, _first, tol) &&
+                    stays_within(whole2, result[l - 1].second, _second, tol)) {
+                    return;
                 }
                 result.emplace_back(_first, _second);
                 return;
@@ -114,13 +126,17 @@ namespace cmmcore {
 
             auto [a1,b1] = c1.split((iv1[1] - iv1[0]) * 0.5 + iv1[0], false);
             auto [a2,b2] = c2.split((iv2[1] - iv2[0]) * 0.5 + iv2[0], false);
-            ccx(a1, a2, tol, result);
-            ccx(b1, b2, tol, result);
-            ccx(a1, b2, tol, result);
-            ccx(b1, a2, tol, result);
+            ccx_pieces(whole1, whole2, a1, a2, tol, begin, result);
+            ccx_pieces(whole1, whole2, b1, b2, tol, begin, result);
+            ccx_pieces(whole1, whole2, a1, b2, tol, begin, result);
+            ccx_pieces(whole1, whole2, b1, a2, tol, begin, result);
         }
     }
 
+    inline void ccx(NURBSCurve &c1, NURBSCurve &c2, double tol, std::vector<std::pair<double, double> > &result) {
+        ccx_pieces(c1, c2, c1, c2, tol, result.size(), result);
+    }
+
 
 
 
-- 
2.43.0


From 0229b6e44dbf2e4c72a21b50cb80959fe71714f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:10 +0000
Subject: [PATCH 96/98] fix: the normals of a polygon are unit vectors also
 when they are appended to others

---
 cmmcore/polygon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/polygon.h b/cmmcore/polygon.h
index 3fafef8..8c56763 100644
--- a/cmmcore/polygon.h
+++ b/cmmcore/polygon.h
@@ -127,7 +127,7 @@ inline PolygonRelationship2D polygonRelationship2D(const polygon2& poly1, const
             size_t  j = ( i + 1 ) % polygon.size();
             normals.emplace_back( polygon[j].y - polygon[i].y, polygon[i].x - polygon[j].x );
             if (normalize) {
-                normals[i].unitize();
+                normals.back().unitize();
             }
         }
     };
-- 
2.43.0


From ce5d633dd18b9e5fc567632664a37d543021e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:29 +0000
Subject: [PATCH 97/98] fix: a part of a hierarchy can be assigned to the whole

---
 cmmcore/bvh.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 485eb2d..8fbf91b 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -145,16 +145,11 @@ public:
 
     object = other.object;
 
-    if (other.left) {
-      left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-    } else {
-      left.reset();  // Ensure left is null if other.left is null
-    }
-    if (other.right) {
-      right = std::make_unique<BVHNode>(*other.right);  // Recursively copy right subtree
-    } else {
-      right.reset();  // Ensure right is null if other.right is null
-    }
+    // other may be a part of this hierarchy: it is copied before anything is released
+    auto new_left = other.left ? std::make_unique<BVHNode>(*other.left) : nullptr;
+    auto new_right = other.right ? std::make_unique<BVHNode>(*other.right) : nullptr;
+    left = std::move(new_left);
+    right = std::move(new_right);
 
     return *this;
   }
-- 
2.43.0


From 49970293e3ee14d22a9a89d07e2ee797002e1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:13 +0000
Subject: [PATCH 98/98] fix: sets that GJK once found to be apart are apart,
 also if thin simplices spoil a later step

---
 cmmcore/gjk.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index b014072..b85f2d0 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -266,6 +266,9 @@ inline bool GJK(const std::vector<vec3>&verticesA,
     simplex.clear();
     simplex.push_back(verticesA[0] - verticesB[0]);
     vec3 closest = simplex[0];
+    // The largest lower bound so far: a later one can be worse, thin simplices leave few digits of the closest point
+    double certain = 0;
+    vec3 certainClosest = closest;
     for (size_t iterations = 0; iterations < maxIterations; ++iterations) {
         const double dist = closest.length();
         if (dist <= std::max(tolerance, rounding)) {
@@ -274,6 +277,10 @@ inline bool GJK(const std::vector<vec3>&verticesA,
         const vec3 point = support(verticesA, verticesB, -closest);
         // No point of the difference is closer than this, up to rounding
         const double lower = point.dot(closest) / dist;
+        if (lower > certain) {
+            certain = lower;
+            certainClosest = closest;
+        }
         if (dist - lower <= std::max(1e-12 * dist, rounding) ||
             (iterations + 1 == maxIterations && lower > tolerance)) {
             closestPointToOrigin = closest;
@@ -282,15 +289,16 @@ inline bool GJK(const std::vector<vec3>&verticesA,
         simplex.push_back(point);
         const vec3 next = reduceSimplex(simplex);
         if (!(next.length() < dist)) {
-            // No progress is possible in floating point: the hulls are apart if that much is certain
-            if (!(lower > tolerance)) {
-                break;
-            }
-            closestPointToOrigin = closest;
-            return false;
+            // No progress is possible in floating point
+            break;
         }
         closest = next;
     }
+    // The hulls are apart if that much is certain
+    if (certain > std::max(tolerance, rounding)) {
+        closestPointToOrigin = closest.length() >= certain ? closest : certainClosest;
+        return false;
+    }
     closestPointToOrigin = vec3(0, 0, 0);
     return true;
 }
-- 
2.43.0

