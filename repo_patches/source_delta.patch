From ddde8e9fa14821e3afaffb81219cc93da711cfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:34 +0000
Subject: [PATCH 01/49] fix: evaluating a composite curve before its start read
 before its parameter table

The first curve is used for such parameters, so that the usual out-of-bounds
error is reported, as it already is beyond the end.
---
 gbs/curvecomposite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..5abd10e 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -33,7 +33,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin())
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From 91eeec5abf4049ef2e95d4481c105a8c19346eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:34 +0000
Subject: [PATCH 02/49] fix: a failing element of a bulk evaluation terminated
 the process above the size gate

An exception escaping an element function of a parallel algorithm calls
std::terminate. Element failures are trapped and the first one in input order
is rethrown to the caller, as already happens below the gate.
---
 gbs/execution.h | 51 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..99d5b81 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -10,6 +10,7 @@
 #include <vector>     // std::vector (build_batch output)
 #include <type_traits> // std::decay_t (build_batch result type)
 #include <exception>  // std::exception_ptr (build_batch error propagation)
+#include <atomic>     // std::atomic (transform_par error detection)
 
 #include "gbsconstants.h"  // gbs::parallel_min_size
 
@@ -64,12 +65,48 @@ namespace gbs
     // GBS_PAR_EXEC is empty, so both branches are serial and the gate is a
     // correctness-preserving no-op.
 
+    // Exceptions: an exception escaping an element function of a parallel
+    // algorithm calls std::terminate, so transform_par traps element failures and,
+    // if any occurred, redoes the transform serially: the failure of the first
+    // element in input order reaches the caller, as below the gate. The output
+    // range must not overlap the input ranges.
+
+    /// Parallel unary std::transform whose element failures reach the caller.
+    template <class InputIt, class OutputIt, class UnaryOp>
+    OutputIt transform_par(InputIt first, InputIt last, OutputIt out, UnaryOp op)
+    {
+        using Result = std::decay_t<decltype(op(*first))>;
+        std::atomic<bool> failed{false};
+        auto end = std::transform(GBS_PAR_EXEC first, last, out,
+            [&op, &failed](const auto &x) -> Result
+            {
+                try { return op(x); }
+                catch (...) { failed = true; return Result{}; }
+            });
+        return failed ? std::transform(first, last, out, op) : end;
+    }
+
+    /// Parallel binary std::transform whose element failures reach the caller.
+    template <class InputIt1, class InputIt2, class OutputIt, class BinaryOp>
+    OutputIt transform_par(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
+    {
+        using Result = std::decay_t<decltype(op(*first1, *first2))>;
+        std::atomic<bool> failed{false};
+        auto end = std::transform(GBS_PAR_EXEC first1, last1, first2, out,
+            [&op, &failed](const auto &x, const auto &y) -> Result
+            {
+                try { return op(x, y); }
+                catch (...) { failed = true; return Result{}; }
+            });
+        return failed ? std::transform(first1, last1, first2, out, op) : end;
+    }
+
     /// Size-gated unary std::transform (single input range).
     template <class InputIt, class OutputIt, class UnaryOp>
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+            return transform_par(first, last, out, op);
         return std::transform(first, last, out, op);
     }
 
@@ -78,10 +115,20 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+            return transform_par(first1, last1, first2, out, op);
         return std::transform(first1, last1, first2, out, op);
     }
 
+    /// The first element of `range` for which `f` is smallest; `f` is evaluated in
+    /// parallel, once per element, and its failures reach the caller.
+    template <class Range, class UnaryOp>
+    auto min_by(const Range &range, UnaryOp f)
+    {
+        std::vector<std::decay_t<decltype(f(*std::begin(range)))>> values(std::size(range));
+        transform_par(std::begin(range), std::end(range), values.begin(), f);
+        return *std::next(std::begin(range), std::distance(values.begin(), std::min_element(values.begin(), values.end())));
+    }
+
     // -------------------------------------------------------------------------
     // Size-gated parallel BATCH build — the shared helper for batch builders.
     // -------------------------------------------------------------------------
-- 
2.43.0


From 48afa6aca5f70806dec4f622d62be53c15ed338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 03/49] fix: failing elements of the always-parallel operations
 terminated the process

Transforms with user callbacks, sampling, arc length, intersections, projections
and nearest-point searches now report the first failing element to the caller.
---
 gbs-mesh/tfi.h    |  7 ++++---
 gbs/bscanalysis.h |  9 +++------
 gbs/bscapprox.h   |  8 ++++----
 gbs/bssbuild.h    |  6 ++----
 gbs/extrema.h     | 30 ++++++++++++------------------
 gbs/transform.h   | 36 ++++++++++++++++++------------------
 6 files changed, 43 insertions(+), 53 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index e429696..6d8fe2f 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -659,17 +659,18 @@ namespace gbs
     template <typename T, size_t dim>
     void project_points_on_surface(const Surface<T,dim> &srf, points_vector<T, dim> &pts, T tol_projection =1e-6 )
     {
-        std::transform(
-            GBS_PAR_EXEC
+        points_vector<T, dim> pts_proj(pts.size());
+        transform_par(
             pts.begin(),
             pts.end(),
-            pts.begin(),
+            pts_proj.begin(),
             [&srf,tol_projection](const auto &pt)
             {
                 auto [u,v, d] =  extrema_surf_pnt(srf,pt,tol_projection);
                 return srf(u,v);
             }
         );
+        pts = std::move(pts_proj);
     }
 
     template <typename T, size_t dim, size_t P, size_t Q, bool slope_ctrl = false>
diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..e59f014 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -144,8 +144,7 @@ namespace gbs
         u = make_range(point<T, 1>{u1}, point<T, 1>{u2}, n);
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_,const auto &u2_) {
                 return length<T, dim, N>(crv, u1_[0], u2_[0]);
@@ -208,8 +207,7 @@ namespace gbs
         }
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_, const auto &u2_) {
                 return length<T, dim, N>(crv, u1_, u2_);
@@ -506,8 +504,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..87ef065 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -482,14 +482,14 @@ namespace gbs
         ) -> BSCurve<T, dim>
     {
         auto [pts, u] = sample_by_deviation(crv, np, deviation);
-        std::transform(
-            GBS_PAR_EXEC
+        points_vector<T, dim> pts_trf(pts.size());
+        transform_par(
             pts.begin(),
             pts.end(),
-            pts.begin(),
+            pts_trf.begin(),
             trf_func
         );
-        return refine_from_points(pts, u, p, default_n_poles(p), tol);
+        return refine_from_points(pts_trf, u, p, default_n_poles(p), tol);
     }
 
     /**
diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..3d3036b 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -146,8 +146,7 @@ namespace gbs
         std::vector< points_vector<T,dim + rational> > tg_v_lst{ poles_v_lst.size() };
         // compute positions on spine
         std::vector<T> v_spine(bs_lst_cpy.size());
-        std::transform(
-                GBS_PAR_EXEC
+        transform_par(
                 bs_lst_cpy.begin(),
                 bs_lst_cpy.end(),
                 v_spine.begin(),
@@ -494,8 +493,7 @@ namespace gbs
             return u_;
         };
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             first_curve, last_curve,
             u.begin(),
             f_intersection
diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..f310b28 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -71,10 +71,9 @@ namespace gbs
     auto extrema_curve_point(const Curve<T, dim> &crv, const std::array<T, dim> &pnt,T tol_u,nlopt::algorithm solver=default_nlopt_algo,size_t n_bracket=30) -> std::array<T,2>
     {
         auto u = make_range<T>(crv.bounds(),n_bracket);
-        auto comp = [&](auto u1, auto u2){
-            return sq_norm(pnt-crv(u1)) < sq_norm(pnt-crv(u2));
-        };
-        auto u0 = *std::min_element(GBS_PAR_EXEC u.begin(), u.end(), comp);
+        auto u0 = min_by(u, [&](auto u_){
+            return sq_norm(pnt-crv(u_));
+        });
         return extrema_curve_point(crv, pnt, u0,tol_u,solver);
     }
     /** Project point on surface
@@ -137,12 +136,10 @@ namespace gbs
     auto extrema_surf_pnt(const Surface<T, dim> &srf, const std::array<T, dim> &pnt, T tol_x, nlopt::algorithm solver=default_nlopt_algo, size_t n_bracket_u = 30, size_t n_bracket_v = 30)
     {
         auto uv = make_range<T>(srf.bounds(), n_bracket_u , n_bracket_v);
-        auto comp = [&](auto uv1, auto uv2){
-            auto [u1, v1] = uv1;
-            auto [u2, v2] = uv2;
-            return sq_norm(pnt-srf(u1,v1)) < sq_norm(pnt-srf(u2,v2));
-        };
-        auto [u0, v0 ] = *std::min_element(GBS_PAR_EXEC uv.begin(), uv.end(), comp);
+        auto [u0, v0 ] = min_by(uv, [&](const auto &uv_){
+            auto [u_, v_] = uv_;
+            return sq_norm(pnt-srf(u_,v_));
+        });
         return extrema_surf_pnt(srf, pnt, u0, v0, tol_x, solver);
     }
 
@@ -238,8 +235,7 @@ namespace gbs
     {
         auto n = std::distance(first, last);
         std::vector<std::array<T,3>> intersection_info(n);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_par(
             first, last,
             intersection_info.begin(),
             [&crv,tol_x](const auto &crv_){
@@ -285,12 +281,10 @@ namespace gbs
     auto extrema_surf_curve(const Surface<T, dim> &srf, const Curve<T, dim> &crv, T tol_x, nlopt::algorithm solver=default_nlopt_algo, size_t n_bracket_u = 30, size_t n_bracket_v = 30, size_t n_bracket_w = 30) 
     {
         auto uvw = make_range( srf.bounds(), crv.bounds(), n_bracket_u, n_bracket_v, n_bracket_w );
-        auto comp = [&](auto uvw1, auto uvw2){
-            auto [u1, v1, w1] = uvw1;
-            auto [u2, v2, w2] = uvw2;
-            return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
-        };
-        auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
+        auto [u0, v0, w0 ] = min_by(uvw, [&](const auto &uvw_){
+            auto [u_, v_, w_] = uvw_;
+            return sq_norm(srf(u_, v_)-crv(w_));
+        });
         return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
     }
 
diff --git a/gbs/transform.h b/gbs/transform.h
index fcb60bd..236fbe9 100644
--- a/gbs/transform.h
+++ b/gbs/transform.h
@@ -11,14 +11,14 @@ namespace gbs
     template <typename T, size_t dim>
     auto transform(BSCurve<T, dim> &crv, auto trf) -> void
     {
-        auto poles = crv.poles();
-        std::transform(
-            GBS_PAR_EXEC
+        const auto &poles = crv.poles();
+        std::vector<std::array<T, dim>> poles_trf(poles.size());
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            poles_trf.begin(),
             trf);
-        crv.movePoles(poles);
+        crv.movePoles(poles_trf);
     }
 
     template <typename T, size_t dim>
@@ -29,27 +29,27 @@ namespace gbs
         std::vector<T> weights;
         separate_weights(poles_w, poles, weights);
 
-        std::transform(
-            GBS_PAR_EXEC
+        std::vector<std::array<T, dim>> poles_trf(poles.size());
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            poles_trf.begin(),
             trf);
-        poles_w = add_weights_coord(poles, weights);
+        poles_w = add_weights_coord(poles_trf, weights);
         crv.movePoles(poles_w);
     }
 
     template <typename T, size_t dim>
     auto transform(BSSurface<T, dim> &crv, auto trf) -> void
     {
-        auto poles = crv.poles();
-        std::transform(
-            GBS_PAR_EXEC
+        const auto &poles = crv.poles();
+        std::vector<std::array<T, dim>> poles_trf(poles.size());
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            poles_trf.begin(),
             trf);
-        crv.movePoles(poles);
+        crv.movePoles(poles_trf);
     }
 
     template <typename T, size_t dim>
@@ -60,13 +60,13 @@ namespace gbs
         std::vector<T> weights;
         separate_weights(poles_w, poles, weights);
 
-        std::transform(
-            GBS_PAR_EXEC
+        std::vector<std::array<T, dim>> poles_trf(poles.size());
+        transform_par(
             poles.begin(),
             poles.end(),
-            poles.begin(),
+            poles_trf.begin(),
             trf);
-        poles_w = add_weights_coord(poles, weights);
+        poles_w = add_weights_coord(poles_trf, weights);
         crv.movePoles(poles_w);
     }
 
-- 
2.43.0


From a0dfb6e6d74d446409acb9a2213856eed83546a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 04/49] fix: approximating an empty point set wrote out of
 bounds

The sizes are checked before the points are parametrized.
---
 gbs/bscapprox.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 87ef065..22c9eff 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -307,6 +307,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const std::vector<std::array<T, dim>> &pts, size_t p, size_t n_poles, KnotsCalcMode mode, bool adimensionnal =false) // -> BSCurve<T,dim>
     {
+        check_approx_sizes(n_poles, p, pts.size());
         auto u = curve_parametrization(pts, mode, adimensionnal);
         return approx(pts, p, n_poles, u, true);
     }
-- 
2.43.0


From 3ea9166160610b1cc73771919d5874d7cf87a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:59 +0000
Subject: [PATCH 05/49] fix: adding a dimension to rational curves and surfaces
 replaced their weights

The added coordinate was appended behind the weight and took its place.
---
 gbs/bsctools.h | 8 +++++++-
 gbs/bsstools.h | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 5c14fdd..f88716c 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -753,7 +753,13 @@ namespace gbs
             crv.poles().end(),
             poles.begin(),
             [&val](const auto &p_){
-                return add_dimension(p_,val);
+                auto p_new = add_dimension(p_,val);
+                if constexpr (rational) // the weight stays the last coordinate
+                {
+                    p_new[dim + 1] = p_[dim];
+                    p_new[dim] = val * p_[dim];
+                }
+                return p_new;
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b3aaf47..810d9f0 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -101,7 +101,13 @@ namespace gbs
             poles.begin(),
             [&val](const auto &p_)
             {
-                return add_dimension<T,dim+rational>(p_, val);
+                auto p_new = add_dimension<T,dim+rational>(p_, val);
+                if constexpr (rational) // the weight stays the last coordinate
+                {
+                    p_new[dim + 1] = p_[dim];
+                    p_new[dim] = val * p_[dim];
+                }
+                return p_new;
             });
         using bs_type = typename std::conditional<rational, BSSurfaceRational<T, dim + 1>, BSSurface<T, dim + 1>>::type;
         return bs_type(poles, srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV());
-- 
2.43.0


From 548e6eaa7eabb966927d12e6e6e0c4b34241e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:59 +0000
Subject: [PATCH 06/49] fix: scaled_weights ignored the requested mean value

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..169f1d9 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -1069,7 +1069,7 @@
     auto scaled_weights(const std::vector<std::array<T, dim>> &poles, T mean_value = T(1.0)) -> std::vector<std::array<T, dim>>
     {
         std::vector<std::array<T, dim>> new_poles(poles);
-        scale_weights(new_poles);
+        scale_weights(new_poles, mean_value);
         return new_poles;
     }
     /**
-- 
2.43.0


From 689879a05e468103c9c68e565ce95206ced8c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:55 +0000
Subject: [PATCH 07/49] fix: adaptive arc length sampling used an iterator
 invalidated by its insertion

---
 gbs/bscanalysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index e59f014..1e58391 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -199,7 +199,7 @@ namespace gbs
                 if (curv_diff > tolerance)
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    it_u3 = u.insert(it_u3, mid_u);
                 }
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
-- 
2.43.0


From 79e4a4cbb346c6db9c0bd9107cda972170054d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:15 +0000
Subject: [PATCH 08/49] fix: surface/curve search passed its starting point in
 the wrong order

---
 gbs/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index f310b28..580fd2b 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -285,7 +285,7 @@ namespace gbs
             auto [u_, v_, w_] = uvw_;
             return sq_norm(srf(u_, v_)-crv(w_));
         });
-        return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
+        return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
     template <typename T, size_t dim>
-- 
2.43.0


From 7acdc0e1792eea0f018cd198e5706c92a2367ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:53 +0000
Subject: [PATCH 09/49] fix: a nearest-point search could iterate forever

---
 gbs/solvers.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gbs/solvers.h b/gbs/solvers.h
index 70195d5..6fcd01a 100644
--- a/gbs/solvers.h
+++ b/gbs/solvers.h
@@ -12,6 +12,10 @@
 #endif
 namespace gbs
 {
+    // Objective evaluations after which a search stops with its best point so far:
+    // the relative tolerance alone may never be met (COBYLA can cycle).
+    inline constexpr int nlop_max_eval = 20000;
+
     template <typename F>
     struct N_UserData
     {
@@ -44,6 +48,7 @@ namespace gbs
         opt.set_upper_bounds(hb_d);
         opt.set_min_objective(eq_, &data);
         opt.set_xtol_rel(tol_x);
+        opt.set_maxeval(nlop_max_eval);
 
         double minf;
 
@@ -89,6 +94,7 @@ namespace gbs
         opt.set_upper_bounds(hb_d);
         opt.set_min_objective(eq_, &data);
         opt.set_xtol_rel(tol_x);
+        opt.set_maxeval(nlop_max_eval);
 
         double minf;
 
-- 
2.43.0


From 59a28c330a51fb9fa4c814c9b561f1ffc617eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:50 +0000
Subject: [PATCH 10/49] fix: inserting a knot equal to an existing one up to
 rounding read out of bounds

---
 gbs/knotsfunctions.ixx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..7f12b95 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -370,13 +370,16 @@
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
         auto nq   = np + r;
+        // A knot already there within tolerance is the same knot, as for multiplicity() and unflat_knots()
+        auto k_near = std::lower_bound(UP.begin(), UP.end(), u - knot_eps<T>);
+        if(k_near != UP.end() && std::abs(*k_near - u) < knot_eps<T>) u = *k_near;
         // Knots are added after the potential existing value
         auto k_it = std::upper_bound(UP.begin(), UP.end(), u); 
         auto k    = std::distance(UP.begin(), k_it) - 1;
         // Checking the multiplicity
         auto s    = std::distance(std::lower_bound(UP.begin(), UP.end(), u), k_it);
         // Check if there is room for insertion
-        if(s>=p) // No room
+        if(s>=p || r==0) // No room or nothing to insert
         {
             auto at_end = k_it == UP.end() ? 1 : 0;
             return k-p-at_end;
-- 
2.43.0


From 0f9820b22db0548a187423a797111ff9c19e0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 11/49] fix: a curve edit failing halfway left the curve
 inconsistent

---
 gbs/bscurve.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..2e5c842 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -402,13 +402,17 @@ namespace gbs
          * 
          * @param km vector of knot/multiplicity pair
          */
-        auto insertKnots(std::vector<std::pair<T,size_t>> &km) -> void
+        auto insertKnots(std::vector<std::pair<T,size_t>> &km) -> void //Fail safe, i.e. if fails, curve stays in previous state
         {
+            auto knots_flats = m_knotsFlats;
+            auto poles = m_poles;
             std::for_each(km.begin(), km.end(), [&](const auto km_) {
-                auto m = multiplicity(m_knotsFlats, km_.first); // TODO: improve efficiency
+                auto m = multiplicity(knots_flats, km_.first); // TODO: improve efficiency
                 if (m < km_.second)
-                    insertKnot(km_.first, km_.second - m);
+                    insert_knots(km_.first, m_deg, km_.second - m, knots_flats, poles);
             });
+            m_knotsFlats = std::move(knots_flats);
+            m_poles = std::move(poles);
         }
 
         /**
@@ -539,11 +543,15 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
-            if (permanently)
+            if (permanently) //Fail safe, i.e. if fails, curve stays in previous state
             {
-                gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
+                auto knots_flats = m_knotsFlats;
+                auto poles = m_poles;
+                gbs::trim(m_deg, knots_flats, poles, u1, u2);
+                m_knotsFlats = std::move(knots_flats);
+                m_poles = std::move(poles);
             }
+            m_bounds = {u1,u2};
         }
         /**
          * @brief Change parametrization to fit between k1 and k2
-- 
2.43.0


From e9f3d40ac95a8184483fe4bf3b6d1cb84051616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 12/49] fix: a surface edit failing halfway left the surface
 inconsistent or ended the process

---
 gbs/bssurf.h | 80 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..2866b25 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -708,7 +708,7 @@ namespace gbs
          * @param j The index in the V direction.
          * @return const points_vector<T, dim + rational> A vector of control points in the U direction.
          */
-        auto polesU(size_t j) const noexcept -> const points_vector<T, dim + rational>
+        auto polesU(size_t j) const -> const points_vector<T, dim + rational>
         {
             auto n = nPolesU();
             auto m = nPolesV();
@@ -730,7 +730,7 @@ namespace gbs
          * @param j The index in the U direction.
          * @return const points_vector<T, dim + rational> A vector of control points in the V direction.
          */
-        auto polesV(size_t i) const noexcept -> const points_vector<T, dim + rational>
+        auto polesV(size_t i) const -> const points_vector<T, dim + rational>
         {
             auto n = nPolesU();
             auto m = nPolesV();
@@ -866,22 +866,12 @@ namespace gbs
         {
             points_vector<T, dim+rational> poles_new;
             std::vector<T> ku_new;
-            std::vector<T> ku_old{m_knotsFlatsU};
             auto nv = nPolesV();
-            auto nu = nPolesU();
             for (size_t i{}; i < nv; i++)
             {
-
-                points_vector<T, dim+rational> poles{std::next(m_poles.begin(), i * nu), std::next(m_poles.begin(), i * nu + nu)};
-                if (i != 0)
-                {
-                    m_knotsFlatsU = {ku_old};
-                }
-                increase_degree(m_knotsFlatsU, poles, m_degU, 1);
-                if (i == 0)
-                {
-                    ku_new = std::move(m_knotsFlatsU);
-                }
+                auto poles = polesU(i);
+                ku_new = m_knotsFlatsU;
+                increase_degree(ku_new, poles, m_degU, 1);
                 poles_new.insert(poles_new.end(), poles.begin(), poles.end());
             }
             m_poles = std::move(poles_new);
@@ -892,13 +882,24 @@ namespace gbs
         /**
          * @brief Increases the degree of the surface in the V direction.
          * 
-         * This method increases the polynomial degree of the surface in the V direction by first swapping U and V directions, increasing the degree in U, and then swapping back.
+         * This method increases the polynomial degree of the surface in the V direction by one. It recalculates the control points and updates the knot vector.
          */
         auto increaseDegreeV() -> void
         {
-            invertUV();
-            increaseDegreeU();
-            invertUV();
+            points_vector<T, dim+rational> poles_new;
+            std::vector<T> kv_new;
+            auto nu = nPolesU();
+            for (size_t i{}; i < nu; i++)
+            {
+                auto poles = polesV(i);
+                kv_new = m_knotsFlatsV;
+                increase_degree(kv_new, poles, m_degV, 1);
+                poles_new.insert(poles_new.end(), poles.begin(), poles.end());
+            }
+            invert_uv_poles(poles_new, nu);
+            m_poles = std::move(poles_new);
+            m_knotsFlatsV = std::move(kv_new);
+            m_degV++;
         }
  
         /**
@@ -940,13 +941,25 @@ namespace gbs
         /**
          * @brief Reverses the direction of the surface in the V direction.
          * 
-         * This method reverses the direction of the surface in the V direction by first swapping U and V directions, reversing U, and then swapping back.
+         * This method reverses the direction of the surface in the V direction by reversing the knot vector and the order of the rows of control points.
          */
         auto reverseV() -> void
         {
-            invertUV();
-            reverseU();
-            invertUV();
+            auto k1 = m_knotsFlatsV.front();
+            auto k2 = m_knotsFlatsV.back();
+            std::reverse(m_knotsFlatsV.begin(), m_knotsFlatsV.end());
+            std::transform(m_knotsFlatsV.begin(), m_knotsFlatsV.end(),
+                           m_knotsFlatsV.begin(),
+                           [&](const auto k_) {
+                               return k1 + k2 - k_;
+                           });
+            auto nv = nPolesV();
+            auto nu = nPolesU();
+            for (size_t j{}; j < nv / 2; j++)
+            {
+                auto row = std::next(m_poles.begin(), j * nu);
+                std::swap_ranges(row, std::next(row, nu), std::next(m_poles.begin(), (nv - 1 - j) * nu));
+            }
         }
 
         /**
@@ -988,17 +1001,28 @@ namespace gbs
          * @brief Trims the surface in the V direction between two specified parameters.
          * 
          * This method adjusts the surface by trimming it between two parameter values in the V direction. 
-         * It does this by first swapping the U and V directions, trimming in U (now representing V), 
-         * and then swapping back. The control points and knot vector in the V direction are updated accordingly.
+         * The control points and knot vector in the V direction are updated accordingly.
          * 
          * @param v1 The lower boundary of the new trimmed surface in the V direction.
          * @param v2 The upper boundary of the new trimmed surface in the V direction.
          */
         auto trimV(T v1, T v2) -> void
         {
-            invertUV();
-            trimU(v1, v2);
-            invertUV();
+            points_vector<T,dim+rational> new_poles;
+            std::vector<T> new_knotsVFlats;
+            for(size_t i{}; i < nPolesU(); i++)
+            {
+                new_knotsVFlats = m_knotsFlatsV;
+                auto poles_loc = polesV(i);
+                trim(m_degV, new_knotsVFlats, poles_loc, v1, v2);
+                new_poles.insert(new_poles.end(), poles_loc.begin(), poles_loc.end());
+            }
+            invert_uv_poles(new_poles, nPolesU());
+            std::swap(m_knotsFlatsV, new_knotsVFlats);
+            std::swap(m_poles, new_poles);
+
+            m_bounds[2] = v1;
+            m_bounds[3] = v2;
         }
 
         /**
-- 
2.43.0


From 783487280c64bf3fd429d218dd204c15d11e90b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:33 +0000
Subject: [PATCH 13/49] fix: reversing, re-bounding or copying a
 non-permanently trimmed curve moved or dropped its trim

---
 gbs/bscurve.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 2e5c842..3871691 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -513,8 +513,8 @@ namespace gbs
         auto reverse() -> void
         {
             std::reverse(m_poles.begin(), m_poles.end());
-            auto k1 = m_knotsFlats.front();
-            auto k2 = m_knotsFlats.back();
+            auto k1 = m_bounds[0];
+            auto k2 = m_bounds[1];
             std::reverse(m_knotsFlats.begin(), m_knotsFlats.end());
             std::transform(m_knotsFlats.begin(), m_knotsFlats.end(),
                            m_knotsFlats.begin(),
@@ -561,7 +561,12 @@ namespace gbs
          */
         auto changeBounds(T k1, T k2) -> void
         {
-            change_bounds(k1,k2,m_knotsFlats);
+            auto k1_ = m_bounds[0];
+            auto k2_ = m_bounds[1];
+            std::transform(m_knotsFlats.begin(), m_knotsFlats.end(), m_knotsFlats.begin(),
+                           [&](const auto &k_) {
+                               return k1 + (k2 - k1) * (k_ - k1_) / (k2_ - k1_);
+                           });
             m_bounds = {k1,k2};
         }
         /**
@@ -571,8 +576,7 @@ namespace gbs
          */
         auto changeBounds(const std::array<T,2> &b) -> void
         {
-            m_bounds = b;
-            change_bounds(b[0],b[1],m_knotsFlats);
+            changeBounds(b[0],b[1]);
         }
 
         virtual auto bounds() const -> std::array<T,2> override
@@ -594,7 +598,7 @@ namespace gbs
     {
         using BSCurveGeneral<T, dim, false>::BSCurveGeneral;
     public:
-        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc) {}
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {
             if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
@@ -629,7 +633,7 @@ namespace gbs
     {
         using  BSCurveGeneral<T, dim, true>::BSCurveGeneral;
     public:
-        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc) {}
         BSCurveRational(const std::vector<std::array<T, dim>> &poles,
                         const std::vector<T> &knots_flats,
                         size_t deg) : BSCurveGeneral<T, dim, true>(add_weights_coord(poles), knots_flats, deg) {}
-- 
2.43.0


From 11d1faaf14413b3652365edd611bf528f23d054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:33 +0000
Subject: [PATCH 14/49] fix: trimming near a knot, with swapped or with
 unusable parameters broke the entity

---
 gbs/bscurve.h          | 6 +++++-
 gbs/bssurf.h           | 8 ++++----
 gbs/knotsfunctions.ixx | 6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 3871691..1a22969 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -550,8 +550,12 @@ namespace gbs
                 gbs::trim(m_deg, knots_flats, poles, u1, u2);
                 m_knotsFlats = std::move(knots_flats);
                 m_poles = std::move(poles);
+                m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
+            }
+            else
+            {
+                m_bounds = {std::fmin(u1,u2),std::fmax(u1,u2)};
             }
-            m_bounds = {u1,u2};
         }
         /**
          * @brief Change parametrization to fit between k1 and k2
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 2866b25..1a8d602 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -993,8 +993,8 @@ namespace gbs
             std::swap(m_knotsFlatsU, new_knotsUFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[0] = u1; 
-            m_bounds[1] = u2;
+            m_bounds[0] = m_knotsFlatsU.front();
+            m_bounds[1] = m_knotsFlatsU.back();
         }
 
         /**
@@ -1021,8 +1021,8 @@ namespace gbs
             std::swap(m_knotsFlatsV, new_knotsVFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[2] = v1;
-            m_bounds[3] = v2;
+            m_bounds[2] = m_knotsFlatsV.front();
+            m_bounds[3] = m_knotsFlatsV.back();
         }
 
         /**
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 7f12b95..4d09ce1 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -1019,7 +1019,7 @@
         
         insert_knots(u, p, p, knots_flats, poles);
 
-        auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
+        auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u - knot_eps<T>); // u may have been merged with an existing knot
         auto i_l = it_l - knots_flats.begin();
         knots_flats.erase(knots_flats.begin(), it_l);
         knots_flats.insert(knots_flats.begin(), knots_flats.front());
@@ -1043,7 +1043,7 @@
         
         insert_knots(u, p, p, knots_flats, poles);
 
-        auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
+        auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u - knot_eps<T>); // u may have been merged with an existing knot
         auto i_h = it_h - knots_flats.begin();
         knots_flats.erase(std::next(it_h, p), knots_flats.end());
         knots_flats.push_back(knots_flats.back());
@@ -1064,6 +1064,8 @@
     template <typename T, size_t dim>
     auto trim(size_t p, std::vector<T> &knots_flats, std::vector<std::array<T, dim>> &poles, T u1, T u2) -> void
     {
+        if(!(std::abs(u2-u1)>=knot_eps<T>) || fmax(u1,u2)-knots_flats.front()<knot_eps<T> || knots_flats.back()-fmin(u1,u2)<knot_eps<T>)
+            throw std::invalid_argument("trim: nothing would be left between the requested parameters.");
         trim_begin<T,dim>(p,knots_flats,poles,fmin(u1,u2));
         trim_end<T,dim>(p,knots_flats,poles,fmax(u1,u2));
     }
-- 
2.43.0


From 39c3bab57bcde47fc4f9fc177d5913c6954e8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:33 +0000
Subject: [PATCH 15/49] fix: inserting or removing a knot outside of the
 curve's interior accessed poles out of bounds

---
 gbs/knotsfunctions.ixx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 4d09ce1..33a7af4 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -373,6 +373,8 @@
         // A knot already there within tolerance is the same knot, as for multiplicity() and unflat_knots()
         auto k_near = std::lower_bound(UP.begin(), UP.end(), u - knot_eps<T>);
         if(k_near != UP.end() && std::abs(*k_near - u) < knot_eps<T>) u = *k_near;
+        if(!(u >= UP.front() && u <= UP.back()))
+            throw std::out_of_range("insert_knots: the knot is outside of the knots' range.");
         // Knots are added after the potential existing value
         auto k_it = std::upper_bound(UP.begin(), UP.end(), u); 
         auto k    = std::distance(UP.begin(), k_it) - 1;
@@ -568,10 +570,11 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
-        if (std::abs(U[r] - u) > knot_eps<T> || r == 0 || r == static_cast<decltype(r)>(U.size()))
+        if (r <= static_cast<decltype(r)>(p) || r >= static_cast<decltype(r)>(Pw.size()) || std::abs(U[r] - u) > knot_eps<T>)
         {
             return size_t{0};
         }
+        u = U[r];
         if (num < 1)
         {
             return size_t{0};
@@ -579,6 +582,7 @@
 
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        num = std::min(num, static_cast<size_t>(s));
 
         int m = static_cast<int>(U.size());
         int ord = static_cast<int>(p) + 1;
-- 
2.43.0


From f1cead9c1330b90aaeb5c1c469cb29859b57d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:38 +0000
Subject: [PATCH 16/49] fix: document that extracting a row of poles can fail

---
 gbs/bssurf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 1a8d602..cca0ab8 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -703,7 +703,7 @@ namespace gbs
          * @brief Retrieves the control points in the U direction for a given V index.
          * 
          * This method constructs and returns a vector of control points in the U direction for a specified index in the V direction.
-         * The method is guaranteed not to throw exceptions. Last PolesU vector is sent if overflow.
+         * Last PolesU vector is sent if overflow.
          * 
          * @param j The index in the V direction.
          * @return const points_vector<T, dim + rational> A vector of control points in the U direction.
@@ -725,7 +725,7 @@ namespace gbs
          * 
          * This method constructs and returns a vector of control points in the V direction for a specified index in the U direction.
          * It iterates over the control points array, selecting appropriate points for the specified V direction.
-         * The method is guaranteed not to throw exceptions. Last PolesV vector is sent if overflow.
+         * Last PolesV vector is sent if overflow.
          * 
          * @param j The index in the U direction.
          * @return const points_vector<T, dim + rational> A vector of control points in the V direction.
-- 
2.43.0


From 97756dc2300a68b69627672b0a2ac5b1123e1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:13 +0000
Subject: [PATCH 17/49] fix: trimming at one tolerance from a knot left uneven
 end knots

---
 gbs/knotsfunctions.ixx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 33a7af4..a6663eb 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -203,6 +203,19 @@
         return m;
     }
 
+    /**
+     * @brief First knot equal to the given one within tolerance, end() if there is none
+     * 
+     * @tparam T 
+     * @param knots_flat 
+     * @param knot 
+     */
+    template <typename T>
+    auto find_knot(const std::vector<T> &knots_flat, T knot)
+    {
+        return std::find_if(knots_flat.begin(), knots_flat.end(), [knot](const auto &k_){return std::abs(k_-knot)<knot_eps<T>;});
+    }
+
     /**
      * @brief Build flat knots vector from knots values and multiplicity
      * 
@@ -371,8 +384,8 @@
         auto mp   = np + p + 1;
         auto nq   = np + r;
         // A knot already there within tolerance is the same knot, as for multiplicity() and unflat_knots()
-        auto k_near = std::lower_bound(UP.begin(), UP.end(), u - knot_eps<T>);
-        if(k_near != UP.end() && std::abs(*k_near - u) < knot_eps<T>) u = *k_near;
+        auto k_near = find_knot(UP, u);
+        if(k_near != UP.end()) u = *k_near;
         if(!(u >= UP.front() && u <= UP.back()))
             throw std::out_of_range("insert_knots: the knot is outside of the knots' range.");
         // Knots are added after the potential existing value
@@ -1023,7 +1036,7 @@
         
         insert_knots(u, p, p, knots_flats, poles);
 
-        auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u - knot_eps<T>); // u may have been merged with an existing knot
+        auto it_l = find_knot(knots_flats, u); // u may have been merged with an existing knot
         auto i_l = it_l - knots_flats.begin();
         knots_flats.erase(knots_flats.begin(), it_l);
         knots_flats.insert(knots_flats.begin(), knots_flats.front());
@@ -1047,7 +1060,7 @@
         
         insert_knots(u, p, p, knots_flats, poles);
 
-        auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u - knot_eps<T>); // u may have been merged with an existing knot
+        auto it_h = find_knot(knots_flats, u); // u may have been merged with an existing knot
         auto i_h = it_h - knots_flats.begin();
         knots_flats.erase(std::next(it_h, p), knots_flats.end());
         knots_flats.push_back(knots_flats.back());
-- 
2.43.0


From edb880417e4fe9c5a2ec51c6e091cd01441d3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:34 +0000
Subject: [PATCH 18/49] fix: splitting an inner half-edge left its new halves
 unlinked

---
 inc/topology/halfEdgeMeshEditors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..ca241ae 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -561,7 +561,6 @@ namespace gbs
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
         auto new_vertex = make_shared_h_vertex( new_pt );
-        new_vertex->edge = he;
         auto new_he1    = make_shared_h_edge(new_vertex, hf);
         hf->edge=new_he1;
         chain_edges(new_he1,he);
@@ -592,6 +591,7 @@ namespace gbs
             auto new_he2_opp    = make_shared_h_edge(new_vertex);
             auto new_he3_opp    = make_shared_h_edge(he_prev->vertex);
             link_edges(new_he1_opp, new_he2_opp);
+            link_edges(new_he2, new_he3_opp); // both halves of the split edge
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
             auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
 
-- 
2.43.0


From 8e2b7b1e369636d81479404c7f53de9122ea9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:14 +0000
Subject: [PATCH 19/49] fix: inserting points or taking faces away left
 vertices referring to removed half-edges

---
 inc/topology/halfEdgeMeshEditors.h | 4 ++++
 inc/topology/tessellations.h       | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index ca241ae..bce1f9e 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -277,6 +277,8 @@ namespace gbs
             auto new_face = make_shared_h_face<T, dim>(lst);
             assert(is_ccw(new_face));
             h_f_lst.push_back(new_face);
+            // the vertex may refer to an edge of a face the new ones replace
+            h_e->vertex->edge = h_e;
         });
 
         link_edges(h_f_lst.back()->edge->next, h_f_lst.front()->edge->previous);
@@ -470,6 +472,7 @@ namespace gbs
                 it = eraseFace(faces_lst,it);
             }
         }
+        repairVertexEdges<T, 2>(faces_lst);
         
         return external_faces;
     }
@@ -503,6 +506,7 @@ namespace gbs
                 it = eraseFace(faces_lst,it);
             }
         }
+        repairVertexEdges<T, 2>(faces_lst);
         
         return internal_faces;
     }
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..ec168c8 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -272,6 +272,7 @@ namespace bw_detail
         {
             remove_faces(faces_lst, vtx);
         }
+        repairVertexEdges<T, 2>(faces_lst);
 
         return faces_lst;
     }
@@ -604,6 +605,7 @@ namespace bw_detail
         {
             remove_faces(faces_lst, vtx);
         }
+        repairVertexEdges<T, 2>(faces_lst);
         return faces_lst;
     }
 /**
-- 
2.43.0


From 6cf12417da4635254f5e5c32897aaf9b0908b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:01 +0000
Subject: [PATCH 20/49] fix: a failed allocation while editing a mesh lost
 faces or left broken links

---
 inc/topology/halfEdgeMeshEditors.h | 103 ++++++++++++++++++++---------
 inc/topology/tessellations.h       |  45 ++++++++-----
 2 files changed, 100 insertions(+), 48 deletions(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index bce1f9e..eb79ee6 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -56,11 +56,16 @@ namespace gbs
             return nullptr;
         }
 
-        auto opposite = make_opposite(edge->previous->vertex, edge);
+        // everything that can fail comes before the face is linked to its neighbour
+        auto opposite = make_shared_h_edge(edge->previous->vertex);
 
         auto lst = {make_shared_h_edge(edge->vertex), opposite, make_shared_h_edge(coords)};
+        auto new_face = make_shared_h_face<T, dim>(lst);
 
-        return make_shared_h_face<T, dim>(lst);
+        opposite->opposite = edge;
+        edge->opposite = opposite;
+
+        return new_face;
     }
 /**
  * @brief Adds a new face to an existing half-edge by connecting it to a given half-edge.
@@ -85,11 +90,16 @@ namespace gbs
             return nullptr;
         }
 
-        auto opposite = make_opposite(edge->previous->vertex, edge);
+        // everything that can fail comes before the face is linked to its neighbour
+        auto opposite = make_shared_h_edge(edge->previous->vertex);
 
         auto lst = {make_shared_h_edge(edge->vertex), opposite, make_shared_h_edge(coords)};
+        auto new_face = make_shared_h_face<T, dim>(lst);
 
-        return make_shared_h_face<T, dim>(lst);
+        opposite->opposite = edge;
+        edge->opposite = opposite;
+
+        return new_face;
     }
 /**
  * @brief Associates a HalfEdgeVertex with a HalfEdge by setting their respective pointers.
@@ -150,8 +160,8 @@ namespace gbs
         if (h_v1->edge == h_e1_1) h_v1->edge = h_e3_2; // h_e3_2 still ends at h_v1
         if (h_v3->edge == h_e1_2) h_v3->edge = h_e3_1; // h_e3_1 still ends at h_v3
 
-        std::list<std::shared_ptr<HalfEdge<T, dim>>> lst1{h_e1_1, h_e3_2, h_e2_1};
-        std::list<std::shared_ptr<HalfEdge<T, dim>>> lst2{h_e1_2, h_e3_1, h_e2_2};
+        std::array<std::shared_ptr<HalfEdge<T, dim>>, 3> lst1{h_e1_1, h_e3_2, h_e2_1};
+        std::array<std::shared_ptr<HalfEdge<T, dim>>, 3> lst2{h_e1_2, h_e3_1, h_e2_2};
 
         make_loop(lst1.begin(), lst1.end(), h_f1);
         make_loop(lst2.begin(), lst2.end(), h_f2);
@@ -256,30 +266,39 @@ namespace gbs
         // }
         // link_edges(h_f_lst.back()->edge->next, h_f_lst.front()->edge->previous);
         // return h_f_lst;
+        // Build the new elements first: should that fail, the mesh is still as it was.
         std::list<std::shared_ptr<HalfEdgeFace<T, dim>>> h_f_lst;
-
-        std::shared_ptr<HalfEdge<T, dim>> h_e_prev{};
-        h_v->edge = nullptr;
-
-        std::ranges::for_each(h_e_lst, [&](const auto &h_e) {
+        std::list<std::array<std::shared_ptr<HalfEdge<T, dim>>, 3>> loops;
+        for (const auto &h_e : h_e_lst)
+        {
             assert(h_e->previous);
-            auto h_e1 = make_shared_h_edge(h_v);
-            auto h_e2 = make_shared_h_edge(h_e->previous->vertex);
+            loops.push_back({
+                h_e,
+                std::make_shared<HalfEdge<T, dim>>(HalfEdge<T, dim>{.vertex = h_v}),
+                make_shared_h_edge(h_e->previous->vertex)
+            });
+            h_f_lst.push_back(std::make_shared<HalfEdgeFace<T, dim>>());
+        }
 
+        // Then link them.
+        h_v->edge = loops.front()[1];
+        auto it_face = h_f_lst.begin();
+        std::shared_ptr<HalfEdge<T, dim>> h_e_prev{};
+        for (auto &loop : loops)
+        {
+            auto &[h_e, h_e1, h_e2] = loop;
             if (h_e_prev)
             {
                 link_edges(h_e2, h_e_prev);
             }
-
             h_e_prev = h_e1;
-            auto lst = {h_e, h_e1, h_e2};
 
-            auto new_face = make_shared_h_face<T, dim>(lst);
-            assert(is_ccw(new_face));
-            h_f_lst.push_back(new_face);
+            make_loop(loop.begin(), loop.end(), *it_face);
+            assert(is_ccw(*it_face));
+            ++it_face;
             // the vertex may refer to an edge of a face the new ones replace
             h_e->vertex->edge = h_e;
-        });
+        }
 
         link_edges(h_f_lst.back()->edge->next, h_f_lst.front()->edge->previous);
 
@@ -564,20 +583,44 @@ namespace gbs
         //     auto d = he->opposite->next->vertex->coords;
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
+        // Build the new elements first: should that fail, the mesh is still as it was.
         auto new_vertex = make_shared_h_vertex( new_pt );
         auto new_he1    = make_shared_h_edge(new_vertex, hf);
+        auto new_he2    = make_shared_h_edge(new_vertex);
+        auto new_he3    = make_shared_h_edge(he_next->vertex);
+        auto new_hf1    = std::make_shared<HalfEdgeFace<T, dim>>();
+        std::shared_ptr<HalfEdge<T, dim>> new_he1_opp, new_he2_opp, new_he3_opp;
+        std::shared_ptr<HalfEdgeFace<T, dim>> new_hf1_opp;
+        if(he_opp)
+        {
+            new_he1_opp = make_shared_h_edge(he_opp->next->vertex, he_opp->face);
+            new_he2_opp = make_shared_h_edge(new_vertex);
+            new_he3_opp = make_shared_h_edge(he_prev->vertex);
+            new_hf1_opp = std::make_shared<HalfEdgeFace<T, dim>>();
+        }
+        face_lst.push_back(new_hf1);
+        if(he_opp)
+        {
+            try
+            {
+                face_lst.push_back(new_hf1_opp);
+            }
+            catch(...)
+            {
+                face_lst.pop_back();
+                throw;
+            }
+        }
+
+        // reduce exiting face
         hf->edge=new_he1;
         chain_edges(new_he1,he);
         chain_edges(he_next, new_he1);
 
-        // create new face
-        auto new_he2    = make_shared_h_edge(new_vertex);
-        auto new_he3    = make_shared_h_edge(he_next->vertex);
+        // link new face
         link_edges(new_he1, new_he3);
         auto new_hf1_ed_lst = {new_he2,new_he3, he_prev};
-        auto new_hf1 = make_shared_h_face<T,dim>(new_hf1_ed_lst);
-
-        face_lst.push_back(new_hf1);
+        make_loop(new_hf1_ed_lst.begin(), new_hf1_ed_lst.end(), new_hf1);
 
         if(he_opp)
         {
@@ -587,20 +630,14 @@ namespace gbs
             he_opp->vertex->edge = he_prev; // if association broken by the second line
             he_opp->vertex = new_vertex;
             // reduce exiting face
-            auto new_he1_opp    = make_shared_h_edge(he_opp_next->vertex, hf_opp);
             hf_opp->edge = new_he1_opp;
             chain_edges(he_opp,new_he1_opp);
             chain_edges(new_he1_opp, he_opp_prev);
-            // create new opp face
-            auto new_he2_opp    = make_shared_h_edge(new_vertex);
-            auto new_he3_opp    = make_shared_h_edge(he_prev->vertex);
+            // link new opp face
             link_edges(new_he1_opp, new_he2_opp);
             link_edges(new_he2, new_he3_opp); // both halves of the split edge
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
-            auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
-
-            face_lst.push_back(new_hf1_opp);
-
+            make_loop(new_hf1_opp_ed_lst.begin(), new_hf1_opp_ed_lst.end(), new_hf1_opp);
         }
 
         return new_vertex;
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index ec168c8..75bfea3 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -214,36 +214,51 @@ namespace bw_detail
         if (!ok)
             return EmptyTuple{}; // give up rather than corrupt the mesh
 
-        // 4. Remove the cavity faces. Their boundary half-edges stay alive and
+        // 4. Fill the cavity. The boundary half-edges of its faces stay alive and
         //    are recycled by add_vertex to stitch the fan to the surrounding
         //    mesh, preserving opposite links (same contract as before).
+        //    Everything that can fail comes before the mesh is changed: room for
+        //    the new faces is made first, and given back should building them fail.
         std::unordered_set<HalfEdgeFace<T, 2> *> cavity_set;
         for (const auto &f : cavity)
             cavity_set.insert(f.get());
         Container h_f_lst_deleted;
-        for (auto it = begin(h_f_lst); it != end(h_f_lst);)
+        for (const auto &f : h_f_lst)
         {
-            if (cavity_set.count(it->get()))
-            {
-                h_f_lst_deleted.push_back(*it);
-                it = h_f_lst.erase(it);
-            }
-            else
-            {
-                ++it;
-            }
+            if (cavity_set.count(f.get()))
+                h_f_lst_deleted.push_back(f);
         }
 
-        // fill cavity
         auto &h_e_lst = loops.front();
         assert(are_edges_2d_ccw<T>(h_e_lst));
         auto vtx = make_shared_h_vertex(xy);
-        Container h_f_lst_new = add_vertex(h_e_lst, vtx);
+        Container h_f_lst_new;
+        const auto n_new = h_e_lst.size();
+        size_t n_room{};
+        try
+        {
+            for (; n_room < n_new; ++n_room)
+                h_f_lst.push_back(nullptr);
+            h_f_lst_new = add_vertex(h_e_lst, vtx);
+        }
+        catch (...)
+        {
+            for (; n_room > 0; --n_room)
+                h_f_lst.pop_back();
+            throw;
+        }
         // is_star_shaped above is the runtime guarantee; this only re-checks in debug.
         assert(are_face_ccw(h_f_lst_new));
 
-        // append new faces
-        h_f_lst.insert(end(h_f_lst), begin(h_f_lst_new), end(h_f_lst_new));
+        // replace the cavity faces by the new ones
+        std::copy(begin(h_f_lst_new), end(h_f_lst_new), std::prev(end(h_f_lst), n_new));
+        for (auto it = begin(h_f_lst); it != end(h_f_lst);)
+        {
+            if (cavity_set.count(it->get()))
+                it = h_f_lst.erase(it);
+            else
+                ++it;
+        }
 
         return std::make_tuple(vtx, std::move(h_f_lst_deleted), std::move(h_f_lst_new));
     }
-- 
2.43.0


From 23bca63cd4d16cdf4392947ca9e6b9c6ec4baa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:01 +0000
Subject: [PATCH 21/49] fix: constrained triangulation missed edges on the hull
 and stayed linked to dropped faces

---
 inc/topology/tessellations.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 75bfea3..da4fd47 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -387,15 +387,10 @@ namespace bw_detail
             }
         }
 
-        for (const auto &vtx : super_vertices)
-            remove_faces(faces_lst, vtx);
-        // remove_faces only severs opposite linkages; vertex->edge pointers can
-        // still reference half-edges whose face was deleted. Re-sync them
-        // before any navigation (recoverEdge, findHalfEdge) runs.
-        repairVertexEdges<T, 2>(faces_lst);
-
         // 2. Recover constrained edges (outer + holes); collect both directions
-        //    of each in a set so the flood-fill can refuse to cross them.
+        //    of each in a set so the flood-fill can refuse to cross them. The
+        //    encompassing mesh is still there: without it the faces along the
+        //    hull of the points could be missing, and the edges with them.
         std::unordered_set<HalfEdge<T, 2> *> constrained;
         for (const auto &vtx : ring_vtx)
         {
@@ -446,9 +441,20 @@ namespace bw_detail
         }
 
         // 4. Drop exterior faces (includes faces strictly inside each hole).
+        //    No kept face may still be linked to a dropped one.
         faces_lst.remove_if([&interior](const auto &f) {
-            return interior.find(f.get()) == interior.end();
+            if (interior.find(f.get()) != interior.end())
+                return false;
+            for (const auto &ee : getTriangleEdges(f))
+            {
+                if (ee->opposite)
+                    ee->opposite->opposite = nullptr;
+            }
+            return true;
         });
+        for (const auto &vtx : super_vertices)
+            remove_faces(faces_lst, vtx);
+        repairVertexEdges<T, 2>(faces_lst);
 
         return faces_lst;
     }
-- 
2.43.0


From b6956368c0533cc984d64d7e9e030327b5baddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:15 +0000
Subject: [PATCH 22/49] fix: mesh refinement used a refused point and depended
 on where edges are stored

---
 inc/topology/halfEdgeMeshGetters.h | 10 ++++------
 inc/topology/tessellations.h       | 21 +++++++++++++++++----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9b82670..fa7a121 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -557,12 +557,10 @@ namespace gbs
         auto vertices_map = getVerticesMapFromFaces<T,dim>(faces_lst);
 
         std::vector< std::shared_ptr< HalfEdgeVertex<T,dim> > > vertices(vertices_map.size());
-        std::transform(
-            GBS_PAR_EXEC
-            vertices_map.begin(), vertices_map.end(),
-            vertices.begin(),
-            [](const auto &pair){return pair.first;}
-        );
+        for(const auto &[vtx, index] : vertices_map)
+        {
+            vertices[index] = vtx; // map's own order depends on addresses
+        }
 
         return vertices;
     }
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index da4fd47..c48f33f 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -573,13 +573,26 @@ namespace bw_detail
                 update_face_quality(face);
             }
 
+            if (!vtx)
+            {
+                break; // the point can't be inserted, next step would try it again
+            }
+
             // Smooth mesh
             laplacian_smoothing(faces_lst, *vtx);
-            // Restore Delaunay condition
-            auto edges = getEdgesMap<T,dim>(faces_lst);
-            for(auto & [ed,i] : edges)
+            // Restore Delaunay condition, following the faces' order so that the
+            // result doesn't depend on where the edges are stored
+            std::vector<std::shared_ptr<HalfEdge<T, dim>>> edges;
+            for(const auto &face : faces_lst)
+            {
+                for(const auto &ed : getTriangleEdges(face))
+                {
+                    edges.push_back(ed);
+                }
+            }
+            for(auto & ed : edges)
             {
-                if(ed->opposite && !is_locally_delaunay(ed))
+                if(ed->opposite && is_locally_delaunay(ed) > tol)
                 {
                     flip(ed->face,ed->opposite->face);
                 }
-- 
2.43.0


From 96802a329080707398cbba424aa95d6e43d2c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 23/49] fix: edge recovery took convex quadrilaterals for
 concave ones and never flipped

---
 inc/topology/edgeRecovery.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/edgeRecovery.h b/inc/topology/edgeRecovery.h
index 9411b36..596ec69 100644
--- a/inc/topology/edgeRecovery.h
+++ b/inc/topology/edgeRecovery.h
@@ -144,7 +144,7 @@ namespace gbs
                 const auto& B = v_b->coords;
                 const auto& C = v_apex1->coords;
                 const auto& D = v_apex2->coords;
-                if (orient_2d(C, B, D) <= tol || orient_2d(D, A, C) <= tol)
+                if (orient_2d(C, D, B) <= tol || orient_2d(D, C, A) <= tol)
                 {
                     ++it;
                     continue; // non-convex or degenerate, defer
-- 
2.43.0


From 36c714a42dc97e7b44a66f3e220c33b07da09279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:17 +0000
Subject: [PATCH 24/49] fix: inserting a point could drop vertices enclosed by
 the cavity

---
 inc/topology/tessellations.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index c48f33f..ae79cff 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -204,7 +204,8 @@ namespace bw_detail
         };
 
         auto loops = boundary_loops(cavity);
-        bool ok = loops.size() == 1 && bw_detail::is_star_shaped<T>(loops.front(), xy);
+        // Two faces less than boundary edges: no vertex lies inside and would be lost.
+        bool ok = loops.size() == 1 && loops.front().size() == cavity.size() + 2 && bw_detail::is_star_shaped<T>(loops.front(), xy);
         if (!ok)
         {
             cavity.assign(seed.begin(), seed.end());
-- 
2.43.0


From ddfef9926b81607da610e9785011667b05fb2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:49 +0000
Subject: [PATCH 25/49] fix: the boundary of a surface to mesh ended with two
 spurious points

---
 inc/topology/tessellations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index ae79cff..d094c40 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -51,7 +51,7 @@ namespace gbs
         std::reverse(begin(v1), end(v1));
         auto v2 = deviation_based_v_params(srf, v1_, v2_, u2_, nv, deviation);
 
-        auto n = u1.size() + u2.size() + v1.size() + v2.size();
+        auto n = u1.size() + u2.size() + v1.size() + v2.size() - 2; // v1 and v2 without their first point
         std::vector<std::array<T, 2>> coords(n);
 
         auto coords_begin = coords.begin();
-- 
2.43.0


From 4cee94a792223aae157bed1f91525cb2e96411e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 26/49] fix: the base mesh of a surface could miss faces along
 its boundary

---
 inc/topology/tessellations.h | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index d094c40..4e8bc16 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -51,14 +51,15 @@ namespace gbs
         std::reverse(begin(v1), end(v1));
         auto v2 = deviation_based_v_params(srf, v1_, v2_, u2_, nv, deviation);
 
-        auto n = u1.size() + u2.size() + v1.size() + v2.size() - 2; // v1 and v2 without their first point
+        // each side starts with the last point of the previous one, the last side ends with the first point
+        auto n = u1.size() + u2.size() + v1.size() + v2.size() - 4;
         std::vector<std::array<T, 2>> coords(n);
 
         auto coords_begin = coords.begin();
         coords_begin = transform(begin(u1), end(u1), coords_begin, [v1_](auto u) { return std::array<T, 2>{u, v1_}; });
         coords_begin = transform(++v2.begin(), end(v2), coords_begin, [u2_](auto v) { return std::array<T, 2>{u2_, v}; });
-        coords_begin = transform(begin(u2), end(u2), coords_begin, [v2_](auto u) { return std::array<T, 2>{u, v2_}; });
-        transform(++v1.begin(), end(v1), coords_begin, [u1_](auto v) { return std::array<T, 2>{u1_, v}; });
+        coords_begin = transform(++u2.begin(), end(u2), coords_begin, [v2_](auto u) { return std::array<T, 2>{u, v2_}; });
+        transform(++v1.begin(), --v1.end(), coords_begin, [u1_](auto v) { return std::array<T, 2>{u1_, v}; });
 
         return coords;
     }
@@ -626,22 +627,9 @@ namespace bw_detail
     auto delaunay2DBoyerWatsonSurfaceBase(const Surface<T,dim> &srf, size_t nu = 5, size_t nv = 5, T deviation = 0.01, T tol = delaunay_tol<T>)
     {
     
-        auto coords = meshSurfaceBoundary(srf, nu ,nv, deviation);
-        auto faces_lst = getEncompassingMesh(coords);
-        auto vertices = getVerticesVectorFromFaces<T,2>(faces_lst);
-        // insert boundary points
-        for(const auto &xy : coords)
-        {
-            boyerWatson<T>(faces_lst, xy, tol);
-        }
-        // remove external mesh, i.ei faces attached to initial vertices
-        // This work because surface coordinate are convex ( rectangle )
-        for(const auto &vtx : vertices)
-        {
-            remove_faces(faces_lst, vtx);
-        }
-        repairVertexEdges<T, 2>(faces_lst);
-        return faces_lst;
+        // The boundary's edges have to be there: the faces along them would be missing
+        // where an encompassing mesh's vertex is close enough to take them over.
+        return delaunay2DConstrained<T>(meshSurfaceBoundary(srf, nu ,nv, deviation), tol);
     }
 /**
  * @brief Computes the refined 2D Delaunay triangulation of a surface mesh using the Boyer-Watson algorithm.
-- 
2.43.0


From 8e9e88f134f3dc53e5feba9d3f926eea147aeb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 27/49] fix: the neighbours of a mesh vertex were the vertex
 itself

Refining a planar mesh now really smoothes the inserted vertex, keeping it
where the boundary would move or a face would fold.
---
 inc/topology/halfEdgeMeshGetters.h |  4 ++--
 inc/topology/tessellations.h       | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index fa7a121..8c541cb 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -424,13 +424,13 @@ namespace gbs
         bool open = false;
         do
         {
+            neighbors.push_front(current->previous->vertex);
             if(!current->opposite)
             {
                 open = true;
                 break;
             }
             current = current->opposite->previous;
-            neighbors.push_front(current->vertex);
         }while (current!=start);
 
         if(open)
@@ -438,12 +438,12 @@ namespace gbs
             current = start;
             do
             {
+                neighbors.push_back(current->next->vertex);
                 if(!current->next->opposite)
                 {
                     break;
                 }
                 current = current->next->opposite;
-                neighbors.push_back(current->vertex);
             }while (current!=start); 
         }
 
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 4e8bc16..2123ac4 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -580,8 +580,22 @@ namespace bw_detail
                 break; // the point can't be inserted, next step would try it again
             }
 
-            // Smooth mesh
-            laplacian_smoothing(faces_lst, *vtx);
+            // Smooth mesh, neither moving the boundary nor folding faces
+            auto fan = getFacesAttachedToVertex(vtx);
+            auto coords = vtx->coords;
+            if(std::ranges::all_of(fan, [&vtx](const auto &hf){
+                auto edges = getTriangleEdges(hf);
+                return std::ranges::all_of(edges, [&vtx](const auto &ed){
+                    return ed->opposite || (ed->vertex != vtx && ed->previous->vertex != vtx);});}))
+            {
+                laplacian_smoothing(faces_lst, *vtx);
+                if(!std::ranges::all_of(fan, [tol](const auto &hf){
+                    auto [ed1, ed2, ed3] = getTriangleEdges(hf);
+                    return orient_2d(ed1->vertex->coords, ed2->vertex->coords, ed3->vertex->coords) > tol;}))
+                {
+                    vtx->coords = coords;
+                }
+            }
             // Restore Delaunay condition, following the faces' order so that the
             // result doesn't depend on where the edges are stored
             std::vector<std::shared_ptr<HalfEdge<T, dim>>> edges;
-- 
2.43.0


From 0b419890c722a2c514f941dbaf8b0f2d0495339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:19 +0000
Subject: [PATCH 28/49] fix: a vertex of a mesh's boundary was reported as an
 inner one and conversely

---
 inc/topology/halfEdgeMeshGeomTests.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 96aedbb..a1f4e03 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -274,11 +274,11 @@ namespace gbs
         {
             if(!current->opposite)
             {
-                return false;
+                return true;
             }
             current = current->opposite->previous;
         }while (current!=start);
 
-        return true;  
+        return false;
     }
 } // namespace gbs
\ No newline at end of file
-- 
2.43.0


From 070a121d776c2284f2ca9089662aeaef7c63edeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:58 +0000
Subject: [PATCH 29/49] fix: failures to write, read or parse a JSON file were
 ignored

---
 gbs-io/fromjson.h | 11 +++++++++--
 gbs-io/tojson.h   | 15 +++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index ae2e737..4217ba7 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -495,13 +495,20 @@ namespace gbs
         if (f)
         {
             std::ostringstream ss;
-            ss << f.rdbuf();
+            if (!(ss << f.rdbuf()))
+            {
+                throw std::runtime_error("Could not read file: " + std::string(fname));
+            }
             str = ss.str();
         }
         else{
             throw std::runtime_error("File not found: " + std::string(fname));
         }
 
-        document.Parse(str.data());
+        document.Parse(str.data(), str.size());
+        if (document.HasParseError())
+        {
+            throw std::runtime_error("Not a valid JSON file: " + std::string(fname));
+        }
     }
 }
\ No newline at end of file
diff --git a/gbs-io/tojson.h b/gbs-io/tojson.h
index f81d4a6..254443e 100644
--- a/gbs-io/tojson.h
+++ b/gbs-io/tojson.h
@@ -6,6 +6,8 @@
 #include <gbs/curves>
 #include <gbs/surfaces>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <type_traits>
 #include <cstdint>
 
@@ -443,13 +445,18 @@ namespace gbs
     {
         rapidjson::StringBuffer buffer;
         rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
-        d.Accept(writer);
-        
-        const char* output = buffer.GetString();
+        if(!d.Accept(writer))
+        {
+            throw std::invalid_argument("write_js_doc: document holds values without JSON representation.");
+        }
 
         std::ofstream myfile;
         myfile.open (fName);
-        myfile << output;
+        myfile.write(buffer.GetString(), static_cast<std::streamsize>(buffer.GetSize()));
         myfile.close();
+        if(!myfile)
+        {
+            throw std::runtime_error("Could not write file: " + std::string(fName));
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From d0406e08c00ac313260231a9f21b839d25db27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 30/49] fix: damaged JSON geometry was read out of bounds
 instead of being refused

---
 gbs-io/fromjson.h  | 136 +++++++++++++++++++++++++--------------------
 gbs-io/fromjson2.h |   8 +--
 2 files changed, 80 insertions(+), 64 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index 4217ba7..7644384 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -12,6 +12,7 @@
 #include <array>
 #include <tools/magic_enum.hpp>
 #include <stdexcept>
+#include <algorithm>
 #include <gbs-io/tojson.h>
 
 namespace gbs
@@ -25,6 +26,17 @@ namespace gbs
             printf("Type of member %s is %s\n",
                    m.name.GetString(), kTypeNames[m.value.GetType()]);
     }
+    /// Member of a JSON object, throws std::invalid_argument if there is none
+    inline auto get_member(const rapidjson::Value &a, const char *name) -> const rapidjson::Value &
+    {
+        if (!a.IsObject())
+            throw std::invalid_argument("auto get_member(const rapidjson::Value &a, const char *name) not an object");
+        auto it = a.FindMember(name);
+        if (it == a.MemberEnd())
+            throw std::invalid_argument("auto get_member(const rapidjson::Value &a, const char *name) missing member " + std::string(name));
+        return it->value;
+    }
+
     template <typename T>
     auto get_val(const rapidjson::Value &val) -> T
     {
@@ -162,6 +174,10 @@ namespace gbs
         {
             throw std::invalid_argument("auto make_point_vec(const rapidjson::Value &a) -> std::vector< std::array<T,dim> > not and array");
         }
+        if (a.Size() < nc || !std::all_of(a.Begin(), a.End(), [&a](const auto &c) { return c.IsArray() && c.Size() == a[0].Size(); }))
+        {
+            throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) constraints are not arrays of same size");
+        }
         auto n = a.GetArray()[0].GetArray().Size();
 
         std::vector<constrType<T, dim, nc>> v_(n);
@@ -187,19 +203,19 @@ namespace gbs
     {
         // New format produced by make_json: integer type code matching entity_type::BSCurve,
         // knots+mults stored separately, "degree" key.
-        if (a["type"].IsInt() && a["type"].GetInt() == static_cast<int>(entity_type::BSCurve))
+        if (get_member(a, "type").IsInt() && get_member(a, "type").GetInt() == static_cast<int>(entity_type::BSCurve))
         {
-            auto knots = make_vec<T>(a["knots"]);
-            auto mults = make_vec<size_t>(a["mults"]);
-            auto deg = get_val<size_t>(a["degree"]);
-            auto poles = make_point_vec<T, dim>(a["poles"]);
+            auto knots = make_vec<T>(get_member(a, "knots"));
+            auto mults = make_vec<size_t>(get_member(a, "mults"));
+            auto deg = get_val<size_t>(get_member(a, "degree"));
+            auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
             return BSCurve<T, dim>(poles, knots, mults, deg);
         }
         // Legacy format: string "bscurve" type, flat knots, "deg" key.
         assert(std::strcmp(a["type"].GetString(), "bscurve") == 0);
-        auto knots = make_vec<T>(a["knots"]);
-        auto deg = get_val<size_t>(a["deg"]);
-        auto poles = make_point_vec<T, dim>(a["poles"]);
+        auto knots = make_vec<T>(get_member(a, "knots"));
+        auto deg = get_val<size_t>(get_member(a, "deg"));
+        auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
 
         return BSCurve<T, dim>(poles, knots, deg);
     }
@@ -208,13 +224,13 @@ namespace gbs
     auto bssurface_direct(const rapidjson::Value &a) -> BSSurface<T, dim>
     {
         assert(a["type"].IsInt() && a["type"].GetInt() == static_cast<int>(entity_type::BSSurface));
-        auto knotsU = make_vec<T>(a["knotsU"]);
-        auto multsU = make_vec<size_t>(a["multsU"]);
-        auto knotsV = make_vec<T>(a["knotsV"]);
-        auto multsV = make_vec<size_t>(a["multsV"]);
-        auto degU = get_val<size_t>(a["degreeU"]);
-        auto degV = get_val<size_t>(a["degreeV"]);
-        auto poles = make_point_vec<T, dim>(a["poles"]);
+        auto knotsU = make_vec<T>(get_member(a, "knotsU"));
+        auto multsU = make_vec<size_t>(get_member(a, "multsU"));
+        auto knotsV = make_vec<T>(get_member(a, "knotsV"));
+        auto multsV = make_vec<size_t>(get_member(a, "multsV"));
+        auto degU = get_val<size_t>(get_member(a, "degreeU"));
+        auto degV = get_val<size_t>(get_member(a, "degreeV"));
+        auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
         return BSSurface<T, dim>(
             poles,
             flat_knots(knotsU, multsU),
@@ -229,23 +245,23 @@ namespace gbs
         assert(std::strcmp(a["type"].GetString(), "bscurve_interp_cn") == 0);
         if (a.HasMember("params"))
         {
-            auto u = make_vec<T>(a["params"]);
-            auto deg = get_val<size_t>(a["deg"]);
-            auto points = make_point_vec<T, dim>(a["points"]);
+            auto u = make_vec<T>(get_member(a, "params"));
+            auto deg = get_val<size_t>(get_member(a, "deg"));
+            auto points = make_point_vec<T, dim>(get_member(a, "points"));
             return interpolate(points, u, deg);
         }
         else if (a.HasMember("param_calc_mode"))
         {
-            auto deg = get_val<size_t>(a["deg"]);
-            auto points = make_point_vec<T, dim>(a["points"]);
-            auto enum_str = std::string(a["param_calc_mode"].GetString());
+            auto deg = get_val<size_t>(get_member(a, "deg"));
+            auto points = make_point_vec<T, dim>(get_member(a, "points"));
+            auto enum_str = get_val<std::string>(get_member(a, "param_calc_mode"));
             auto mode = magic_enum::enum_cast<KnotsCalcMode>(enum_str);
             return interpolate(points, deg, mode.value());
         }
         else
         {
-            auto deg = get_val<size_t>(a["deg"]);
-            auto points = make_point_vec<T, dim>(a["points"]);
+            auto deg = get_val<size_t>(get_member(a, "deg"));
+            auto points = make_point_vec<T, dim>(get_member(a, "points"));
             return interpolate(points, deg, KnotsCalcMode::CHORD_LENGTH);
         }
     }
@@ -259,10 +275,10 @@ namespace gbs
         {
             if(strcmp(a["param_calc_mode"].GetString(),"SPECIFIED")==0)
             {
-                u = make_vec<T>(a["params"]);
+                u = make_vec<T>(get_member(a, "params"));
             }
             else{
-                auto enum_str = std::string(a["param_calc_mode"].GetString());
+                auto enum_str = get_val<std::string>(get_member(a, "param_calc_mode"));
                 mode = magic_enum::enum_cast<KnotsCalcMode>(enum_str).value();
             }
         }
@@ -302,9 +318,9 @@ namespace gbs
     auto make_bscurve(const rapidjson::Value &a) -> BSCurve<T, dim>
     {
         // New format: integer type codes from entity_type.
-        if (a["type"].IsInt())
+        if (get_member(a, "type").IsInt())
         {
-            switch (a["type"].GetInt())
+            switch (get_member(a, "type").GetInt())
             {
             case static_cast<int>(entity_type::BSCurve):
                 return bscurve_direct<T, dim>(a);
@@ -313,15 +329,15 @@ namespace gbs
             }
         }
         // Legacy format: string-based dispatch.
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp_cn") == 0)
+        if( get_val<std::string>(get_member(a, "type")) == "bscurve_interp_cn")
         {
             return bscurve_interp_cn<T,dim>(a);
         }
-        else if( std::strcmp(a["type"].GetString(),"bscurve")  == 0)
+        else if( get_val<std::string>(get_member(a, "type")) == "bscurve")
         {
             return bscurve_direct<T,dim>(a);
         }
-        else if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        else if( get_val<std::string>(get_member(a, "type")) == "bscurve_interp")
         {
 
             return bscurve_interp<T,dim>(a);
@@ -336,9 +352,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_bssurface(const rapidjson::Value &a) -> BSSurface<T, dim>
     {
-        if (a["type"].IsInt())
+        if (get_member(a, "type").IsInt())
         {
-            switch (a["type"].GetInt())
+            switch (get_member(a, "type").GetInt())
             {
             case static_cast<int>(entity_type::BSSurface):
                 return bssurface_direct<T, dim>(a);
@@ -381,7 +397,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_bscurve(const rapidjson::Value &a,const std::vector<T> &u) -> BSCurve<T, dim>
     {
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        if( get_val<std::string>(get_member(a, "type")) == "bscurve_interp")
         {
             return bscurve_interp<T,dim>(a,u);
         }
@@ -398,31 +414,31 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_curve(const rapidjson::Value &val) -> std::shared_ptr<Curve<T,dim>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_val<int>(get_member(val, "type")) ){
             case static_cast<int>(entity_type::BSCurve):
                 return std::make_shared<BSCurve<T,dim>>(
                     BSCurve<T,dim>{
-                        make_point_vec<T,dim>(val["poles"]),
-                        flat_knots( make_vec<T>(val["knots"]),make_vec<size_t>(val["mults"]) ),
-                        val["degree"].GetUint64()
+                        make_point_vec<T,dim>(get_member(val, "poles")),
+                        flat_knots( make_vec<T>(get_member(val, "knots")),make_vec<size_t>(get_member(val, "mults")) ),
+                        get_val<size_t>(get_member(val, "degree"))
                     }
                 );
                 break;
             case static_cast<int>(entity_type::BSCurveRational):
                 return std::make_shared<BSCurveRational<T,dim>>(
                     BSCurveRational<T,dim>{
-                        make_point_vec<T,dim>(val["poles"]),
-                        flat_knots( make_vec<T>(val["knots"]),make_vec<size_t>(val["mults"]) ),
-                        make_vec<T>(val["weights"]),
-                        val["degree"].GetUint64()
+                        make_point_vec<T,dim>(get_member(val, "poles")),
+                        flat_knots( make_vec<T>(get_member(val, "knots")),make_vec<size_t>(get_member(val, "mults")) ),
+                        make_vec<T>(get_member(val, "weights")),
+                        get_val<size_t>(get_member(val, "degree"))
                     }
                 );
                 break;
             case static_cast<int>(entity_type::CurveOnSurface):
                 return std::make_shared<CurveOnSurface<T,dim>>(
                     CurveOnSurface<T,dim>{
-                        make_curve<T,2>(val["curve2d"]),
-                        make_surface<T,dim>(val["surface"])
+                        make_curve<T,2>(get_member(val, "curve2d")),
+                        make_surface<T,dim>(get_member(val, "surface"))
                     }
                 );
                 break;
@@ -435,15 +451,15 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,dim>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_val<int>(get_member(val, "type")) ){
             case static_cast<int>(entity_type::BSSurface):
                 return std::make_shared<BSSurface<T,dim>>(
                     BSSurface<T,dim>{
-                        make_point_vec<T,dim>(val["poles"]),
-                        flat_knots( make_vec<T>(val["knotsU"]),make_vec<size_t>(val["multsU"]) ),
-                        flat_knots( make_vec<T>(val["knotsV"]),make_vec<size_t>(val["multsV"]) ),
-                        val["degreeU"].GetUint64(),
-                        val["degreeV"].GetUint64()
+                        make_point_vec<T,dim>(get_member(val, "poles")),
+                        flat_knots( make_vec<T>(get_member(val, "knotsU")),make_vec<size_t>(get_member(val, "multsU")) ),
+                        flat_knots( make_vec<T>(get_member(val, "knotsV")),make_vec<size_t>(get_member(val, "multsV")) ),
+                        get_val<size_t>(get_member(val, "degreeU")),
+                        get_val<size_t>(get_member(val, "degreeV"))
                     }
                 );
                 break;
@@ -451,13 +467,13 @@ namespace gbs
                 return std::make_shared<BSSurfaceRational<T,dim>>(
                     BSSurfaceRational<T,dim>{
                         add_weights_coord(
-                            make_point_vec<T,dim>(val["poles"]),
-                            make_vec<T>(val["weights"])
+                            make_point_vec<T,dim>(get_member(val, "poles")),
+                            make_vec<T>(get_member(val, "weights"))
                         ),
-                        flat_knots( make_vec<T>(val["knotsU"]),make_vec<size_t>(val["multsU"]) ),
-                        flat_knots( make_vec<T>(val["knotsV"]),make_vec<size_t>(val["multsV"]) ),
-                        val["degreeU"].GetUint64(),
-                        val["degreeV"].GetUint64()
+                        flat_knots( make_vec<T>(get_member(val, "knotsU")),make_vec<size_t>(get_member(val, "multsU")) ),
+                        flat_knots( make_vec<T>(get_member(val, "knotsV")),make_vec<size_t>(get_member(val, "multsV")) ),
+                        get_val<size_t>(get_member(val, "degreeU")),
+                        get_val<size_t>(get_member(val, "degreeV"))
                     }
                 );
                 break;
@@ -470,15 +486,15 @@ namespace gbs
     template <typename T>
     auto make_surface(const rapidjson::Value &val) -> std::shared_ptr<Surface<T,3>>
     {
-        switch( val["type"].GetInt() ){
+        switch( get_val<int>(get_member(val, "type")) ){
             case static_cast<int>(entity_type::SurfaceOfRevolution):
             {
                 return std::make_shared<SurfaceOfRevolution<T>>(
                     SurfaceOfRevolution<T>{
-                        make_curve<T,2>(val["curve"]),
-                        make_ax2<T,3>(val["axis2"]),
-                        get_val<T>(val["theta1"]),
-                        get_val<T>(val["theta2"])
+                        make_curve<T,2>(get_member(val, "curve")),
+                        make_ax2<T,3>(get_member(val, "axis2")),
+                        get_val<T>(get_member(val, "theta1")),
+                        get_val<T>(get_member(val, "theta2"))
                     });
                 break;
             }
diff --git a/gbs-io/fromjson2.h b/gbs-io/fromjson2.h
index b904930..08b202a 100644
--- a/gbs-io/fromjson2.h
+++ b/gbs-io/fromjson2.h
@@ -8,10 +8,10 @@ namespace gbs{
         // std::cerr << "Curve name: " << a["name"].GetString() << std::endl;
         assert( a["type"].GetInt() == 125);
         assert( a["dim"].GetUint64() == dim);
-        auto knots = make_vec<T>(a["knots"]);
-        auto mults = make_vec<size_t>(a["mults"]);
-        auto deg = get_val<size_t>(a["degree"]);
-        auto poles = make_point_vec<T, dim>(a["poles"]);
+        auto knots = make_vec<T>(get_member(a, "knots"));
+        auto mults = make_vec<size_t>(get_member(a, "mults"));
+        auto deg = get_val<size_t>(get_member(a, "degree"));
+        auto poles = make_point_vec<T, dim>(get_member(a, "poles"));
 
         return BSCurve<T, dim>(poles, knots, mults, deg);
     }
-- 
2.43.0


From a41cad35cd6d7563c1c0b1a6410f6bfe74b265bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 31/49] fix: a curve or surface without knots was read out of
 bounds

---
 gbs/bscurve.h | 17 +++++++++++------
 gbs/bssurf.h  |  4 ++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 1a22969..702746c 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -201,6 +201,11 @@ namespace gbs
     auto check_curve(size_t np, const std::vector<T> &knots, size_t p)
     {
         bool ok = true;
+        if(knots.empty())
+        {
+            std::cerr << "check_curve: no knots\n";
+            return false;
+        }
         std::vector<size_t> m;
         std::vector<T> k;
         unflat_knots(knots,m,k);
@@ -272,10 +277,10 @@ namespace gbs
                        const std::vector<size_t> &mult,
                        size_t p) : m_poles(poles),
                                      m_deg(p),
-                                     m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_knotsFlats(flat_knots(knots, mult))
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object, rational definition
@@ -292,10 +297,10 @@ namespace gbs
                        const std::vector<size_t> &mult,
                        size_t p) : m_poles(merge_weights(poles, weights)),
                                      m_deg(p),
-                                     m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_knotsFlats(flat_knots(knots, mult))
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         /**
          * @brief Construct a new BSCurve object
@@ -308,10 +313,10 @@ namespace gbs
                        const std::vector<T> &knots_flats,
                        size_t p) : m_poles(poles),
                                      m_knotsFlats(knots_flats),
-                                     m_deg(p),
-                                     m_bounds{knots_flats.front(),knots_flats.back()}
+                                     m_deg(p)
         {
             if(!check_curve(m_poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {m_knotsFlats.front(),m_knotsFlats.back()};
         }
         auto isRational() -> bool
         {
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index cca0ab8..c33929d 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -426,8 +426,7 @@ namespace gbs
                                         m_knotsFlatsU(knots_flatsU),
                                         m_knotsFlatsV(knots_flatsV),
                                         m_degU(degU),
-                                        m_degV(degV),
-                                        m_bounds{knots_flatsU.front(), knots_flatsU.back(), knots_flatsV.front(), knots_flatsV.back()}
+                                        m_degV(degV)
         //,
         //   m_rational(false)
 
@@ -438,6 +437,7 @@ namespace gbs
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsU/degreeU combination");
             if (!check_curve(nPolesV(), m_knotsFlatsV, degV))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsV/degreeV combination");
+            m_bounds = {m_knotsFlatsU.front(), m_knotsFlatsU.back(), m_knotsFlatsV.front(), m_knotsFlatsV.back()};
         }
 
         BSSurfaceGeneral(const std::vector<std::array<T, dim + rational>> &poles,
-- 
2.43.0


From 4458c35af9c51a58dab1401267cc976588243bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:03 +0000
Subject: [PATCH 32/49] fix: a curve with restricted bounds was saved over its
 whole knot range

---
 gbs-io/tojson.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gbs-io/tojson.h b/gbs-io/tojson.h
index 254443e..32ee190 100644
--- a/gbs-io/tojson.h
+++ b/gbs-io/tojson.h
@@ -114,6 +114,14 @@ namespace gbs
     template< typename T, size_t dim>
     auto make_json(const BSCurve<T,dim> &crv, auto &allocator) -> rapidjson::Value
     {
+        // only the part within the bounds is stored
+        auto [u1, u2] = crv.bounds();
+        if (std::abs(u1 - crv.knotsFlats().front()) > knot_eps<T> || std::abs(u2 - crv.knotsFlats().back()) > knot_eps<T>)
+        {
+            auto trimmed = crv;
+            trimmed.trim(u1, u2);
+            return make_json(trimmed, allocator);
+        }
         rapidjson::Value crv_val;
         crv_val.SetObject();
         rapidjson::Value deg_val{static_cast<unsigned>(crv.degree())};
@@ -137,6 +145,14 @@ namespace gbs
     template< typename T, size_t dim>
     auto make_json(const BSCurveRational<T,dim> &crv, auto &allocator) -> rapidjson::Value
     {
+        // only the part within the bounds is stored
+        auto [u1, u2] = crv.bounds();
+        if (std::abs(u1 - crv.knotsFlats().front()) > knot_eps<T> || std::abs(u2 - crv.knotsFlats().back()) > knot_eps<T>)
+        {
+            auto trimmed = crv;
+            trimmed.trim(u1, u2);
+            return make_json(trimmed, allocator);
+        }
         rapidjson::Value crv_val;
         crv_val.SetObject();
         rapidjson::Value deg_val{static_cast<unsigned>(crv.degree())};
-- 
2.43.0


From 435e9d3576e241a060201006709ff6a335647822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:28 +0000
Subject: [PATCH 33/49] fix: lines, 3d offsets and nested entities were saved
 as null

---
 gbs-io/tojson.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/gbs-io/tojson.h b/gbs-io/tojson.h
index 32ee190..f05f8f0 100644
--- a/gbs-io/tojson.h
+++ b/gbs-io/tojson.h
@@ -198,7 +198,7 @@ namespace gbs
         rapidjson::Value type_val{static_cast<int>(entity_type::Curve2dOffset)};
         rapidjson::Value dim_val{2};
         offset_val.AddMember( "dim"     ,dim_val, allocator);
-        auto crv_val = make_json<T,2>(&offset.basisCurve(), allocator);
+        auto crv_val = make_json(&offset.basisCurve(), allocator);
         auto f_val   = make_json(offset.offset(), allocator);
 
         offset_val.AddMember( "type"     ,type_val, allocator);
@@ -216,7 +216,7 @@ namespace gbs
         rapidjson::Value type_val{static_cast<int>(entity_type::Curve2dOffset)};
         rapidjson::Value dim_val{3};
         offset_val.AddMember( "dim"     ,dim_val, allocator);
-        auto crv_val = make_json<T,3>(&offset.basisCurve(), allocator);
+        auto crv_val = make_json(&offset.basisCurve(), allocator);
         auto f_val   = make_json(offset.offset(), allocator);
         auto d_val   = make_json(offset.direction().begin(), offset.direction().end(), allocator);
 
@@ -313,8 +313,11 @@ namespace gbs
         {
             return make_json(*static_cast<const CurveTrimmed<T,dim>*>(crv),allocator);
         }
-        rapidjson::Value null_val;
-        return null_val;
+        if(dynamic_cast<const Line<T,dim>*>(crv))
+        {
+            return make_json(*static_cast<const Line<T,dim>*>(crv),allocator);
+        }
+        throw std::invalid_argument("Unsupported curve type");
     }
 
     template< typename T>
@@ -327,6 +330,16 @@ namespace gbs
         return make_json<T,2>(crv, allocator);
     }
 
+    template< typename T>
+    auto make_json(const Curve<T,3> *crv, auto &allocator) -> rapidjson::Value
+    {
+        if(dynamic_cast<const CurveOffset3D<T,BSCfunction<T>>*>(crv))
+        {
+            return make_json(*static_cast<const CurveOffset3D<T,BSCfunction<T>>*>(crv),allocator);
+        }
+        return make_json<T,3>(crv, allocator);
+    }
+
     template <typename T >
     auto make_json(const SurfaceOfRevolution<T> &srf, auto &allocator) -> rapidjson::Value
     {
@@ -424,8 +437,7 @@ namespace gbs
         {
             return make_json(*static_cast<const BSSurfaceRational<T,dim>*>(srf),allocator);
         }
-        rapidjson::Value null_val;
-        return null_val;
+        throw std::invalid_argument("Unsupported surface type");
     }
 
     template< typename T>
@@ -446,8 +458,8 @@ namespace gbs
         rapidjson::Value dim_val{static_cast<unsigned>(dim)};
         rapidjson::Value type_val{static_cast<int>(entity_type::CurveOnSurface)};
 
-        auto crv2d_val = make_json<T,2>(  &crv.basisCurve(),   allocator);
-        auto srf_val   = make_json<T,dim>(&crv.basisSurface(), allocator);
+        auto crv2d_val = make_json(&crv.basisCurve(),   allocator);
+        auto srf_val   = make_json(&crv.basisSurface(), allocator);
         
         crv_val.AddMember( "type"     ,type_val,  allocator);
         crv_val.AddMember( "dim"      ,dim_val,   allocator);
-- 
2.43.0


From ddd09d83dcd9bea3cadecc89c660172bdcd8aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:08 +0000
Subject: [PATCH 34/49] fix: damaged text records were imported as points

Read errors ended the import silently, lines without separator and trailing
garbage in a number were misread.
---
 gbs-io/fromtext.h | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/gbs-io/fromtext.h b/gbs-io/fromtext.h
index 5b66438..8bccf6c 100644
--- a/gbs-io/fromtext.h
+++ b/gbs-io/fromtext.h
@@ -2,6 +2,10 @@
 #include <gbs/bscapprox.h>
 #include <charconv>
 #include <cctype>
+#include <algorithm>
+#include <stdexcept>
+#include <string>
+#include <vector>
 #include <fstream>
 #include <type_traits>
 namespace gbs
@@ -17,21 +21,15 @@ namespace gbs
             v.push_back(s.substr(i, j - i));
             i = ++j;
             j = s.find(c, j);
-
-            if (j == std::string::npos)
-                v.push_back(s.substr(i, s.length()));
         }
+        v.push_back(s.substr(i, s.length()));
 
-        // remove withe spaces
+        // remove surrounding withe spaces
         for( auto &v_ : v)
         {
-            v_.erase(
-                std::remove_if(
-                    v_.begin(), v_.end(),
-                    [](const auto &c) { return std::isspace(c); }
-                ),
-                v_.end()
-            );
+            auto not_space = [](const auto &c) { return !std::isspace(static_cast<unsigned char>(c)); };
+            v_.erase(std::find_if(v_.rbegin(), v_.rend(), not_space).base(), v_.end());
+            v_.erase(v_.begin(), std::find_if(v_.begin(), v_.end(), not_space));
         }
         // remove empty strings
         v.erase(
@@ -73,18 +71,23 @@ namespace gbs
                 {
                     T result{};
                     if constexpr (std::is_floating_point_v<T>) {
+                        size_t n_read{};
                         try {
                             if constexpr (std::is_same_v<T, float>) {
-                                result = std::stof(s_);
+                                result = std::stof(s_, &n_read);
                             } else {
-                                result = static_cast<T>(std::stod(s_));
+                                result = static_cast<T>(std::stod(s_, &n_read));
                             }
                         } catch (...) {
                             throw std::runtime_error("Incorrect file format");
                         }
+                        if (n_read != s_.size())
+                        {
+                            throw std::runtime_error("Incorrect file format");
+                        }
                     } else {
                         auto [ptr, ec] { std::from_chars(s_.data(), s_.data() + s_.size(), result) };
-                        if (ec != std::errc{})
+                        if (ec != std::errc{} || ptr != s_.data() + s_.size())
                         {
                             throw std::runtime_error("Incorrect file format");
                         }
@@ -94,6 +97,10 @@ namespace gbs
             );
             pts.push_back(pt);
         }
+        if(myfile.bad())
+        {
+            throw std::runtime_error("Could not read file:" + fname);
+        }
         myfile.close();
 
         return approx(pts, p, mode,true);
-- 
2.43.0


From b96b4bd0774e3c7ccba92e24618e6a82d766ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:11 +0000
Subject: [PATCH 35/49] fix: approximating an empty point set wrote out of
 bounds

With the number of poles left to the call, the parametrization came before
the check of the sizes.
---
 gbs/bscapprox.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 22c9eff..0415cae 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -288,6 +288,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const std::vector<std::array<T, dim>> &pts, size_t p, KnotsCalcMode mode, bool fix_bound, T d_max = approx_dev_max<T>, T d_avg = approx_dev_avg<T>, size_t n_max = approx_max_iter, bool adimensionnal =false) -> BSCurve<T, dim>
     {
+        check_approx_sizes(default_n_poles(p), p, pts.size());
         auto u = curve_parametrization(pts, mode, adimensionnal);
         return approx(pts,u,p,fix_bound,d_max,d_avg,n_max);
     }
-- 
2.43.0


From 91bb6d424cda85817d5691ab368851f98f8dbfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:58 +0000
Subject: [PATCH 36/49] fix: interpolation solved with a failed sparse
 factorization

---
 gbs/bscinterp.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..265050e 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -7,6 +7,9 @@
 #include <gbs/bscurve.h>
 #include <limits>
 #include <algorithm>
+#include <new>
+#include <stdexcept>
+#include <string>
 
 #ifdef GBS_USE_MODULES
     import knots_functions;
@@ -32,6 +35,21 @@ struct constrPoint
 
 // interp_sparse_threshold is defined in gbs/gbsconstants.h.
 
+/**
+ * @brief Throws if a sparse LU factorization failed: solving with it is undefined.
+ *        Eigen swallows the allocation failures, they are restored here.
+ */
+template <typename Solver>
+void check_factorization(const Solver &solver)
+{
+    const auto msg = solver.lastErrorMessage();
+    if (msg.empty())
+        return;
+    if (msg.find("MEMORY") != std::string::npos)
+        throw std::bad_alloc{};
+    throw std::invalid_argument("collocation system can't be solved: " + msg);
+}
+
 /**
  * @brief Solve the collocation system N * X = B for all dim right-hand sides,
  *        choosing a dense or sparse LU by problem size.
@@ -53,6 +71,7 @@ auto solve_collocation(const MatrixX<T> &N, const MatrixX<T> &B) -> MatrixX<T>
     Eigen::SparseLU<Eigen::SparseMatrix<T>> solver;
     solver.analyzePattern(Ns);
     solver.factorize(Ns);
+    check_factorization(solver);
     return solver.solve(B);
 }
 
@@ -352,6 +371,7 @@ struct collocation_solver
             Eigen::SparseMatrix<T> Ns = assemble_collocation_sparse<T>(k_flat, u, deg, nc, n_poles);
             sparse.analyzePattern(Ns);
             sparse.factorize(Ns);
+            check_factorization(sparse);
         }
     }
     // Multi-RHS solve: every column of B is solved against the single
-- 
2.43.0


From 8f2d7932c072073b2cd26e69e551cda0a9bca724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:33 +0000
Subject: [PATCH 37/49] fix: converting, embedding or joining a non-permanently
 trimmed curve dropped its trim

---
 gbs/bsctools.h | 5 ++++-
 gbs/bscurve.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index f88716c..6e5f476 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -411,6 +411,7 @@ namespace gbs
         using crvType = typename std::conditional<rational1 || rational2,BSCurveRational<T,dim>,BSCurve<T,dim>>::type;
         //put both curves at same def
         std::vector<crvType> lst = {crvType(crv1),crvType(crv2)}; // create a cpy
+        for(auto &crv : lst) crv.trim(crv.bounds()[0], crv.bounds()[1]); // make a non-permanent trim effective
         unify_curves_degree(lst);
         auto crv1_cp = lst.front();
         auto crv2_cp = lst.back(); 
@@ -763,7 +764,9 @@ namespace gbs
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
-        return bs_type( poles,  crv.knotsFlats(), crv.degree() );
+        bs_type res( poles,  crv.knotsFlats(), crv.degree() );
+        res.trim(crv.bounds()[0], crv.bounds()[1], false); // keep a non-permanent trim
+        return res;
     }
 /**
  * @brief Build a curve as an extention of the curve crv to the point pt from position u folowing curve's direction
diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 702746c..19fb788 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -656,7 +656,10 @@ namespace gbs
                         const std::vector<T> &weights,
                         size_t deg) : BSCurveGeneral<T, dim, true>(add_weights_coord(poles,weights), flat_knots(knots, mults) , deg) {}
         BSCurveRational(const BSCurve<T,dim> &crv) : BSCurveGeneral<T, dim, true>(
-            add_weights_coord(crv.poles()), crv.knotsFlats(), crv.degree()) {}
+            add_weights_coord(crv.poles()), crv.knotsFlats(), crv.degree())
+        {
+            this->trim(crv.bounds()[0], crv.bounds()[1], false); // keep a non-permanent trim
+        }
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {            
             if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
-- 
2.43.0


From f67b0fc3524f36d83a716b37f22ed00b1ed73207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 38/49] fix: setting a vertex of an edge compared a squared
 distance with the tolerance, and moved the ends of open curves to their other
 side

---
 inc/topology/edge.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/inc/topology/edge.h b/inc/topology/edge.h
index 17ff152..5447d98 100644
--- a/inc/topology/edge.h
+++ b/inc/topology/edge.h
@@ -138,14 +138,15 @@ namespace gbs
     template <typename T, size_t dim>
     bool Edge<T, dim>::setVertex1(const std::shared_ptr<Vertex<T, dim>> &vtx)
     {
-        auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
+        auto u = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>)[0];
 
-        if (d > this->approximationTolerance())
+        if (distance(m_curve->value(u), vtx->point()) > this->approximationTolerance())
         {
             return false;
         }
 
-        m_u1 = std::abs(u - m_curve->bounds()[1]) < knot_eps<T> ? m_curve->bounds()[0] : u;
+        // a closed curve begins where it ends
+        m_u1 = std::abs(u - m_curve->bounds()[1]) < knot_eps<T> && distance(m_curve->begin(), vtx->point()) <= this->approximationTolerance() ? m_curve->bounds()[0] : u;
         m_vtx1 = vtx;
 
         return true;
@@ -154,14 +155,15 @@ namespace gbs
     template <typename T, size_t dim>
     bool Edge<T, dim>::setVertex2(const std::shared_ptr<Vertex<T, dim>> &vtx)
     {
-        auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
+        auto u = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>)[0];
 
-        if (d > this->approximationTolerance())
+        if (distance(m_curve->value(u), vtx->point()) > this->approximationTolerance())
         {
             return false;
         }
 
-        m_u2 = std::abs(u - m_curve->bounds()[0]) < knot_eps<T> ? m_curve->bounds()[1] : u;
+        // a closed curve ends where it begins
+        m_u2 = std::abs(u - m_curve->bounds()[0]) < knot_eps<T> && distance(m_curve->end(), vtx->point()) <= this->approximationTolerance() ? m_curve->bounds()[1] : u;
         m_vtx2 = vtx;
 
         return true;
-- 
2.43.0


From 99284df5582aa75f8043ace0860b1ffd32a55282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:37 +0000
Subject: [PATCH 39/49] fix: a wire took edges it does not touch, stayed open
 when closed by a shared vertex, and could not be closed

---
 inc/topology/wire.h | 70 +++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 44 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 8843379..61bc6a2 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -15,8 +15,8 @@ namespace gbs
     class Wire : public BaseTopo<T, dim>
     {
         std::list< std::shared_ptr< Edge<T,dim> > > m_edges;
-        bool fuseVertex1(std::shared_ptr<Edge<T, dim>> &ed);
-        bool fuseVertex2(std::shared_ptr<Edge<T, dim>> &ed);
+        bool fuseVertex1(Edge<T, dim> &ed);
+        bool fuseVertex2(Edge<T, dim> &ed);
     public:
         /// @brief Default constructor deleted.
         Wire() = delete;
@@ -84,41 +84,37 @@ namespace gbs
     };
 
     template <std::floating_point T, size_t dim>
-    bool Wire<T, dim>::fuseVertex1(std::shared_ptr<Edge<T, dim>> &ed)
+    bool Wire<T, dim>::fuseVertex1(Edge<T, dim> &ed)
     {
-        if (distance(
-                m_edges.back()->vertex2()->point(),
-                ed->vertex1()->point()) < this->approximationTolerance())
+        const auto &vtx = m_edges.back()->vertex2();
+        if (vtx == ed.vertex1())
         {
-            ed->setVertex1(m_edges.back()->vertex2());
             return true;
         }
-        return false;
+        return distance(vtx->point(), ed.vertex1()->point()) < this->approximationTolerance() && ed.setVertex1(vtx);
     }
 
     template <std::floating_point T, size_t dim>
-    bool Wire<T, dim>::fuseVertex2(std::shared_ptr<Edge<T, dim>> &ed)
+    bool Wire<T, dim>::fuseVertex2(Edge<T, dim> &ed)
     {
-        if (distance(
-                m_edges.front()->vertex1()->point(),
-                ed->vertex2()->point()) < this->approximationTolerance())
+        const auto &vtx = m_edges.front()->vertex1();
+        if (vtx == ed.vertex2())
         {
-            ed->setVertex2(m_edges.front()->vertex1());
             return true;
         }
-        return false;
+        return distance(vtx->point(), ed.vertex2()->point()) < this->approximationTolerance() && ed.setVertex2(vtx);
     }
 
     template <std::floating_point T, size_t dim>
     Wire<T, dim>::Wire(const Edge<T, dim> &ed) : m_edges{std::make_shared<Edge<T, dim>>(ed)}
     {
-        fuseVertex2(m_edges.back()); // try to close
+        fuseVertex2(*m_edges.back()); // try to close
     }
 
     template <std::floating_point T, size_t dim>
     Wire<T, dim>::Wire(std::shared_ptr<Edge<T, dim>> &ed) : m_edges{ed}
     {
-        fuseVertex2(m_edges.back()); // try to close
+        fuseVertex2(*m_edges.back()); // try to close
     }
 
     template <std::floating_point T, size_t dim>
@@ -134,38 +130,23 @@ namespace gbs
             {
                 return false;
             }
-            if (m_edges.front()->vertex1() == ed->vertex2())
+            // The edge takes over the wire's vertices once it is part of the wire.
+            Edge<T, dim> fused{*ed};
+            const bool follows = fuseVertex1(fused);
+            const bool precedes = fuseVertex2(fused);
+            if (!follows && !precedes)
             {
-                m_edges.push_front(ed);
+                return false;
             }
-            else if (m_edges.back()->vertex2() == ed->vertex1())
+            if (!follows || m_edges.front()->vertex1() == ed->vertex2())
             {
-                m_edges.push_back(ed);
+                m_edges.push_front(ed);
             }
             else
             {
-                bool added = false;
-                if (distance(
-                        m_edges.back()->vertex2()->point(),
-                        ed->vertex1()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex1(m_edges.back()->vertex2());
-                    m_edges.push_back(ed);
-                    added = true;
-                }
-                if (distance(
-                        m_edges.front()->vertex1()->point(),
-                        ed->vertex2()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex2(m_edges.front()->vertex1());
-                    if (!added)
-                    {
-                        m_edges.push_front(ed);
-                        added = true;
-                    }
-                }
-                return added;
+                m_edges.push_back(ed);
             }
+            *ed = std::move(fused);
         }
 
         return true;
@@ -230,9 +211,10 @@ namespace gbs
     template <std::floating_point T, size_t dim>
     void Wire<T, dim>::close()
     {
-        addEdge(Edge<T, dim>{
-            end()->vertex2(),
-            begin()->vertex1()});
+        if (!isClosed())
+        {
+            addEdge(Edge<T, dim>{vertex2(), vertex1()});
+        }
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From 1c238db022db9200b9639d9a0d056eb96b7725f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 40/49] fix: shaping: constraints are reached from their
 deltas, surface derivative constraints use the derivatives of the basis,
 bounds are kept

---
 gbs/bscshaping.h | 13 +++++++++----
 gbs/bssshaping.h |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index 81af81d..778a799 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -87,8 +87,11 @@ namespace gbs
         auto n = poles.size();
         auto k     = crv.knotsFlats();
         auto p     = crv.degree();
-        move_to_constraints_delta(poles, constraints_delta, k, p , i1, i2);
-        return BSCurve<T,dim>{poles,k,p};
+        if(constraints_delta.size()>0)
+            move_to_constraints_delta(poles, constraints_delta, k, p , i1, i2);
+        BSCurve<T,dim> moved{crv}; // keeps the bounds
+        moved.movePoles(poles);
+        return moved;
     }
 
     template<typename T, size_t dim> 
@@ -143,7 +146,7 @@ namespace gbs
             i2 = std::min<size_t>(n-2,i2);
         }
 
-        return moved_to_constraints_delta(crv, constraints, i1, i2);
+        return moved_to_constraints_delta(crv, constraints_delta, i1, i2);
     }
 
     template<typename T, size_t dim>
@@ -200,7 +203,9 @@ namespace gbs
 
         move_to_point_delta(poles, D, k, p , u, i1, i2);
 
-        return BSCurve<T,dim>{poles,k,p};
+        BSCurve<T,dim> moved{crv}; // keeps the bounds
+        moved.movePoles(poles);
+        return moved;
 
     }
 
diff --git a/gbs/bssshaping.h b/gbs/bssshaping.h
index 5cb75ce..532cfec 100644
--- a/gbs/bssshaping.h
+++ b/gbs/bssshaping.h
@@ -42,10 +42,10 @@ namespace gbs
 
             for (size_t j{j1}; j <= j2; j++)
             {
-                Nv = basis_function(v, j, q, 0, kv);
+                Nv = basis_function(v, j, q, dv, kv);
                 for (size_t i{i1}; i <= i2; i++)
                 {
-                    Nu = basis_function(u, i, p, 0, ku);
+                    Nu = basis_function(u, i, p, du, ku);
                     B(r, i - i1 + nu * ( j - j1) ) = Nu * Nv;
                 }
             }
-- 
2.43.0


From f320de55d295aada6a60e6b6fcabcba60679b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:38 +0000
Subject: [PATCH 41/49] fix: reverse and change of bounds keep the end knots
 equal to the bounds

---
 gbs/bscurve.h          | 4 ++--
 gbs/bssurf.h           | 4 ++--
 gbs/knotsfunctions.ixx | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 19fb788..6344684 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -524,7 +524,7 @@ namespace gbs
             std::transform(m_knotsFlats.begin(), m_knotsFlats.end(),
                            m_knotsFlats.begin(),
                            [&](const auto k_) {
-                               return k1 + k2 - k_;
+                               return (k_ - k1 < k2 - k_) ? k2 - (k_ - k1) : k1 + (k2 - k_); // ends are exact
                            });
         }
 
@@ -574,7 +574,7 @@ namespace gbs
             auto k2_ = m_bounds[1];
             std::transform(m_knotsFlats.begin(), m_knotsFlats.end(), m_knotsFlats.begin(),
                            [&](const auto &k_) {
-                               return k1 + (k2 - k1) * (k_ - k1_) / (k2_ - k1_);
+                               return k_ == k2_ ? k2 : k1 + (k2 - k1) * (k_ - k1_) / (k2_ - k1_); // ends are exact
                            });
             m_bounds = {k1,k2};
         }
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index c33929d..3aea84d 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -928,7 +928,7 @@ namespace gbs
             std::transform(m_knotsFlatsU.begin(), m_knotsFlatsU.end(),
                            m_knotsFlatsU.begin(),
                            [&](const auto k_) {
-                               return k1 + k2 - k_;
+                               return (k_ - k1 < k2 - k_) ? k2 - (k_ - k1) : k1 + (k2 - k_); // ends are exact
                            });
                         auto nv = nPolesV();
             auto nu = nPolesU();
@@ -951,7 +951,7 @@ namespace gbs
             std::transform(m_knotsFlatsV.begin(), m_knotsFlatsV.end(),
                            m_knotsFlatsV.begin(),
                            [&](const auto k_) {
-                               return k1 + k2 - k_;
+                               return (k_ - k1 < k2 - k_) ? k2 - (k_ - k1) : k1 + (k2 - k_); // ends are exact
                            });
             auto nv = nPolesV();
             auto nu = nPolesU();
diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a6663eb..d2f170c 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -808,7 +808,7 @@
         auto k2_ = knots.back();
         std::transform(knots.begin(), knots.end(), knots.begin(),
                        [&](const auto &k_) {
-                           return k1 + (k2 - k1) * (k_ - k1_) / (k2_ - k1_);
+                           return k_ == k2_ ? k2 : k1 + (k2 - k1) * (k_ - k1_) / (k2_ - k1_); // ends are exact
                        });
     }
 
-- 
2.43.0


From a9b7ecb3d10946be98ec83155eed8d475e490ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:46 +0000
Subject: [PATCH 42/49] fix: running out of memory while copying the sections
 of a spine loft terminated the process

---
 gbs/bssbuild.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 3d3036b..138d5a0 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -28,8 +28,8 @@ namespace gbs
     {
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim>,BSCurve<T, dim>>::type;
         std::list<bs_type> bs_lst_cpy(bs_lst.size());
+        // copying allocates: a failure must reach the caller, which a parallel algorithm forbids
         std::transform(
-            GBS_PAR_EXEC
             bs_lst.begin(),
             bs_lst.end(),
             bs_lst_cpy.begin(),
-- 
2.43.0


From 6b035e2558c95bfe766a3afaac078ada1d32251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:01 +0000
Subject: [PATCH 43/49] fix: curves apart by up to the root of the tolerance
 were accepted as intersecting

---
 gbs/bssbuild.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 138d5a0..0cd1994 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -486,7 +486,8 @@ namespace gbs
 
         // Compute intersections
         auto f_intersection = [tol, &crv](const auto &crv_) {
-            auto [u_, v_, d] = extrema_curve_curve( crv, conditional_dereference(crv_), tol);
+            auto [u_, v_, sq_d] = extrema_curve_curve( crv, conditional_dereference(crv_), tol);
+            auto d = distance(crv(u_), conditional_dereference(crv_)(v_)); // the search minimizes the square
             if (d > tol) {
                 throw std::invalid_argument("A curve from set is not touching the curve. Distance is: "+std::to_string(d));
             }
-- 
2.43.0


From eaaff84b01c2b428c66e6c439d0750762ac88dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 44/49] fix: sample grids could end past their bounds, so that
 searches refused their own starting point

---
 gbs/math.ixx | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..ed90987 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -96,6 +96,13 @@
         return v;
     }
 
+    // Sample i of n+1 ones from v1 to v2, the ends are exact
+    template <typename T>
+    auto range_sample(T v1, T v2, size_t i, size_t n) -> T
+    {
+        return i == n ? v2 : v1 + ( v2 - v1 ) * i / static_cast<T>(n);
+    }
+
     template <typename T>
     auto make_range(T u1, T u2, T v1, T v2, size_t nu , size_t nv) -> std::vector<std::pair<T,T>> 
     {
@@ -104,14 +111,12 @@
             throw std::length_error("2 points a required for a range");
         }
         
-        T lu{ static_cast<T>( nu - 1 )};
-        T lv{ static_cast<T>( nv - 1 )};
         std::vector<std::pair<T,T>> v(nu*nv);
         for(size_t i{}; i < nu; i++)
         {
             for(size_t j{}; j < nv; j++)
             {
-                v[j + nv * i] = std::make_pair<T,T>( u1 + (u2-u1) * i / lu, v1 + (v2-v1) * j / lv  );
+                v[j + nv * i] = std::make_pair<T,T>( range_sample(u1, u2, i, nu - 1), range_sample(v1, v2, j, nv - 1) );
             }
         }
 
@@ -126,9 +131,6 @@
             throw std::length_error("2 points a required for a range");
         }
         
-        T lu{ static_cast<T>( nu - 1 )};
-        T lv{ static_cast<T>( nv - 1 )};
-        T lw{ static_cast<T>( nw - 1 )};
         std::vector<std::tuple<T,T,T>> v(nu*nv*nw);
         for(size_t i{}; i < nu; i++)
         {
@@ -136,7 +138,7 @@
             {
                 for(size_t k{}; k < nw; k++)
                 {
-                    v[k + nw * ( j + nv * i )] = std::tuple<T,T,T>( u1 + (u2-u1) * i / lu, v1 + (v2-v1) * j / lv, w1 + (w2-w1) * k / lw  );
+                    v[k + nw * ( j + nv * i )] = std::tuple<T,T,T>( range_sample(u1, u2, i, nu - 1), range_sample(v1, v2, j, nv - 1), range_sample(w1, w2, k, nw - 1) );
                 }
             }
         }
-- 
2.43.0


From 59657d3677406b98dba93b238912040cebb08cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 45/49] fix: gradients of the curve/curve and surface/curve
 distances had a wrong sign and were taken at a wrong place

---
 gbs/extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 580fd2b..1cc971d 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -155,7 +155,7 @@ namespace gbs
         {
             auto f_ = crv1(x[0])-crv2(x[1]);
             auto dfdu = 2.*crv1(x[0],1)* f_;
-            auto dfdv = 2.*crv2(x[1],1)* f_;
+            auto dfdv =-2.*crv2(x[1],1)* f_;
             return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
         };
 
@@ -258,8 +258,8 @@ namespace gbs
         {
             auto f_ = crv(x[0])-srf(x[1],x[2]);
             auto dfduc = 2.*crv(x[0],1)  * f_;
-            auto dfdus =-2.*srf(x[1],1,0)* f_;
-            auto dfdvs =-2.*srf(x[2],0,1)* f_;
+            auto dfdus =-2.*srf(x[1],x[2],1,0)* f_;
+            auto dfdvs =-2.*srf(x[1],x[2],0,1)* f_;
             return std::vector<double>{2. * r[0] * dfduc,2. * r[0] * dfdus,2. * r[0] * dfdvs};
         };
 
-- 
2.43.0


From 0f5b934ff8de74eb1ad1ddf3b84e2d1da003845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:00 +0000
Subject: [PATCH 46/49] fix: evaluation at the ends of a curve or surface is
 not refused for rounding

The refusal of out of range parameters used an absolute tolerance of a few
1e-14, so derived curves (composite, reversed, reparametrized, on surface)
whose parameter is computed were refused at their own bounds as soon as the
parameters exceed about 100. The tolerance follows the magnitude of the
bounds, and composite and reversed curves stay on their pieces.
---
 gbs/bscurve.h        |  8 ++++----
 gbs/bssurf.h         | 12 ++++++------
 gbs/curveReversed.h  |  6 ++++++
 gbs/curvecomposite.h |  7 ++++++-
 gbs/curvetrimmed.h   |  2 +-
 gbs/exceptions.h     | 13 +++++++++++++
 6 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 6344684..85d5fd2 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -610,7 +610,7 @@ namespace gbs
         BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc) {}
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {
-            if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
             {
                 throw OutOfBoundsCurveEval(u,this->bounds());
             }
@@ -619,7 +619,7 @@ namespace gbs
 
         virtual auto derivatives(T u, size_t n, std::array<T, dim>* CK) const -> void override
         {
-            if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
             {
                 throw OutOfBoundsCurveEval(u,this->bounds());
             }
@@ -662,7 +662,7 @@ namespace gbs
         }
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {            
-            if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
             {
                 throw OutOfBoundsCurveEval(u,this->bounds());
             }
@@ -670,7 +670,7 @@ namespace gbs
         }
         virtual auto derivatives(T u, size_t n, std::array<T, dim>* CK) const -> void override
         {
-            if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
             {
                 throw OutOfBoundsCurveEval(u,this->bounds());
             }
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 3aea84d..1bf814e 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -815,9 +815,9 @@ namespace gbs
 
         virtual auto derivatives(T u, T v, size_t nu, size_t nv, std::array<T, dim>* SKL) const -> void override
         {
-            if (u < m_bounds[0] - knot_eps<T> || u > m_bounds[1] + knot_eps<T>)
+            if (out_of_bounds(u, m_bounds[0], m_bounds[1]))
                 throw OutOfBoundsSurfaceUEval<T>(u, this->boundsU());
-            if (v < m_bounds[2] - knot_eps<T> || v > m_bounds[3] + knot_eps<T>)
+            if (out_of_bounds(v, m_bounds[2], m_bounds[3]))
                 throw OutOfBoundsSurfaceVEval<T>(v, this->boundsV());
             if constexpr (rational)
                 // A4.4 quotient rule on the weighted (dim+1) poles; one A2.3 pass
@@ -1076,9 +1076,9 @@ namespace gbs
         BSSurface(const BSSurfaceGeneral<T, dim, false> &s)  : BSSurfaceGeneral<T, dim, false>{s} {}
         virtual auto value(T u, T v, size_t du = 0, size_t dv = 0) const -> std::array<T, dim> override
         {
-            if (u < this->bounds()[0] - knot_eps<T> || u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
                 throw OutOfBoundsSurfaceUEval<T>(u,this->boundsU());
-            if (v < this->bounds()[2] - knot_eps<T> || v > this->bounds()[3] + knot_eps<T>)
+            if (out_of_bounds(v, this->bounds()[2], this->bounds()[3]))
                 throw OutOfBoundsSurfaceVEval<T>(v,this->boundsV());
 
             return eval_value_decasteljau(u, v, this->knotsFlatsU(), this->knotsFlatsV(), this->poles(), this->degreeU(), this->degreeV(), du, dv);
@@ -1107,9 +1107,9 @@ namespace gbs
                         size_t degV) : BSSurfaceGeneral<T, dim, true>{merge_weights(poles, weights), flat_knots(knotsU, multsU), flat_knots(knotsV, multsV), degU, degV} {}
         virtual auto value(T u, T v, size_t du = 0, size_t dv = 0) const -> std::array<T, dim> override
         {
-            if (u < this->bounds()[0] - knot_eps<T> || u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
                 throw OutOfBoundsSurfaceUEval<T>(u,this->boundsU());
-            if (v < this->bounds()[2] - knot_eps<T> || v > this->bounds()[3] + knot_eps<T>)
+            if (out_of_bounds(v, this->bounds()[2], this->bounds()[3]))
                 throw OutOfBoundsSurfaceVEval<T>(v,this->boundsV());
 
             if (du == 0 && dv == 0)
diff --git a/gbs/curveReversed.h b/gbs/curveReversed.h
index 65d918c..5693fa3 100644
--- a/gbs/curveReversed.h
+++ b/gbs/curveReversed.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <algorithm>
 #include <memory>
 #include <gbs/bscurve.h>
 namespace gbs {
@@ -41,7 +42,12 @@ public:
         auto u1 = m_curve->bounds()[0];
         auto u2 = m_curve->bounds()[1];
 
+        const bool inside = u >= u1 && u <= u2;
         u = u2 - (u - u1); // Reverse the parameterization
+        if (inside) // rounding must not push the parameter out of the curve
+        {
+            u = std::min(std::max(u, u1), u2);
+        }
         T sign = (d % 2 == 0) ? 1 : -1;
 
         return sign * m_curve->value(u, d);
diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index 5abd10e..cbf5989 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -39,7 +39,12 @@ namespace gbs
             }
             auto i = std::distance(u_.begin(), pos);
             const auto &crv_loc = crv_lst_[i];
-            auto u_loc = u - *pos + crv_loc->bounds()[0];
+            auto [u1, u2] = crv_loc->bounds();
+            auto u_loc = u - *pos + u1;
+            if (u >= *pos && u <= *std::next(pos)) // rounding must not push the parameter out of the piece
+            {
+                u_loc = std::min(std::max(u_loc, u1), u2);
+            }
             return crv_loc->value(u_loc, d);
         }
         const auto & curves() const {return crv_lst_;}
diff --git a/gbs/curvetrimmed.h b/gbs/curvetrimmed.h
index 01d60e1..041eaf3 100644
--- a/gbs/curvetrimmed.h
+++ b/gbs/curvetrimmed.h
@@ -13,7 +13,7 @@ namespace gbs
         CurveTrimmed(const std::shared_ptr<Curve<T, dim>> &p_crv, T u1, T u2) : p_crv_{p_crv}, bounds_{u1,u2} {}
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {
-            if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
+            if (out_of_bounds(u, this->bounds()[0], this->bounds()[1]))
             {
                 throw OutOfBoundsCurveEval(u,this->bounds());
             }
diff --git a/gbs/exceptions.h b/gbs/exceptions.h
index 936f945..f107732 100644
--- a/gbs/exceptions.h
+++ b/gbs/exceptions.h
@@ -2,8 +2,21 @@
 #include <stdexcept>
 #include <array>
 #include <string>
+#include <cmath>
+#include <algorithm>
+#include <gbs/gbsconstants.h>
 
 namespace gbs{
+    /**
+     * @brief true if u is out of [u1, u2] by more than rounding, which grows with the magnitude of the bounds
+     */
+    template<typename T>
+    bool out_of_bounds(T u, T u1, T u2)
+    {
+        const T eps = knot_eps<T> * std::max({T(1), std::abs(u1), std::abs(u2)});
+        return u < u1 - eps || u > u2 + eps;
+    }
+
     template<typename T>
     class OutOfBoundsEval : public std::domain_error
     {
-- 
2.43.0


From ac75276c42b73e027f7c7003a1480879636fd973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:47 +0000
Subject: [PATCH 47/49] fix: unified knots do not differ by the rounding of the
 change of bounds

Curves and surfaces unified to a common range kept, for parameters above a
few hundred, two copies of a shared knot one rounding apart: the unified
definitions then carried (almost) degenerate spans and a loft missed its
sections.
---
 gbs/bsctools.h | 24 ++++++++++++++++++++++++
 gbs/bsstools.h |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 6e5f476..963a1ee 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -211,6 +211,29 @@ namespace gbs
         }
     }
 
+    /**
+     * @brief Sets the knots which differ from a reference one by rounding only to this reference.
+     * A change of bounds leaves such differences, they grow with the magnitude of the bounds.
+     *
+     * @param k  flat knots
+     * @param km reference knots and multiplicities
+     */
+    template <std::floating_point T>
+    void match_knots(std::vector<T> &k, const std::vector<std::pair<T, size_t>> &km)
+    {
+        for (auto &u : k)
+        {
+            auto it = std::ranges::find_if(
+                km,
+                [u](const auto &km_)
+                { return std::abs(km_.first - u) <= knot_eps<T> * std::max(T(1), std::abs(u)); });
+            if (it != km.end())
+            {
+                u = it->first;
+            }
+        }
+    }
+
     /**
      * Unifies the knot vectors of a set of NURBS curves.
      *
@@ -247,6 +270,7 @@ namespace gbs
             {
                 auto &k = std::get<1>(C_);
                 change_bounds(k_start, k_end, k);
+                match_knots(k, km0);
                 auto km = unflat_knots(k);
                 unify_knots(km0, k0, poles0, degree0, km);
             });
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index 810d9f0..a67259b 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -51,6 +51,8 @@ namespace gbs
                 auto &[polesUV, knotsU, knotsV, degU, degV] = surface_info;
                 change_bounds(kU_start, kU_end, knotsU);
                 change_bounds(kV_start, kV_end, knotsV);
+                match_knots(knotsU, kmU0);
+                match_knots(knotsV, kmV0);
 
                 auto kmU = unflat_knots(knotsU);
                 auto kmV = unflat_knots(knotsV);
-- 
2.43.0


From 70376030ec463d132124f7a41c826ac6721e3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:37 +0000
Subject: [PATCH 48/49] fix: unification by insertion also matches the knots
 after a change of bounds

Same defect as in the unification based on poles; the rounding is relative
to the whole range, not to the single knot.
---
 gbs/bsctools.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 963a1ee..c31d56a 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -221,12 +221,13 @@ namespace gbs
     template <std::floating_point T>
     void match_knots(std::vector<T> &k, const std::vector<std::pair<T, size_t>> &km)
     {
+        const T eps = knot_eps<T> * std::max({T(1), std::abs(k.front()), std::abs(k.back())});
         for (auto &u : k)
         {
             auto it = std::ranges::find_if(
                 km,
-                [u](const auto &km_)
-                { return std::abs(km_.first - u) <= knot_eps<T> * std::max(T(1), std::abs(u)); });
+                [u, eps](const auto &km_)
+                { return std::abs(km_.first - u) <= eps; });
             if (it != km.end())
             {
                 u = it->first;
@@ -369,6 +370,14 @@ namespace gbs
             bs_end,
             [&](auto &C_) {
                 C_.changeBounds(C.bounds());
+                auto k_ = C_.knotsFlats();
+                match_knots(k_, unflat_knots(C.knotsFlats()));
+                if (k_ != C_.knotsFlats())
+                {
+                    auto [u1, u2] = C_.bounds();
+                    C_ = std::decay_t<decltype(C_)>(C_.poles(), k_, C_.degree());
+                    C_.trim(u1, u2, false); // keep a non-permanent trim
+                }
                 auto km_= unflat_knots(C_.knotsFlats());
                 C.insertKnots( km_ );
             }
-- 
2.43.0


From ce96b9aa8d805c733064486beb7c02cd30307a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:17 +0000
Subject: [PATCH 49/49] fix: second derivative of a curve on a surface took the
 wrong component along v

---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0

