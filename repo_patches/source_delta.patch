From c6d10dc1d4629b4d8379c07e62d8e58097486ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 01/57] fix: reject empty knot vectors instead of reading past
 them in curve constructors

---
 gbs/bscurve.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..892e2c0 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -200,7 +200,12 @@ namespace gbs
     template <typename T>
     auto check_curve(size_t np, const std::vector<T> &knots, size_t p)
     {
-        bool ok = true;
+        bool ok = !knots.empty();
+        if(!ok)
+        {
+            std::cerr << "check_curve: no knots\n";
+            return ok;
+        }
         std::vector<size_t> m;
         std::vector<T> k;
         unflat_knots(knots,m,k);
@@ -272,10 +277,10 @@ namespace gbs
                        const std::vector<size_t> &mult,
                        size_t p) : m_poles(poles),
                                      m_deg(p),
-                                     m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_knotsFlats(flat_knots(knots, mult))
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {knots.front(),knots.back()};
         }
         /**
          * @brief Construct a new BSCurve object, rational definition
@@ -292,10 +297,10 @@ namespace gbs
                        const std::vector<size_t> &mult,
                        size_t p) : m_poles(merge_weights(poles, weights)),
                                      m_deg(p),
-                                     m_knotsFlats(flat_knots(knots, mult)),
-                                     m_bounds{knots.front(),knots.back()}
+                                     m_knotsFlats(flat_knots(knots, mult))
         {
             if(!check_curve(poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {knots.front(),knots.back()};
         }
         /**
          * @brief Construct a new BSCurve object
@@ -308,10 +313,10 @@ namespace gbs
                        const std::vector<T> &knots_flats,
                        size_t p) : m_poles(poles),
                                      m_knotsFlats(knots_flats),
-                                     m_deg(p),
-                                     m_bounds{knots_flats.front(),knots_flats.back()}
+                                     m_deg(p)
         {
             if(!check_curve(m_poles.size(),m_knotsFlats,p)) throw std::invalid_argument("BSpline Curve constructor error.");
+            m_bounds = {knots_flats.front(),knots_flats.back()};
         }
         auto isRational() -> bool
         {
-- 
2.43.0


From 3aa6df47917b0b61e3b35824f6b9110fd940b4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 02/57] fix: surface constructor rejects knot vectors shorter
 than the degree

---
 gbs/bssurf.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..cdc00a2 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -426,18 +426,21 @@ namespace gbs
                                         m_knotsFlatsU(knots_flatsU),
                                         m_knotsFlatsV(knots_flatsV),
                                         m_degU(degU),
-                                        m_degV(degV),
-                                        m_bounds{knots_flatsU.front(), knots_flatsU.back(), knots_flatsV.front(), knots_flatsV.back()}
+                                        m_degV(degV)
         //,
         //   m_rational(false)
 
         {
+            // nPolesU/V are unsigned differences, too short knots would wrap around
+            if (m_knotsFlatsU.size() <= degU || m_knotsFlatsV.size() <= degV)
+                throw std::invalid_argument("BSpline Surface constructor error. Not enough knots.");
             if (nPolesU()*nPolesV()!=m_poles.size())
                 throw std::invalid_argument("BSpline Surface constructor error. Pole size error.");
             if (!check_curve(nPolesU(), m_knotsFlatsU, degU))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsU/degreeU combination");
             if (!check_curve(nPolesV(), m_knotsFlatsV, degV))
                 throw std::invalid_argument("BSpline Surface constructor error. Invalid knotsV/degreeV combination");
+            m_bounds = {m_knotsFlatsU.front(), m_knotsFlatsU.back(), m_knotsFlatsV.front(), m_knotsFlatsV.back()};
         }
 
         BSSurfaceGeneral(const std::vector<std::array<T, dim + rational>> &poles,
-- 
2.43.0


From 30097d9d79122de4382834b23bdf57f82f7048b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 03/57] fix: merge_weights rejects a number of weights
 different from the number of poles

---
 gbs/basisfunctions.ixx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..0f76b50 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -849,6 +849,10 @@
     template <typename T, size_t dim>
     auto merge_weights(const std::vector<std::array<T, dim>> &poles, const std::vector<T> &weights) -> std::vector<std::array<T, dim + 1>>
     {
+        if (poles.size() != weights.size())
+        {
+            throw std::length_error("merge_weights: as many weights as poles required.");
+        }
         std::vector<std::array<T, dim + 1>> p(poles.size());
         std::transform(
             GBS_PAR_EXEC
-- 
2.43.0


From 139a6a0662e56d31471d7c6ec44717cf142301a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 04/57] fix: BSSurface::pole(i,j) uses i as u index and rejects
 each index out of its range

---
 gbs/bssurf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index cdc00a2..db2a26e 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -675,8 +675,8 @@ namespace gbs
         auto pole(size_t i, size_t j) -> point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
@@ -694,8 +694,8 @@ namespace gbs
         auto pole(size_t i, size_t j) const -> const point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            auto id = i + j * n;
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-- 
2.43.0


From 313aeecf0765f5849130f26bb87e47eb6ab8cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:31 +0000
Subject: [PATCH 05/57] fix: isoU/isoV clamp a parameter accepted by the
 tolerance to the domain

---
 gbs/bssurf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index db2a26e..4a22651 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -1021,7 +1021,7 @@ namespace gbs
             using srfType = typename std::conditional<rational, BSSurfaceRational<T,dim>, BSSurface<T,dim>>::type;
             srfType srf{*this};
             using crvType = typename std::conditional<rational, BSCurveRational<T,dim>, BSCurve<T,dim>>::type;
-            auto j = srf.insertKnotU(u, srf.degreeU());
+            auto j = srf.insertKnotU(std::clamp(u, u1, u2), srf.degreeU());
             return crvType{srf.polesV(j), srf.knotsFlatsV(), srf.degreeV()};
         }
 
@@ -1042,7 +1042,7 @@ namespace gbs
             using srfType = typename std::conditional<rational, BSSurfaceRational<T,dim>, BSSurface<T,dim>>::type;
             srfType srf{*this};
             using crvType = typename std::conditional<rational, BSCurveRational<T,dim>, BSCurve<T,dim>>::type;
-            auto i = srf.insertKnotV(v, srf.degreeV());
+            auto i = srf.insertKnotV(std::clamp(v, v1, v2), srf.degreeV());
             return crvType{srf.polesU(i), srf.knotsFlatsU(), srf.degreeU()};
         }
     };
-- 
2.43.0


From cbc1879d5e56c3695511abbb0a89817e3ddf8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:53 +0000
Subject: [PATCH 06/57] fix: remove_knot leaves end knots alone and removes a
 knot at most as often as it occurs

---
 gbs/knotsfunctions.ixx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..78a86d5 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -459,12 +459,14 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot
-        if(std::abs(U[r]-u)>knot_eps<T> || r ==0 || r == U.size())
+        if(r <= static_cast<decltype(r)>(p) || r >= static_cast<decltype(r)>(U.size() - p - 1) || std::abs(U[r]-u)>knot_eps<T>)
         {
             return ;
         }
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        // a knot cannot be removed more often than it occurs
+        num = std::min<size_t>(num, s);
 
         int m = U.size();
         int ord = p + 1;
@@ -565,7 +567,7 @@
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
-        if (std::abs(U[r] - u) > knot_eps<T> || r == 0 || r == static_cast<decltype(r)>(U.size()))
+        if (r <= static_cast<decltype(r)>(p) || r >= static_cast<decltype(r)>(U.size() - p - 1) || std::abs(U[r] - u) > knot_eps<T>)
         {
             return size_t{0};
         }
@@ -576,6 +578,8 @@
 
         // Find the multiplicity of the knot u
         auto s = multiplicity(u, U);
+        // a knot cannot be removed more often than it occurs
+        num = std::min<size_t>(num, s);
 
         int m = static_cast<int>(U.size());
         int ord = static_cast<int>(p) + 1;
-- 
2.43.0


From f095e03d5e0b4c4cbf37c767b597321e9eb6ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 07/57] fix: knot insertion, removal and trim treat knots
 within knot_eps as equal, as multiplicities do

---
 gbs/knotsfunctions.ixx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 78a86d5..7550393 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -339,6 +339,22 @@
 
         return k;
     }
+    /**
+     * @brief Existing knot equal to u up to knot_eps, u itself if there is none
+     * 
+     * @tparam T 
+     * @param u 
+     * @param k_flat 
+     * @return T 
+     */
+    template <typename T>
+    auto snap_to_knot(T u, const std::vector<T> &k_flat) -> T
+    {
+        auto it = std::lower_bound(k_flat.begin(), k_flat.end(), u);
+        if (it != k_flat.end() && *it - u < knot_eps<T>) return *it;
+        if (it != k_flat.begin() && u - *std::prev(it) < knot_eps<T>) return *std::prev(it);
+        return u;
+    }
     /**
      * Inserts new knots, if possible, into a B-spline or NURBS knot vector and updates the control points.
      *
@@ -366,7 +382,7 @@
     template <typename T, size_t dim>
     auto insert_knots(T u, size_t p, size_t r, std::vector<T> &UP, std::vector<std::array<T, dim>> &P)
     {
-
+        u = snap_to_knot(u, UP);
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
         auto nq   = np + r;
@@ -456,6 +472,7 @@
     template <typename T, size_t dim>
     void remove_knot(T u, size_t num, std::vector<T> &U, std::vector<std::array<T, dim>> &P, size_t p)
     {
+        u = snap_to_knot(u, U);
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot
@@ -564,6 +581,7 @@
         // Pw on every pass (so pass t>0 read stale poles and under-removed) and
         // advanced first/last even on a failing pass (desyncing the rebuild).
 
+        u = snap_to_knot(u, U);
         // Determine the knot interval that contains u
         auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
         // if u is not an internal knot, there is nothing to remove
@@ -1018,6 +1036,7 @@
     {
         if(u-knots_flats.front()<knot_eps<T>) return;
         
+        u = snap_to_knot(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
@@ -1042,6 +1061,7 @@
     {
         if(knots_flats.back()-u<knot_eps<T>) return;
         
+        u = snap_to_knot(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
-- 
2.43.0


From 130373205410ccdb2ebdecbc3eb016acc155a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:01 +0000
Subject: [PATCH 08/57] fix: BSCurve::trim accepts its ends in any order, as
 the pole trimming does

---
 gbs/bscurve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 892e2c0..10535f9 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -544,7 +544,7 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
+            m_bounds = {std::min(u1,u2),std::max(u1,u2)};
             if (permanently)
             {
                 gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
-- 
2.43.0


From 8518c9869b29bd170236cc6e5e155b93a32f609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:28 +0000
Subject: [PATCH 09/57] fix: reverse, changeBounds and copies respect a non
 permanent trim

---
 gbs/bscurve.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 10535f9..71cd510 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -514,12 +514,11 @@ namespace gbs
         auto reverse() -> void
         {
             std::reverse(m_poles.begin(), m_poles.end());
-            auto k1 = m_knotsFlats.front();
-            auto k2 = m_knotsFlats.back();
+            auto [k1, k2] = m_bounds; // differs from end knots if trim is not permanent
             std::reverse(m_knotsFlats.begin(), m_knotsFlats.end());
             std::transform(m_knotsFlats.begin(), m_knotsFlats.end(),
                            m_knotsFlats.begin(),
-                           [&](const auto k_) {
+                           [k1 = k1, k2 = k2](const auto k_) {
                                return k1 + k2 - k_;
                            });
         }
@@ -558,7 +557,10 @@ namespace gbs
          */
         auto changeBounds(T k1, T k2) -> void
         {
-            change_bounds(k1,k2,m_knotsFlats);
+            auto [u1, u2] = m_bounds; // differs from end knots if trim is not permanent
+            auto dk = (k2 - k1) / (u2 - u1);
+            auto [k_start, k_end] = std::array<T,2>{m_knotsFlats.front(), m_knotsFlats.back()};
+            change_bounds(k1 + dk * (k_start - u1), k2 + dk * (k_end - u2), m_knotsFlats);
             m_bounds = {k1,k2};
         }
         /**
@@ -568,8 +570,7 @@ namespace gbs
          */
         auto changeBounds(const std::array<T,2> &b) -> void
         {
-            m_bounds = b;
-            change_bounds(b[0],b[1],m_knotsFlats);
+            changeBounds(b[0],b[1]);
         }
 
         virtual auto bounds() const -> std::array<T,2> override
@@ -591,7 +592,7 @@ namespace gbs
     {
         using BSCurveGeneral<T, dim, false>::BSCurveGeneral;
     public:
-        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc) {}
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {
             if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
@@ -626,7 +627,7 @@ namespace gbs
     {
         using  BSCurveGeneral<T, dim, true>::BSCurveGeneral;
     public:
-        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc) {}
         BSCurveRational(const std::vector<std::array<T, dim>> &poles,
                         const std::vector<T> &knots_flats,
                         size_t deg) : BSCurveGeneral<T, dim, true>(add_weights_coord(poles), knots_flats, deg) {}
@@ -640,7 +641,11 @@ namespace gbs
                         const std::vector<T> &weights,
                         size_t deg) : BSCurveGeneral<T, dim, true>(add_weights_coord(poles,weights), flat_knots(knots, mults) , deg) {}
         BSCurveRational(const BSCurve<T,dim> &crv) : BSCurveGeneral<T, dim, true>(
-            add_weights_coord(crv.poles()), crv.knotsFlats(), crv.degree()) {}
+            add_weights_coord(crv.poles()), crv.knotsFlats(), crv.degree())
+        {
+            auto [u1, u2] = crv.bounds();
+            this->trim(u1, u2, false);
+        }
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {            
             if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
-- 
2.43.0


From 0767596cb0b2f0470cd77923624b47fe9c8d3ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:55 +0000
Subject: [PATCH 10/57] fix: surface trimU/trimV accept their ends in any
 order, as the pole trimming does

---
 gbs/bssurf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 4a22651..3301e1f 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -983,8 +983,8 @@ namespace gbs
             std::swap(m_knotsFlatsU, new_knotsUFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[0] = u1; 
-            m_bounds[1] = u2;
+            m_bounds[0] = std::min(u1, u2);
+            m_bounds[1] = std::max(u1, u2);
         }
 
         /**
-- 
2.43.0


From 3eb2df2d5d8294638a1928544c454f357d3b913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:43 +0000
Subject: [PATCH 11/57] fix: interpolation refuses requests that define no
 unique curve instead of corrupting memory

---
 gbs/bscinterp.h | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..09b0833 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -32,6 +32,22 @@ struct constrPoint
 
 // interp_sparse_threshold is defined in gbs/gbsconstants.h.
 
+/// Refuse a collocation system that has no unique solution.
+inline void check_collocation(bool well_posed)
+{
+    if (!well_posed)
+        throw std::invalid_argument{"interpolation constraints do not define a unique curve"};
+}
+
+/// Dense LU of a collocation matrix, refusing singular ones.
+template <typename T>
+auto factorize_collocation(const MatrixX<T> &N)
+{
+    auto lu = N.partialPivLu();
+    check_collocation(lu.matrixLU().diagonal().cwiseAbs().minCoeff() > N.cwiseAbs().maxCoeff() * std::numeric_limits<T>::epsilon());
+    return lu;
+}
+
 /**
  * @brief Solve the collocation system N * X = B for all dim right-hand sides,
  *        choosing a dense or sparse LU by problem size.
@@ -46,13 +62,14 @@ template <typename T>
 auto solve_collocation(const MatrixX<T> &N, const MatrixX<T> &B) -> MatrixX<T>
 {
     if (N.rows() < interp_sparse_threshold)
-        return N.partialPivLu().solve(B);
+        return factorize_collocation(N).solve(B);
 
     Eigen::SparseMatrix<T> Ns = N.sparseView();
     Ns.makeCompressed();
     Eigen::SparseLU<Eigen::SparseMatrix<T>> solver;
     solver.analyzePattern(Ns);
     solver.factorize(Ns);
+    check_collocation(solver.info() == Eigen::Success);
     return solver.solve(B);
 }
 
@@ -346,12 +363,14 @@ struct collocation_solver
     void prepare(const std::vector<T> &k_flat, const std::vector<T> &u,
                  size_t deg, size_t nc, Eigen::Index n_poles)
     {
+        check_collocation(n_poles > 0 && u.size() * nc == size_t(n_poles) && k_flat.size() == size_t(n_poles) + deg + 1);
         banded = band.assemble_and_factorize(k_flat, u, deg, nc, n_poles);
         if (!banded)
         {
             Eigen::SparseMatrix<T> Ns = assemble_collocation_sparse<T>(k_flat, u, deg, nc, n_poles);
             sparse.analyzePattern(Ns);
             sparse.factorize(Ns);
+            check_collocation(sparse.info() == Eigen::Success);
         }
     }
     // Multi-RHS solve: every column of B is solved against the single
@@ -450,6 +469,7 @@ template <typename T, size_t dim>
 auto build_poles(const std::vector<constrPoint<T, dim>> &Q, const std::vector<T> &k_flat, size_t deg) -> std::vector<std::array<T, dim>>
 {
     const size_t n_poles = Q.size();
+    check_collocation(n_poles > 0 && k_flat.size() == n_poles + deg + 1);
 
     // General constraints can arrive in any order, so the collocation matrix is
     // not banded as given. Sorting the constraints by (u, d) is a pure ROW
@@ -539,6 +559,7 @@ auto interpolate(const std::vector<constrType<T, dim, nc>> &Q, const std::vector
     {
         size_t p = 2 * nc_ - 1;
 
+        if(Q.size() < 2) throw std::domain_error("At least 2 points needs to be provided");
         std::vector<size_t> m(Q.size());
         m.front() = p + 1;
         std::fill(++m.begin(), --m.end(), nc_);
@@ -599,6 +620,8 @@ auto interpolate(const std::vector<constrType<T, dim, nc>> &Q, KnotsCalcMode mod
 template <typename T, size_t dim>
 auto interpolate(const std::vector<constrType<T, dim, 1>> &Q,const std::vector<T> &u, size_t p) -> BSCurve<T, dim>
 { 
+    if(p>=Q.size()) throw std::domain_error("Degree must be strictly inferior to points number");
+    if(u.size()!=Q.size()) throw std::length_error("As many parameters as points needs to be provided");
     auto k_flat = build_simple_mult_flat_knots<T>(u,p);
     auto poles = build_poles<T,dim,1>(Q, k_flat, u, p);
     return BSCurve<T,dim>(poles, k_flat, p);
@@ -646,7 +669,6 @@ auto interpolate(const points_vector<T,dim> &Q,const std::vector<T> &u, size_t p
 template <typename T>
 auto interpolate(const std::vector<T> &Q,const std::vector<T> &u, size_t p) -> BSCfunction<T>
 { 
-    auto k_flat = build_simple_mult_flat_knots<T>(u,p);
     std::vector<constrType<T, 1, 1>> Q_(Q.size());
     std::transform(Q.begin(),Q.end(),Q_.begin(),[](const auto &v_){return constrType<T, 1, 1>{{v_}};});
     return BSCfunction<T>{ interpolate<T,1>(Q_,u,p) };
@@ -696,7 +718,7 @@ auto interpolate(const bsc_bound<T,dim> &pt_begin,const bsc_bound<T,dim> &pt_end
         fill_basis_row(N, Eigen::Index(i + 1), std::get<0>(cstr_lst[i]), k_flat, p, std::get<2>(cstr_lst[i]));
     fill_basis_row(N, Eigen::Index(n - 1), std::get<0>(pt_end), k_flat, p, size_t{0});
 
-    auto N_inv = N.partialPivLu();
+    auto N_inv = factorize_collocation(N);
     // auto N_inv = N.colPivHouseholderQr();
     VectorX<T> b(n);
     std::vector<std::array<T, dim>> poles(n);
-- 
2.43.0


From 5a16931dbe839eccd33eade05c0ae683135b606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:32 +0000
Subject: [PATCH 12/57] fix: three point tangents use the neighbouring tangent
 and the divided differences at both ends

---
 gbs/bscinterp.h | 6 +++---
 gbs/vecop.ixx   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index 09b0833..df250ff 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -97,8 +97,8 @@ auto build_3pt_tg_vec(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = T(2.)*q.front() - *std::next(D.begin());
-    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*d.front() - *std::next(D.begin());
+    D.back()  = T(2.)*d.back()  - *std::next(D.end(),-2);
 
     return D;
 }
@@ -131,7 +131,7 @@ auto build_3pt_tg_dir(const std::vector<std::array<T, dim>> &pts,const std::vect
         );
 
     D.front() = 2.*q.front() - *std::next(D.begin());
-    D.back()  = 2.*q.back()  - *std::next(D.end(),-1);
+    D.back()  = 2.*q.back()  - *std::next(D.end(),-2);
 
     adim(D);
 
diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index c5d9396..be86ab0 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -255,7 +255,7 @@
     {
         std::transform(
             GBS_SEQ_EXEC
-            v.begin(), std::next(v.end(), -1),
+            v.begin(), v.end(),
             v.begin(),
             [](const auto &v_) {
                 return v_ / norm(v_);
-- 
2.43.0


From b0f11a39847cfcf72231f65a6cdb7a57dcbcea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:12 +0000
Subject: [PATCH 13/57] fix: band factorisation refuses a system whose pivots
 are not numbers

---
 gbs/bscinterp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index df250ff..04b10ae 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -267,13 +267,13 @@ struct band_lu
         for (Eigen::Index k = 0; k < n; ++k)
         {
             const T akk = at(k, k);
-            if (std::abs(akk) <= tol)
+            if (!(std::abs(akk) > tol)) // also refuses NaN
                 return false;
             const Eigen::Index imax = std::min<Eigen::Index>(k + kl, n - 1);
             for (Eigen::Index i = k + 1; i <= imax; ++i)
             {
                 const T lik = at(i, k) / akk;
-                if (std::abs(lik) > interp_band_max_growth<T>)
+                if (!(std::abs(lik) <= interp_band_max_growth<T>))
                     return false; // no-pivot would be unstable here -> pivoted fallback
                 at(i, k) = lik;
                 const Eigen::Index jmax = std::min<Eigen::Index>(k + ku, n - 1);
-- 
2.43.0


From 73bdffde5ddd7c48d784e824b860b212b4ef62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:37 +0000
Subject: [PATCH 14/57] fix: surface interpolation refuses requests with too
 few points for the degrees

---
 gbs/bssinterp.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gbs/bssinterp.h b/gbs/bssinterp.h
index 3e5b723..a79479b 100644
--- a/gbs/bssinterp.h
+++ b/gbs/bssinterp.h
@@ -135,7 +135,7 @@ namespace gbs
         auto n_params_v = v.size();
         auto n_poles_u = n_params_u;
         auto n_poles_v = n_params_v;
-        if (n_poles != n_params_u * n_params_v)
+        if (n_poles != n_params_u * n_params_v || k_flat_u.size() != n_poles_u + p + 1 || k_flat_v.size() != n_poles_v + q + 1)
         {
             throw std::length_error("size error");
         }
@@ -157,8 +157,8 @@ namespace gbs
         for (size_t iv = 0; iv < n_params_v; ++iv)
             fill_basis_row(Mv, Eigen::Index(iv), v[iv], k_flat_v, q, size_t{0});
 
-        auto lu_u = Mu.partialPivLu();
-        auto lu_v = Mv.partialPivLu();
+        auto lu_u = factorize_collocation(Mu);
+        auto lu_v = factorize_collocation(Mv);
 
         std::vector<std::array<T, dim>> poles(n_poles);
         MatrixX<T> Qd(n_poles_u, n_poles_v);
@@ -183,12 +183,16 @@ namespace gbs
     auto interpolate(const std::vector<std::array<T, dim>> &Q, size_t n_poles_v, size_t p, size_t q, KnotsCalcMode mode) -> BSSurface<T, dim>
     {
 
-        if (Q.size() % n_poles_v)
+        if (n_poles_v == 0 || Q.size() % n_poles_v)
         {
             throw std::length_error("size error");
         }
 
         size_t n_poles_u = Q.size() / n_poles_v;
+        if (p >= n_poles_u || q >= n_poles_v)
+        {
+            throw std::domain_error("Degrees must be strictly inferior to points numbers");
+        }
 
         auto avg_p = [&](auto extract_f, size_t ni, size_t nj) mutable {
             
@@ -332,11 +336,15 @@ namespace gbs
             throw std::invalid_argument("constains must be specified within bounds");
         }
 
-        if( Q.size() % n_polesv !=0)
+        if( n_polesv == 0 || Q.size() % n_polesv !=0)
         {
             throw std::length_error("interpolate, Q.size() = n_polesv * n_polesu required");
         }
         auto n_polesu = Q.size() / n_polesv;
+        if(n_polesu < p + 1 || n_polesv < q + 1 || mu == 0 || mv == 0)
+        {
+            throw std::invalid_argument("degrees must be strictly inferior to poles numbers and multiplicities positive");
+        }
         auto ku = build_mult_flat_knots<T>(u1, u2, 2 + (n_polesu-p-1)/mu, p, mu);
         auto kv = build_mult_flat_knots<T>(v1, v2, 2 + (n_polesv-q-1)/mv, q, mv);
         if(ku.size() - p - 1 != n_polesu)
-- 
2.43.0


From cde4c7de2e7d13e9ddb9709ea7ab08fa40d76837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:11 +0000
Subject: [PATCH 15/57] fix: approximation refuses point, parameter, knot and
 pole counts which do not belong together

---
 gbs/bscapprox.h | 23 ++++++++++++++++++++---
 gbs/bssapprox.h |  5 +++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..3d99b53 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -59,6 +59,23 @@ namespace gbs
         }
     }
 
+    /// Reject point, parameter and knot counts which do not belong together.
+    inline void check_approx_counts(size_t n_poles, size_t p, size_t n_pts, size_t n_params, size_t n_knots)
+    {
+        check_approx_sizes(n_poles, p, n_pts);
+        if (n_params != n_pts)
+        {
+            throw std::length_error(
+                "approx: " + std::to_string(n_params) + " parameters for " + std::to_string(n_pts) + " points");
+        }
+        if (n_knots != n_poles + p + 1)
+        {
+            throw std::length_error(
+                "approx: " + std::to_string(n_knots) + " flat knots for " + std::to_string(n_poles) +
+                " poles of degree " + std::to_string(p));
+        }
+    }
+
     // Default starting pole count for the auto-sized curve approximations:
     // default_poles_per_degree * degree. Heuristic shared by every overload that
     // does not take n_poles explicitly.
@@ -78,7 +95,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx_bound_fixed(const std::vector<std::array<T, dim>> &pts, size_t p, size_t n_poles, const std::vector<T> &u, const std::vector<T> &k_flat) -> BSCurve<T, dim>
     {
-        check_approx_sizes(n_poles, p, pts.size());
+        check_approx_counts(n_poles, p, pts.size(), u.size(), k_flat.size());
         auto n_params = int(u.size());
 
         // Banded one-pass assembly (A2.3): each interior collocation row has only
@@ -133,7 +150,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const std::vector<std::array<T, dim>> &pts, size_t p, size_t n_poles, const std::vector<T> &u, const std::vector<T> &k_flat) -> BSCurve<T, dim>
     {
-        check_approx_sizes(n_poles, p, pts.size());
+        check_approx_counts(n_poles, p, pts.size(), u.size(), k_flat.size());
         MatrixX<T> N(u.size(), n_poles);
         build_poles_matrix<T, 1>(k_flat, u, p, n_poles, N);
 
@@ -173,7 +190,7 @@ namespace gbs
     {
         // Reject ill-posed sizes before building the knot vector: with n_poles < p+1
         // the (n-p) term in build_simple_mult_flat_knots underflows (size_t).
-        check_approx_sizes(n_poles, p, pts.size());
+        check_approx_counts(n_poles, p, pts.size(), u.size(), n_poles + p + 1);
 
         auto k_flat = build_simple_mult_flat_knots(u.front(),u.back(),n_poles,p);
 
diff --git a/gbs/bssapprox.h b/gbs/bssapprox.h
index 34958f7..d15c582 100644
--- a/gbs/bssapprox.h
+++ b/gbs/bssapprox.h
@@ -42,6 +42,11 @@ namespace gbs
         auto n_poles_v = k_flat_v.size() - (q+1);
         auto n_poles = n_poles_u * n_poles_v;
         check_approx_sizes_surf(n_poles_u, p, n_poles_v, q, n_pt);
+        if (n_pt != n_params_u * n_params_v || n_poles_u > n_params_u || n_poles_v > n_params_v)
+        {
+            throw std::length_error(
+                "approx: the points must form a grid with at least as many parameters as poles in each direction");
+        }
 
         // Separable least squares. The grid collocation matrix is the Kronecker
         // product Mv (x) Mu, so its normal equations factor as
-- 
2.43.0


From 56ad4023063f843fa1579c87d66210d8a058190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 16/57] fix: transformation between two frames maps the first
 frame onto the second

---
 gbs/surfaceofrevolution.h | 4 ++--
 gbs/transformpoints.h     | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 0d51f90..a0247ca 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -31,8 +31,8 @@ namespace gbs
             M_ = build_trf_matrix<T>(
                 {{
                     {o,o,o},
-                    {o,i,o},
-                    {o,o,i}
+                    {i,o,o},
+                    {o,i,o}
                 }}
                     ,
                 ax
diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..bbbdaaa 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -197,8 +197,9 @@ namespace gbs
         auto [Loc_from, P_from] = build_trf_loc_and_matrix(R_from);
 
         //Explicit types to force convertion
-        Matrix3<T> P          = P_to*P_from;
-        Vector3<T> Loc        = Loc_to - P_to * Loc_from;
+        // P_from is orthonormal: its transpose brings back to R_from coordinates
+        Matrix3<T> P          = P_to*P_from.transpose();
+        Vector3<T> Loc        = Loc_to - P * Loc_from;
         return std::make_pair(Loc, P);
     }
 
-- 
2.43.0


From 032550ddc7edf3dfe6cfe1e7fa86fd46016ed4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 17/57] fix: surface of revolution rotates about its own axis
 origin, u derivatives are vectors

---
 gbs/surfaceofrevolution.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index a0247ca..7d075c5 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -57,28 +57,22 @@ namespace gbs
         {
             point<T,3> pt;
             v = fmod(v,2*std::numbers::pi_v<T>);
-            if(dv==0)
+            auto pt2d = p_crv_->value(u, du);
+            pt = add_dimension<T, 2>(pt2d, 0.);
+            transform(pt,M_);
+            // vector from the axis origin, rotated about the axis through it
+            pt = pt - ax_[0];
+            if (dv > 0)
             {
-                auto pt2d = p_crv_->value(u,du) ;
-                pt = add_dimension<T,2>(pt2d,0.);
-                transform(pt,M_);
-            }
-            else
-            {
-                auto pt2d = p_crv_->value(u, du);
-                pt = add_dimension<T, 2>(pt2d, 0.);
-                transform(pt,M_);
-                if (du == 0)
-                {
-                    pt = pt - ax_[0];
-                }
-
                 pt = cross( ax_[1], pt);
                 rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);
-
             }
-            return rotated<T>( pt , v, ax_[1]);
-            
+            pt = rotated<T>( pt , v, ax_[1]);
+            if (du == 0 && dv == 0)
+            {
+                pt = pt + ax_[0];
+            }
+            return pt;
         }
         /**
          * @brief return surface's bounds {U1,U2,V1,V2}
-- 
2.43.0


From 0948dc4c2dc400d62d05f155912f87bcd604357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 18/57] fix: circle built from an axis lies in the plane normal
 to it, setR resizes the circle

---
 gbs/curvecircle.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 43c7875..dac6107 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -15,11 +15,13 @@ namespace gbs
         Circle(const Circle<T,dim> &c) = default;
         Circle(T r, const ax2<T, dim> &ax) : r{r}, ax_{{ax[0], ax[1], r / norm(ax[2]) * ax[2] }} {} 
         Circle(T r, const ax1<T, dim> &ax) : r{r} {
-            auto z = ax[1];
-            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end()));
+            auto z = normalized(ax[1]);
+            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end(),
+                [](T a, T b) { return std::abs(a) < std::abs(b); }));
             point<T,dim> x{};
-            x[i_min_coord_mag] = r;
-            ax_ = { ax[0], ax[1], x };
+            x[i_min_coord_mag] = 1;
+            x = x - z[i_min_coord_mag] * z; // orthogonal to axis
+            ax_ = { ax[0], ax[1], r / norm(x) * x };
         }
 
         virtual auto bounds() const -> std::array<T, 2> override
@@ -33,7 +35,7 @@ namespace gbs
         }
 
         auto getR() const noexcept -> T { return r; }
-        auto setR(T r_){r=r_;}
+        auto setR(T r_){ax_[2] = r_ / norm(ax_[2]) * ax_[2]; r=r_;}
         /**
          * @brief Circle starting direction
          * 
-- 
2.43.0


From 60c944152cfa8a7fed8111e0175389a137693d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 19/57] fix: a line is unbounded on both sides

---
 gbs/curveline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveline.h b/gbs/curveline.h
index 905aca5..fb526b7 100644
--- a/gbs/curveline.h
+++ b/gbs/curveline.h
@@ -43,7 +43,7 @@ namespace gbs
         }
         virtual auto bounds() const -> std::array<T, 2> override
         {
-            return {std::numeric_limits<T>::min(),std::numeric_limits<T>::max()};
+            return {std::numeric_limits<T>::lowest(),std::numeric_limits<T>::max()};
         }
 
         auto getAx() const noexcept -> const ax1<T,dim>&
-- 
2.43.0


From 1c47f8f6abc4928675e8aa433d28a8d002e76cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 20/57] fix: adding a dimension to a rational curve keeps its
 weights

---
 gbs/bsctools.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 5c14fdd..3370d4a 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -753,7 +753,14 @@ namespace gbs
             crv.poles().end(),
             poles.begin(),
             [&val](const auto &p_){
-                return add_dimension(p_,val);
+                auto p = add_dimension(p_,val);
+                if constexpr (rational)
+                {
+                    // the weight stays last and scales the new coordinate
+                    p[dim]     = val * p_.back();
+                    p[dim + 1] = p_.back();
+                }
+                return p;
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
-- 
2.43.0


From afaae03a9d4fada5fae543e095758e128d737c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:07 +0000
Subject: [PATCH 21/57] fix: dividing a vector by an integer

---
 gbs/vecop.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index be86ab0..10145e7 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -149,7 +149,7 @@
     template <typename T, typename L,size_t dim>
     std::array<T, dim>operator/(const std::array<T, dim> &a, L b)
     {
-        return a * (L{1}/b);
+        return a * (T{1}/b);
     }
 
     template <typename T,size_t dim>
-- 
2.43.0


From b1e65bfb7c5bb54b174015ccdbd028708b4ab7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 22/57] fix: default axis of a 3D circle

---
 gbs/curvecircle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index dac6107..7c44e49 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -84,7 +84,7 @@ namespace gbs
     public:
         Circle3d(const Circle3d<T> &c) = default;
         Circle3d(T r, const ax2<T, 3> &ax) : Circle<T,3>{r, ax} { }
-        Circle3d(T r=1, const ax1<T, 3> &ax={{0,0,0},{0,0,1}}) : Circle<T,3>{r, ax} { }
+        Circle3d(T r=1, const ax1<T, 3> &ax={{{0,0,0},{0,0,1}}}) : Circle<T,3>{r, ax} { }
         virtual auto value(T u, size_t d = 0) const -> std::array<T, 3> override
         {
 
-- 
2.43.0


From 812055a20b016f9d3cf3b16c545e9bfdfbf225e6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 23/57] fix: second derivative of a curve on surface

---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0


From 29ffa73bed27d55e4c986fb2b2bf478720863add Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 24/57] fix: derivatives of the offset of a 3D curve

---
 gbs/curveoffset.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 9c2dc66..8aba4e3 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -197,12 +197,13 @@ namespace gbs
             {
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-                auto off_d1 = off(u, 1);
-                return crv_d1 + normal_derivative * off_d1;
+                // normal direction n = N / |N| with N = direction ^ d1
+                auto N = cross(direction_, crv_d1);
+                auto dN = cross(direction_, crv_d2);
+                auto r = norm(N);
+                auto n = N / r;
+                auto dn = (dN - (n * dN) * n) / r;
+                return crv_d1 + dn * off(u, 0) + n * off(u, 1);
             }
             break;
         case 2:
@@ -210,17 +211,16 @@ namespace gbs
                 auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
                 auto crv_d3 = crv.value(u, 3);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-
-                auto d2t = (crv_d2 - ( crv_d2 * tangent) * tangent) / norm(crv_d1);
-                auto d2n = cross(d2t, direction_) + cross(tangent, cross(crv_d2, direction_));
-                auto off_d1 = off(u, 1);
-                auto off_d2 = off(u, 2);
-
-                return crv_d2 + d2n * off_d1 + normal_derivative * off_d2;
+                auto N = cross(direction_, crv_d1);
+                auto dN = cross(direction_, crv_d2);
+                auto d2N = cross(direction_, crv_d3);
+                auto r = norm(N);
+                auto n = N / r;
+                auto dr = n * dN;
+                auto dn = (dN - dr * n) / r;
+                auto d2r = dn * dN + n * d2N;
+                auto d2n = (d2N - (2 * dr) * dn - d2r * n) / r;
+                return crv_d2 + d2n * off(u, 0) + dn * (2 * off(u, 1)) + n * off(u, 2);
             }
             break;
         default:
-- 
2.43.0


From d12b68d514f23df472beb372ea448386390a0e1d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:27:53 +0000
Subject: [PATCH 25/57] fix: composite curve evaluation below its first
 parameter

---
 gbs/curvecomposite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..5abd10e 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -33,7 +33,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin())
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From aef23881ed36f60d646e499bef5b79f4c0cc4eea Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:37:50 +0000
Subject: [PATCH 26/57] fix: errors raised inside a parallel transform reach
 the caller instead of terminating

---
 gbs/bscanalysis.h |  9 +++------
 gbs/bssbuild.h    |  3 +--
 gbs/execution.h   | 44 +++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..ca20015 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -144,8 +144,7 @@ namespace gbs
         u = make_range(point<T, 1>{u1}, point<T, 1>{u2}, n);
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_parallel(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_,const auto &u2_) {
                 return length<T, dim, N>(crv, u1_[0], u2_[0]);
@@ -208,8 +207,7 @@ namespace gbs
         }
 
         std::vector<T> dm(u.size() - 1);
-        std::transform(
-            GBS_PAR_EXEC
+        transform_parallel(
             u.begin(), std::next(u.end(), -1), std::next(u.begin(), 1), dm.begin(),
             [&crv](const auto &u1_, const auto &u2_) {
                 return length<T, dim, N>(crv, u1_, u2_);
@@ -506,8 +504,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_parallel(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..9b2f956 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -494,8 +494,7 @@ namespace gbs
             return u_;
         };
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_parallel(
             first_curve, last_curve,
             u.begin(),
             f_intersection
diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..c077622 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -9,7 +9,8 @@
 #include <cstddef>    // std::size_t
 #include <vector>     // std::vector (build_batch output)
 #include <type_traits> // std::decay_t (build_batch result type)
-#include <exception>  // std::exception_ptr (build_batch error propagation)
+#include <exception>  // std::exception_ptr (error propagation out of parallel regions)
+#include <atomic>     // std::atomic_flag
 
 #include "gbsconstants.h"  // gbs::parallel_min_size
 
@@ -64,12 +65,49 @@ namespace gbs
     // GBS_PAR_EXEC is empty, so both branches are serial and the gate is a
     // correctness-preserving no-op.
 
+    // Exceptions: op may throw (e.g. an evaluation out of bounds). An exception
+    // escaping a parallel element-access function calls std::terminate per the
+    // standard, so it is trapped and rethrown to the caller after the parallel
+    // region: catchable on either side of the gate.
+
+    /// Unary std::transform under the parallel policy.
+    template <class InputIt, class OutputIt, class UnaryOp>
+    OutputIt transform_parallel(InputIt first, InputIt last, OutputIt out, UnaryOp op)
+    {
+        using Result = std::decay_t<decltype(op(*first))>;
+        std::atomic_flag failed{};
+        std::exception_ptr err;
+        auto end = std::transform(GBS_PAR_EXEC first, last, out, [&](const auto &x) -> Result
+            {
+                try { return op(x); }
+                catch (...) { if (!failed.test_and_set()) err = std::current_exception(); return Result{}; }
+            });
+        if (err) std::rethrow_exception(err);
+        return end;
+    }
+
+    /// Binary std::transform under the parallel policy.
+    template <class InputIt1, class InputIt2, class OutputIt, class BinaryOp>
+    OutputIt transform_parallel(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
+    {
+        using Result = std::decay_t<decltype(op(*first1, *first2))>;
+        std::atomic_flag failed{};
+        std::exception_ptr err;
+        auto end = std::transform(GBS_PAR_EXEC first1, last1, first2, out, [&](const auto &x, const auto &y) -> Result
+            {
+                try { return op(x, y); }
+                catch (...) { if (!failed.test_and_set()) err = std::current_exception(); return Result{}; }
+            });
+        if (err) std::rethrow_exception(err);
+        return end;
+    }
+
     /// Size-gated unary std::transform (single input range).
     template <class InputIt, class OutputIt, class UnaryOp>
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+            return transform_parallel(first, last, out, op);
         return std::transform(first, last, out, op);
     }
 
@@ -78,7 +116,7 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+            return transform_parallel(first1, last1, first2, out, op);
         return std::transform(first1, last1, first2, out, op);
     }
 
-- 
2.43.0


From a2170568d56e3e860f608ad70bf3fd493b7f6c6f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:37:50 +0000
Subject: [PATCH 27/57] fix: adimension maps the parameters to [0,1] wherever
 they start

---
 gbs/knotsfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 7550393..5189a4f 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -288,7 +288,7 @@
         auto d = k.back() - k.front();
         if(fabs(d)>knot_eps<T>)
         {
-            std::transform(k.begin(),k.end(),k.begin(),[&d](auto const &k_){return k_/d;});
+            std::transform(k.begin(),k.end(),k.begin(),[k0=k.front(), d](auto const &k_){return (k_-k0)/d;});
         }
     }
 
-- 
2.43.0


From dd6a5b38b0ed020d4e4e09265b7051947fc4825c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:41:38 +0000
Subject: [PATCH 28/57] fix: knots of a loft along a spine follow the section
 parameters

---
 gbs/bssbuild.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 9b2f956..bc5c72b 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -235,7 +235,22 @@ namespace gbs
         // interpolate poles
         constexpr size_t dim_t = dim + rational;
         size_t q = std::max(std::min(v_degree_max, n_poles_v - 1), size_t{1}); // degree V, clamped to a valid range
-        auto kv_flat = build_simple_mult_flat_knots<T>(v.front(),v.back(),n_poles_v * 2,q); //dif
+        // The knots have to follow the section parameters, evenly spaced ones make the
+        // position + tangent system singular for unevenly spaced sections.
+        std::vector<T> v_constraints; // degree >= 2: average of the constraints' parameters
+        std::vector<T> kv_flat(q + 1, v.front()); // degree 1: each section within its own span
+        for (size_t j = 0; j < n_poles_v; ++j)
+        {
+            v_constraints.insert(v_constraints.end(), 2, v[j]);
+            if (j + 1 < n_poles_v)
+            {
+                kv_flat.push_back((2 * v[j] + v[j + 1]) / 3);
+                kv_flat.push_back((v[j] + 2 * v[j + 1]) / 3);
+            }
+        }
+        kv_flat.insert(kv_flat.end(), q + 1, v.back());
+        if (q > 1)
+            kv_flat = build_simple_mult_flat_knots<T>(v_constraints, q);
 
         // One constraint column per u-pole: at each section, position + spine
         // tangent (nc == 2). Assemble them straight into the shared loft core's RHS
-- 
2.43.0


From e3ccccc9b292e5ace03a8f621c0ad8f3e43d2c19 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 29/57] fix: moving a curve to constraints moves by the
 deviation, not by the target

---
 gbs/bscshaping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index 81af81d..c66ba2c 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -143,7 +143,7 @@ namespace gbs
             i2 = std::min<size_t>(n-2,i2);
         }
 
-        return moved_to_constraints_delta(crv, constraints, i1, i2);
+        return moved_to_constraints_delta(crv, constraints_delta, i1, i2);
     }
 
     template<typename T, size_t dim>
-- 
2.43.0


From 8c41c6752d12e9a5e9a189516c265b3b31543a02 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 18:46:26 +0000
Subject: [PATCH 30/57] fix: moving a surface to derivative constraints uses
 the derivatives of the basis

---
 gbs/bssshaping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssshaping.h b/gbs/bssshaping.h
index 5cb75ce..532cfec 100644
--- a/gbs/bssshaping.h
+++ b/gbs/bssshaping.h
@@ -42,10 +42,10 @@ namespace gbs
 
             for (size_t j{j1}; j <= j2; j++)
             {
-                Nv = basis_function(v, j, q, 0, kv);
+                Nv = basis_function(v, j, q, dv, kv);
                 for (size_t i{i1}; i <= i2; i++)
                 {
-                    Nu = basis_function(u, i, p, 0, ku);
+                    Nu = basis_function(u, i, p, du, ku);
                     B(r, i - i1 + nu * ( j - j1) ) = Nu * Nv;
                 }
             }
-- 
2.43.0


From 1b71140e7187d8779b1cc1c4aa33dd4a17a9b315 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 31/57] fix: sphere_center returns the centre of the circle
 through the three points

---
 inc/topology/baseGeom.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/inc/topology/baseGeom.h b/inc/topology/baseGeom.h
index c8c7927..8ca3c78 100644
--- a/inc/topology/baseGeom.h
+++ b/inc/topology/baseGeom.h
@@ -156,24 +156,18 @@ namespace gbs
     template <std::floating_point T>
     std::array<T, 3> sphere_center(const std::array<T, 3>& a, const std::array<T, 3>& b, const std::array<T, 3>& c)
     {
-        // Calculate some intermediate values
-        T A = b[0] - a[0], B = b[1] - a[1], C = b[2] - a[2];
-        T D = c[0] - a[0], E = c[1] - a[1], F = c[2] - a[2];
-        T G = A * (E * F - B * F) + B * (D * F - C * F) + C * (B * D - E * D);
-        T H = (A * A + B * B + C * C) * (E * F - D * F) + (D * D + E * E + F * F) * (B * F - C * E) + (A * A + C * C + B * B) * (D * E - B * C);
+        // Center of the circumscribed circle, i.e. of the smallest sphere through the points
+        const auto ab = b - a;
+        const auto ac = c - a;
+        const auto n  = cross(ab, ac);
+        const T G = static_cast<T>(2) * sq_norm(n);
 
-        if (std::abs(G) < std::numeric_limits<T>::epsilon()) {
+        if (G < std::numeric_limits<T>::epsilon()) {
             // Points are collinear, no unique solution exists
             return {{std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN()}};
         }
 
-        // Calculate the x, y, and z coordinates of the sphere's center
-        T center_x = H / (2 * G);
-        T center_y = ((A * A + B * B + C * C) * (D * F - E * F) + (D * D + E * E + F * F) * (C * A - D * B) + (A * A + C * C + B * B) * (E * D - C * B)) / (2 * G);
-        T center_z = ((A * A + B * B + C * C) * (B * E - C * D) + (D * D + E * E + F * F) * (A * C - B * B) + (A * A + C * C + B * B) * (B * D - A * E)) / (2 * G);
-
-        // Return the result as a 3D array
-        return {{center_x, center_y, center_z}};
+        return a + ( sq_norm(ac) * cross(n, ab) + sq_norm(ab) * cross(ac, n) ) / G;
     }
 
     template <typename T>
-- 
2.43.0


From 8f71b02c7016b1db5ee109d99e44402220d53f40 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 32/57] fix: triangle getters follow the face orientation

---
 inc/topology/halfEdgeMeshGetters.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9b82670..1dfc85b 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -45,8 +45,8 @@ namespace gbs
     {
         assert(face.edge->next->next->next == face.edge);
         return std::array<std::shared_ptr<HalfEdge<T, dim>>,3> {
-            face.edge->next,
             face.edge,
+            face.edge->next,
             face.edge->previous
         };
     }
@@ -158,8 +158,8 @@ namespace gbs
     {
         assert(face.edge->next->next->next == face.edge);
         return std::array<std::shared_ptr<HalfEdgeVertex<T, dim>>,3> {
-            face.edge->next->vertex,
             face.edge->vertex,
+            face.edge->next->vertex,
             face.edge->previous->vertex
         };
     }
@@ -215,8 +215,8 @@ namespace gbs
     {
         assert(face.edge->next->next->next == face.edge && face.edge->previous->previous->previous == face.edge);
         return std::array<std::array<T, dim>,3> {
-            face.edge->next->vertex->coords,
             face.edge->vertex->coords,
+            face.edge->next->vertex->coords,
             face.edge->previous->vertex->coords
         };
     }
-- 
2.43.0


From ccdea3980e141bb3ba54e43338b45acd737b49a0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 33/57] fix: edge recovery flips the convex quadrilaterals

---
 inc/topology/edgeRecovery.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/edgeRecovery.h b/inc/topology/edgeRecovery.h
index 9411b36..33dcf65 100644
--- a/inc/topology/edgeRecovery.h
+++ b/inc/topology/edgeRecovery.h
@@ -144,7 +144,7 @@ namespace gbs
                 const auto& B = v_b->coords;
                 const auto& C = v_apex1->coords;
                 const auto& D = v_apex2->coords;
-                if (orient_2d(C, B, D) <= tol || orient_2d(D, A, C) <= tol)
+                if (orient_2d(D, B, C) <= tol || orient_2d(C, A, D) <= tol)
                 {
                     ++it;
                     continue; // non-convex or degenerate, defer
-- 
2.43.0


From 7853f32a42fde35c0249dd0143b228679663e1ee Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 34/57] fix: splitting a half edge links all the halves

---
 inc/topology/halfEdgeMeshEditors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..425c2d1 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -561,7 +561,6 @@ namespace gbs
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
         auto new_vertex = make_shared_h_vertex( new_pt );
-        new_vertex->edge = he;
         auto new_he1    = make_shared_h_edge(new_vertex, hf);
         hf->edge=new_he1;
         chain_edges(new_he1,he);
@@ -592,6 +591,7 @@ namespace gbs
             auto new_he2_opp    = make_shared_h_edge(new_vertex);
             auto new_he3_opp    = make_shared_h_edge(he_prev->vertex);
             link_edges(new_he1_opp, new_he2_opp);
+            link_edges(new_he2, new_he3_opp);
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
             auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
 
-- 
2.43.0


From 2391107c09c8e932971cfa0af8e103301924ce1a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 35/57] fix: neighbouring vertices are not the vertex itself

---
 inc/topology/halfEdgeMeshGetters.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 1dfc85b..6b3154c 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -419,32 +419,30 @@ namespace gbs
     auto getNeighboringVertices(const HalfEdgeVertex<T, dim> &h_v)
     {
         std::list< std::shared_ptr<HalfEdgeVertex<T, dim>> > neighbors;
+        // every visited half-edge ends at h_v, it thus starts at a neighbor
         auto start {h_v.edge};
         auto current {start};
         bool open = false;
         do
         {
+            neighbors.push_front(current->previous->vertex);
             if(!current->opposite)
             {
                 open = true;
                 break;
             }
             current = current->opposite->previous;
-            neighbors.push_front(current->vertex);
         }while (current!=start);
 
         if(open)
         {
             current = start;
-            do
+            while(current->next->opposite)
             {
-                if(!current->next->opposite)
-                {
-                    break;
-                }
                 current = current->next->opposite;
-                neighbors.push_back(current->vertex);
-            }while (current!=start); 
+                neighbors.push_back(current->previous->vertex);
+            }
+            neighbors.push_back(current->next->vertex);
         }
 
         return neighbors;
-- 
2.43.0


From e2f636099a4500defb1f6374305f57305994a9d1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 36/57] fix: is_boundary tells boundary vertices

---
 inc/topology/halfEdgeMeshGeomTests.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 96aedbb..a1f4e03 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -274,11 +274,11 @@ namespace gbs
         {
             if(!current->opposite)
             {
-                return false;
+                return true;
             }
             current = current->opposite->previous;
         }while (current!=start);
 
-        return true;  
+        return false;
     }
 } // namespace gbs
\ No newline at end of file
-- 
2.43.0


From d945b84e9c611dd1d60ea3e18382c0e7aff97d50 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 37/57] fix: constrained triangulation covers the polygon up to
 its hull

---
 inc/topology/tessellations.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..d4bc85e 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -371,11 +371,9 @@ namespace bw_detail
             }
         }
 
-        for (const auto &vtx : super_vertices)
-            remove_faces(faces_lst, vtx);
-        // remove_faces only severs opposite linkages; vertex->edge pointers can
-        // still reference half-edges whose face was deleted. Re-sync them
-        // before any navigation (recoverEdge, findHalfEdge) runs.
+        // boyerWatson deletes cavity faces, vertex->edge pointers can still
+        // reference one of their half-edges. Re-sync them before any
+        // navigation (recoverEdge, findHalfEdge) runs.
         repairVertexEdges<T, 2>(faces_lst);
 
         // 2. Recover constrained edges (outer + holes); collect both directions
@@ -398,6 +396,12 @@ namespace bw_detail
             }
         }
 
+        //    The super mesh is removed only now: its faces may be crossed by the
+        //    polygon edges close to the convex hull.
+        for (const auto &vtx : super_vertices)
+            remove_faces(faces_lst, vtx);
+        repairVertexEdges<T, 2>(faces_lst);
+
         // 3. Flood-fill interior. Seed with each ring half-edge's left face
         //    (CCW orientation ⇒ domain interior on the left of every
         //    constrained edge — true for the outer ring and, after the
@@ -430,9 +434,11 @@ namespace bw_detail
         }
 
         // 4. Drop exterior faces (includes faces strictly inside each hole).
-        faces_lst.remove_if([&interior](const auto &f) {
-            return interior.find(f.get()) == interior.end();
-        });
+        for (auto it = faces_lst.begin(); it != faces_lst.end();)
+        {
+            it = interior.contains(it->get()) ? std::next(it) : eraseFace(faces_lst, it);
+        }
+        repairVertexEdges<T, 2>(faces_lst);
 
         return faces_lst;
     }
-- 
2.43.0


From e012594e67bedb242bfc5a729d9e6c4aca1a3672 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 38/57] fix: mesh refinement keeps a valid Delaunay mesh

---
 inc/topology/tessellations.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index d4bc85e..bf7a61c 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -547,25 +547,39 @@ namespace bw_detail
 
             auto [vtx, deleted_faces_list, new_faces_list] = boyerWatson(faces_lst, d_G_UV.second, tol);
 
+            if(!vtx) break; // the mesh can't be improved at this location
+
             for (const auto &face : deleted_faces_list)
             {
                 face_quality.erase(face);
             }
 
+            // Smooth mesh, as long as faces stay valid
+            const auto vtx_coords = vtx->coords;
+            laplacian_smoothing(faces_lst, *vtx);
+            if(std::ranges::any_of(new_faces_list, [](const auto &face)
+                {
+                    const auto [a, b, c] = bw_detail::triangle_coords_ccw<T>(face);
+                    return orient2d(a, b, c) <= T{0};
+                }))
+            {
+                vtx->coords = vtx_coords;
+            }
+
             for (const auto &face : new_faces_list)
             {
                 update_face_quality(face);
             }
 
-            // Smooth mesh
-            laplacian_smoothing(faces_lst, *vtx);
             // Restore Delaunay condition
             auto edges = getEdgesMap<T,dim>(faces_lst);
             for(auto & [ed,i] : edges)
             {
-                if(ed->opposite && !is_locally_delaunay(ed))
+                if(ed->opposite && is_locally_delaunay(ed) > tol)
                 {
                     flip(ed->face,ed->opposite->face);
+                    update_face_quality(ed->face);
+                    update_face_quality(ed->opposite->face);
                 }
             }
         }
-- 
2.43.0


From cebdeb24a14c4d856521ef45225bae15d72b5931 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 39/57] fix: JSON readers refuse a definition without type name
 or with constraints of different sizes

---
 gbs-io/fromjson.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index ae2e737..b632ae7 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -162,6 +162,17 @@ namespace gbs
         {
             throw std::invalid_argument("auto make_point_vec(const rapidjson::Value &a) -> std::vector< std::array<T,dim> > not and array");
         }
+        if (a.Size() < nc)
+        {
+            throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) not enough constraints");
+        }
+        for (const auto &val : a.GetArray())
+        {
+            if (!val.IsArray() || val.Size() != a[0].Size())
+            {
+                throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) constraints must be arrays of the same size");
+            }
+        }
         auto n = a.GetArray()[0].GetArray().Size();
 
         std::vector<constrType<T, dim, nc>> v_(n);
@@ -182,6 +193,12 @@ namespace gbs
         return v_;
     }
 
+    /// The entity type, as text (legacy format)
+    inline auto type_name(const rapidjson::Value &a) -> std::string
+    {
+        return get_val<std::string>(a["type"]);
+    }
+
     template <typename T, size_t dim>
     auto bscurve_direct(const rapidjson::Value &a) -> BSCurve<T, dim>
     {
@@ -238,7 +255,7 @@ namespace gbs
         {
             auto deg = get_val<size_t>(a["deg"]);
             auto points = make_point_vec<T, dim>(a["points"]);
-            auto enum_str = std::string(a["param_calc_mode"].GetString());
+            auto enum_str = get_val<std::string>(a["param_calc_mode"]);
             auto mode = magic_enum::enum_cast<KnotsCalcMode>(enum_str);
             return interpolate(points, deg, mode.value());
         }
@@ -313,15 +330,15 @@ namespace gbs
             }
         }
         // Legacy format: string-based dispatch.
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp_cn") == 0)
+        if( type_name(a) == "bscurve_interp_cn")
         {
             return bscurve_interp_cn<T,dim>(a);
         }
-        else if( std::strcmp(a["type"].GetString(),"bscurve")  == 0)
+        else if( type_name(a) == "bscurve")
         {
             return bscurve_direct<T,dim>(a);
         }
-        else if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        else if( type_name(a) == "bscurve_interp")
         {
 
             return bscurve_interp<T,dim>(a);
@@ -381,7 +398,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto make_bscurve(const rapidjson::Value &a,const std::vector<T> &u) -> BSCurve<T, dim>
     {
-        if( std::strcmp(a["type"].GetString(),"bscurve_interp")  == 0)
+        if( type_name(a) == "bscurve_interp")
         {
             return bscurve_interp<T,dim>(a,u);
         }
-- 
2.43.0


From 8a4d2d78d541946807266d669f0689aedd47675c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:12:34 +0000
Subject: [PATCH 40/57] fix: knot builders refuse too few points and unique
 insertion checks both neighbours

---
 gbs/knotsfunctions.ixx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 5189a4f..170bfaf 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -36,7 +36,10 @@
     auto build_simple_mult_flat_knots(const std::vector<T> &u, size_t p) -> std::vector<T>
     {
 
-        assert(u.size() >= p + 1);
+        if (u.size() < p + 1)
+        {
+            throw std::invalid_argument( "a knot vector of degree p needs at least p + 1 parameters" );
+        }
 
         auto n = u.size();
         auto nk = n + p + 1;
@@ -80,6 +83,10 @@
     auto build_simple_mult_flat_knots(T u1, T u2, size_t n, size_t p) -> std::vector<T>
     {
 
+        if (n < p + 1)
+        {
+            throw std::invalid_argument( "a knot vector of degree p needs at least p + 1 poles" );
+        }
         auto nk = n + p + 1;
         
         std::vector<T> k_flat(nk);
@@ -260,6 +267,10 @@
     template <typename T> 
     auto build_mult_flat_knots(const std::vector<T> &k, size_t p, size_t mult) -> std::vector<T>
     {
+        if (k.size() < 2)
+        {
+            throw std::invalid_argument( "a knot vector needs at least 2 knots" );
+        }
         std::vector<size_t> m(k.size());
         m.front()=p+1;
         std::fill(++m.begin(),--m.end(),mult);
@@ -307,6 +318,10 @@
     auto curve_parametrization( const std::vector<std::array<T,dim> > &pts, KnotsCalcMode mode, bool adimensionnal =false ) -> std::vector<T>
     {
 
+        if (pts.empty())
+        {
+            throw std::invalid_argument( "no points to parametrize" );
+        }
         std::vector<T> k(pts.size());
         k[0] = 0.;
         switch (mode)
@@ -1102,7 +1117,9 @@
     template <typename T>
     void insert_unique_ordered(std::vector<T>& vec, T value, T tolerance = knot_eps<T>) {
         auto iter = std::lower_bound(vec.begin(), vec.end(), value);
-        if (iter == vec.end() || std::abs(value - *iter) > tolerance) {
+        const bool above = iter == vec.end() || *iter - value > tolerance;
+        const bool below = iter == vec.begin() || value - *std::prev(iter) > tolerance;
+        if (above && below) {
             vec.insert(iter, value);
         } // else the value is already in the vector or close enough
     }
-- 
2.43.0


From f5d19fb2689e2ee573aaaddb3fb9fcef73fb9384 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:46:19 +0000
Subject: [PATCH 41/57] fix: closest_curve and closest_p_curve use the middle
 of the curve through its accessor

---
 gbs/bscanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index ca20015..a6f0383 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -659,7 +659,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(c1, pt, c1.midPoint(), tol)[1] < extrema_curve_point(c2, pt, c2.midPoint(), tol)[1];
+                return extrema_curve_point(c1, pt, c1.midPosition(), tol)[1] < extrema_curve_point(c2, pt, c2.midPosition(), tol)[1];
             });
     }
 /**
@@ -681,7 +681,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(*c1, pt, c1->midPoint(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPoint(), tol)[1];
+                return extrema_curve_point(*c1, pt, c1->midPosition(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPosition(), tol)[1];
             });
     }
 
-- 
2.43.0


From 5c6fe5f34a80e1815f1e6558f0253e3ec273b699 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:46:19 +0000
Subject: [PATCH 42/57] fix: extrema report distances, use consistent gradients
 and guesses

---
 gbs/extrema.h | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..7046ae1 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -112,13 +112,13 @@ namespace gbs
         std::vector<T> x{u0,v0};
         std::vector<T> lb{u1,v1};
         std::vector<T> hb{u2,v2};
-        auto minf = solve_D_nlop(
+        solve_D_nlop(
             f,g,
             x, lb, hb,
             tol_x*tol_x,
             solver
         );
-        return std::array<T,3>{x[0], x[1], std::sqrt(static_cast<T>(minf))};
+        return std::array<T,3>{x[0], x[1], distance(srf(x[0], x[1]), pnt)};
     }
     /**
      * @brief Project point on surface, initial value for solver is bracketed
@@ -158,7 +158,7 @@ namespace gbs
         {
             auto f_ = crv1(x[0])-crv2(x[1]);
             auto dfdu = 2.*crv1(x[0],1)* f_;
-            auto dfdv = 2.*crv2(x[1],1)* f_;
+            auto dfdv =-2.*crv2(x[1],1)* f_;
             return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
         };
 
@@ -167,13 +167,13 @@ namespace gbs
         std::vector<T> x{u10,u20};
         std::vector<T> lb{u1,v1};
         std::vector<T> hb{u2,v2};
-        auto minf = solve_D_nlop(
+        solve_D_nlop(
             f,g,
             x, lb, hb,
             tol_x*tol_x,
             solver
         );
-        return std::array<T,3>{T(x[0]),T(x[1]),T(sqrt(minf))};
+        return std::array<T,3>{x[0], x[1], distance(crv1(x[0]), crv2(x[1]))};
     }
 
     template <typename T, size_t dim>
@@ -242,8 +242,8 @@ namespace gbs
             GBS_PAR_EXEC
             first, last,
             intersection_info.begin(),
-            [&crv,tol_x](const auto &crv_){
-                return extrema_curve_curve(crv, *crv_, tol_x);
+            [&crv,tol_x,solver,n_bracket_u,n_bracket_v](const auto &crv_){
+                return extrema_curve_curve(crv, *crv_, tol_x, solver, n_bracket_u, n_bracket_v);
             }
         );
         return intersection_info;
@@ -262,8 +262,8 @@ namespace gbs
         {
             auto f_ = crv(x[0])-srf(x[1],x[2]);
             auto dfduc = 2.*crv(x[0],1)  * f_;
-            auto dfdus =-2.*srf(x[1],1,0)* f_;
-            auto dfdvs =-2.*srf(x[2],0,1)* f_;
+            auto dfdus =-2.*srf(x[1],x[2],1,0)* f_;
+            auto dfdvs =-2.*srf(x[1],x[2],0,1)* f_;
             return std::vector<double>{2. * r[0] * dfduc,2. * r[0] * dfdus,2. * r[0] * dfdvs};
         };
 
@@ -272,13 +272,13 @@ namespace gbs
         std::vector<T> x{u_c0,u_s0,v_s0};
         std::vector<T> lb{uc1,us1, vs1};
         std::vector<T> hb{uc2,us2, vs2};
-        auto minf = solve_D_nlop(
+        solve_D_nlop(
             f,g,
             x, lb, hb,
             tol_x*tol_x,
             solver
         );
-        return std::array<T,4>{x[1], x[2],x[0],std::sqrt(static_cast<T>(minf))};
+        return std::array<T,4>{x[1], x[2], x[0], distance(srf(x[1], x[2]), crv(x[0]))};
     }
 
     template <typename T, size_t dim>
@@ -291,7 +291,7 @@ namespace gbs
             return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
         };
         auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
-        return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
+        return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
     template <typename T, size_t dim>
@@ -356,11 +356,11 @@ namespace gbs
 
         auto [u_min, u_max] = crv.bounds();
         auto f_eq = [&crv, iCoord, Xi](T u) {
-            auto x = crv(u)[iCoord];
-            return  1/x/x;
+            return -crv(u)[iCoord];
         };
 
-        return brent_find_minima(f_eq, u_min, u_max, digits, maxit);
+        auto [u, x] = brent_find_minima(f_eq, u_min, u_max, digits, maxit);
+        return std::make_pair(u, -x);
     }
 
     template <typename T, size_t dim>
@@ -375,8 +375,7 @@ namespace gbs
 
         auto [u_min, u_max] = crv.bounds();
         auto f_eq = [&crv, iCoord, Xi](T u) {
-            auto x = crv(u)[iCoord];
-            return  x*x;
+            return crv(u)[iCoord];
         };
 
         return brent_find_minima(f_eq, u_min, u_max, digits, maxit);
-- 
2.43.0


From 2f28bb976af7e0215c95eb6771c9b4722fd989f4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:48:53 +0000
Subject: [PATCH 43/57] fix: discretisations refuse fewer than two points and
 honour their maximum number of points

---
 gbs/bscanalysis.h | 21 ++++++++++++++-------
 gbs/bssanalysis.h | 26 ++++++++++++++++++--------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index a6f0383..b025cd7 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -336,6 +336,8 @@ namespace gbs
     template <typename T, size_t dim, size_t N = 10>
     auto uniform_distrib_params(const Curve<T, dim> &crv, T u1, T u2, size_t n, size_t n_law = 30) -> std::list<T>
     {
+        if (n < 2)
+            throw std::length_error("2 points a required for a range");
         // Initialize the list of parameters and set the first and last elements
         std::list<T> u_lst(n);
         u_lst.front() = u1;
@@ -389,25 +391,27 @@ namespace gbs
  * @param it_u1 Iterator pointing to the start of the range in the parameter list
  * @param it_u2 Iterator pointing to the end of the range in the parameter list
  * @param u_lst The list of curve parameters
+ * @param n_max_pts Maximum number of points allowed
  */
     template <typename T, size_t dim>
-    void refine_params_recursive(const Curve<T, dim> &crv, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u2, std::list<T> &u_lst)
+    void refine_params_recursive(const Curve<T, dim> &crv, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u2, std::list<T> &u_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u1 = *it_u1;
         auto u2 = *it_u2;
 
-        if (std::abs(u2 - u1) > knot_eps<T>)
+        if (u_lst.size() < n_max_pts && std::abs(u2 - u1) > knot_eps<T>)
         {
             auto um = static_cast<T>(0.5) * (u1 + u2);
             auto v1 = crv(um) - crv(u1);
             auto v2 = crv(u2) - crv(u1);
             auto dev = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
+            auto closed = norm(v2) <= knot_eps<T> && norm(v1) > knot_eps<T>; // the chord has no direction
 
-            if (dev > dev_max)
+            if (dev > dev_max || closed)
             {
                 auto it_um = u_lst.insert(it_u2, um);
-                refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst);
-                refine_params_recursive(crv, dev_max, it_um, it_u2, u_lst);
+                refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst, n_max_pts);
+                refine_params_recursive(crv, dev_max, it_um, it_u2, u_lst, n_max_pts);
             }
         }
     }
@@ -428,6 +432,8 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_params(const Curve<T, dim> &crv, T u1, T u2, size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
+        if (n < 2)
+            throw std::length_error("2 points a required for a range");
 
         // Create initial list of parameters
         std::list<T> u_lst;
@@ -445,7 +451,8 @@ namespace gbs
 
         for (auto u : knots) // Non flat knots
         {
-            if( u > u1 && u < u2)
+            auto is_u = [u](T u_){ return std::abs(u_ - u) <= knot_eps<T>; };
+            if( u > u1 && u < u2 && std::none_of(u_lst.begin(), u_lst.end(), is_u))
             {
                 u_lst.push_back(u);
             }
@@ -462,7 +469,7 @@ namespace gbs
             auto it_u3 = std::next(it_u1);
             while (it_u3 != u_lst.end())
             {
-                refine_params_recursive(crv, dev_max, it_u1, it_u3, u_lst);
+                refine_params_recursive(crv, dev_max, it_u1, it_u3, u_lst, n_max_pts);
 
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index f089110..820561e 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -40,10 +40,13 @@ namespace gbs
  * @param it_u1 Iterator pointing to the start of the range in the parameter list
  * @param it_u3 Iterator pointing to the end of the range in the parameter list
  * @param u_lst The list of curve parameters
+ * @param n_max_pts Maximum number of points allowed
  */
     template <typename T, size_t dim>
-    void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst)
+    void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst, size_t n_max_pts = approx_max_sample_points)
     {
+        if (u_lst.size() >= n_max_pts || std::abs(*it_u3 - *it_u1) <= knot_eps<T>)
+            return;
         auto u_ = 0.5 * (*it_u1 + *it_u3);
         auto v1 = srf(u_, v) - srf(*it_u1, v);
         auto v2 = srf(*it_u3, v) - srf(*it_u1, v);
@@ -52,8 +55,8 @@ namespace gbs
         if (dev_ > dev_max)
         {
             auto it_u2 = u_lst.insert(it_u3, u_);
-            refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst);
-            refine_params_u_recursive(srf, v, dev_max, it_u2, it_u3, u_lst);
+            refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst, n_max_pts);
+            refine_params_u_recursive(srf, v, dev_max, it_u2, it_u3, u_lst, n_max_pts);
         }
     }
 
@@ -74,6 +77,8 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_u_params(const Surface<T, dim> &srf, T u1, T u2, T v,size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
+        if (n < 2)
+            throw std::length_error("2 points a required for a range");
         // Create initial list of parameters
         std::list<T> u_lst;
         for (size_t i{}; i < n; i++)
@@ -86,7 +91,7 @@ namespace gbs
             auto it_u3 = std::next(it_u1);
             while (it_u3 != u_lst.end())
             {
-                refine_params_u_recursive(srf, v, dev_max, it_u1, it_u3, u_lst);
+                refine_params_u_recursive(srf, v, dev_max, it_u1, it_u3, u_lst, n_max_pts);
 
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
@@ -106,10 +111,13 @@ namespace gbs
  * @param it_v1 Iterator pointing to the start of the range in the parameter list
  * @param it_v3 Iterator pointing to the end of the range in the parameter list
  * @param v_lst The list of curve parameters
+ * @param n_max_pts Maximum number of points allowed
  */
     template <typename T, size_t dim>
-    void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst)
+    void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst, size_t n_max_pts = approx_max_sample_points)
     {
+        if (v_lst.size() >= n_max_pts || std::abs(*it_v3 - *it_v1) <= knot_eps<T>)
+            return;
         auto u_ = 0.5 * (*it_v1 + *it_v3);
         auto v1 = srf(u, u_) - srf(u, *it_v1);
         auto v2 = srf(u, *it_v3) - srf(u, *it_v1);
@@ -118,8 +126,8 @@ namespace gbs
         if (dev_ > dev_max)
         {
             auto it_u2 = v_lst.insert(it_v3, u_);
-            refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst);
-            refine_params_v_recursive(srf, u, dev_max, it_u2, it_v3, v_lst);
+            refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst, n_max_pts);
+            refine_params_v_recursive(srf, u, dev_max, it_u2, it_v3, v_lst, n_max_pts);
         }
     }
 
@@ -141,6 +149,8 @@ namespace gbs
     template <typename T, size_t dim>
     auto deviation_based_v_params(const Surface<T, dim> &srf, T v1, T v2, T u,size_t n, T dev_max, size_t n_max_pts = approx_max_sample_points) -> std::list<T>
     {
+        if (n < 2)
+            throw std::length_error("2 points a required for a range");
         // Create initial list of parameters
         std::list<T> v_lst;
         for (size_t i{}; i < n; i++)
@@ -153,7 +163,7 @@ namespace gbs
             auto it_v3 = std::next(it_v1);
             while (it_v3 != v_lst.end())
             {
-                refine_params_v_recursive(srf, u, dev_max, it_v1, it_v3, v_lst);
+                refine_params_v_recursive(srf, u, dev_max, it_v1, it_v3, v_lst, n_max_pts);
 
                 it_v1 = it_v3;
                 it_v3 = std::next(it_v1);
-- 
2.43.0


From 68c2c78638f2b72e961cac381ad60dc2e163f266 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 20:54:28 +0000
Subject: [PATCH 44/57] fix: adaptive arc length keeps its iterators valid and
 stops at rounding

---
 gbs/bscanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index b025cd7..f45e4a2 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -196,10 +196,10 @@ namespace gbs
                 T l23 = length<T, dim, N>(crv, mid_u, (*it_u3));
                 T l13 = length<T, dim, N>(crv, (*it_u1), (*it_u3));
                 T curv_diff = std::abs( l12 + l23 - l13) / l13;
-                if (curv_diff > tolerance)
+                if (curv_diff > tolerance && std::abs(*it_u3 - *it_u1) > std::sqrt(knot_eps<T>) * std::abs(u2 - u1)) // beyond, only rounding is left
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    it_u3 = std::next(u.insert(it_u3, mid_u));
                 }
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
-- 
2.43.0


From 45e1967ce6d56a75f3c9a86ed2a2bf23d87b7095 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 21:10:54 +0000
Subject: [PATCH 45/57] fix: edges accept vertices within tolerance only and
 wires join at both ends

---
 inc/topology/edge.h | 16 +++++++++---
 inc/topology/wire.h | 61 ++++++++++++++++-----------------------------
 2 files changed, 33 insertions(+), 44 deletions(-)

diff --git a/inc/topology/edge.h b/inc/topology/edge.h
index 17ff152..918032e 100644
--- a/inc/topology/edge.h
+++ b/inc/topology/edge.h
@@ -140,12 +140,16 @@ namespace gbs
     {
         auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
 
-        if (d > this->approximationTolerance())
+        auto is_on_curve_at = [&](T u_) { return distance(m_curve->value(u_), vtx->point()) <= this->approximationTolerance(); };
+
+        if (!is_on_curve_at(u))
         {
             return false;
         }
 
-        m_u1 = std::abs(u - m_curve->bounds()[1]) < knot_eps<T> ? m_curve->bounds()[0] : u;
+        // a vertex where the curve closes is at both ends
+        auto u1 = m_curve->bounds()[0];
+        m_u1 = std::abs(u - m_curve->bounds()[1]) < knot_eps<T> && is_on_curve_at(u1) ? u1 : u;
         m_vtx1 = vtx;
 
         return true;
@@ -156,12 +160,16 @@ namespace gbs
     {
         auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
 
-        if (d > this->approximationTolerance())
+        auto is_on_curve_at = [&](T u_) { return distance(m_curve->value(u_), vtx->point()) <= this->approximationTolerance(); };
+
+        if (!is_on_curve_at(u))
         {
             return false;
         }
 
-        m_u2 = std::abs(u - m_curve->bounds()[0]) < knot_eps<T> ? m_curve->bounds()[1] : u;
+        // a vertex where the curve closes is at both ends
+        auto u2 = m_curve->bounds()[1];
+        m_u2 = std::abs(u - m_curve->bounds()[0]) < knot_eps<T> && is_on_curve_at(u2) ? u2 : u;
         m_vtx2 = vtx;
 
         return true;
diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 8843379..7e04e23 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -86,27 +86,27 @@ namespace gbs
     template <std::floating_point T, size_t dim>
     bool Wire<T, dim>::fuseVertex1(std::shared_ptr<Edge<T, dim>> &ed)
     {
-        if (distance(
-                m_edges.back()->vertex2()->point(),
-                ed->vertex1()->point()) < this->approximationTolerance())
+        if (m_edges.back()->vertex2() == ed->vertex1())
         {
-            ed->setVertex1(m_edges.back()->vertex2());
             return true;
         }
-        return false;
+        return distance(
+                m_edges.back()->vertex2()->point(),
+                ed->vertex1()->point()) < this->approximationTolerance()
+            && ed->setVertex1(m_edges.back()->vertex2());
     }
 
     template <std::floating_point T, size_t dim>
     bool Wire<T, dim>::fuseVertex2(std::shared_ptr<Edge<T, dim>> &ed)
     {
-        if (distance(
-                m_edges.front()->vertex1()->point(),
-                ed->vertex2()->point()) < this->approximationTolerance())
+        if (m_edges.front()->vertex1() == ed->vertex2())
         {
-            ed->setVertex2(m_edges.front()->vertex1());
             return true;
         }
-        return false;
+        return distance(
+                m_edges.front()->vertex1()->point(),
+                ed->vertex2()->point()) < this->approximationTolerance()
+            && ed->setVertex2(m_edges.front()->vertex1());
     }
 
     template <std::floating_point T, size_t dim>
@@ -134,38 +134,18 @@ namespace gbs
             {
                 return false;
             }
-            if (m_edges.front()->vertex1() == ed->vertex2())
-            {
-                m_edges.push_front(ed);
-            }
-            else if (m_edges.back()->vertex2() == ed->vertex1())
+            // both ends, the edge may close the wire
+            const bool at_back = fuseVertex1(ed);
+            const bool at_front = fuseVertex2(ed);
+            if (at_back)
             {
                 m_edges.push_back(ed);
             }
-            else
+            else if (at_front)
             {
-                bool added = false;
-                if (distance(
-                        m_edges.back()->vertex2()->point(),
-                        ed->vertex1()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex1(m_edges.back()->vertex2());
-                    m_edges.push_back(ed);
-                    added = true;
-                }
-                if (distance(
-                        m_edges.front()->vertex1()->point(),
-                        ed->vertex2()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex2(m_edges.front()->vertex1());
-                    if (!added)
-                    {
-                        m_edges.push_front(ed);
-                        added = true;
-                    }
-                }
-                return added;
+                m_edges.push_front(ed);
             }
+            return at_back || at_front;
         }
 
         return true;
@@ -230,9 +210,10 @@ namespace gbs
     template <std::floating_point T, size_t dim>
     void Wire<T, dim>::close()
     {
-        addEdge(Edge<T, dim>{
-            end()->vertex2(),
-            begin()->vertex1()});
+        if (!isClosed())
+        {
+            addEdge(Edge<T, dim>{vertex2(), vertex1()});
+        }
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From 4446b55f0b4a3da122ea9471e5887106ffcc6156 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 21:32:48 +0000
Subject: [PATCH 46/57] fix: add_dimension keeps the weights of a rational
 surface

---
 gbs/bsstools.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b3aaf47..b4292f6 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -101,7 +101,14 @@ namespace gbs
             poles.begin(),
             [&val](const auto &p_)
             {
-                return add_dimension<T,dim+rational>(p_, val);
+                auto p = add_dimension<T,dim+rational>(p_, val);
+                if constexpr (rational)
+                {
+                    // the weight stays last and scales the new coordinate
+                    p[dim]     = val * p_.back();
+                    p[dim + 1] = p_.back();
+                }
+                return p;
             });
         using bs_type = typename std::conditional<rational, BSSurfaceRational<T, dim + 1>, BSSurface<T, dim + 1>>::type;
         return bs_type(poles, srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV());
-- 
2.43.0


From d181f6962c4d8bb3e7ef7cbbd22a1eedc511d12b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 21:32:48 +0000
Subject: [PATCH 47/57] fix: extensions advance by the distance over the speed,
 keep rational edges, and c2_connect keeps second derivatives on reversed
 sides

---
 gbs/bsctools.h |  8 ++++----
 gbs/bsstools.h | 13 ++++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 3370d4a..376a1c0 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -611,8 +611,8 @@ namespace gbs
         auto p2 = crv2(u2);
         auto t1 = s1*crv1(u1,1);
         auto t2 = s2*crv2(u2,1);
-        auto c1 = s1*crv1(u1,2);
-        auto c2 = s2*crv2(u2,2);
+        auto c1 = crv1(u1,2);
+        auto c2 = crv2(u2,2);
 
         return c2_connect(p1,p2,t1,t2,c1,c2,e);
     }
@@ -818,9 +818,9 @@ namespace gbs
     auto extention_to_point(const BSCurveGeneral<T,dim,rational> &crv, const point<T,dim> &pt, T u, bool natural_end, std::optional<size_t> max_cont = std::nullopt)
     {
         auto t = crv(u,1);
-        auto dl = norm(crv.end() - pt);
+        auto dl = norm(crv(u) - pt);
         auto du = dl / norm(t);
-        auto u_new = u + dl * du;
+        auto u_new = u + du;
         return extention_to_point(crv,pt,u,u_new,natural_end,max_cont);
     }
     /**
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b4292f6..617ae99 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -128,7 +128,6 @@ namespace gbs
     {
         points_vector<T,dim+rational> poles_new;
 
-        using bsc_type = typename std::conditional<rational,BSCurveRational<T, dim>,BSCurve<T, dim>>::type;
         using bss_type = typename std::conditional<rational,BSSurfaceRational<T, dim>,BSSurface<T, dim>>::type;
 
         auto nu = srf.nPolesU();
@@ -137,6 +136,9 @@ namespace gbs
         auto kv = srf.knotsFlatsV();
         auto p = srf.degreeU();
         auto q = srf.degreeV();
+        const auto &k_crv = crv.knotsFlats();
+        if(crv.degree() != q || !std::equal(kv.begin(), kv.end(), k_crv.begin(), k_crv.end(), [](auto k1, auto k2){return std::fabs(k1 - k2) <= knot_eps<T>;}))
+            throw std::runtime_error("Not implemented"); // TODO unify v knots
         auto du = 0.;
         auto np = 100;
         auto v1 = kv.front();
@@ -157,15 +159,16 @@ namespace gbs
         for(size_t i {} ; i < nv ; i++)
         {
             auto poles = points_vector<T,dim+rational>{srf.poles_begin()+i*nu,srf.poles_begin()+i*nu+nu};
-            auto iso  = bsc_type{poles,ku,p};
-            auto crv_ext = bsc_type{extention_to_point<T, dim, rational>(
+            // rows of poles are extended as such, i.e. in homogeneous space for rational surfaces
+            auto iso  = BSCurve<T, dim+rational>{poles,ku,p};
+            auto crv_ext = extention_to_point<T, dim+rational, false>(
                 iso,
-                weight_projected_pole<T, dim, rational>(crv.poles()[i]),
+                crv.poles()[i],
                 u2,
                 u_new,
                 natural_end,
                 max_cont
-            )};
+            );
             auto poles_ext = crv_ext.poles();
             poles_new.insert(poles_new.end(),poles_ext.begin(),poles_ext.end());
             if(i==0)
-- 
2.43.0


From 9ff9aff4e61e4eb5cfed3df8ae4b1847b689ce7c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:40:52 +0000
Subject: [PATCH 48/57] fix: newton_solve goes on after a step to the right

---
 gbs/math.ixx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..307bfbb 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -3,6 +3,7 @@
 #else
     #pragma once
 #endif
+#include <cmath>
 #include <numbers>
 #include <vector>
 #include <algorithm>
@@ -188,7 +189,7 @@
         auto delta = tol_u * 10., d0 = tol_f * 10.;
         auto u = u0;
         auto count =0;
-        while (delta>tol_u && d0 > tol_f && count < it_max)
+        while (std::abs(delta)>tol_u && d0 > tol_f && count < it_max)
         {
             auto d0 = func(u)-p;
             auto d1 = func(u,1);
-- 
2.43.0


From 08ac5d5cc0ee70212c089b9e3fa993799efbc9a8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:48:11 +0000
Subject: [PATCH 49/57] fix: approximation of a curve between two parameters
 covers that range only

---
 gbs/bscapprox.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 3d99b53..5877829 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -345,15 +345,23 @@ namespace gbs
     // Sample a curve by deviation and return the point set together with its
     // parameter vector. Shared by the deviation-driven Curve overloads below.
     template <typename T, size_t dim>
-    auto sample_by_deviation(const Curve<T, dim> &crv, size_t np, T deviation)
+    auto sample_by_deviation(const Curve<T, dim> &crv, T u1, T u2, size_t np, T deviation)
         -> std::pair<points_vector<T, dim>, std::vector<T>>
     {
-        auto u_lst = deviation_based_params<T, dim>(crv, np, deviation);
+        auto u_lst = deviation_based_params<T, dim>(crv, u1, u2, np, deviation);
         points_vector<T, dim> pts = make_points(crv, u_lst);
         std::vector<T> u{std::begin(u_lst), std::end(u_lst)};
         return {std::move(pts), std::move(u)};
     }
 
+    template <typename T, size_t dim>
+    auto sample_by_deviation(const Curve<T, dim> &crv, size_t np, T deviation)
+        -> std::pair<points_vector<T, dim>, std::vector<T>>
+    {
+        auto [u1, u2] = crv.bounds();
+        return sample_by_deviation(crv, u1, u2, np, deviation);
+    }
+
     // Fit a starting bound-matched approximation with n_poles, then refine it to the
     // requested tolerance (max deviation 10*tol). Shared tail of the Curve overloads.
     template <typename T, size_t dim>
@@ -482,9 +490,7 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const Curve<T,dim> &crv, T u1, T u2, T deviation,T tol, size_t p, size_t np = approx_sample_count) -> BSCurve<T, dim>
     {
-        // NB: u1/u2 are currently not applied (the whole curve is sampled), matching
-        // the pre-existing behaviour; left as-is to keep this a pure refactor.
-        auto [pts, u] = sample_by_deviation(crv, np, deviation);
+        auto [pts, u] = sample_by_deviation(crv, u1, u2, np, deviation);
         return refine_from_points(pts, u, p, default_n_poles(p), tol);
     }
 
-- 
2.43.0


From 9ba7898bc20191c09efadf40f03575df02f24df8 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:50:18 +0000
Subject: [PATCH 50/57] fix: removing one knot by value leaves a consistent
 curve

---
 gbs/knotsfunctions.ixx | 82 +-----------------------------------------
 1 file changed, 1 insertion(+), 81 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 170bfaf..6847396 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -730,87 +730,7 @@
     template <typename T, size_t dim>
     auto remove_knot(T u, size_t p, std::vector<T> &U, std::vector<std::array<T, dim>> &Pw, T tol)
     {
-        // Determine the knot interval that contains u
-        auto r = std::distance(U.begin(), std::ranges::upper_bound(U, u)) - 1;
-
-        // if u is not a knot
-        if(std::abs(U[r]-u)>knot_eps<T>)
-        {
-            return false;
-        }
-        
-        // Find the multiplicity of the knot u
-        auto s = multiplicity(u, U);
-        auto m = U.size();
-        auto n = Pw.size();
-        
-        // Determine the first and last affected control points
-        auto first = r - p;
-        auto last = r - s;
-        
-        std::list<std::array<T, dim>> Pi;
-        std::list<std::array<T, dim>> Pj;
-        
-
-        auto i{first};
-        auto j{last};
-        
-        // Initialize lists of control points Pi and Pj
-        Pi = {Pw[first - 1]};
-        Pj = {Pw[last + 1]};
-        
-        while (j > i)
-        {
-            // Compute blending factors
-            auto ai = (u - U[i]) / (U[i + p + 1 ] - U[i]);
-            auto aj = (u - U[j]) / (U[j + p + 1] - U[j]);
-
-            // Compute new control points
-            Pi.push_back((Pw[i] - (1 - ai) * Pi.back()) / ai);
-            Pj.push_front((Pw[j] - aj * Pj.front()) / (1 - aj));
-            i++;
-            j--;
-        }
-        
-        bool remove_flag = false;
-        if (j < i)
-        {
-            // If the knot can be removed, update Pi and Pj
-            auto d = distance(Pi.back(), Pj.front());
-            if (d < tol)
-            {
-                remove_flag = true;
-                Pj.pop_front();
-            }
-        }
-        else
-        {
-            // Check if knot removal is possible
-            auto ai = (u - U[i]) / (U[i + p + 1] - U[i]);
-            auto d = distance(Pw[i], ai * Pi.back() + (1 - ai) * Pj.front());
-            if (d < tol)
-            {
-                remove_flag = true;
-                Pj.pop_front();
-                Pi.pop_back();
-            }
-        }
-
-        if (remove_flag)
-        {
-            auto Pw_beg = Pw.begin();
-            std::vector<std::array<T, dim>> head{Pw_beg, std::next(Pw_beg, first)};
-            std::vector<std::array<T, dim>> tail{std::next(Pw_beg, last + 1), Pw.end()};
-            Pw = std::move(head);
-            Pw.insert(Pw.end(), Pi.begin(), Pi.end());
-            Pw.insert(Pw.end(), Pj.begin(), Pj.end());
-            Pw.insert(Pw.end(), tail.begin(), tail.end());
-
-            U.erase(std::next(U.begin(),r), std::next(U.begin(),r+1));
-        }
-
-
-        return remove_flag;
+        return remove_knot(u, p, size_t{1}, U, Pw, tol) == 1;
     }
     /**
      * @brief Change parametrization to fit between k1 and k2
-- 
2.43.0


From 57f0453d525c2fff9bea50253b4d0aadfa1eff77 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 23:05:39 +0000
Subject: [PATCH 51/57] fix: getEdgePoint and edge_direction read the
 coordinates of the edge's ends

---
 inc/topology/halfEdgeMeshGetters.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 6b3154c..01b8f45 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -607,8 +607,8 @@ namespace gbs
     auto getEdgePoint(const std::shared_ptr<HalfEdge<T,dim>> &he, T pos = 0.5)
     {
         assert(he && he->vertex && he->previous && he->previous->vertex);
-        const auto &p1 = he->previous->vertex->coord;
-        const auto &p2 = he->vertex->coord;
+        const auto &p1 = he->previous->vertex->coords;
+        const auto &p2 = he->vertex->coords;
         return p1 + pos *(p2-p1);
     }
 
@@ -660,7 +660,7 @@ namespace gbs
     {
         assert(he->previous && he->previous->vertex);
 
-        return  normalized( he->vertex->coords - he->vertex->coords->previous);
+        return  normalized( he->vertex->coords - he->previous->vertex->coords);
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From 764bd66c7fe57ff345266cdc87fa2a97fcde10f7 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 52/57] fix: scaled_weights scales to the mean value asked for

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index 0f76b50..a9254b6 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -1073,7 +1073,7 @@
     auto scaled_weights(const std::vector<std::array<T, dim>> &poles, T mean_value = T(1.0)) -> std::vector<std::array<T, dim>>
     {
         std::vector<std::array<T, dim>> new_poles(poles);
-        scale_weights(new_poles);
+        scale_weights(new_poles, mean_value);
         return new_poles;
     }
     /**
-- 
2.43.0


From 50d8287463f9a33c2af2241e2cad0c2354faecd2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 53/57] fix: eval_value_deboor_cox evaluates in every dimension

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index a9254b6..7e98a8d 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -747,7 +747,7 @@
         std::vector<T> N(p+1);
         basis_funcs( i, p, u, k, N );
 
-        point<T,dim> pt{0., 0., 0.};
+        point<T,dim> pt{};
         
         std::for_each(N.begin(), N.end(), [&] (const auto &N_)
         {
-- 
2.43.0


From cec740fdc3702e85bb69faea5b5f734bae9bb9f3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 23:05:40 +0000
Subject: [PATCH 54/57] fix: rolling ball starts from the closest point of the
 second curve

---
 gbs/bscanalysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index f45e4a2..6164b1c 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -741,7 +741,7 @@ namespace gbs
             );
         };
         // Checking if curves are // at this point
-        auto u20 =  extrema_curve_point(crv2,crv1(u1), u1, tol_x)[0];
+        auto u20 =  extrema_curve_point(crv2,crv1(u1), tol_x)[0];
         auto [L1, L2] = bisec(u1,u20);
         if(fabs(fabs(L1.getAx()[1]*L2.getAx()[1])-1.)<tol_a)
             return std::make_tuple(
-- 
2.43.0


From dc4b5ee6d0c806983d7c4463109241cbad0a3663 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 00:49:52 +0000
Subject: [PATCH 55/57] fix: meshSurfaceBoundary appended two spurious points
 at the origin

---
 inc/topology/tessellations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index bf7a61c..9c5662e 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -51,7 +51,7 @@ namespace gbs
         std::reverse(begin(v1), end(v1));
         auto v2 = deviation_based_v_params(srf, v1_, v2_, u2_, nv, deviation);
 
-        auto n = u1.size() + u2.size() + v1.size() + v2.size();
+        auto n = u1.size() + u2.size() + v1.size() + v2.size() - 2; // the v sides are taken without their first point
         std::vector<std::array<T, 2>> coords(n);
 
         auto coords_begin = coords.begin();
-- 
2.43.0


From 9b84a6b9d4b88a78cb1343a67911558fdd248cbc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 01:23:45 +0000
Subject: [PATCH 56/57] fix: refine_approx stopped refining when the worst
 point has a negative parameter

---
 gbs/bscapprox.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5877829..85b2d02 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -223,7 +223,7 @@ namespace gbs
             // C2: d_max_ used to ignore points near a knot, masking unmet tolerance).
             T d_avg_{}, d_max_{};
             // Knot-insertion candidate: the worst point that is well inside a span.
-            T d_insert{}, u_max{-1};
+            T d_insert{}, u_max{};
             std::vector<T> knots{crv_refined.knotsFlats()};
 
             for(size_t j {} ; j < n_pts ; j++)
@@ -261,7 +261,7 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (u_max < 0)
+            if (!(d_insert > 0)) // parameters may be negative: not a test on u_max
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
-- 
2.43.0


From 11a8c0df10d818df4686bb3da5f0a9eab99098f2 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 01:39:44 +0000
Subject: [PATCH 57/57] fix: tfi_mesh_2d on a surface meshed wrong iso lines
 when the hard parameters do not start at 0

---
 gbs-mesh/tfi.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index e429696..62f6885 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -789,14 +789,19 @@ namespace gbs
     auto tfi_mesh_2d( const std::shared_ptr<Surface<T,dim>> &p_srf, const std::vector<T> &ksi_i ,const std::vector<T> &eth_j, size_t n_ksi, size_t n_eth)
     {
         std::vector<std::shared_ptr<Curve<T,dim>>> iso_eth, iso_ksi;
+        // The iso lines are evaluated at the hard parameters: they carry those parameters, which need not start at 0
+        auto iso_line = [](const point<T,2> &p1, const point<T,2> &p2, const std::vector<T> &u)
+        {
+            return BSCurve<T,2>{points_vector<T,2>{p1, p2}, std::vector<T>{u.front(), u.front(), u.back(), u.back()}, 1};
+        };
         for( auto eth : eth_j)
         {
-            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( build_segment(point<T,2>{ksi_i.front(), eth}, point<T,2>{ksi_i.back(), eth}) );
+            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( iso_line(point<T,2>{ksi_i.front(), eth}, point<T,2>{ksi_i.back(), eth}, ksi_i) );
             iso_eth.push_back( std::make_shared<CurveOnSurface<T,dim>>(p_uv_crv, p_srf) );
         }
         for( auto ksi : ksi_i)
         {
-            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( build_segment(point<T,2>{ksi,eth_j.front()},point<T,2>{ksi,eth_j.back()}) );
+            auto p_uv_crv = std::make_shared<BSCurve<T,2>>( iso_line(point<T,2>{ksi,eth_j.front()},point<T,2>{ksi,eth_j.back()}, eth_j) );
             iso_ksi.push_back( std::make_shared<CurveOnSurface<T,dim>>(p_uv_crv, p_srf) );
         }
         return tfi_mesh_2d<T, dim, P, Q, slope_ctrl>(iso_ksi, iso_eth, ksi_i, eth_j, n_ksi, n_eth, p_srf);
-- 
2.43.0

