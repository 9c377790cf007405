From 6d086c00343828933033811977598af2437f3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 01/30] fix: axis-aligned box of a Gaussian had its axes
 swapped

---
 include/bbox.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 8eb7c57..645f4dd 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -47,8 +47,9 @@ struct AABBox {
         auto l = solver.eigenvalues();
         auto e = solver.eigenvectors();
 
-        double r1 = nstd * std::sqrt(l[0]);
-        double r2 = nstd * std::sqrt(l[1]);
+        // theta is the direction of the major axis
+        double r1 = nstd * std::sqrt(l[1]);
+        double r2 = nstd * std::sqrt(l[0]);
         double theta = std::atan2(e.col(1).y(), e.col(1).x());
 
         double ux = r1 * std::cos(theta);
-- 
2.43.0


From aa56ba8db337193dec5bc716ca68962860220d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 02/30] fix: crossing boxes were reported as disjoint,
 depending on operand order

---
 include/bbox.hpp | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 645f4dd..dc6ade2 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -172,42 +172,22 @@ struct BBox {
     }
 
     bool intersects(const BBox& other) const {
+        // Separating axis theorem: two convex boxes are disjoint exactly when
+        // some edge of one of them has the other one entirely on its outside.
+        return !has_separating_edge(other) && !other.has_separating_edge(*this);
+    }
+
+    bool has_separating_edge(const BBox& other) const {
         for (int i = 0; i < corners.cols(); ++i) {
-            if (other.within(corners.col(i))) {
-                return true;
-            }
-        }
-        for (int i = 0; i < other.corners.cols(); ++i) {
-            if (within(other.corners.col(i))) {
+            Eigen::Vector2d edge = corners.col((i + 1) % 4) - corners.col(i);
+            Eigen::RowVector2d normal(-edge.y(), edge.x());
+            Eigen::RowVector4d a = normal * (corners.colwise() - corners.col(i));
+            Eigen::RowVector4d b = normal * (other.corners.colwise() - corners.col(i));
+            if (a.maxCoeff() < b.minCoeff() || b.maxCoeff() < a.minCoeff()) {
                 return true;
             }
         }
-        if (corners == other.corners) {
-            return true;
-        }
-        // "SWISS CROSS"!
-        // Find a point that would be in the center of both boxes
-        // in this case - the intersection of the boxes' diagonals -
-        // and check if it's inside the box.
-        // Line-line intersection: https://en.wikipedia.org/wiki/Line%E2%80%93line_intersection
-        auto a0 = corners.col(0);  // (x1, y1)
-        auto a2 = corners.col(2);  // (x2, y2)
-        auto b0 = other.corners.col(0);  // (x3, y3)
-        auto b2 = other.corners.col(2);  // (x4, y4)
-        double x1 = a0.x(); double y1 = a0.y();
-        double x2 = a2.x(); double y2 = a2.y();
-        double x3 = b0.x(); double y3 = b0.y();
-        double x4 = b2.x(); double y4 = b2.y();
-        auto denom = ((x1 - x2) * (y3 - y4) - (y1 - y2) * (x3 - x4));
-        if (denom < 1e-9) {
-            return false;
-        }
-        auto centerpoint = Eigen::Vector2d();
-        centerpoint <<
-            (x1 * y2 - y1 * x2) * (x3 - x4) - (x1 - x2) * (x3 * y4 - y3 * x4),
-            (x1 * y2 - y1 * x2) * (y3 - y4) - (y1 - y2) * (x3 * y4 - y3 * x4);
-        centerpoint /= denom;
-        return within(centerpoint);
+        return false;
     }
 
     bool intersects(const AABBox& aabb) const {
-- 
2.43.0


From 3ab765a968671f2f9ee56a087e8d8e2ba3aa0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 03/30] fix: assignment feasibility test took exponential time
 and overflowed beyond 30 rows

---
 include/rlapjv.h | 53 +++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 4ebc291..e7c8f2b 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -1,9 +1,11 @@
 #pragma once
 // https://raw.githubusercontent.com/ClementLF/rlapjv/master/rlapjv.h
 #include <cassert>
+#include <algorithm>
 #include <cstdio>
 #include <limits>
 #include <memory>
+#include <vector>
 #include <Eigen/Dense>
 
 namespace lap {
@@ -514,8 +516,6 @@ cost rlap(int dim0, int dim1,
     return rlapcost;
 }
 
-#define popcount __builtin_popcount
-
 template<typename CostMatrix, typename Assignment, typename RowDual, typename ColDual>  // NOLINT
 bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     int rows = C.rows();
@@ -525,30 +525,41 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     colsol.setZero();
     u.setZero();
     v.setZero();
-    int neighbours;
-
+    // Every row must be matchable to a column of its own (augmenting paths)
     Eigen::Array<bool, Eigen::Dynamic, Eigen::Dynamic> notinf =  !C.array().isInf();
-    for (int n = 1; n < std::pow(2, rows); ++n) {
-        neighbours = 0;
-        int popsize = popcount(n);
-        for (int col = 0; col < cols; ++col) {
-            for (int row = 0; row < rows; ++row) {
-                if (n & (1 << row) && notinf(row, col)) {
-                    ++neighbours;
-                    if(neighbours < popsize) {
-                        goto nextcol;
-                    } else if(neighbours == popsize) {
-                        goto nextn;
+    std::vector<int> colmatch(cols, -1);
+    std::vector<int> pred(cols);
+    std::vector<int> queue;
+    for (int row = 0; row < rows; ++row) {
+        std::fill(pred.begin(), pred.end(), -1);
+        queue.assign(1, row);
+        int endcol = -1;
+        for (unsigned q = 0; q < queue.size() && endcol < 0; ++q) {
+            for (int col = 0; col < cols && endcol < 0; ++col) {
+                if (pred[col] < 0 && notinf(queue[q], col)) {
+                    pred[col] = queue[q];
+                    if (colmatch[col] < 0) {
+                        endcol = col;
+                    } else {
+                        queue.push_back(colmatch[col]);
                     }
                 }
             }
-nextcol:;
         }
-
-        //std::cout << "NOK matrix: " << std::endl;
-        //std::cout << C << std::endl;
-        return false;
-nextn:;
+        if (endcol < 0) {
+            //std::cout << "NOK matrix: " << std::endl;
+            //std::cout << C << std::endl;
+            return false;
+        }
+        while (endcol >= 0) {
+            int r = pred[endcol];
+            int nextcol = -1;
+            for (int col = 0; col < cols && r != row; ++col) {
+                if (colmatch[col] == r) { nextcol = col; break; }
+            }
+            colmatch[endcol] = r;
+            endcol = nextcol;
+        }
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-- 
2.43.0


From 10adf531162842326bf7ae2dade2a1ea65aa4b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 04/30] fix: assignment of column-major cost matrices solved
 the transposed problem

---
 include/rlapjv.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index e7c8f2b..2d58a9e 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -563,7 +563,9 @@ bool lap(const CostMatrix& C, Assignment& rowsol, RowDual& u, ColDual& v) {
     }
     //std::cout << "OK matrix: " << std::endl;
     //std::cout << C << std::endl;
-    rlap<int, double>(rows, cols, C.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
+    // The solver reads the costs row by row
+    const lap::CostMatrix Crows = C;
+    rlap<int, double>(rows, cols, Crows.data(), false, rowsol.data(), colsol.data(), u.data(), v.data());
     //std::cout << "rowsol: " << rowsol.transpose() << std::endl;
     //std::cout << "colsol: " << colsol.transpose() << std::endl;
     return !(rowsol.array() < 0).any();
-- 
2.43.0


From f447ca3e023100966deae4893b798e2b2f875093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 05/30] fix: random generator was shared between threads
 without synchronisation

---
 include/statistics.inc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/statistics.inc b/include/statistics.inc
index 5129ef4..f175d13 100644
--- a/include/statistics.inc
+++ b/include/statistics.inc
@@ -5,10 +5,10 @@
 #include "statistics.hpp"
 
 namespace lmb {
-    std::random_device rd{};
-    std::mt19937 gen{rd()};
-    static std::uniform_real_distribution<> udist;
-    static std::normal_distribution<> ndist;
+    // One generator per thread: samples are drawn from parallel regions
+    thread_local std::mt19937 gen{std::random_device{}()};
+    static thread_local std::uniform_real_distribution<> udist;
+    static thread_local std::normal_distribution<> ndist;
 
     double urand() {
         return udist(gen);
-- 
2.43.0


From 2a9a048dc90394abdd8d8d7dc5628968e61dbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 06/30] fix: copied target summaries referred to the existence
 probability of the original

---
 include/target.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index 36fdfd0..ab588f3 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -30,6 +30,9 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
                    double w_, unsigned id_, unsigned cid_ = 0)
     : Parent(x_, P_, w_), r(this->w), id(id_), cid(cid_) {}
 
+    TargetSummary_(const Self& o)
+    : Parent(o), r(this->w), id(o.id), cid(o.cid) {}
+
     void repr(std::ostream& os) const {
         os << "{\"type\":\"T\""
            << ",\"id\":" << id
-- 
2.43.0


From f0633de9e024d7c4c29a4ef8dabaf07fda16743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 07/30] fix: mixture sampling left samples unset and could not
 draw full states

---
 include/gm.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 029927a..22d522e 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -204,12 +204,20 @@ struct GM {
         }
     }
 
+    // Number of samples, out of n, drawn from the components up to and including i
+    unsigned nof_samples(const unsigned i, const unsigned n) const {
+        if (i + 1 == c.size()) { return n; }
+        double wsum = 0;
+        for (unsigned k = 0; k <= i; ++k) { wsum += c[k].w; }
+        return std::min(n, static_cast<unsigned>(std::lround(wsum * n)));
+    }
+
     template<typename RES>
     void sample(RES& res) const {
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
-            auto tmp = res.block(0, col, 2, csamples);
+            unsigned csamples = nof_samples(i, res.cols()) - col;
+            auto tmp = res.block(0, col, STATES, csamples);
             c[i].sample(tmp);
             col += csamples;
         }
@@ -219,7 +227,7 @@ struct GM {
     void sample_pos(RES& res) const {
         unsigned col = 0;
         for (unsigned i = 0; i < c.size(); ++i) {
-            unsigned csamples = c[i].w * res.cols();
+            unsigned csamples = nof_samples(i, res.cols()) - col;
             auto tmp = res.block(0, col, 2, csamples);
             c[i].sample_pos(tmp);
             col += csamples;
-- 
2.43.0


From 3e7a03d40212f7e9158327da9a5d626edc134363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 08/30] fix: score and density queries moved the targets and
 their boxes

---
 include/lmb.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index e396147..cd30cd6 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -223,9 +223,9 @@ class SILMB {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
             for (auto t : targets) {
-                t->transform_to_local(origin);
-                t->pdf.sample_pos(samples);
-                t->transform_to_global();
+                PDF pdf = t->pdf;
+                pdf.transform_to_local(origin);
+                pdf.sample_pos(samples);
                 for (auto s = 0; s < nof_samples; ++s) {
                     Eigen::Vector2i p = ((samples.col(s).array() - corner) / gridsize).floor().cast<int>();
                     if (p.x() < size.x() && p.y() < size.y() && p.x() >=0 && p.y() >= 0) {
@@ -265,9 +265,10 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(c);
                 for (int i = 0; i < M; ++i) {
+                    const PDF pdf = targettree.targets[i]->pdf;
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;
                 }
                 C = C.cwiseMin(c);
 
@@ -316,9 +317,10 @@ class SILMB {
                 Eigen::MatrixXd C(n, n);
                 C.setConstant(cp / 2);
                 for (int i = 0; i < M; ++i) {
+                    const PDF pdf = targettree.targets[i]->pdf;
                     targettree.targets[i]->transform_to_local(origin);
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
-                    targettree.targets[i]->transform_to_global();
+                    targettree.targets[i]->pdf = pdf;
                 }
                 C.block(0, 0, M, N).array() =
                     C.block(0, 0, M, N).cwiseMin(c).array().pow(p);
-- 
2.43.0


From 4a5dfe713bb5b16110caf3227feb9a3de11980f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 09/30] fix: Python cluster_nhyps returned the report counts

---
 lmb/lmb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index e0a2d03..bd2125f 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -204,6 +204,6 @@ PYBIND11_MODULE(lmb, m) {
         .def("gospa", (double (Tracker::*)(const typename Tracker::TargetStates&, const double, const double))&Tracker::gospa)
         .def_readonly("cluster_ntargets", &Tracker::cluster_ntargets)
         .def_readonly("cluster_nreports", &Tracker::cluster_nreports)
-        .def_readonly("cluster_nhyps", &Tracker::cluster_nreports)
+        .def_readonly("cluster_nhyps", &Tracker::cluster_nhyps)
         .def_readonly("nof_clusters", &Tracker::nof_clusters);
 }
-- 
2.43.0


From ad68214e649528245f63631e2515480416ea95ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 10/30] fix: hypothesis weights under- or overflowed to NaN
 existence probabilities

---
 include/cluster.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cluster.hpp b/include/cluster.hpp
index 7c3c4a3..90748bd 100644
--- a/include/cluster.hpp
+++ b/include/cluster.hpp
@@ -64,7 +64,7 @@ struct Cluster_ {
             // There are targets to match with
             // Create cost matrix
             Eigen::MatrixXd C(M, N + 2 * M);
-            C.setConstant(inf);
+            C.setConstant(lap::inf);
             for (unsigned i = 0; i < M; ++i) {
                 targets[i]->match(reports,
                                   sensor,
@@ -83,13 +83,16 @@ struct Cluster_ {
             Murty murty(C);
             Assignment res;
             double cost;
+            double best_cost = 0;
             double w;
             double w_sum = 0;
             Eigen::MatrixXd R(M, N + 1);
             R.setZero();
             // Draw most relevant hypotheses using Murty's algorithm
             while (murty.draw(res, cost)) {
-                w = std::exp(-cost);
+                // Weights are relative to the best hypothesis, which is drawn first
+                if (n == 0) { best_cost = cost; }
+                w = std::exp(best_cost - cost);
                 w_sum += w;
                 #pragma omp parallel for
                 for (unsigned i = 0; i < M; ++i) {
-- 
2.43.0


From 188f274d6d6df2973ddcdd5ae04add006bc568fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 11/30] fix: missed-detection weight could be negative by
 rounding, giving NaN costs

---
 include/gm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gm.hpp b/include/gm.hpp
index 22d522e..d29598d 100644
--- a/include/gm.hpp
+++ b/include/gm.hpp
@@ -109,7 +109,7 @@ struct GM {
         for (unsigned i = 0; i < c.size(); ++i) {
             eta += c[i].w * s.pD(c[i], origin);
         }
-        return 1 - eta;
+        return std::max(0.0, 1 - eta);
     }
 
     template<typename FT, typename QT>
-- 
2.43.0


From 001f222fc860f7846bf64c98347fb1f8a99886c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 12/30] fix: particle resampling shared its index between
 threads and could read past the end

---
 include/pf.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index e930cf6..c974fa0 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -150,10 +150,9 @@ struct PF {
         unsigned j = 0;
 
         States x2; x2.resize(STATES, N);
-        PARFOR
         for (unsigned i = 0; i < N; ++i) {
             double u = u0 + i * w0;
-            while (cdf[j] < u) { ++j; }
+            while (j + 1 < N && cdf[j] < u) { ++j; }
             x2.col(i) = x.col(j);
         }
         x = x2;
-- 
2.43.0


From b502675d63f7a755e733d41a62796df762d08603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 13/30] fix: plotted covariance ellipses were rotated by
 radians taken as degrees

---
 clmb.py     | 2 +-
 lmb/plot.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clmb.py b/clmb.py
index e89da73..0799252 100644
--- a/clmb.py
+++ b/clmb.py
@@ -142,7 +142,7 @@ def plot_traces(targets, cseed=0, covellipse=True, max_back=None, **kwargs):
 def plot_cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=theta, **kwargs)
+    ellip = Ellipse(xy=pos, width=2*r1, height=2*r2, angle=np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
diff --git a/lmb/plot.py b/lmb/plot.py
index 2030898..97160e2 100644
--- a/lmb/plot.py
+++ b/lmb/plot.py
@@ -95,7 +95,7 @@ def clusters(history, origin, c=0):
 def cov_ellipse(cov, pos, nstd=2, **kwargs):
     """Plot confidence ellipse."""
     r1, r2, theta = calc_cov_ellipse(cov, nstd)
-    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=theta, **kwargs)
+    ellip = Ellipse(xy=np.flipud(pos), width=2*r2, height=2*r1, angle=-np.degrees(theta), **kwargs)
 
     plt.gca().add_artist(ellip)
     return ellip
-- 
2.43.0


From d9e474100c6beb7997d5e347b85e3ee6233a17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 14/30] fix: plot_tracks called plotting helpers by names that
 do not exist

---
 lmb/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lmb/application.py b/lmb/application.py
index 9de9656..1236e16 100644
--- a/lmb/application.py
+++ b/lmb/application.py
@@ -82,8 +82,8 @@ class Application:
         extent = (neregion.min[1], neregion.max[1], neregion.min[0], neregion.max[0])
         lmb.plot.phd(phd, extent=extent)
 
-        lmb.plot.plot_scan(reports, self.origin, bbox=True, show_cid=True, clustercolor=True)
-        lmb.plot.plot_tracks(history, self.origin, covellipse=True, bbox=True, min_r=0.3, clustercolor=True)
+        lmb.plot.scan(reports, self.origin, draw_bbox=True, show_cid=True, clustercolor=True)
+        lmb.plot.tracks(history, self.origin, covellipse=True, draw_bbox=True, min_r=0.3, clustercolor=True)
         plt.gca().set_xlim(extent[0:2])
         plt.gca().set_ylim(extent[2:4])
 
-- 
2.43.0


From 4ec29566dd2f12567a75a3f20cb28743b312a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 15/30] fix: particle densities never became valid, so
 resampling and boxes were skipped

---
 include/pf.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pf.hpp b/include/pf.hpp
index c974fa0..d840af8 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -78,6 +78,7 @@ struct PF {
         std::iota(std::begin(permutation), std::end(permutation), 0);
         nrand(x, mean, covariance);
         w.setConstant(1.0 / N);
+        valid = true;
         transform_to_local(pos());
         transform_to_global();
     }
-- 
2.43.0


From f6fb09cdc00dc27eb814472876d1e18f078fa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 16/30] fix: a missed detection weighted particles by being
 detected

---
 include/pf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pf.hpp b/include/pf.hpp
index d840af8..ac2fe41 100644
--- a/include/pf.hpp
+++ b/include/pf.hpp
@@ -107,10 +107,10 @@ struct PF {
     double missed(const Sensor& s) {
         PARFOR
         for (unsigned i = 0; i < N; ++i) {
-            w[i] *= s.pD(Particle(x.col(i)), origin);
+            w[i] *= 1 - s.pD(Particle(x.col(i)), origin);
         }
         normalize();
-        return 1 - eta;
+        return eta;
     }
 
     void normalize() {
-- 
2.43.0


From 13838bca8411a88131675a47bf084c6fe12344d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 17/30] fix: queries from other threads saw half-updated
 targets during a correction

---
 include/lmb.hpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index cd30cd6..82532ae 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -55,7 +55,7 @@ class SILMB {
 #ifdef DEBUG_OUTPUT
         std::cout << "\n\nPredict::::::::::" << std::endl;
 #endif
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             auto all_targets = targettree.targets;
             targettree.remove_all();
@@ -92,6 +92,15 @@ class SILMB {
 
     template<typename Sensor>
     void correct(const Sensor& sensor, typename Sensor::Scan& scan, double time) {  // NOLINT
+        CRITICAL(tracker)
+        {
+            process(sensor, scan, time);
+        }
+    }
+
+ private:
+    template<typename Sensor>
+    void process(const Sensor& sensor, typename Sensor::Scan& scan, double time) {  // NOLINT
         using Report = typename Sensor::Report;
         using Cluster = Cluster_<Report, Target>;
         using Clusters = typename std::vector<Cluster>;
@@ -133,9 +142,10 @@ class SILMB {
         birth(clusters, scan, sensor, time);
     }
 
+ public:
     double enof_targets() {
         double res = 0;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto& t : targettree.targets) {
                 res += t->r;
@@ -146,7 +156,7 @@ class SILMB {
 
     double enof_targets(const AABBox& aabbox) {
         double res = 0;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto& t : targettree.query(aabbox)) {
                 res += t->r;
@@ -157,7 +167,7 @@ class SILMB {
 
     unsigned nof_targets(const double r_lim = 0.7) {
         unsigned res = 0;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto& t : targettree.targets) {
                 if (t->r >= r_lim) { ++res; }
@@ -168,7 +178,7 @@ class SILMB {
 
     unsigned nof_targets(const AABBox& aabbox, const double r_lim = 0.7) {
         unsigned res = 0;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto& t : targettree.query(aabbox)) {
                 if (t->r >= r_lim) { ++res; }
@@ -179,7 +189,7 @@ class SILMB {
 
     TargetSummaries get_targets() {
         TargetSummaries res;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto& t : targettree.targets) {
                 res.emplace_back(t->pdf.mean(),
@@ -194,7 +204,7 @@ class SILMB {
 
     TargetSummaries get_targets(const AABBox& aabbox) {
         TargetSummaries res;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto& t : targettree.query(aabbox)) {
                 res.emplace_back(t->pdf.mean(),
@@ -218,7 +228,7 @@ class SILMB {
         res.setZero();
         static const int nof_samples = 1000;
 
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             auto targets = targettree.query(fov);
             Eigen::Array<double, 2, Eigen::Dynamic> samples(2, nof_samples);
@@ -241,7 +251,7 @@ class SILMB {
     double ospa(const TargetStates& truth, const double c, const double p) {
         cf::LL origin; origin.setZero();
         for (auto t : truth) { origin += t.template head<2>(); }
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto t : targettree.targets) { origin += t->pos(); }
             origin /= truth.size() + targettree.targets.size();
@@ -255,7 +265,7 @@ class SILMB {
         for (unsigned i = 0; i != truth.size(); ++i) {
             cf::ll2ne_i(netruth[i], origin);
         }
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             int M = targettree.targets.size();
             int N = netruth.size();
@@ -290,7 +300,7 @@ class SILMB {
     double gospa(const TargetStates& truth, const double c, const double p) {
         cf::LL origin; origin.setZero();
         for (auto t : truth) { origin += t.template head<2>(); }
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             for (auto t : targettree.targets) { origin += t->pos(); }
             origin /= truth.size() + targettree.targets.size();
@@ -305,7 +315,7 @@ class SILMB {
         }
 
         double score = 0;
-        CRITICAL(ttree)
+        CRITICAL(tracker)
         {
             int M = targettree.targets.size();
             int N = netruth.size();
-- 
2.43.0


From f4d01b382b2263eda88df804a40c9d29e00a659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 18/30] fix: covariances of multi-component targets mixed
 degrees with metres

---
 include/lmb.hpp    |  4 ++--
 include/target.hpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 82532ae..583afb2 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -193,7 +193,7 @@ class SILMB {
         {
             for (auto& t : targettree.targets) {
                 res.emplace_back(t->pdf.mean(),
-                                 t->pdf.cov(),
+                                 t->cov(),
                                  t->r,
                                  t->id,
                                  t->cid);
@@ -208,7 +208,7 @@ class SILMB {
         {
             for (auto& t : targettree.query(aabbox)) {
                 res.emplace_back(t->pdf.mean(),
-                                 t->pdf.cov(),
+                                 t->cov(),
                                  t->r,
                                  t->id,
                                  t->cid);
diff --git a/include/target.hpp b/include/target.hpp
index ab588f3..78dfd8f 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -85,7 +85,7 @@ struct Target_ {
             //std::cout << "Removing b/c r_lim" << std::endl;
             return false;
         }
-        if (pdf.poscov().norm() > params->cov_lim) {
+        if (cov().template topLeftCorner<2, 2>().norm() > params->cov_lim) {
             //std::cout << "Removing b/c poscov" << std::endl;
             return false;
         }
@@ -108,6 +108,14 @@ struct Target_ {
         return pdf.pos();
     }
 
+    // Covariance in metres: the spread of the component means has to be
+    // measured in the local frame, as positions are otherwise in degrees
+    typename PDF::Covariance cov() const {
+        PDF local(pdf);
+        local.transform_to_local();
+        return local.cov();
+    }
+
     explicit Target_(const Self&) = delete;
     Self operator=(const Self&) = delete;
 
@@ -197,7 +205,7 @@ struct Target_ {
     }
 
     Gaussian summary() {
-        return TargetSummary(pdf.mean(), pdf.cov(), r, id, cid);
+        return TargetSummary(pdf.mean(), cov(), r, id, cid);
     }
 
     void repr(std::ostream& os) const {
-- 
2.43.0


From c7abde4a9980a72f40e3a6f59ab8b71415e75f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 19/30] fix: rotated boxes were compared with axis-aligned ones
 by their hulls only

---
 include/bbox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index dc6ade2..556294e 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -191,7 +191,7 @@ struct BBox {
     }
 
     bool intersects(const AABBox& aabb) const {
-        return aabbox().intersects(aabb);
+        return intersects(BBox(aabb));
     }
 
     template<typename State>
-- 
2.43.0


From 8b09a4b948e91ae6f24dceba475de0213188e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 20/30] fix: the OSPA assignment minimised the distances
 instead of their powers

---
 include/lmb.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index 583afb2..bcdc699 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -280,18 +280,11 @@ class SILMB {
                     targettree.targets[i]->distance(netruth, C.block(i, 0, 1, N));
                     targettree.targets[i]->pdf = pdf;
                 }
-                C = C.cwiseMin(c);
+                C = C.cwiseMin(c).array().pow(p).matrix().eval();
 
-                // Note that since exp() is strictly increasing, C and C.^p yields the
-                // same assignments. By only raising the result, we compute fewer
-                // exponentials
                 auto res = lap::lap(C);
 
-                double cost = 0;
-                for (unsigned i = 0; i < res.rows(); ++i) {
-                    cost += std::pow(C(i, res[i]), p);
-                }
-                score = std::pow(cost / n, 1.0 / p);
+                score = std::pow(lap::cost(C, res) / n, 1.0 / p);
             }
         }
         return score;
-- 
2.43.0


From 800d38200926a5cf084ce943e05544d5f308d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 21/30] fix: the assignment solver could practically never end
 on nearly tied costs

---
 include/rlapjv.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/rlapjv.h b/include/rlapjv.h
index 2d58a9e..71419c0 100644
--- a/include/rlapjv.h
+++ b/include/rlapjv.h
@@ -300,11 +300,16 @@ cost rlap(int dim0, int dim1,
 
 
     // AUGMENTING ROW REDUCTION
+    // Rows competing for nearly equal columns may lower the prices in minute
+    // steps, practically for ever. After a bounded number of steps, the
+    // remaining rows are left to the shortest augmenting paths.
+    const long maxsteps = static_cast<long>(dim0) * dim1;
     for (int loopcnt = 0; loopcnt < 2; loopcnt++)
     { // loop to be done twice.
         // scan all free rows.
         // in some cases, a free row may be replaced with another one to be scanned next.
         idx k = 0;
+        long steps = 0;
         idx prevnumfree = numfree;
         numfree = 0; // start list of rows still free after augmenting row reduction.
         while (k < prevnumfree)
@@ -319,7 +324,11 @@ cost rlap(int dim0, int dim1,
             idx i0 = colsol[j1];
             cost vj1_new = v[j1] - (usubmin - umin);
             bool vj1_lowers = vj1_new < v[j1]; // the trick to eliminate the epsilon bug
-            if (vj1_lowers)
+            if (vj1_lowers && ++steps > maxsteps)
+            {
+                vj1_lowers = false; // assign at the current price
+            }
+            else if (vj1_lowers)
             {
                 // change the reduction of the minimum column to increase the minimum
                 // reduced cost in the row to the subminimum.
-- 
2.43.0


From b6bd60fcbd8a5b1a253110463d017c9da79a0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:27 +0000
Subject: [PATCH 22/30] fix: singular covariances gave NaN boxes and samples

---
 include/bbox.hpp       | 6 ++++--
 include/statistics.hpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/bbox.hpp b/include/bbox.hpp
index 556294e..eaa4095 100644
--- a/include/bbox.hpp
+++ b/include/bbox.hpp
@@ -44,7 +44,8 @@ struct AABBox {
     template<typename T1, typename T2>
     void from_gaussian(const T1& x, const T2& P, double nstd = 2.0) {
         Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d> solver(P);
-        auto l = solver.eigenvalues();
+        // Eigenvalues of a singular covariance may come out slightly negative
+        auto l = solver.eigenvalues().cwiseMax(0.0).eval();
         auto e = solver.eigenvectors();
 
         // theta is the direction of the major axis
@@ -160,7 +161,8 @@ struct BBox {
     template<typename State, typename Covariance>
     void from_gaussian(const State& x, const Covariance& P, double nstd = 2.0) {
         Eigen::SelfAdjointEigenSolver<Eigen::Matrix2d> solver(P);
-        auto l = solver.eigenvalues();
+        // Eigenvalues of a singular covariance may come out slightly negative
+        auto l = solver.eigenvalues().cwiseMax(0.0).eval();
         auto e = solver.eigenvectors();
         double r1 = nstd * std::sqrt(l[0]);
         double r2 = nstd * std::sqrt(l[1]);
diff --git a/include/statistics.hpp b/include/statistics.hpp
index 2510d84..ecd4864 100644
--- a/include/statistics.hpp
+++ b/include/statistics.hpp
@@ -9,8 +9,9 @@ namespace lmb {
     template<typename RES, typename MEAN, typename COV>
     void nrand(RES& res, const MEAN mean, const COV covariance) {
         Eigen::SelfAdjointEigenSolver<COV> eigenSolver(covariance);
+        // Eigenvalues of a singular covariance may come out slightly negative
         auto transform = eigenSolver.eigenvectors() \
-            * eigenSolver.eigenvalues().cwiseSqrt().asDiagonal();
+            * eigenSolver.eigenvalues().cwiseMax(0.0).cwiseSqrt().asDiagonal();
         for(Eigen::DenseIndex i = 0; i < res.cols(); ++i) {
             res.col(i) = mean + transform * MEAN{}.unaryExpr(
                 [&](auto) { return nrand(); } );
-- 
2.43.0


From ec8eee93b5d78229ae72fab84751a5b27ddaf42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 23/30] fix: the index split nodes of incomparably large boxes
 by uninitialised seeds

---
 include/RTree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/RTree.h b/include/RTree.h
index 92f3001..57bd050 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -1240,6 +1240,7 @@ void RTREE_QUAL::ChoosePartition(PartitionVars* a_parVars, int a_minFill)
        && (a_parVars->m_count[1] < (a_parVars->m_total - a_parVars->m_minFill)))
   {
     biggestDiff = (ELEMTYPEREAL) -1;
+    chosen = -1;
     for(int index=0; index<a_parVars->m_total; ++index)
     {
       if(!a_parVars->m_taken[index])
@@ -1260,7 +1261,7 @@ void RTREE_QUAL::ChoosePartition(PartitionVars* a_parVars, int a_minFill)
           diff = -diff;
         }
 
-        if(diff > biggestDiff)
+        if(chosen < 0 || diff > biggestDiff)
         {
           biggestDiff = diff;
           chosen = index;
@@ -1347,7 +1348,7 @@ void RTREE_QUAL::InitParVars(PartitionVars* a_parVars, int a_maxRects, int a_min
 RTREE_TEMPLATE
 void RTREE_QUAL::PickSeeds(PartitionVars* a_parVars)
 {
-  int seed0, seed1;
+  int seed0 = 0, seed1 = 1; // Also the choice if no volume is comparable
   ELEMTYPEREAL worst, waste;
   ELEMTYPEREAL area[MAXNODES+1];
 
-- 
2.43.0


From d7d22f575998e975cec49df9b71b2a4648b4c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 24/30] fix: printing a tracker raced with predictions and
 corrections

---
 include/lmb.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index bcdc699..b1fff30 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -336,13 +336,16 @@ class SILMB {
     }
 
     void repr(std::ostream& os) const {
-        os << "{\"targets\":[";
-        bool first = true;
-        for (auto& t : targettree.targets) {
-            if (!first) { os << ","; } else { first = false; }
-            os << *t;
+        CRITICAL(tracker)
+        {
+            os << "{\"targets\":[";
+            bool first = true;
+            for (auto& t : targettree.targets) {
+                if (!first) { os << ","; } else { first = false; }
+                os << *t;
+            }
+            os << "]}";
         }
-        os << "]}";
     }
 
  private:
-- 
2.43.0


From e200135777f137d05e59be9b57ae7b980208b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 25/30] fix: the number of clusters was uninitialised before
 the first correction

---
 include/lmb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lmb.hpp b/include/lmb.hpp
index b1fff30..7da1bc1 100644
--- a/include/lmb.hpp
+++ b/include/lmb.hpp
@@ -40,7 +40,7 @@ class SILMB {
     Params params;
 
     TargetTree targettree;
-    unsigned nof_clusters;
+    unsigned nof_clusters = 0;
     std::vector<int> cluster_ntargets;
     std::vector<int> cluster_nreports;
     std::vector<int> cluster_nhyps;
-- 
2.43.0


From dd97e02e341c75996077905577e787628c31003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 26/30] fix: the index truncated subtree pointers when its
 entries are smaller than a pointer

---
 include/RTree.h | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/RTree.h b/include/RTree.h
index 57bd050..4763e3b 100644
--- a/include/RTree.h
+++ b/include/RTree.h
@@ -325,8 +325,8 @@ protected:
   void FreeNode(Node* a_node);
   void InitNode(Node* a_node);
   void InitRect(Rect* a_rect);
-  bool InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node, Node** a_newNode, int a_level);
-  bool InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, int a_level);
+  bool InsertRectRec(Branch* a_branch, Node* a_node, Node** a_newNode, int a_level);
+  bool InsertRect(Branch* a_branch, Node** a_root, int a_level);
   Rect NodeCover(Node* a_node);
   bool AddBranch(Branch* a_branch, Node* a_node, Node** a_newNode);
   void DisconnectBranch(Node* a_node, int a_index);
@@ -484,15 +484,16 @@ void RTREE_QUAL::Insert(const ELEMTYPE a_min[NUMDIMS], const ELEMTYPE a_max[NUMD
   }
 #endif //_DEBUG
 
-  Rect rect;
+  Branch branch;
+  branch.m_data = a_dataId;
 
   for(int axis=0; axis<NUMDIMS; ++axis)
   {
-    rect.m_min[axis] = a_min[axis];
-    rect.m_max[axis] = a_max[axis];
+    branch.m_rect.m_min[axis] = a_min[axis];
+    branch.m_rect.m_max[axis] = a_max[axis];
   }
 
-  InsertRect(&rect, a_dataId, &m_root, 0);
+  InsertRect(&branch, &m_root, 0);
 }
 
 
@@ -875,9 +876,9 @@ void RTREE_QUAL::InitRect(Rect* a_rect)
 // The level argument specifies the number of steps up from the leaf
 // level to insert; e.g. a data rectangle goes in at level = 0.
 RTREE_TEMPLATE
-bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node, Node** a_newNode, int a_level)
+bool RTREE_QUAL::InsertRectRec(Branch* a_branch, Node* a_node, Node** a_newNode, int a_level)
 {
-  ASSERT(a_rect && a_node && a_newNode);
+  ASSERT(a_branch && a_node && a_newNode);
   ASSERT(a_level >= 0 && a_level <= a_node->m_level);
 
   int index;
@@ -887,11 +888,11 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   // Still above level for insertion, go down tree recursively
   if(a_node->m_level > a_level)
   {
-    index = PickBranch(a_rect, a_node);
-    if (!InsertRectRec(a_rect, a_id, a_node->m_branch[index].m_child, &otherNode, a_level))
+    index = PickBranch(&a_branch->m_rect, a_node);
+    if (!InsertRectRec(a_branch, a_node->m_branch[index].m_child, &otherNode, a_level))
     {
       // Child was not split
-      a_node->m_branch[index].m_rect = CombineRect(a_rect, &(a_node->m_branch[index].m_rect));
+      a_node->m_branch[index].m_rect = CombineRect(&a_branch->m_rect, &(a_node->m_branch[index].m_rect));
       return false;
     }
     else // Child was split
@@ -904,10 +905,8 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   }
   else if(a_node->m_level == a_level) // Have reached level for insertion. Add rect, split if necessary
   {
-    branch.m_rect = *a_rect;
-    branch.m_child = (Node*) a_id;
     // Child field of leaves contains id of data record
-    return AddBranch(&branch, a_node, a_newNode);
+    return AddBranch(a_branch, a_node, a_newNode);
   }
   else
   {
@@ -926,14 +925,14 @@ bool RTREE_QUAL::InsertRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
 // InsertRect2 does the recursion.
 //
 RTREE_TEMPLATE
-bool RTREE_QUAL::InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, int a_level)
+bool RTREE_QUAL::InsertRect(Branch* a_branch, Node** a_root, int a_level)
 {
-  ASSERT(a_rect && a_root);
+  ASSERT(a_branch && a_root);
   ASSERT(a_level >= 0 && a_level <= (*a_root)->m_level);
 #ifdef _DEBUG
   for(int index=0; index < NUMDIMS; ++index)
   {
-    ASSERT(a_rect->m_min[index] <= a_rect->m_max[index]);
+    ASSERT(a_branch->m_rect.m_min[index] <= a_branch->m_rect.m_max[index]);
   }
 #endif //_DEBUG
 
@@ -941,7 +940,7 @@ bool RTREE_QUAL::InsertRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root, i
   Node* newNode;
   Branch branch;
 
-  if(InsertRectRec(a_rect, a_id, *a_root, &newNode, a_level))  // Root split
+  if(InsertRectRec(a_branch, *a_root, &newNode, a_level))  // Root split
   {
     newRoot = AllocNode();  // Grow tree taller and new root
     newRoot->m_level = (*a_root)->m_level + 1;
@@ -1423,8 +1422,7 @@ bool RTREE_QUAL::RemoveRect(Rect* a_rect, const DATATYPE& a_id, Node** a_root)
 
       for(int index = 0; index < tempNode->m_count; ++index)
       {
-        InsertRect(&(tempNode->m_branch[index].m_rect),
-                   tempNode->m_branch[index].m_data,
+        InsertRect(&(tempNode->m_branch[index]),
                    a_root,
                    tempNode->m_level);
       }
@@ -1493,7 +1491,7 @@ bool RTREE_QUAL::RemoveRectRec(Rect* a_rect, const DATATYPE& a_id, Node* a_node,
   {
     for(int index = 0; index < a_node->m_count; ++index)
     {
-      if(a_node->m_branch[index].m_child == (Node*)a_id)
+      if(a_node->m_branch[index].m_data == a_id)
       {
         DisconnectBranch(a_node, index); // Must return after this call as count has changed
         return false;
-- 
2.43.0


From 297a41dbec81642f7262340c6823489725f7a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 27/30] fix: unpickling an AABBox swapped the ends of an
 inverted box

---
 lmb/lmb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lmb/lmb.cpp b/lmb/lmb.cpp
index bd2125f..ac7672b 100644
--- a/lmb/lmb.cpp
+++ b/lmb/lmb.cpp
@@ -100,8 +100,10 @@ PYBIND11_MODULE(lmb, m) {
                 }
 
                 /* Create a new C++ instance */
-                return AABBox(t[0].cast<double>(), t[1].cast<double>(),
-                              t[2].cast<double>(), t[3].cast<double>());
+                AABBox aabbox;
+                aabbox.min = {t[0].cast<double>(), t[1].cast<double>()};
+                aabbox.max = {t[2].cast<double>(), t[3].cast<double>()};
+                return aabbox;
             }
         ));
     py::class_<Tracker::Gaussian>(m, "Gaussian")
-- 
2.43.0


From 60837f34fb4906452679c0eedf6c9428cf197327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 28/30] fix: a target summary written to a stream lost its
 identity

---
 include/target.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/target.hpp b/include/target.hpp
index 78dfd8f..2dff543 100644
--- a/include/target.hpp
+++ b/include/target.hpp
@@ -44,6 +44,12 @@ struct alignas(16) TargetSummary_ : public Gaussian_<S> {
 };
 template<int S> using TargetSummaries_ = std::vector<TargetSummary_<S>>;
 
+template<int S>
+auto& operator<<(std::ostream& os, const TargetSummary_<S>& t) {
+    t.repr(os);
+    return os;
+}
+
 template<typename PDF_>
 struct Target_ {
     using PDF = PDF_;
-- 
2.43.0


From 0094f1c207e9d3e433f3e5a1d8c73a340fc65a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 29/30] fix: the trace viewer failed on traces of more than
 twelve lines

---
 plots/plot_results.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plots/plot_results.py b/plots/plot_results.py
index 2f28eec..5429e15 100644
--- a/plots/plot_results.py
+++ b/plots/plot_results.py
@@ -21,14 +21,16 @@ def draw(args):
 
     with open(args.filename, 'r') as file_:
         i = 0
-        for line in file_:
+        lines = file_.readlines()
+        rows = max(4, (len(lines) + 2) // 3)
+        for line in lines:
             i += 1
             data = json.loads(line)
             for t in data["post"]["targets"]:
                 if t["id"] not in targets:
                     targets[t["id"]] = clmb.Target(t)
                 targets[t["id"]].add_state(t)
-            clmb.plt.subplot(4, 3, i)
+            clmb.plt.subplot(rows, 3, i)
             clmb.plt.title(data["t"])
             clmb.plot_traces((targets[t["id"]] for t in data["post"]["targets"]), covellipse=True, r_values=True)
             # clmb.plt.axis([-1, 11, -2, 12])
-- 
2.43.0


From 1d8de088ffb6fd418f77f0c5439549958dc2cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 30/30] fix: covariance ellipses of singular covariances were
 not drawn

---
 clmb.py     | 3 ++-
 lmb/plot.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clmb.py b/clmb.py
index 0799252..4073e29 100644
--- a/clmb.py
+++ b/clmb.py
@@ -84,7 +84,8 @@ def eigsorted(cov):
 def cov_ellipse(cov, nstd):
     """Get the covariance ellipse."""
     vals, vecs = eigsorted(cov)
-    r1, r2 = nstd * np.sqrt(vals)
+    # Eigenvalues of a singular covariance may come out slightly negative
+    r1, r2 = nstd * np.sqrt(np.maximum(vals, 0))
     theta = np.arctan2(*vecs[:, 0][::-1])
 
     return r1, r2, theta
diff --git a/lmb/plot.py b/lmb/plot.py
index 97160e2..55e3c32 100644
--- a/lmb/plot.py
+++ b/lmb/plot.py
@@ -34,7 +34,8 @@ def eigsorted(cov):
 def calc_cov_ellipse(cov, nstd):
     """Get the covariance ellipse."""
     vals, vecs = eigsorted(cov)
-    r1, r2 = nstd * np.sqrt(vals)
+    # Eigenvalues of a singular covariance may come out slightly negative
+    r1, r2 = nstd * np.sqrt(np.maximum(vals, 0))
     theta = np.arctan2(*vecs[:, 0][::-1])
 
     return r1, r2, theta
-- 
2.43.0

