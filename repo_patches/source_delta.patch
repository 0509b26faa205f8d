From a0a1e9e25d8e9e1a64f510afda59e75c551ff321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 01/25] fix: Element base compute_dN_impl: contract Jinv with
 dNxi over the summed index (was wrong for non-diagonal Jacobians, e.g.
 sheared Hex8)

---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index ce37145..c077b6a 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1217,7 +1217,7 @@ private:
                     for (size_t m = 0; m < D::s_nne; ++m) {
                         for (size_t i = 0; i < D::s_ndim; ++i) {
                             for (size_t j = 0; j < D::s_ndim; ++j) {
-                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, i);
+                                dNxq(m, i) += Jinv(i, j) * dNxiq(m, j);
                             }
                         }
                     }
-- 
2.43.0


From 379a8ac5d46cb46eeced880713b44410d7c22298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 02/25] fix: Element base int_gradN_dot_tensor2_dV_impl: member
 is m_dNx

---
 include/GooseFEM/Element.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index c077b6a..1bd6818 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -1101,7 +1101,7 @@ private:
 
         auto nelem = derived_cast().m_nelem;
         auto nip = derived_cast().m_nip;
-        auto& dNx = derived_cast().m_m_dNx;
+        auto& dNx = derived_cast().m_dNx;
         auto& vol = derived_cast().m_vol;
 
         elemvec.fill(0.0);
-- 
2.43.0


From 3e0f7a7808781f4abd5b9d23220dfcdcdc4cb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 03/25] fix: Element::isDiagonal: inline (ODR) and no return
 out of an OpenMP parallel loop

---
 include/GooseFEM/Element.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index 1bd6818..b5977fe 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -119,7 +119,7 @@ inline bool isSequential(const E& dofs)
  * @param elemmat Element-vectors ("elemmat")
  * @return `true` if all element matrices are diagonal.
  */
-bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
+inline bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 {
     GOOSEFEM_ASSERT(elemmat.shape(1) == elemmat.shape(2));
 
@@ -128,7 +128,6 @@ bool isDiagonal(const array_type::tensor<double, 3>& elemmat)
 
     double eps = std::numeric_limits<double>::epsilon();
 
-#pragma omp parallel for
     for (size_t e = 0; e < nelem; ++e) {
         for (size_t i = 0; i < N; ++i) {
             for (size_t j = 0; j < N; ++j) {
-- 
2.43.0


From b8d098a9559774b002577d6e492985ca2936624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 04/25] fix: Element::isSequential: inspect the counts of all
 DOFs in range, not only of those present (always returned true)

---
 include/GooseFEM/Element.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/Element.h b/include/GooseFEM/Element.h
index b5977fe..e7b3259 100644
--- a/include/GooseFEM/Element.h
+++ b/include/GooseFEM/Element.h
@@ -103,8 +103,8 @@ inline bool isSequential(const E& dofs)
         exists[i]++;
     }
 
-    for (auto& i : dofs) {
-        if (exists[i] == 0) {
+    for (auto& i : exists) {
+        if (i == 0) {
             return false;
         }
     }
-- 
2.43.0


From d759042680912a3eb557d8c4902c00b751b1c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 05/25] fix: MatrixPartitionedTyings::AsDofs_d(dofval): read
 the dependent DOFs (iid), not the prescribed ones

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 7ffa962..83b35ac 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -483,7 +483,7 @@ private:
 
 #pragma omp parallel for
         for (size_t d = 0; d < m_nnd; ++d) {
-            dofval_d(d) = dofval(m_iip(d));
+            dofval_d(d) = dofval(m_iid(d));
         }
 
         return dofval_d;
-- 
2.43.0


From afb5794f6ae29ee3018595e46e3bde345cda474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 06/25] fix: MatrixPartitionedTyingsSolver::solve_dofval_impl:
 condense the load on the dependent DOFs (as for nodevec)

---
 include/GooseFEM/MatrixPartitionedTyings.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 83b35ac..e7cd548 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -572,6 +572,8 @@ private:
         Eigen::VectorXd B_d = A.AsDofs_d(b);
         Eigen::VectorXd X_p = A.AsDofs_p(x);
 
+        B_u += A.m_Cud * B_d;
+
         Eigen::VectorXd X_u = m_solver.solve(Eigen::VectorXd(B_u - A.m_ACup * X_p));
         Eigen::VectorXd X_d = A.m_Cdu * X_u + A.m_Cdp * X_p;
 
-- 
2.43.0


From 96f8cd5200ce429bff515802d66ae3185d955a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 07/25] fix: MatrixPartitionedTyingsSolver::solve_u: condense
 b_d instead of ignoring it

---
 include/GooseFEM/MatrixPartitionedTyings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index e7cd548..3671780 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -632,7 +632,6 @@ public:
         array_type::tensor<double, 1>& x_u
     )
     {
-        UNUSED(b_d);
         GOOSEFEM_ASSERT(b_u.size() == A.m_nnu);
         GOOSEFEM_ASSERT(b_d.size() == A.m_nnd);
         GOOSEFEM_ASSERT(x_p.size() == A.m_nnp);
@@ -642,7 +641,8 @@ public:
 
         Eigen::Map<Eigen::VectorXd>(x_u.data(), x_u.size()).noalias() =
             m_solver.solve(Eigen::VectorXd(
-                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) -
+                Eigen::Map<const Eigen::VectorXd>(b_u.data(), b_u.size()) +
+                A.m_Cud * Eigen::Map<const Eigen::VectorXd>(b_d.data(), b_d.size()) -
                 A.m_ACup * Eigen::Map<const Eigen::VectorXd>(x_p.data(), x_p.size())
             ));
     }
-- 
2.43.0


From 9628697d888c22aa4942e88961a7e5b39cf7be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 08/25] fix: MatrixDiagonalBase::Solve: do not return
 uninitialised prescribed DOFs for MatrixDiagonalPartitioned

---
 include/GooseFEM/MatrixDiagonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MatrixDiagonal.h b/include/GooseFEM/MatrixDiagonal.h
index 6c72b15..a0e2a0c 100644
--- a/include/GooseFEM/MatrixDiagonal.h
+++ b/include/GooseFEM/MatrixDiagonal.h
@@ -52,7 +52,7 @@ public:
      */
     array_type::tensor<double, 2> Solve(const array_type::tensor<double, 2>& b)
     {
-        array_type::tensor<double, 2> x = xt::empty_like(b);
+        array_type::tensor<double, 2> x = xt::zeros_like(b);
         derived_cast().solve_nodevec_impl(b, x);
         return x;
     }
@@ -69,7 +69,7 @@ public:
      */
     array_type::tensor<double, 1> Solve(const array_type::tensor<double, 1>& b)
     {
-        array_type::tensor<double, 1> x = xt::empty_like(b);
+        array_type::tensor<double, 1> x = xt::zeros_like(b);
         derived_cast().solve_dofval_impl(b, x);
         return x;
     }
-- 
2.43.0


From 3d4b3597fcafb0f591b273c0c12548e3ed51ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 09/25] fix: MatrixPartitionedBase::Reaction_p: use the size of
 the derived class (base member is shadowed and uninitialised for
 MatrixDiagonalPartitioned)

---
 include/GooseFEM/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 4a25c46..9ff491d 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -555,7 +555,7 @@ public:
         const array_type::tensor<double, 1>& x_p
     ) const
     {
-        array_type::tensor<double, 1> b_p = xt::empty<double>({m_nnp});
+        array_type::tensor<double, 1> b_p = xt::empty<double>({derived_cast().m_nnp});
         derived_cast().reaction_p_impl(x_u, x_p, b_p);
         return b_p;
     }
-- 
2.43.0


From 71c5775534cf5f643951c6823a9df17568ff07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 10/25] fix: Iterate::StopList::all_less: a NaN residual is not
 less than the tolerance

---
 include/GooseFEM/Iterate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/Iterate.h b/include/GooseFEM/Iterate.h
index 8ec4c3b..54f2497 100644
--- a/include/GooseFEM/Iterate.h
+++ b/include/GooseFEM/Iterate.h
@@ -90,7 +90,7 @@ public:
      */
     bool all_less(double tol) const
     {
-        return !std::any_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i >= tol; });
+        return std::all_of(m_res.cbegin(), m_res.cend(), [=](const auto& i) { return i < tol; });
     }
 
     /**
-- 
2.43.0


From 739274f61a0af6a3a061b63462230fa82258ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 11/25] fix: solvers: never reuse the factorization of other
 content (one solver with two matrices, or two solvers with one matrix)

---
 include/GooseFEM/Matrix.h                  | 28 ++++++++++++++++++----
 include/GooseFEM/MatrixPartitioned.h       | 11 +++++----
 include/GooseFEM/MatrixPartitionedTyings.h | 11 +++++----
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index 9ff491d..ee06491 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -13,8 +13,24 @@
 #include <Eigen/Sparse>
 #include <Eigen/SparseCholesky>
 
+#include <atomic>
+
 namespace GooseFEM {
 
+namespace detail {
+
+/**
+ * Unique identifier (non-zero) for the content of a matrix,
+ * used by the solvers to recognise the content they have factorized.
+ */
+inline size_t matrix_stamp()
+{
+    static std::atomic<size_t> counter{0};
+    return ++counter;
+}
+
+} // namespace detail
+
 // forward declaration
 template <class>
 class MatrixSolver;
@@ -207,6 +223,7 @@ protected:
     size_t m_ndof; ///< See ndof().
 
     bool m_changed = true; ///< Signal changes to data.
+    size_t m_stamp = 0; ///< Identifies the content (refreshed by the solver after a change).
 
 public:
     /**
@@ -892,19 +909,22 @@ private:
 
 private:
     Solver m_solver; ///< Solver.
-    bool m_factor = true; ///< Signal to force factorization.
+    size_t m_stamp = 0; ///< Content that was factorized (0: none)
 
     /**
      * Compute inverse (evaluated by "solve").
      */
     void factorize(Matrix& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_stamp = detail::matrix_stamp();
+            A.m_changed = false;
+        }
+        if (m_stamp == A.m_stamp) {
             return;
         }
         m_solver.compute(A.m_A);
-        m_factor = false;
-        A.m_changed = false;
+        m_stamp = A.m_stamp;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 1567d61..016acba 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -625,19 +625,22 @@ private:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_stamp = 0; ///< content that was factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitioned& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_stamp = detail::matrix_stamp();
+            A.m_changed = false;
+        }
+        if (m_stamp == A.m_stamp) {
             return;
         }
         m_solver.compute(A.m_Auu);
-        m_factor = false;
-        A.m_changed = false;
+        m_stamp = A.m_stamp;
     }
 };
 
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 3671780..f5ad1b1 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -649,14 +649,18 @@ public:
 
 private:
     Solver m_solver; ///< solver
-    bool m_factor = true; ///< signal to force factorization
+    size_t m_stamp = 0; ///< content that was factorized (0: none)
 
     /**
      * compute inverse (evaluated by "solve")
      */
     void factorize(MatrixPartitionedTyings& A)
     {
-        if (!A.m_changed && !m_factor) {
+        if (A.m_changed) {
+            A.m_stamp = detail::matrix_stamp();
+            A.m_changed = false;
+        }
+        if (m_stamp == A.m_stamp) {
             return;
         }
 
@@ -671,8 +675,7 @@ private:
         //     + A.m_Cpd * A.m_Add * A.m_Cdp;
 
         m_solver.compute(A.m_ACuu);
-        m_factor = false;
-        A.m_changed = false;
+        m_stamp = A.m_stamp;
     }
 };
 
-- 
2.43.0


From 7b0f374b94f81f27b01534140cc25e81c77718cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 12/25] fix: Quad4::FineLayer(coor, conn): check the bounds
 before reading conn

---
 include/GooseFEM/MeshQuad4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 28b8e74..b726c95 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1097,11 +1097,11 @@ private:
         size_t eleft = emid;
         size_t eright = emid;
 
-        while (conn(eleft, 0) == conn(eleft - 1, 1) && eleft > 0) {
+        while (eleft > 0 && conn(eleft, 0) == conn(eleft - 1, 1)) {
             eleft--;
         }
 
-        while (conn(eright, 1) == conn(eright + 1, 0) && eright < conn.shape(0) - 1) {
+        while (eright < conn.shape(0) - 1 && conn(eright, 1) == conn(eright + 1, 0)) {
             eright++;
         }
 
-- 
2.43.0


From 8b2864485eec00fbd2428aff8708733de2db5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 13/25] fix: Quad4::FineLayer(coor, conn): round the number of
 rows (truncation lost one, e.g. nelx = 1, nely = 3, h = 0.7)

---
 include/GooseFEM/MeshQuad4.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index b726c95..7fa8fd7 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1124,7 +1124,8 @@ private:
         // Extract shape and initialise
 
         size_t nelx = eright - eleft + 1;
-        size_t nely = static_cast<size_t>((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx);
+        size_t nely =
+            static_cast<size_t>(std::round((coor(coor.shape(0) - 1, 1) - coor(0, 1)) / hx));
         this->init(nelx, nely, hx);
         GOOSEFEM_CHECK(xt::all(xt::equal(this->conn(), conn)));
         GOOSEFEM_CHECK(xt::allclose(this->coor(), coor));
-- 
2.43.0


From 1162aba41ebff5ed3ccce508bd34dc0be3b3ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 14/25] fix: Quad4::FineLayer: find the layer of an element
 also if it is the last layer (out-of-bounds for a single layer)

---
 include/GooseFEM/MeshQuad4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 7fa8fd7..2ea3d17 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -411,7 +411,7 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = xt::sum<size_t>(m_startElem <= e)() - 1;
         size_t nel = m_layer_nelx(iy);
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
@@ -484,7 +484,7 @@ public:
     {
         GOOSEFEM_WIP_ASSERT(periodic == true);
 
-        size_t iy = xt::argmin(m_startElem <= e)() - 1;
+        size_t iy = xt::sum<size_t>(m_startElem <= e)() - 1;
         size_t nel = m_layer_nelx(iy);
 
         GOOSEFEM_WIP_ASSERT(iy == (m_nhy.size() - 1) / 2);
-- 
2.43.0


From 69d82e1170daa7e9d3936e95e838e6cc81fb1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 15/25] fix: Mesh::elem2node(conn, dofs): allocate all nodes of
 dofs (out-of-bounds if tied nodes are not connected)

---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index d7d5b84..eb95298 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2518,6 +2518,7 @@ inline std::vector<std::vector<size_t>> elem2node(const E& conn, const D& dofs,
 {
     size_t nnode = dofs.shape(0);
     auto ret = elem2node(conn, sorted);
+    ret.resize(std::max(ret.size(), nnode));
     auto nties = nodaltyings(dofs);
 
     for (size_t m = 0; m < nnode; ++m) {
-- 
2.43.0


From ce6257818213aef5170717a1b1fd9286d34e87df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 16/25] fix: VectorPartitionedTyings::asDofs_i: no load on a
 dependent DOF that no node has (was uninitialised)

---
 include/GooseFEM/VectorPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index 2f6a73a..eef5f36 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -59,7 +59,7 @@ private:
     {
         GOOSEFEM_ASSERT(xt::has_shape(nodevec, {m_nnode, m_ndim}));
 
-        Eigen::VectorXd dofval_d(m_nnd, 1);
+        Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
 #pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
-- 
2.43.0


From 2a9af458a1e4cea6afbeb2b24ba894e2a0727e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 17/25] fix: weight of the midpoint quadrature: the area of the
 unit cell is four

---
 include/GooseFEM/ElementQuad4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/ElementQuad4.h b/include/GooseFEM/ElementQuad4.h
index bbb146e..cd03740 100644
--- a/include/GooseFEM/ElementQuad4.h
+++ b/include/GooseFEM/ElementQuad4.h
@@ -214,7 +214,7 @@ inline array_type::tensor<double, 1> w()
 
     array_type::tensor<double, 1> w = xt::empty<double>({nip});
 
-    w(0) = 1.0;
+    w(0) = 4.0;
 
     return w;
 }
-- 
2.43.0


From ad59db191d35090294fec8544916b0d12962b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:06 +0000
Subject: [PATCH 18/25] fix: no parallel loop over nodes or elements that share
 DOFs or nodes (data race)

---
 include/GooseFEM/Matrix.h                  | 1 -
 include/GooseFEM/MatrixPartitioned.h       | 2 --
 include/GooseFEM/MatrixPartitionedTyings.h | 3 ---
 include/GooseFEM/Vector.h                  | 3 ---
 include/GooseFEM/VectorPartitioned.h       | 4 ----
 include/GooseFEM/VectorPartitionedTyings.h | 2 --
 6 files changed, 15 deletions(-)

diff --git a/include/GooseFEM/Matrix.h b/include/GooseFEM/Matrix.h
index ee06491..b180e15 100644
--- a/include/GooseFEM/Matrix.h
+++ b/include/GooseFEM/Matrix.h
@@ -845,7 +845,6 @@ private:
 
         Eigen::VectorXd dofval = Eigen::VectorXd::Zero(m_ndof, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 dofval(m_dofs(m, i)) = nodevec(m, i);
diff --git a/include/GooseFEM/MatrixPartitioned.h b/include/GooseFEM/MatrixPartitioned.h
index 016acba..6b1db9e 100644
--- a/include/GooseFEM/MatrixPartitioned.h
+++ b/include/GooseFEM/MatrixPartitioned.h
@@ -470,7 +470,6 @@ private:
 
         Eigen::VectorXd dofval_u = Eigen::VectorXd::Zero(m_nnu, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) < m_nnu) {
@@ -502,7 +501,6 @@ private:
 
         Eigen::VectorXd dofval_p = Eigen::VectorXd::Zero(m_nnp, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) >= m_nnu) {
diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index f5ad1b1..0b5d365 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -431,7 +431,6 @@ private:
 
         Eigen::VectorXd dofval_u = Eigen::VectorXd::Zero(m_nnu, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) < m_nnu) {
@@ -463,7 +462,6 @@ private:
 
         Eigen::VectorXd dofval_p = Eigen::VectorXd::Zero(m_nnp, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nnu && m_dofs(m, i) < m_nni) {
@@ -495,7 +493,6 @@ private:
 
         Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nni) {
diff --git a/include/GooseFEM/Vector.h b/include/GooseFEM/Vector.h
index 7045da9..ec757d6 100644
--- a/include/GooseFEM/Vector.h
+++ b/include/GooseFEM/Vector.h
@@ -576,7 +576,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 ret(m_dofs(m, i)) = arg(m, i);
@@ -598,7 +597,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
@@ -642,7 +640,6 @@ private:
 
         ret.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
diff --git a/include/GooseFEM/VectorPartitioned.h b/include/GooseFEM/VectorPartitioned.h
index b9dec50..bb273dc 100644
--- a/include/GooseFEM/VectorPartitioned.h
+++ b/include/GooseFEM/VectorPartitioned.h
@@ -485,7 +485,6 @@ public:
 
         dofval_u.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) < m_nnu) {
@@ -526,7 +525,6 @@ public:
 
         dofval_u.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
@@ -606,7 +604,6 @@ public:
 
         dofval_p.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_part(m, i) >= m_nnu) {
@@ -647,7 +644,6 @@ public:
 
         dofval_p.fill(0.0);
 
-#pragma omp parallel for
         for (size_t e = 0; e < m_nelem; ++e) {
             for (size_t m = 0; m < m_nne; ++m) {
                 for (size_t i = 0; i < m_ndim; ++i) {
diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index eef5f36..c102098 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -61,7 +61,6 @@ private:
 
         Eigen::VectorXd dofval_d = Eigen::VectorXd::Zero(m_nnd, 1);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) >= m_nni) {
@@ -228,7 +227,6 @@ public:
 
         dofval_i.fill(0.0);
 
-#pragma omp parallel for
         for (size_t m = 0; m < m_nnode; ++m) {
             for (size_t i = 0; i < m_ndim; ++i) {
                 if (m_dofs(m, i) < m_nni) {
-- 
2.43.0


From c5329298111a10849b7320eb2e8d1a514f2cb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:24 +0000
Subject: [PATCH 19/25] fix: python: number and list of independent and
 dependent DOFs of a tied matrix

The properties nni, nnd, iii, and iid returned the number and list of
unknown and prescribed DOFs.
---
 python/Matrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/Matrix.hpp b/python/Matrix.hpp
index 507c897..7f388e2 100644
--- a/python/Matrix.hpp
+++ b/python/Matrix.hpp
@@ -140,10 +140,10 @@ void register_Matrix_MatrixPartitionedBase(P& cls)
 template <class C, class P>
 void register_Matrix_MatrixPartitionedTyingsBase(P& cls)
 {
-    cls.def_property_readonly("nni", &C::nnu, "Number of independent DOFs");
-    cls.def_property_readonly("nnd", &C::nnp, "Number of dependent DOFs");
-    cls.def_property_readonly("iii", &C::iiu, "Independent DOFs");
-    cls.def_property_readonly("iid", &C::iip, "Dependent DOFs");
+    cls.def_property_readonly("nni", &C::nni, "Number of independent DOFs");
+    cls.def_property_readonly("nnd", &C::nnd, "Number of dependent DOFs");
+    cls.def_property_readonly("iii", &C::iii, "Independent DOFs");
+    cls.def_property_readonly("iid", &C::iid, "Dependent DOFs");
 }
 
 template <class C, class M, class P>
-- 
2.43.0


From 2d5e97232fbfb433acd85d2c7a4ffc25d0d5c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 20/25] fix: VectorPartitionedTyings: reject DOFs that are
 inconsistent with the tyings

The assertion compared the number of DOFs with itself.
---
 include/GooseFEM/VectorPartitionedTyings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/GooseFEM/VectorPartitionedTyings.h b/include/GooseFEM/VectorPartitionedTyings.h
index c102098..c506ca4 100644
--- a/include/GooseFEM/VectorPartitionedTyings.h
+++ b/include/GooseFEM/VectorPartitionedTyings.h
@@ -106,7 +106,7 @@ public:
         m_Cid = m_Cdi.transpose();
 
         GOOSEFEM_ASSERT(static_cast<size_t>(m_Cdi.cols()) == m_nni);
-        GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
+        GOOSEFEM_ASSERT(m_ndof == m_nni + m_nnd);
     }
 
     /**
-- 
2.43.0


From 7c1fb0626ef78d6c030d1546a5e5a29df42ca1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 21/25] fix: MatrixPartitionedTyings: reject a connectivity
 with nodes that do not exist

As the other matrices do: otherwise the assembly reads out of bounds.
---
 include/GooseFEM/MatrixPartitionedTyings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MatrixPartitionedTyings.h b/include/GooseFEM/MatrixPartitionedTyings.h
index 0b5d365..c06356e 100644
--- a/include/GooseFEM/MatrixPartitionedTyings.h
+++ b/include/GooseFEM/MatrixPartitionedTyings.h
@@ -130,6 +130,7 @@ public:
         m_Adp.resize(m_nnd, m_nnp);
         m_Add.resize(m_nnd, m_nnd);
 
+        GOOSEFEM_ASSERT(xt::amax(m_conn)() + 1 <= m_nnode);
         GOOSEFEM_ASSERT(m_ndof <= m_nnode * m_ndim);
         GOOSEFEM_ASSERT(m_ndof == xt::amax(m_dofs)() + 1);
     }
-- 
2.43.0


From 1d98f01f1e5f55c8d9ed4d1e3c8f1f335957f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:11 +0000
Subject: [PATCH 22/25] fix: Tri3::getOrientation: reject a connectivity with
 nodes that do not exist

---
 include/GooseFEM/MeshTri3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshTri3.h b/include/GooseFEM/MeshTri3.h
index 7212f04..33243cc 100644
--- a/include/GooseFEM/MeshTri3.h
+++ b/include/GooseFEM/MeshTri3.h
@@ -241,6 +241,7 @@ getOrientation(const array_type::tensor<double, 2>& coor, const array_type::tens
 {
     GOOSEFEM_ASSERT(conn.shape(1) == 3ul);
     GOOSEFEM_ASSERT(coor.shape(1) == 2ul);
+    GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
 
     double k;
     size_t nelem = conn.shape(0);
-- 
2.43.0


From 888e40e1024d134526074045b7ecd7e916c20cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:11 +0000
Subject: [PATCH 23/25] fix: Mesh: reject node numbers that do not exist when
 stitching and renumbering

With assertions enabled they led to reading and writing out of bounds.
---
 include/GooseFEM/Mesh.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index eb95298..b9a7a24 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -143,6 +143,7 @@ public:
     template <class T>
     T apply(const T& list) const
     {
+        GOOSEFEM_ASSERT(xt::amax(list)() < m_renum.size());
         return detail::renum(list, m_renum);
     }
 
@@ -1786,6 +1787,10 @@ public:
         GOOSEFEM_ASSERT(xt::has_shape(overlapping_nodes_a, overlapping_nodes_b.shape()));
         GOOSEFEM_ASSERT(coor_a.shape(1) == coor_b.shape(1));
         GOOSEFEM_ASSERT(conn_a.shape(1) == conn_b.shape(1));
+        GOOSEFEM_ASSERT(xt::amax(conn_a)() < coor_a.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(conn_b)() < coor_b.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(overlapping_nodes_a)() < coor_a.shape(0));
+        GOOSEFEM_ASSERT(xt::amax(overlapping_nodes_b)() < coor_b.shape(0));
 
         if (check_position) {
             GOOSEFEM_CHECK(xt::allclose(
-- 
2.43.0


From 8a5393445ce72ac811b5860b0943c5b9b4483bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:26 +0000
Subject: [PATCH 24/25] fix: RefineRegular::averageToCoarse: reject weights
 that do not match the fine mesh

With assertions enabled they were read out of bounds.
---
 include/GooseFEM/MeshQuad4.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/MeshQuad4.h b/include/GooseFEM/MeshQuad4.h
index 2ea3d17..e4017dd 100644
--- a/include/GooseFEM/MeshQuad4.h
+++ b/include/GooseFEM/MeshQuad4.h
@@ -1295,6 +1295,7 @@ public:
     ) const
     {
         GOOSEFEM_ASSERT(data.shape(0) == m_coarse2fine.size());
+        GOOSEFEM_ASSERT(weights.shape(0) == m_coarse2fine.size());
 
         std::array<size_t, rank> shape;
         std::copy(data.shape().cbegin(), data.shape().cend(), &shape[0]);
-- 
2.43.0


From 81af661bb6c97b418b0f69f9707cb07f75d8c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:26 +0000
Subject: [PATCH 25/25] fix: Mesh::elemmap2nodemap: reject element numbers that
 do not exist

With assertions enabled they led to reading the connectivity out of bounds.
---
 include/GooseFEM/Mesh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/GooseFEM/Mesh.h b/include/GooseFEM/Mesh.h
index b9a7a24..ffe5887 100644
--- a/include/GooseFEM/Mesh.h
+++ b/include/GooseFEM/Mesh.h
@@ -2682,6 +2682,7 @@ elemmap2nodemap(const T& elem_map, const C& coor, const E& conn, ElementType typ
     GOOSEFEM_ASSERT(conn.dimension() == 2);
     GOOSEFEM_ASSERT(xt::amax(conn)() < coor.shape(0));
     GOOSEFEM_ASSERT(elem_map.size() == conn.shape(0));
+    GOOSEFEM_ASSERT(xt::amax(elem_map)() < conn.shape(0));
     size_t N = coor.shape(0);
 
     array_type::tensor<size_t, 1> ret = N * xt::ones<size_t>({N});
-- 
2.43.0

