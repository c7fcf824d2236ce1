From 1dd5e4aed4ab7fc3292a18d177c53a372b448ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:07 +0000
Subject: [PATCH 01/41] fix: accept pre-declared edges without geometry in
 hybrid2d::Mesh

MeshFactory::AddEntity() documents that the geometry of an edge may be a
nullptr, in which case it is deduced from an adjacent cell, but the mesh
constructor aborted for such edges.
---
 lib/lf/mesh/hybrid2d/mesh.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 1c937f2..79668eb 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -250,17 +250,16 @@ Mesh::Mesh(dim_t dim_world, NodeCoordList nodes, EdgeList edges, CellList cells,
     // If one of the endpoints of a edge does not have a geometry, supply it
     // with one inherited from the edge.
     for (int j = 0; j < 2; ++j) {
-      if (nodes[end_nodes[j]] == nullptr) {
+      if (nodes[end_nodes[j]] == nullptr && e.second != nullptr) {
         // if no geometry for node exists request geomtry for an endpoint of the
         // edge Note: endpoints are entities of relative co-dimension 1
         nodes[end_nodes[j]] = e.second->SubGeometry(1, j);
       }
     }
 
-    // Store provided geometry information; information on adjacent cells
-    // not yet available.
-    LF_ASSERT_MSG(e.second != nullptr,
-                  "Edge " << edge_index << ": missing geometry!");
+    // Store provided geometry information (may be nullptr, in this case the
+    // geometry is deduced from adjacent cells below); information on adjacent
+    // cells not yet available.
     const AdjCellsList empty_cells_list{};
     EdgeData edge_data(std::move(e.second), empty_cells_list, edge_index);
     EdgeMap::value_type edge_info =
-- 
2.43.0


From 409acf227434d5088cbf8d32e7f879c419f1ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:24 +0000
Subject: [PATCH 02/41] fix: hybrid2d::Mesh::Contains must not access empty
 entity arrays

---
 lib/lf/mesh/hybrid2d/mesh.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh.cc b/lib/lf/mesh/hybrid2d/mesh.cc
index 79668eb..cbe8746 100644
--- a/lib/lf/mesh/hybrid2d/mesh.cc
+++ b/lib/lf/mesh/hybrid2d/mesh.cc
@@ -117,9 +117,11 @@ bool Mesh::Contains(const Entity &e) const {
               &e <= &trias_.back()) ||
              (!quads_.empty() && &e >= &quads_.front() && &e <= &quads_.back());
     case 1:
-      return &e >= &segments_.front() && &e <= &segments_.back();
+      return !segments_.empty() && &e >= &segments_.front() &&
+             &e <= &segments_.back();
     case 2:
-      return &e >= &points_.front() && &e <= &points_.back();
+      return !points_.empty() && &e >= &points_.front() &&
+             &e <= &points_.back();
     default:
       return false;
   }
-- 
2.43.0


From 8851a35afa96f3558278a5907a7a2aa707a32f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:53 +0000
Subject: [PATCH 03/41] fix: second-order geometries must not claim to be
 affine

---
 lib/lf/geometry/quad_o2.h    | 7 +++++++
 lib/lf/geometry/segment_o2.h | 7 +++++++
 lib/lf/geometry/tria_o2.h    | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/lib/lf/geometry/quad_o2.h b/lib/lf/geometry/quad_o2.h
index 5708e13..579a664 100644
--- a/lib/lf/geometry/quad_o2.h
+++ b/lib/lf/geometry/quad_o2.h
@@ -63,6 +63,13 @@ class QuadO2 : public Geometry {
   [[nodiscard]] std::vector<std::unique_ptr<Geometry>> ChildGeometry(
       const RefinementPattern &ref_pat, lf::base::dim_t codim) const override;
 
+  /** @copydoc Geometry::isAffine()
+   *
+   * @note Second-order shapes are **not** affine images of their reference
+   * element in general
+   */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
  private:
   /**
    * @brief Coordinates of the 8 vertices/midpoints, stored in matrix columns
diff --git a/lib/lf/geometry/segment_o2.h b/lib/lf/geometry/segment_o2.h
index 9b78605..d58991a 100644
--- a/lib/lf/geometry/segment_o2.h
+++ b/lib/lf/geometry/segment_o2.h
@@ -52,6 +52,13 @@ class SegmentO2 : public Geometry {
   [[nodiscard]] std::vector<std::unique_ptr<Geometry>> ChildGeometry(
       const RefinementPattern& ref_pat, base::dim_t codim) const override;
 
+  /** @copydoc Geometry::isAffine()
+   *
+   * @note Second-order shapes are **not** affine images of their reference
+   * element in general
+   */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
  private:
   /**
    * @brief Coordinates of the 3 vertices/midpoints, stored in matrix columns
diff --git a/lib/lf/geometry/tria_o2.h b/lib/lf/geometry/tria_o2.h
index 8711771..45c0c1d 100644
--- a/lib/lf/geometry/tria_o2.h
+++ b/lib/lf/geometry/tria_o2.h
@@ -59,6 +59,13 @@ class TriaO2 : public Geometry {
   [[nodiscard]] std::vector<std::unique_ptr<Geometry>> ChildGeometry(
       const RefinementPattern &ref_pat, lf::base::dim_t codim) const override;
 
+  /** @copydoc Geometry::isAffine()
+   *
+   * @note Second-order shapes are **not** affine images of their reference
+   * element in general
+   */
+  [[nodiscard]] bool isAffine() const override { return false; }
+
  private:
   /**
    * @brief Coordinates of the 6 vertices/midpoints, stored in matrix columns
-- 
2.43.0


From aa9df460d7d1541f429d6a76a10caa2c4ab093ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 04/41] fix: product of mesh functions with generic value types
 was empty

---
 lib/lf/mesh/utils/mesh_function_binary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/utils/mesh_function_binary.h b/lib/lf/mesh/utils/mesh_function_binary.h
index 0970b5f..a375fe7 100644
--- a/lib/lf/mesh/utils/mesh_function_binary.h
+++ b/lib/lf/mesh/utils/mesh_function_binary.h
@@ -628,7 +628,7 @@ struct OperatorMultiplication {
                   long /*unused*/) const {
     std::vector<decltype(u[0] * v[0])> result;
     result.reserve(u.size());
-    for (int i = 0; i < result.size(); ++i) {
+    for (std::size_t i = 0; i < u.size(); ++i) {
       result.emplace_back(u[i] * v[i]);
     }
     return result;
-- 
2.43.0


From 734ce6b39225c71e00d9a12ab9b4481cb56ddc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 05/41] fix: refinement edges of trisected and quadsected
 triangles must lie opposite to the newest vertex

---
 lib/lf/refinement/mesh_hierarchy.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.cc b/lib/lf/refinement/mesh_hierarchy.cc
index f3f69af..74d49e3 100644
--- a/lib/lf/refinement/mesh_hierarchy.cc
+++ b/lib/lf/refinement/mesh_hierarchy.cc
@@ -1437,7 +1437,8 @@ void MeshHierarchy::PerformRefinement() {
               break;
             }
             case RefPat::rp_trisect: {
-              // Refinement edges: 0 -> 2, 1 -> 1, 2 -> 0
+              // Refinement edges (opposite to newest vertex): 0 -> 2, 1 -> 0,
+              // 2 -> 0
               LF_VERIFY_MSG(fine_cell_child_number < 3,
                             "Only 3 children for rp_trisect");
               switch (fine_cell_child_number) {
@@ -1445,10 +1446,7 @@ void MeshHierarchy::PerformRefinement() {
                   child_ref_edges[cell_index] = 2;
                   break;
                 }
-                case 1: {
-                  child_ref_edges[cell_index] = 1;
-                  break;
-                }
+                case 1:
                 case 2: {
                   child_ref_edges[cell_index] = 0;
                   break;
@@ -1460,15 +1458,16 @@ void MeshHierarchy::PerformRefinement() {
               break;
             }
             case RefPat::rp_trisect_left: {
-              // Refinement edges: 0 -> 2, 1 -> 1, 2 -> 0
+              // Refinement edges (opposite to newest vertex): 0 -> 0, 1 -> 2,
+              // 2 -> 0
               LF_VERIFY_MSG(fine_cell_child_number < 4,
                             "Only 3 children for rp_quadsect");
               switch (fine_cell_child_number) {
-                case 0:
                 case 1: {
                   child_ref_edges[cell_index] = 2;
                   break;
                 }
+                case 0:
                 case 2: {
                   child_ref_edges[cell_index] = 0;
                   break;
@@ -1480,12 +1479,10 @@ void MeshHierarchy::PerformRefinement() {
               break;
             }
             case RefPat::rp_quadsect: {
-              // Refinement edges: 0 -> 2, 1 -> 0, 2 -> 0, 3-> 0
+              // Refinement edges (opposite to newest vertex): 0 for all
+              // children
               switch (fine_cell_child_number) {
-                case 0: {
-                  child_ref_edges[cell_index] = 2;
-                  break;
-                }
+                case 0:
                 case 1:
                 case 2:
                 case 3: {
-- 
2.43.0


From b85a9cd88f63f3006c0e6cb7e7da395270b981a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 06/41] fix: transferred mesh function lives on the fine level,
 not on the level after the coarse one

---
 lib/lf/refinement/mesh_function_transfer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index be8878e..3f84fff 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -87,7 +87,7 @@ class MeshFunctionTransfer {
    * @returns A shared pointer to the Mesh on which this MeshFunction is defined
    */
   [[nodiscard]] std::shared_ptr<const lf::mesh::Mesh> getMesh() const {
-    return mh_.getMesh(level_coarse_ + 1);
+    return mh_.getMesh(level_fine_);
   }
 
  private:
-- 
2.43.0


From 17b4c28f7acb07ce2c2fd0e7e83e63a5c799084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:07 +0000
Subject: [PATCH 07/41] fix: uniform refinement must build meshes in the world
 dimension of the coarsest mesh

---
 lib/lf/refinement/mesh_hierarchy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/refinement/mesh_hierarchy.cc b/lib/lf/refinement/mesh_hierarchy.cc
index 74d49e3..9eddfb8 100644
--- a/lib/lf/refinement/mesh_hierarchy.cc
+++ b/lib/lf/refinement/mesh_hierarchy.cc
@@ -1918,7 +1918,7 @@ std::shared_ptr<MeshHierarchy> GenerateMeshHierarchyByUniformRefinemnt(
   // Set up the builder object for mesh entities, here suitable for a 2D
   // hybrid mesh comprising triangles and quadrilaterals
   std::unique_ptr<lf::mesh::hybrid2d::MeshFactory> mesh_factory_ptr =
-      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
+      std::make_unique<lf::mesh::hybrid2d::MeshFactory>(mesh_p->DimWorld());
   // Create a mesh hierarchy with a single level
   std::shared_ptr<MeshHierarchy> multi_mesh_p =
       std::make_shared<MeshHierarchy>(mesh_p, std::move(mesh_factory_ptr));
-- 
2.43.0


From 0555a8e58f4397a9eb36c888e9a1106eb64a42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 08/41] fix: keep transferred local coordinates inside the
 reference element despite roundoff

---
 lib/lf/refinement/mesh_function_transfer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/lf/refinement/mesh_function_transfer.h b/lib/lf/refinement/mesh_function_transfer.h
index 3f84fff..0a7e2a6 100644
--- a/lib/lf/refinement/mesh_function_transfer.h
+++ b/lib/lf/refinement/mesh_function_transfer.h
@@ -72,12 +72,16 @@ class MeshFunctionTransfer {
                             const Eigen::MatrixXd &local) const {
     const auto *rel_geom = mh_.GeometryInParent(level_fine_, e);
     const auto *parent = mh_.ParentEntity(level_fine_, e);
-    auto local_parent = rel_geom->Global(local);
+    // Composing the maps can leave the reference element by roundoff, which
+    // second order geometries do not tolerate => snap back
+    Eigen::MatrixXd local_parent =
+        rel_geom->Global(local).cwiseMax(0.).cwiseMin(1.);
     for (lf::base::size_type lvl = level_fine_ - 1; lvl > level_coarse_;
          --lvl) {
       rel_geom = mh_.GeometryInParent(lvl, *parent);
       parent = mh_.ParentEntity(lvl, *parent);
-      local_parent = rel_geom->Global(local_parent);
+      local_parent =
+          rel_geom->Global(local_parent).cwiseMax(0.).cwiseMin(1.);
     }
     return mf_(*parent, local_parent);
   }
-- 
2.43.0


From 2718693e1b964d95b2b09ff9bbe83c0177c08ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 09/41] fix: output operator of COOMatrix must pass the stream
 to PrintInfo

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index afa45cd..bc1b464 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -227,7 +227,7 @@ class COOMatrix {
 // Implementation of output operator
 template <typename SCALARTYPE>
 std::ostream &operator<<(std::ostream &o, const COOMatrix<SCALARTYPE> &mat) {
-  mat.PrintInfo();
+  mat.PrintInfo(o);
   return o;
 }
 
-- 
2.43.0


From 36c59408147b33fa8a8a21c255ef262a5b3105c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 10/41] fix: COOMatrix::MatVecMult must work for every scalar
 type

---
 lib/lf/assemble/coomatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/coomatrix.h b/lib/lf/assemble/coomatrix.h
index bc1b464..89407cc 100644
--- a/lib/lf/assemble/coomatrix.h
+++ b/lib/lf/assemble/coomatrix.h
@@ -237,7 +237,7 @@ Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> COOMatrix<SCALAR>::MatVecMult(
     SCALAR alpha, const VECTOR &vec) const {
   LF_ASSERT_MSG(vec.size() >= cols_,
                 "size mismatch: " << cols_ << " <-> " << vec.size());
-  Eigen::VectorXd result(rows_);
+  Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> result(rows_);
   result.setZero();
   for (const Triplet &trp : triplets_) {
     result[trp.row()] += trp.value() * (alpha * vec[trp.col()]);
-- 
2.43.0


From 929759c9f1752e22e8552b0b1645e0bfb78bef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:07 +0000
Subject: [PATCH 11/41] fix: FixSolutionComponentsLse must work for every
 scalar type

---
 lib/lf/assemble/fix_dof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/assemble/fix_dof.h b/lib/lf/assemble/fix_dof.h
index e804647..3e8efed 100644
--- a/lib/lf/assemble/fix_dof.h
+++ b/lib/lf/assemble/fix_dof.h
@@ -271,7 +271,7 @@ void FixSolutionComponentsLse(
   // FixFlaggedSolutionComponents<SCALAR>(fixed_comp_flags, fixed_vec, A, b);
   FixFlaggedSolutionCompAlt<SCALAR>(
       [&fixed_comp_flags,
-       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, double> {
+       &fixed_vec](lf::assemble::gdof_idx_t i) -> std::pair<bool, SCALAR> {
         LF_ASSERT_MSG((i < fixed_comp_flags.size()) && (i < fixed_vec.size()),
                       "Illegal index " << i);
         return std::make_pair(fixed_comp_flags[i], fixed_vec[i]);
-- 
2.43.0


From 7b4d32820076c6ffca9874a9995c27431220af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 12/41] fix: IntegrateMeshFunction must ignore the first entity
 if the predicate rejects it

---
 lib/lf/fe/fe_tools.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/lf/fe/fe_tools.h b/lib/lf/fe/fe_tools.h
index fc599c6..f772252 100644
--- a/lib/lf/fe/fe_tools.h
+++ b/lib/lf/fe/fe_tools.h
@@ -114,8 +114,19 @@ auto IntegrateMeshFunction(
   using MfType = mesh::utils::MeshFunctionReturnType<MF>;
 
   auto entities = mesh.Entities(codim);
-  auto result = internal::LocalIntegral(**entities.begin(), qr_selector, mf);
-  for (auto i = entities.begin() + 1; i != entities.end(); ++i) {
+  // find the first entity of the integration domain
+  auto i = entities.begin();
+  while (i != entities.end() && !ep(**i)) {
+    ++i;
+  }
+  if (i == entities.end()) {
+    // empty integration domain: return zero (of the right size)
+    MfType zero =
+        0. * internal::LocalIntegral(**entities.begin(), qr_selector, mf);
+    return zero;
+  }
+  MfType result = internal::LocalIntegral(**i, qr_selector, mf);
+  for (++i; i != entities.end(); ++i) {
     if (!ep(**i)) {
       continue;
     }
-- 
2.43.0


From 7d6aa75d07a5c0da027f426215b07f5eb3210c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 13/41] fix: UniformScalarFESpace must not require shape
 functions on quads for pure triangular meshes

---
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 964e8e2..37810fd 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -173,7 +173,7 @@ class UniformScalarFESpace : public lf::fe::ScalarFESpace<SCALAR> {
   /** Checks whether some pointer are not valid */
   [[nodiscard]] bool check_ptr() const {
     LF_VERIFY_MSG(Mesh() != nullptr, "No valid FE space object: no mesh");
-    LF_VERIFY_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+    LF_VERIFY_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                   "No valid FE space object: no rsfs for cells");
     return true;
   }
@@ -393,7 +393,7 @@ size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
 template <typename SCALAR>
 size_type UniformScalarFESpace<SCALAR>::NumRefShapeFunctions(
     lf::base::RefEl ref_el_type) const {
-  LF_ASSERT_MSG((rfs_quad_p_ != nullptr) && (rfs_quad_p_ != nullptr),
+  LF_ASSERT_MSG((rfs_tria_p_ != nullptr) || (rfs_quad_p_ != nullptr),
                 "No valid FE space object: no rsfs");
   // Retrieve number of interior shape functions from rsf layouts
   switch (ref_el_type) {
-- 
2.43.0


From 795559491932a4de84d865f1fa6a456b46d1aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:03 +0000
Subject: [PATCH 14/41] fix: HierarchicScalarFESpace::NumRefShapeFunctions must
 count interior shape functions only

---
 lib/lf/fe/hierarchic_scalar_fe_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_scalar_fe_space.h b/lib/lf/fe/hierarchic_scalar_fe_space.h
index 03f7ba8..f03b88a 100644
--- a/lib/lf/fe/hierarchic_scalar_fe_space.h
+++ b/lib/lf/fe/hierarchic_scalar_fe_space.h
@@ -157,7 +157,7 @@ class HierarchicScalarFESpace : public ScalarFESpace<SCALAR> {
    */
   [[nodiscard]] size_type NumRefShapeFunctions(
       const lf::mesh::Entity &entity) const override {
-    return ShapeFunctionLayout(entity)->NumRefShapeFunctions();
+    return dofh_.NumInteriorDofs(entity);
   }
 
   ~HierarchicScalarFESpace() override = default;
-- 
2.43.0


From 7b269fa2db908a47c51c1fced4d6e2b8a30582a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:46 +0000
Subject: [PATCH 15/41] fix: FeHierarchicSegment has one shape function per
 vertex

---
 lib/lf/fe/hierarchic_fe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/fe/hierarchic_fe.h b/lib/lf/fe/hierarchic_fe.h
index 2790918..d81c976 100644
--- a/lib/lf/fe/hierarchic_fe.h
+++ b/lib/lf/fe/hierarchic_fe.h
@@ -274,7 +274,7 @@ class FeHierarchicSegment final : public ScalarReferenceFiniteElement<SCALAR> {
   [[nodiscard]] lf::base::size_type NumRefShapeFunctions(
       dim_t codim) const override {
     LF_ASSERT_MSG(codim >= 0 && codim <= 1, "codim out of range.");
-    return codim == 0 ? degree_ - 1 : 2;
+    return codim == 0 ? degree_ - 1 : 1;
   }
 
   // clang-format off
-- 
2.43.0


From fde647b323a421f602bfa7eb0263870d3692a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:32 +0000
Subject: [PATCH 16/41] fix: LinearFELocalLoadVector must not evaluate the
 source outside of the cell

---
 lib/lf/uscalfe/lin_fe.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/uscalfe/lin_fe.h b/lib/lf/uscalfe/lin_fe.h
index df3bcf9..ea4e525 100644
--- a/lib/lf/uscalfe/lin_fe.h
+++ b/lib/lf/uscalfe/lin_fe.h
@@ -181,12 +181,12 @@ LinearFELocalLoadVector<SCALAR, FUNCTOR>::Eval(
                       ref_el, geo_ptr->Global(ref_el_corners));
 
   // Midpoints of edges in the reference cell
-  Eigen::MatrixXd ref_mp(2, 4);
+  Eigen::MatrixXd ref_mp(2, num_nodes);
   switch (ref_el) {
     case lf::base::RefEl::kTria(): {
       // clang-format off
-      ref_mp << 0.5,0.5,0.0,-1.0,
-                0.0,0.5,0.5,-1.0;
+      ref_mp << 0.5,0.5,0.0,
+                0.0,0.5,0.5;
       // clang-format on
       break;
     }
-- 
2.43.0


From 91a19b06a73ddddef6ad005ac09ed2bd818d9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 17/41] fix: unknown sections of binary Gmsh 4.1 files are
 skipped

start_comment_ was declared with a skipper in the binary grammar, so the end
of line after the section name was not seen and files with a section that is
not interpreted could not be read (version 2.2 and the text grammar are ok).
---
 lib/lf/io/gmsh_file_v4_binary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/gmsh_file_v4_binary.cc b/lib/lf/io/gmsh_file_v4_binary.cc
index 39c347c..4d05df3 100644
--- a/lib/lf/io/gmsh_file_v4_binary.cc
+++ b/lib/lf/io/gmsh_file_v4_binary.cc
@@ -200,7 +200,7 @@ struct MshV4GrammarBinary
   }
 
   qi::rule<ITERATOR, std::string(), ascii::space_type> quoted_string_;
-  qi::rule<ITERATOR, std::string(), ascii::space_type> start_comment_;
+  qi::rule<ITERATOR, std::string()> start_comment_;
   qi::rule<ITERATOR, qi::locals<std::string>, ascii::space_type> comment_;
   qi::rule<ITERATOR, Eigen::Vector3d()> vec3_;
   qi::rule<ITERATOR, std::vector<int>, qi::locals<std::size_t>> int_vec_;
-- 
2.43.0


From 0a2d927e1ad600d6e91baa0f733d881f267366ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 18/41] fix: look-up of physical entities must not run past the
 matching entries

When several physical entities share a name (number) and none of them has the
requested codimension, the iterator beyond the range was dereferenced and an
unrelated entity could be returned instead of throwing.
---
 lib/lf/io/gmsh_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 5aaac08..4eb3808 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -53,10 +53,10 @@ size_type GmshReader::PhysicalEntityName2Nr(const std::string& name,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end && begin->second.second == codim) {
       return begin->second.first;
     }
   }
@@ -87,10 +87,10 @@ std::string GmshReader::PhysicalEntityNr2Name(size_type number,
     if (result.second.second == codim) {
       return result.second.first;
     }
-    while (begin->second.second != codim && begin != end) {
+    while (begin != end && begin->second.second != codim) {
       ++begin;
     }
-    if (begin->second.second == codim) {
+    if (begin != end && begin->second.second == codim) {
       return begin->second.first;
     }
   }
-- 
2.43.0


From 4edab704a47b5cb0ac3349187b2dd979dd15c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 19/41] fix: physical entities of points in several groups

The second and further occurrences of a POINT element were attributed to the
last entry of the table instead of the point itself (or to no entry at all, if
the point is not a node of the mesh). A POINT element on an isolated node with
a number beyond the table was looked up out of bounds.
---
 lib/lf/io/gmsh_reader.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index 4eb3808..e7ac8fd 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -220,7 +220,8 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
     auto ref_el = RefElOf(end_element.Type);
     auto codim = dim_mesh - ref_el.Dimension();
     if (begin_element.NodeNumbers == end_element.NodeNumbers && begin != end &&
-        begin_element.Type == end_element.Type) {
+        begin_element.Type == end_element.Type &&
+        ref_el != base::RefEl::kPoint()) {
       // This entity appears more than once
       mi2gi[codim].back().push_back(end);
       continue;
@@ -228,7 +229,9 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
 
     begin = end;
     if (ref_el == base::RefEl::kPoint()) {
-      auto mesh_index = gi2mi[end_element.NodeNumbers[0]];
+      const auto node_number = end_element.NodeNumbers[0];
+      const size_type mesh_index =
+          node_number < gi2mi.size() ? gi2mi[node_number] : -1;
       // check that this node is a main node (auxilliary nodes are not inserted
       // into the mesh!):
       if (mesh_index != std::numeric_limits<unsigned int>::max()) {
@@ -468,7 +471,8 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
       const auto& begin_element = element_block.elements[begin];
       const auto& end_element = element_block.elements[end];
 
-      if (begin_element.second == end_element.second && begin != end) {
+      if (begin_element.second == end_element.second && begin != end &&
+          ref_el != base::RefEl::kPoint()) {
         // This entity appears more than once
         mi2gi[codim].back().emplace_back(ebi);
         continue;
-- 
2.43.0


From f8f6abeeb0305b2414b65679b478f53c0716953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 20/41] fix: PhysicalEntityNr() returns the numbers in
 ascending order as documented

---
 lib/lf/io/gmsh_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/lf/io/gmsh_reader.cc b/lib/lf/io/gmsh_reader.cc
index e7ac8fd..934f394 100644
--- a/lib/lf/io/gmsh_reader.cc
+++ b/lib/lf/io/gmsh_reader.cc
@@ -2,6 +2,7 @@
 
 #include <lf/geometry/geometry.h>
 
+#include <algorithm>
 #include <boost/fusion/adapted/std_tuple.hpp>
 #include <boost/spirit/include/qi.hpp>
 #include <boost/spirit/include/qi_string.hpp>
@@ -325,6 +326,7 @@ void GmshReader::InitGmshFile(const GMshFileV2& msh_file) {
           temp.push_back(msh_file.Elements[gmsh_index].PhysicalEntityNr);
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
@@ -623,6 +625,7 @@ void GmshReader::InitGmshFile(const GMshFileV4& msh_file) {
                       std::end(physical_tags));
         }
 
+        std::sort(temp.begin(), temp.end());
         physical_nrs_->operator()(*e) = std::move(temp);
       }
     }
-- 
2.43.0


From 5b4de68aa9442d29aecc9ff3b93e30e900bfbcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 21/41] fix: VTK type of unsigned char data is unsigned_char

It was declared as char, so that values above 127 were read as negative numbers.
---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index b8a1f4c..6e09096 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -224,7 +224,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << *karma::byte_)
           << eol;
@@ -308,7 +308,7 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
           << eol;
 
       scalar_data_uchar %=
-          (lit("SCALARS ") << karma::string << lit(" char 1") << eol
+          (lit("SCALARS ") << karma::string << lit(" unsigned_char 1") << eol
                            << lit("LOOKUP_TABLE ") << karma::string << eol
                            << (*(karma::ushort_ % eol)))
           << eol;
-- 
2.43.0


From 7e0133aa8e51e7cc1d33035a35a80cb79890ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 22/41] fix: interior points of VTK Lagrange triangles of order
 7 and higher

The interior points of the inner triangle (of order order-3) were scaled as
if this triangle had order order-6.
---
 lib/lf/io/vtk_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 6e09096..9b55b56 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -523,8 +523,8 @@ Eigen::MatrixXd AuxNodesTria(unsigned char order) {
       // assign interior points recursively:
       auto points = AuxNodesTria(order - 3);
       result.block(0, 3 * order - 9, 2, points.cols()) =
-          AuxNodesTria(order - 3) * (order - 6.) / order +
-          Eigen::Vector2d(2. / order, 2. / order) *
+          AuxNodesTria(order - 3) * (order - 3.) / order +
+          Eigen::Vector2d(1. / order, 1. / order) *
               Eigen::MatrixXd::Ones(1, points.cols());
     }
   }
-- 
2.43.0


From 99cf828d86e91084374a437f8d45b0556070f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 23/41] fix: VtkWriter samples cell data at the barycenter of
 quadrilaterals

---
 lib/lf/io/vtk_writer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/vtk_writer.h b/lib/lf/io/vtk_writer.h
index e5d5afa..5fd7287 100644
--- a/lib/lf/io/vtk_writer.h
+++ b/lib/lf/io/vtk_writer.h
@@ -933,7 +933,7 @@ void VtkWriter::WriteCellData(const std::string& name,
   barycenters[base::RefEl::kTria().Id()] =
       base::RefEl::kTria().NodeCoords().rowwise().sum() / 3.;
   barycenters[base::RefEl::kQuad().Id()] =
-      base::RefEl::kTria().NodeCoords().rowwise().sum() / 4.;
+      base::RefEl::kQuad().NodeCoords().rowwise().sum() / 4.;
 
   if constexpr (base::EigenArray<T> || base::EigenMatrix<T>) {
     static_assert(T::ColsAtCompileTime == 1,
-- 
2.43.0


From b49295ed0ae653f253dd8b6c2a1eb2c5bb47390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 24/41] fix: empty global data sets in text VTK files

The list generator fails for an empty list, so that the data set was left out
although it was counted in the FIELD header.
---
 lib/lf/io/vtk_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/lf/io/vtk_writer.cc b/lib/lf/io/vtk_writer.cc
index 9b55b56..729c6b9 100644
--- a/lib/lf/io/vtk_writer.cc
+++ b/lib/lf/io/vtk_writer.cc
@@ -200,16 +200,16 @@ struct VtkGrammar : karma::grammar<Iterator, VtkFile()> {
     } else {
       field_data_int %= karma::string << lit(" 1 ") << lit(size(at_c<1>(_val)))
                                       << lit(" int") << eol
-                                      << (karma::int_ % lit(' ')) << eol;
+                                      << -(karma::int_ % lit(' ')) << eol;
       field_data_float %= karma::string
                           << lit(" 1 ") << lit(size(at_c<1>(_val)))
-                          << lit(" float") << eol << (karma::float_ % lit(' '))
+                          << lit(" float") << eol << -(karma::float_ % lit(' '))
                           << eol;
 
       field_data_double %= karma::string << lit(" 1 ")
                                          << lit(size(at_c<1>(_val)))
                                          << lit(" double") << eol
-                                         << (karma::double_ % lit(' ')) << eol;
+                                         << -(karma::double_ % lit(' ')) << eol;
     }
     field_data %= lit("FIELD FieldData ")
                   << lit(size(_val)) << eol
-- 
2.43.0


From b19c6fc9bb1ba02b908a84a6c953f6d69acc8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 25/41] fix: writeMatlab() appends .m unless it is present

Names ending in m or with a dot as second last letter were not extended (and
lost two letters in the name of the function), one-letter names caused
undefined behaviour.
---
 lib/lf/io/write_matlab.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/lf/io/write_matlab.cc b/lib/lf/io/write_matlab.cc
index ce66062..6c16cd2 100644
--- a/lib/lf/io/write_matlab.cc
+++ b/lib/lf/io/write_matlab.cc
@@ -12,12 +12,8 @@ void writeMatlab(const lf::mesh::Mesh& mesh, std::string filename) {
   const Eigen::MatrixXd zero(Eigen::MatrixXd::Zero(0, 1));
 
   // Preprocess filename: append .m, if not there already
-  {
-    const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
-      filename += ".m";
-    }
+  if (!filename.ends_with(".m")) {
+    filename += ".m";
   }
   // Open file for writing
   std::ofstream file(filename);
-- 
2.43.0


From a5877f5d78ceacc7efa50b3f239ad00b17fcbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 26/41] fix: WriteMatlabLevel() appends .m unless it is present

---
 lib/lf/refinement/refutils.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/lf/refinement/refutils.cc b/lib/lf/refinement/refutils.cc
index 7d0f992..d752082 100644
--- a/lib/lf/refinement/refutils.cc
+++ b/lib/lf/refinement/refutils.cc
@@ -20,12 +20,8 @@ inline int normalize_idx(glb_idx_t idx) {
 void WriteMatlabLevel(const MeshHierarchy &hier_mesh, size_type level,
                       std::string filename) {
   // Preprocess filename: append .m, if not there already
-  {
-    const size_type fn_len = filename.size();
-    if ((fn_len > 1) && (filename[fn_len - 2] != '.') &&
-        (filename[fn_len - 1] != 'm')) {
-      filename += ".m";
-    }
+  if (!filename.ends_with(".m")) {
+    filename += ".m";
   }
   // Open file for writing
   std::ofstream file(filename);
-- 
2.43.0


From 7d8a8419cc0bfeb7560f96925934c45cf71bb443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 27/41] fix: writeMatplotlib() accepts file names shorter than
 four letters

---
 lib/lf/io/write_matplotlib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/io/write_matplotlib.cc b/lib/lf/io/write_matplotlib.cc
index 62e6d4b..cab620f 100644
--- a/lib/lf/io/write_matplotlib.cc
+++ b/lib/lf/io/write_matplotlib.cc
@@ -18,7 +18,7 @@ void writeMatplotlib(const lf::mesh::Mesh &mesh, std::string filename) {
   using dim_t = lf::base::RefEl::dim_t;
 
   // append .csv to filename if necessary
-  if (filename.compare(filename.size() - 4, 4, ".csv") != 0) {
+  if (!filename.ends_with(".csv")) {
     filename += ".csv";
   }
 
-- 
2.43.0


From bf077ed78bbc2b356d2ec337328dea4365a7172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:22 +0000
Subject: [PATCH 28/41] fix: MeshFactory::PrintLists() writes to the given
 stream only

---
 lib/lf/mesh/hybrid2d/mesh_factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lf/mesh/hybrid2d/mesh_factory.cc b/lib/lf/mesh/hybrid2d/mesh_factory.cc
index 75ce663..8f0a0ba 100644
--- a/lib/lf/mesh/hybrid2d/mesh_factory.cc
+++ b/lib/lf/mesh/hybrid2d/mesh_factory.cc
@@ -147,7 +147,7 @@ void MeshFactory::PrintLists(std::ostream& o) const {
     o << '\n';
   }
 
-  std::cout << elements_.size() << " cells " << '\n';
+  o << elements_.size() << " cells " << '\n';
   for (std::size_t j = 0; j < elements_.size(); j++) {
     o << "Cell " << j << " : ";
     for (int l = 0; l < 4; l++) {
-- 
2.43.0


From e5bad841601da8bcc73908bf0fc8811c568e0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 29/41] fix: ProductUniformFESpaceFactory::Build() resets the
 component counter

---
 projects/dpg/product_fe_space_factory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/dpg/product_fe_space_factory.h b/projects/dpg/product_fe_space_factory.h
index f54ae44..7a796b3 100644
--- a/projects/dpg/product_fe_space_factory.h
+++ b/projects/dpg/product_fe_space_factory.h
@@ -291,6 +291,7 @@ ProductUniformFESpaceFactory<SCALAR>::Build() {
   rfs_quad_v_ = {};
   rfs_segment_v_ = {};
   rfs_point_v_ = {};
+  num_components_ = 0;
   return fe_space;
 }
 
-- 
2.43.0


From 6ded1e87f544f4f7cff97cfe588afcdbd744ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 30/41] fix: dpg::FluxElementMatrixProvider respects the
 orientation of edges for degree >= 2

---
 projects/dpg/loc_comp_dpg.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/projects/dpg/loc_comp_dpg.h b/projects/dpg/loc_comp_dpg.h
index 7a6095d..4851dc5 100644
--- a/projects/dpg/loc_comp_dpg.h
+++ b/projects/dpg/loc_comp_dpg.h
@@ -857,6 +857,11 @@ class FluxElementMatrixProvider : public SubElementMatrixProvider<SCALAR> {
    */
   std::array<lf::uscalfe::PrecomputedScalarReferenceFiniteElement<SCALAR>, 5>
       fe_precomp_trial_;
+  /** @brief same as fe_precomp_trial_, but evaluated at the quadrature points
+   * seen from the other endpoint. Used for edges with negative orientation,
+   * whose (interior) dofs are numbered in reverse order by the dof handler. */
+  std::array<lf::uscalfe::PrecomputedScalarReferenceFiniteElement<SCALAR>, 5>
+      fe_precomp_trial_reversed_;
   /** @brief array containing the precomputed information for the trial space:
    * fe_precomp_trial[i][j] contains the precomputed reference finite element of
    * \f$ v \f$ for
@@ -921,6 +926,13 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::FluxElementMatrixProvider(
       fe_precomp_trial_[ref_el.Id()] =
           lf::uscalfe::PrecomputedScalarReferenceFiniteElement(fe_trial,
                                                                segment_qr);
+      fe_precomp_trial_reversed_[ref_el.Id()] =
+          lf::uscalfe::PrecomputedScalarReferenceFiniteElement(
+              fe_trial,
+              lf::quad::QuadRule(
+                  lf::base::RefEl::kSegment(),
+                  (1.0 - segment_qr.Points().array()).matrix(),
+                  segment_qr.Weights(), segment_qr.Degree()));
 
       // transform quadrule to all parts of the boundary.
       std::vector<lf::quad::QuadRule> boundaryQr =
@@ -994,12 +1006,24 @@ FluxElementMatrixProvider<SCALAR, DIFF_COEFF>::Eval(
     auto alphaeval = alpha_(cell, pfes_test[segment].Qr().Points());
     int sgn =
         sign_provider_.PrescribedSign(cell, *cell.SubEntities(1)[segment]);
+    // If the orientation of the edge is negative, the i-th local dof belongs to
+    // the i-th last shape function in the parameterization of the edge.
+    const bool reversed = cell.RelativeOrientations()[segment] ==
+                          lf::mesh::Orientation::negative;
+    const auto& trial_shape_functions =
+        reversed ? fe_precomp_trial_reversed_[cell.RefEl().Id()]
+                       .PrecompReferenceShapeFunctions()
+                 : pfe_trial.PrecompReferenceShapeFunctions();
 
     // iterate over quadrature points.
     for (size_type k = 0; k < pfe_trial.Qr().NumPoints(); ++k) {
       // transformed quadrature weight
       const double w = pfe_trial.Qr().Weights()[k] * determinants[k] * sgn;
-      const auto trial_eval = pfe_trial.PrecompReferenceShapeFunctions().col(k);
+      Eigen::Matrix<SCALAR, Eigen::Dynamic, 1> trial_eval =
+          trial_shape_functions.col(k);
+      if (reversed) {
+        trial_eval.reverseInPlace();
+      }
       const auto test_eval =
           pfes_test[segment].PrecompReferenceShapeFunctions().col(k);
 
-- 
2.43.0


From 2be33c1348c8fe2b630aa275871b4ee9592fc0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 31/41] fix: dpg::InitEssentialConditionsFromFunctions() works
 for flux components

---
 projects/dpg/dpg_tools.h | 52 +++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/projects/dpg/dpg_tools.h b/projects/dpg/dpg_tools.h
index 0cf6f5c..563a1bb 100644
--- a/projects/dpg/dpg_tools.h
+++ b/projects/dpg/dpg_tools.h
@@ -277,34 +277,36 @@ std::vector<std::pair<bool, SCALAR>> InitEssentialConditionsFromFunctions(
   LF_ASSERT_MSG(trace_component != flux_component,
                 "Boundary conditions imposed on same component");
 
-  // retrive the dofhandlers for the corresponding  trace and flux components
-  const auto& trace_fes = fes.ComponentFESpace(trace_component);
-  const auto& flux_fes = fes.ComponentFESpace(flux_component);
-
-  // flag dofs on the component spaces
-  std::vector<std::pair<bool, SCALAR>> componentTraceConditions =
-      lf::fe::InitEssentialConditionFromFunction(*trace_fes, dirichletcondflag,
-                                                 g);
-  std::vector<std::pair<bool, SCALAR>> componentFluxConditions =
-      lf::fe::InitEssentialConditionFromFunction(*flux_fes, neumanncondflag, h);
-
-  // calculate offsets to transform flags on component spaces
-  // to the full product space
-  size_type trace_offset = fes.LocGlobMap().Offset(trace_component);
-  size_type flux_offset = fes.LocGlobMap().Offset(flux_component);
-
   std::vector<std::pair<bool, SCALAR>> EssentialConditions(
       fes.LocGlobMap().NumDofs(), {false, SCALAR{}});
 
-  // flag dofs on product space corresponding to fixed trace dofs
-  for (size_type dof = 0; dof < trace_fes->LocGlobMap().NumDofs(); dof++) {
-    EssentialConditions[trace_offset + dof] = componentTraceConditions[dof];
-  }
-
-  // flag dofs on product space corresponding to fixed flux dofs
-  for (size_type dof = 0; dof < flux_fes->LocGlobMap().NumDofs(); dof++) {
-    EssentialConditions[flux_offset + dof] = componentFluxConditions[dof];
-  }
+  // flags the dofs of a component that belong to selected edges. This uses the
+  // description of the shape functions on edges only, because no
+  // UniformScalarFESpace exists for components that live on the skeleton.
+  auto fix_component = [&fes, &EssentialConditions](
+                           size_type component, auto& edge_selector,
+                           auto& mesh_function) {
+    const auto* fe = fes.ShapeFunctionLayout(lf::base::RefEl::kSegment(),
+                                             component);
+    LF_ASSERT_MSG(fe != nullptr, "No reference shape functions for edges!");
+    const auto& dofh = fes.LocGlobMap().ComponentDofHandler(component);
+    const size_type offset = fes.LocGlobMap().Offset(component);
+    const Eigen::MatrixXd eval_nodes = fe->EvaluationNodes();
+    for (const lf::mesh::Entity* edge : fes.Mesh()->Entities(1)) {
+      if (edge_selector(*edge)) {
+        auto values = mesh_function(*edge, eval_nodes);
+        auto dof_values = fe->NodalValuesToDofs(
+            Eigen::Map<Eigen::Matrix<SCALAR, 1, Eigen::Dynamic>>(
+                &values[0], 1, values.size()));
+        int k = 0;
+        for (const auto dof : dofh.GlobalDofIndices(*edge)) {
+          EssentialConditions[offset + dof] = {true, dof_values[k++]};
+        }
+      }
+    }
+  };
+  fix_component(trace_component, dirichletcondflag, g);
+  fix_component(flux_component, neumanncondflag, h);
 
   return EssentialConditions;
 }
-- 
2.43.0


From 7f7bb511944ba909ffbf10e452f09be3fb2fb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 32/41] fix: AnnulusTriagMeshBuilder respects the center point

---
 projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
index 1addf04..2979219 100644
--- a/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
+++ b/projects/ipdg_stokes/mesh/annulus_triag_mesh_builder.cc
@@ -23,6 +23,7 @@ std::shared_ptr<lf::mesh::Mesh> AnnulusTriagMeshBuilder::Build() {
     const double pos_r = r + r_idx * dr;
     const double pos_phi = phi_idx * dphi;
     pos << pos_r * std::cos(pos_phi), pos_r * std::sin(pos_phi);
+    pos += center_point_;
     return pos;
   };
 
-- 
2.43.0


From cad5ea2a12ec8a1e18e0066c1c5204f3c12b7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:46 +0000
Subject: [PATCH 33/41] fix: DGnorm() works for quadrature rules with more than
 one point on edges

---
 projects/ipdg_stokes/post_processing/norms.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index c68f334..23adfab 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -90,12 +90,12 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
     }
     quadpoints[0] << quadrules[0].Points(),
-        Eigen::VectorXd::Zero(quadrules[0].NumPoints());
-    quadpoints[1] << Eigen::VectorXd::Ones(quadrules[1].NumPoints()) -
+        Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
+    quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
                          quadrules[1].Points(),
         quadrules[1].Points();
-    quadpoints[2] << Eigen::VectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::VectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+    quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
+        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-- 
2.43.0


From 3b0eed1cfa4861eff1164177fe96d8df0a8ad589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:48 +0000
Subject: [PATCH 34/41] fix: squaredNorm() of mesh functions with fixed-size
 matrix values is not zero

---
 lib/lf/mesh/utils/mesh_function_unary.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/lf/mesh/utils/mesh_function_unary.h b/lib/lf/mesh/utils/mesh_function_unary.h
index 4424216..d049bc1 100644
--- a/lib/lf/mesh/utils/mesh_function_unary.h
+++ b/lib/lf/mesh/utils/mesh_function_unary.h
@@ -163,6 +163,10 @@ struct UnaryOpSquaredNorm {
         Eigen::Map<Eigen::Matrix<S, Eigen::Dynamic, 1>> rm(result.data(),
                                                            u.size(), 1);
         rm = um.cwiseAbs2().rowwise().sum();
+      } else {  // NOLINT
+        for (std::size_t i = 0; i < u.size(); ++i) {
+          result[i] = u[i].squaredNorm();
+        }
       }
     } else {  // NOLINT
       for (std::size_t i = 0; i < u.size(); ++i) {
@@ -271,8 +275,8 @@ auto operator-(const A& a) -> MeshFunctionUnary<internal::UnaryOpMinus, A> {
  * @param a The original mesh function
  * @return \ref mesh_function representing `|a|^2` (pointwise)
  *
- * @note This operator requires `a` to be either scalar or (eigen-) vector
- * valued.
+ * @note This operator requires `a` to be either scalar, (eigen-) vector or
+ * (eigen-) matrix valued (Frobenius norm).
  */
 template <MeshFunction A>
 auto squaredNorm(const A& a)
-- 
2.43.0


From afcacff598a4e26702a979bd75ce7a8a39bb3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:32 +0000
Subject: [PATCH 35/41] fix: StrangSplit::Evolution() reaches the final time
 with symmetric splitting

The evolution skipped a time step, advanced the last reaction by half a step
only and left out the closing half step of the diffusion, so that it stopped
at T - 3/2 tau.
---
 projects/fisher_kpp/strangsplitting.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/projects/fisher_kpp/strangsplitting.cc b/projects/fisher_kpp/strangsplitting.cc
index 08a9fd6..432f959 100644
--- a/projects/fisher_kpp/strangsplitting.cc
+++ b/projects/fisher_kpp/strangsplitting.cc
@@ -72,7 +72,7 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
   sol_cur = StrangSplit::diffusionEvolutionOperator(firstcall, mu);
   firstcall = false;
   /* loop through time steps */
-  for (unsigned int i = 1; i < m_ - 1; i++) {
+  for (unsigned int i = 1; i < m_; i++) {
     /* Reaction for next full time step */
     sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
                                             std::exp(-lambda_ * tau_));
@@ -82,9 +82,13 @@ Eigen::VectorXd StrangSplit::Evolution(const Eigen::VectorXd &cap,
     sol_cur = sol_next;
   }
 
-  /* Last half time step: Reaction */
+  /* Reaction for the last full time step */
   sol_next = cap.cwiseQuotient(ones + (cap.cwiseQuotient(sol_cur) - ones) *
-                                          std::exp(-lambda_ * tau_ / 2.));
+                                          std::exp(-lambda_ * tau_));
+  sol_cur = sol_next;
+  /* Last half time step: Diffusion */
+  firstcall = true;
+  sol_next = StrangSplit::diffusionEvolutionOperator(firstcall, sol_cur);
   sol_cur = sol_next;
 
   sol = sol_cur;
-- 
2.43.0


From 21348d4ae51d678806a55df5627ef956b3289629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 36/41] fix: PrintInfo() of a reference segment does not access
 a second coordinate

---
 lib/lf/base/ref_el.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index e93ecb7..d354153 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -39,8 +39,8 @@ void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
           if (ref_el.SubType(co_dim, 0) == RefEl::kPoint() &&
               output_ctrl > 20) {
             stream << " and has coordinates ["
-                   << ref_el.NodeCoords().col(sub_ent)[0] << " "
-                   << ref_el.NodeCoords().col(sub_ent)[1] << "]" << '\n';
+                   << ref_el.NodeCoords().col(sub_ent).transpose() << "]"
+                   << '\n';
           }
           stream << '\n';
         }
-- 
2.43.0


From 93aa04bce216a1b7edd7c74bcabfcf69c2be09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 37/41] fix: output of finite element spaces compiles

---
 lib/lf/fe/scalar_fe_space.h              | 2 +-
 lib/lf/uscalfe/uniform_scalar_fe_space.h | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/lf/fe/scalar_fe_space.h b/lib/lf/fe/scalar_fe_space.h
index af19487..cd18222 100644
--- a/lib/lf/fe/scalar_fe_space.h
+++ b/lib/lf/fe/scalar_fe_space.h
@@ -118,7 +118,7 @@ class ScalarFESpace {
 /** @brief output operator for scalar parametric finite element space */
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o, const ScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  o << "Scalar FE space, dim = " << fes.LocGlobMap().NumDofs();
   return o;
 }
 
diff --git a/lib/lf/uscalfe/uniform_scalar_fe_space.h b/lib/lf/uscalfe/uniform_scalar_fe_space.h
index 37810fd..190cc07 100644
--- a/lib/lf/uscalfe/uniform_scalar_fe_space.h
+++ b/lib/lf/uscalfe/uniform_scalar_fe_space.h
@@ -16,6 +16,7 @@
 
 #include <lf/assemble/assemble.h>
 #include <lf/fe/scalar_fe_space.h>
+#include <lf/mesh/utils/utils.h>
 
 #include "lagr_fe.h"
 
@@ -423,7 +424,8 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
     << std::endl;
 
   if ((ctrl & kUniformScalarFESpaceOutMesh) != 0) {
-    o << *fes.Mesh() << std::endl;
+    lf::mesh::utils::PrintInfo(o, *fes.Mesh());
+    o << std::endl;
   }
   if ((ctrl & kUniformScalarFESpaceOutDofh) != 0) {
     o << fes.LocGlobMap() << std::endl;
@@ -444,7 +446,7 @@ void PrintInfo(std::ostream &o, const UniformScalarFESpace<SCALAR> &fes,
 template <typename SCALAR>
 std::ostream &operator<<(std::ostream &o,
                          const UniformScalarFESpace<SCALAR> &fes) {
-  fes.PrintInfo(o, 0);
+  PrintInfo(o, fes, 0);
   return o;
 }
 
-- 
2.43.0


From 967c2938d8e9075d93cc674e1fde0a0874530d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 38/41] fix: output operator of GMshFileV2 writes periodic
 entities to its stream

---
 lib/lf/io/gmsh_file_v2.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/lf/io/gmsh_file_v2.cc b/lib/lf/io/gmsh_file_v2.cc
index 948bae3..3f6f8e2 100644
--- a/lib/lf/io/gmsh_file_v2.cc
+++ b/lib/lf/io/gmsh_file_v2.cc
@@ -175,11 +175,10 @@ std::ostream& operator<<(std::ostream& stream, const GMshFileV2& mf) {
   stream << '\n';
   stream << "PERIODIC ENTITIES:" << '\n';
   for (const auto& pe : mf.Periodic) {
-    std::cout << "  dim=" << pe.Dimension
-              << ", slaveNr=" << pe.ElementarySlaveNr
-              << ", masterNr=" << pe.ElementaryMasterNr << '\n';
+    stream << "  dim=" << pe.Dimension << ", slaveNr=" << pe.ElementarySlaveNr
+           << ", masterNr=" << pe.ElementaryMasterNr << '\n';
     for (auto nm : pe.NodeMapping) {
-      std::cout << "    " << nm.first << " <-> " << nm.second << '\n';
+      stream << "    " << nm.first << " <-> " << nm.second << '\n';
     }
   }
   return stream;
-- 
2.43.0


From c3fba5e56df931a94b8ce15d92640a06ebb7aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:28 +0000
Subject: [PATCH 39/41] fix: RefEl::NodeCoords<>() can be linked

---
 lib/lf/base/ref_el.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/lf/base/ref_el.cc b/lib/lf/base/ref_el.cc
index d354153..da74f28 100644
--- a/lib/lf/base/ref_el.cc
+++ b/lib/lf/base/ref_el.cc
@@ -13,6 +13,19 @@ const Eigen::MatrixXd RefEl::ncoords_tria_dynamic_ =
 const Eigen::MatrixXd RefEl::ncoords_quad_dynamic_ =
     (Eigen::MatrixXd{2, 4} << 0, 1, 1, 0, 0, 0, 1, 1).finished();
 
+const std::vector<Eigen::Matrix<double, 0, 1>> RefEl::ncoords_point_static_{
+    Eigen::Matrix<double, 0, 1>()};
+
+const std::vector<Eigen::Matrix<double, 1, 1>> RefEl::ncoords_segment_static_{
+    Eigen::Matrix<double, 1, 1>(0.0), Eigen::Matrix<double, 1, 1>(1.0)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_tria_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(0, 1)};
+
+const std::vector<Eigen::Vector2d> RefEl::ncoords_quad_static_{
+    Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(1, 1),
+    Eigen::Vector2d(0, 1)};
+
 // Print function
 void PrintInfo(std::ostream &stream, const RefEl &ref_el, int output_ctrl) {
   const base::dim_t dim_ref_el = ref_el.Dimension();
-- 
2.43.0


From e7d08dc5cf6d572e8fbc4091040ae6a7651aeaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 40/41] fix: DG norm for edge quadrature rules that are not
 symmetric

The values at the quadrature points of an edge were matched between the two
adjacent triangles by reversing the order of the points, which pairs up
different points of the edge unless the rule is symmetric. Evaluate at the
reflected points instead.
---
 projects/ipdg_stokes/post_processing/norms.h | 42 ++++++++------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/projects/ipdg_stokes/post_processing/norms.h b/projects/ipdg_stokes/post_processing/norms.h
index 23adfab..c062e29 100644
--- a/projects/ipdg_stokes/post_processing/norms.h
+++ b/projects/ipdg_stokes/post_processing/norms.h
@@ -85,43 +85,35 @@ double DGnorm(const std::shared_ptr<const lf::mesh::Mesh> &mesh, const MF_F &f,
         projects::ipdg_stokes::mesh::computeOutwardNormals(*entity);
     std::array<lf::quad::QuadRule, 3> quadrules;
     std::array<Eigen::MatrixXd, 3> quadpoints;
+    std::array<Eigen::RowVectorXd, 3> params;
     for (int i = 0; i < 3; ++i) {
       quadrules[i] = qr_selector(*edges[i]);
       quadpoints[i] = Eigen::MatrixXd(2, quadrules[i].NumPoints());
+      // Parameters of the quadrature points of the edge when it is traversed
+      // in the direction given by the element
+      params[i] = quadrules[i].Points();
+      if (orientations[i] == lf::mesh::Orientation::negative) {
+        params[i] = (1 - params[i].array()).matrix().eval();
+      }
     }
-    quadpoints[0] << quadrules[0].Points(),
+    quadpoints[0] << params[0],
         Eigen::RowVectorXd::Zero(quadrules[0].NumPoints());
     quadpoints[1] << Eigen::RowVectorXd::Ones(quadrules[1].NumPoints()) -
-                         quadrules[1].Points(),
-        quadrules[1].Points();
+                         params[1],
+        params[1];
     quadpoints[2] << Eigen::RowVectorXd::Zero(quadrules[2].NumPoints()),
-        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) - quadrules[2].Points();
+        Eigen::RowVectorXd::Ones(quadrules[2].NumPoints()) - params[2];
     for (int i = 0; i < 3; ++i) {
       const auto edge = edges[i];
       const auto segment_eval = f(*entity, quadpoints[i]);
-      if (orientations[i] == lf::mesh::Orientation::positive) {
-        if (eval(*edge).size() == 0) {
-          eval(*edge).resize(segment_eval.size());
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] = segment_eval[j] * normals.col(i).transpose();
-          }
-        } else {
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] += segment_eval[j] * normals.col(i).transpose();
-          }
+      if (eval(*edge).size() == 0) {
+        eval(*edge).resize(segment_eval.size());
+        for (int j = 0; j < segment_eval.size(); ++j) {
+          eval(*edge)[j] = segment_eval[j] * normals.col(i).transpose();
         }
       } else {
-        if (eval(*edge).size() == 0) {
-          eval(*edge).resize(segment_eval.size());
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] = segment_eval[segment_eval.size() - j - 1] *
-                             normals.col(i).transpose();
-          }
-        } else {
-          for (int j = 0; j < segment_eval.size(); ++j) {
-            eval(*edge)[j] += segment_eval[segment_eval.size() - j - 1] *
-                              normals.col(i).transpose();
-          }
+        for (int j = 0; j < segment_eval.size(); ++j) {
+          eval(*edge)[j] += segment_eval[j] * normals.col(i).transpose();
         }
       }
     }
-- 
2.43.0


From bd5c25e57c7ff0ced2f1e0070280ff2cb2a92557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:55 +0000
Subject: [PATCH 41/41] fix: element matrix and vector providers share
 ownership of their space

The providers of lf::uscalfe take a shared_ptr to the finite element space but
kept only raw pointers to its reference elements, so a provider built from a
temporary space accessed freed memory in Eval().
---
 lib/lf/uscalfe/loc_comp_ellbvp.h | 34 ++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/lib/lf/uscalfe/loc_comp_ellbvp.h b/lib/lf/uscalfe/loc_comp_ellbvp.h
index 4bd7ccd..264e71d 100644
--- a/lib/lf/uscalfe/loc_comp_ellbvp.h
+++ b/lib/lf/uscalfe/loc_comp_ellbvp.h
@@ -184,6 +184,8 @@ class ReactionDiffusionElementMatrixProvider {
   REACTION_COEFF gamma_;
   /** @} */
 
+  // keeps the reference finite elements used by fe_precomp_ alive
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
   // fe_precomp_[i] contains precomputed reference finite element for ref_el i.
   std::array<PrecomputedScalarReferenceFiniteElement<SCALAR>, 5> fe_precomp_;
 };
@@ -213,7 +215,10 @@ ReactionDiffusionElementMatrixProvider<SCALAR, DIFF_COEFF, REACTION_COEFF>::
     ReactionDiffusionElementMatrixProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         DIFF_COEFF alpha, REACTION_COEFF gamma)
-    : alpha_(std::move(alpha)), gamma_(std::move(gamma)), fe_precomp_() {
+    : alpha_(std::move(alpha)),
+      gamma_(std::move(gamma)),
+      fe_space_(fe_space),
+      fe_precomp_() {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
     auto fe = fe_space->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available.
@@ -238,7 +243,10 @@ ReactionDiffusionElementMatrixProvider<SCALAR, DIFF_COEFF, REACTION_COEFF>::
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         DIFF_COEFF alpha, REACTION_COEFF gamma,
         quad_rule_collection_t qr_collection)
-    : alpha_(std::move(alpha)), gamma_(std::move(gamma)), fe_precomp_() {
+    : alpha_(std::move(alpha)),
+      gamma_(std::move(gamma)),
+      fe_space_(fe_space),
+      fe_precomp_() {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
     // Obtain pointer to an object describing local shape functions
     auto fe = fe_space->ShapeFunctionLayout(ref_el);
@@ -398,6 +406,7 @@ class MassEdgeMatrixProvider {
       EDGESELECTOR edge_selector = base::PredicateTrue{})
       : gamma_(std::move(gamma)),
         edge_sel_(std::move(edge_selector)),
+        fe_space_(fe_space),
         fe_precomp_() {
     auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
@@ -423,6 +432,7 @@ class MassEdgeMatrixProvider {
       EDGESELECTOR edge_selector = base::PredicateTrue{})
       : gamma_(std::move(gamma)),
         edge_sel_(std::move(edge_selector)),
+        fe_space_(fe_space),
         fe_precomp_() {
     auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
@@ -466,6 +476,8 @@ class MassEdgeMatrixProvider {
  private:
   COEFF gamma_;            // functor for coefficient
   EDGESELECTOR edge_sel_;  // Defines the active edges
+  // keeps the reference finite element used by fe_precomp_ alive
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
   // Precomputed quantities at quadrature points
   PrecomputedScalarReferenceFiniteElement<SCALAR> fe_precomp_;
 };
@@ -620,6 +632,8 @@ class ScalarLoadElementVectorProvider {
   /** @brief An object providing the source function */
   MESH_FUNCTION f_;
 
+  // keeps the reference finite elements used by fe_precomp_ alive
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
   std::array<PrecomputedScalarReferenceFiniteElement<SCALAR>, 5> fe_precomp_;
 };
 
@@ -640,7 +654,7 @@ ScalarLoadElementVectorProvider<SCALAR, MESH_FUNCTION>::
     ScalarLoadElementVectorProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         MESH_FUNCTION f)
-    : f_(std::move(f)) {
+    : f_(std::move(f)), fe_space_(fe_space) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
     auto fe = fe_space->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
@@ -660,7 +674,7 @@ ScalarLoadElementVectorProvider<SCALAR, MESH_FUNCTION>::
     ScalarLoadElementVectorProvider(
         std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space,
         MESH_FUNCTION f, quad_rule_collection_t qr_collection)
-    : f_(std::move(f)) {
+    : f_(std::move(f)), fe_space_(fe_space) {
   for (auto ref_el : {base::RefEl::kTria(), base::RefEl::kQuad()}) {
     auto fe = fe_space->ShapeFunctionLayout(ref_el);
     // Check whether shape functions for that entity type are available
@@ -814,7 +828,10 @@ class ScalarLoadEdgeVectorProvider {
   ScalarLoadEdgeVectorProvider(
       std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space, FUNCTOR g,
       EDGESELECTOR edge_sel = base::PredicateTrue{})
-      : g_(std::move(g)), edge_sel_(std::move(edge_sel)), pfe_() {
+      : g_(std::move(g)),
+        edge_sel_(std::move(edge_sel)),
+        fe_space_(fe_space),
+        pfe_() {
     auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     // Precompute entity-independent quantities based on a LehrFEM++ built-in
@@ -834,7 +851,10 @@ class ScalarLoadEdgeVectorProvider {
       std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space, FUNCTOR g,
       lf::quad::QuadRule quadrule,
       EDGESELECTOR edge_sel = base::PredicateTrue{})
-      : g_(std::move(g)), edge_sel_(std::move(edge_sel)), pfe_() {
+      : g_(std::move(g)),
+        edge_sel_(std::move(edge_sel)),
+        fe_space_(fe_space),
+        pfe_() {
     auto fe = fe_space->ShapeFunctionLayout(base::RefEl::kSegment());
     LF_ASSERT_MSG(fe != nullptr, "No shape functions specified for edges");
     LF_ASSERT_MSG(quadrule.RefEl() == base::RefEl::kSegment(),
@@ -861,6 +881,8 @@ class ScalarLoadEdgeVectorProvider {
  private:
   FUNCTOR g_;              // source function
   EDGESELECTOR edge_sel_;  // selects edges
+  // keeps the reference finite element used by pfe_ alive
+  std::shared_ptr<const UniformScalarFESpace<SCALAR>> fe_space_;
   PrecomputedScalarReferenceFiniteElement<SCALAR> pfe_;
 };
 
-- 
2.43.0

