From 13c6e4829adb420b0e746d208939f51f7db1e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 01/21] fix: escape XML special characters when converting a
 ptree to a ParameterList

---
 source/common/utils.cc | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/source/common/utils.cc b/source/common/utils.cc
index ffdb0a1..d16c15f 100644
--- a/source/common/utils.cc
+++ b/source/common/utils.cc
@@ -17,6 +17,37 @@
 
 namespace mfmg
 {
+// Names and values may contain characters that have a meaning in XML
+static std::string escape_xml(std::string const &text)
+{
+  std::string escaped;
+  for (char const c : text)
+  {
+    switch (c)
+    {
+    case '&':
+      escaped += "&amp;";
+      break;
+    case '<':
+      escaped += "&lt;";
+      break;
+    case '>':
+      escaped += "&gt;";
+      break;
+    case '"':
+      escaped += "&quot;";
+      break;
+    case '\'':
+      escaped += "&apos;";
+      break;
+    default:
+      escaped += c;
+    }
+  }
+
+  return escaped;
+}
+
 static std::ostream &
 ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
 {
@@ -28,7 +59,7 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
     bool child_is_sublist = !item.second.empty();
     if (child_is_sublist)
     {
-      os << "<ParameterList name=\"" << item.first << "\">" << std::endl;
+      os << "<ParameterList name=\"" << escape_xml(item.first) << "\">" << std::endl;
       ptree2plist_internal(item.second, os);
       os << "</ParameterList>" << std::endl;
     }
@@ -54,8 +85,9 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
         value_type = "string";
       }
 
-      os << "<Parameter name=\"" << item.first << "\" type=\"" << value_type
-         << "\" value=\"" << value << "\"/>" << std::endl;
+      os << "<Parameter name=\"" << escape_xml(item.first) << "\" type=\""
+         << value_type << "\" value=\"" << escape_xml(value) << "\"/>"
+         << std::endl;
     }
   }
   return os;
-- 
2.43.0


From 24372dc90a89d638ebece8fd1efa6c071a278e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 02/21] fix: accept blanks around boolean values when
 converting a ptree to a ParameterList

---
 source/common/utils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/common/utils.cc b/source/common/utils.cc
index d16c15f..79bd22c 100644
--- a/source/common/utils.cc
+++ b/source/common/utils.cc
@@ -79,6 +79,8 @@ ptree2plist_internal(boost::property_tree::ptree const &node, std::ostream &os)
       else if (item.second.get_value_optional<bool>())
       {
         value_type = "bool";
+        // Teuchos does not accept blanks around the value
+        value = item.second.get_value<bool>() ? "true" : "false";
       }
       else
       {
-- 
2.43.0


From 37e0d36d4769d180c4a9e320a7dee90eed774074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 03/21] fix: do not move a cell from one block agglomerate to
 another

When the coordinate directions of neighboring cells do not match (hyper_ball,
hyper_cross, ...), a block could take all the cells of a previous agglomerate
and leave an empty agglomerate behind.
---
 include/mfmg/common/amge.templates.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 9601b98..b90719d 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -439,7 +439,10 @@ unsigned int AMGe<dim, VectorType>::build_agglomerates_block(
           auto current_cell = current_y_cell;
           for (unsigned int i = 0; i < agglomerate_dim[0]; ++i)
           {
-            current_cell->set_user_index(agglomerate);
+            // A cell that already belongs to another agglomerate is left there.
+            // Otherwise, the other agglomerate could end up without any cell.
+            if (current_cell->user_index() == 0)
+              current_cell->set_user_index(agglomerate);
             if (current_cell->at_boundary(x_p) == false)
             {
               // TODO For now, we assume that there is no adaptive refinement.
-- 
2.43.0


From a557969c6980208f966cd19161efef011c78e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 04/21] fix: make the agglomerates independent of the previous
 user indices

Building block agglomerates a second time on the same mesh gave no agglomerate
at all, and indices left on the cells by the user ended up in the agglomerates.
---
 include/mfmg/common/amge.templates.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index b90719d..46ad9ce 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -52,6 +52,11 @@ template <int dim, typename VectorType>
 unsigned int AMGe<dim, VectorType>::build_agglomerates(
     boost::property_tree::ptree const &ptree) const
 {
+  // The user indices may have been set by an earlier call or by the user. Only
+  // the cells flagged below must belong to an agglomerate.
+  for (auto cell : _dof_handler.active_cell_iterators())
+    cell->clear_user_index();
+
   std::string partitioner_type = ptree.get<std::string>("partitioner");
   std::transform(partitioner_type.begin(), partitioner_type.end(),
                  partitioner_type.begin(), ::tolower);
-- 
2.43.0


From 44fa7b42927f7df5069dfbe93d68b95a64c0cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 05/21] fix: list the file of every processor in the parallel
 output record

---
 include/mfmg/common/amge.templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mfmg/common/amge.templates.hpp b/include/mfmg/common/amge.templates.hpp
index 46ad9ce..6000e4c 100644
--- a/include/mfmg/common/amge.templates.hpp
+++ b/include/mfmg/common/amge.templates.hpp
@@ -267,7 +267,7 @@ void AMGe<dim, VectorType>::output(std::string const &filename) const
         dealii::Utilities::MPI::n_mpi_processes(_comm);
     std::vector<std::string> full_filenames(comm_size);
     for (unsigned int i = 0; i < comm_size; ++i)
-      full_filenames[0] = filename + std::to_string(i) + ".vtu";
+      full_filenames[i] = filename + std::to_string(i) + ".vtu";
     std::ofstream master_output(filename + ".pvtu");
     data_out.write_pvtu_record(master_output, full_filenames);
   }
-- 
2.43.0


From fdfb863cfbd02f3bc430163c284074c881983047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:56 +0000
Subject: [PATCH 06/21] fix: do not add the correction of another patch for an
 empty patch

---
 source/dealii/dealii_hierarchy_helpers.cc             | 2 ++
 source/dealii/dealii_matrix_free_hierarchy_helpers.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/source/dealii/dealii_hierarchy_helpers.cc b/source/dealii/dealii_hierarchy_helpers.cc
index 39bc2ce..4cb9a64 100644
--- a/source/dealii/dealii_hierarchy_helpers.cc
+++ b/source/dealii/dealii_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIHierarchyHelpers<dim, VectorType>::build_restrictor(
                                                  patch_to_global_map);
             if (patch_to_global_map.empty())
             {
+              // The copy data may still hold the result of another patch.
+              local_copy_data.rows.clear();
               return;
             }
 
diff --git a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
index bc3cb36..1f41454 100644
--- a/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
+++ b/source/dealii/dealii_matrix_free_hierarchy_helpers.cc
@@ -140,6 +140,8 @@ DealIIMatrixFreeHierarchyHelpers<dim, VectorType>::build_restrictor(
             *agglomerate_it, agglomerate_triangulation, patch_to_global_map);
         if (patch_to_global_map.empty())
         {
+          // The copy data may still hold the result of another patch.
+          local_copy_data.rows.clear();
           return;
         }
 
-- 
2.43.0


From 0a8ce6b892ccfb3aed4903a105477e2b3b6a7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 07/21] fix: let ARPACK converge on small agglomerates

---
 include/mfmg/dealii/amge_host.templates.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 214e999..a97859c 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -412,8 +412,13 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     dealii::SparseDirectUMFPACK inv_system_matrix;
     inv_system_matrix.initialize(agglomerate_system_matrix);
 
-    dealii::SolverControl solver_control(n_dofs_agglomerate, tolerance);
-    unsigned int const n_arnoldi_vectors = 2 * n_eigenvectors + 2;
+    // deal.II does not report when ARPACK runs out of restarts. On a small
+    // agglomerate the number of dofs is not enough of them.
+    dealii::SolverControl solver_control(std::max(n_dofs_agglomerate, 1000u),
+                                         tolerance);
+    // There cannot be more Arnoldi vectors than dofs
+    unsigned int const n_arnoldi_vectors =
+        std::min(2 * n_eigenvectors + 2, n_dofs_agglomerate);
     bool const symmetric = true;
     // We want the eigenvalues of the smallest magnitudes but we need to ask
     // for the ones with the largest magnitudes because they are computed for
-- 
2.43.0


From f7e7f3b4fd03132b5ac1c6925a6133b8042b4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:21 +0000
Subject: [PATCH 08/21] fix: reject unknown eigensolver types in release builds

The assertion is compiled out unless MFMG_DEBUG is set; the set-up then went
on with zero eigenvectors.
---
 include/mfmg/dealii/amge_host.templates.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index a97859c..141cead 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -336,7 +336,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Compute the map between the local and the global dof indices.
@@ -472,7 +472,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   }
   else
   {
-    ASSERT(false, "Unknown eigensolver type '" + eigensolver_type + "'");
+    ASSERT_THROW(false, "Unknown eigensolver type '" + eigensolver_type + "'");
   }
 
   // Shift eigenvalues back
-- 
2.43.0


From 225e04354907905a74d592e83e1d1186afe61a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 09/21] fix: reject operators of the wrong kind in release
 builds

Smoothers, solvers and products dereferenced the null pointer of a failed
downcast, e.g. the coarse solver of a matrix-free hierarchy with one level.
---
 source/dealii/dealii_matrix_free_operator.cc     | 3 +++
 source/dealii/dealii_matrix_free_smoother.cc     | 6 +++---
 source/dealii/dealii_smoother.cc                 | 2 +-
 source/dealii/dealii_solver.cc                   | 3 +++
 source/dealii/dealii_trilinos_matrix_operator.cc | 7 +++++++
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/source/dealii/dealii_matrix_free_operator.cc b/source/dealii/dealii_matrix_free_operator.cc
index 9abfc7b..b5f9550 100644
--- a/source/dealii/dealii_matrix_free_operator.cc
+++ b/source/dealii/dealii_matrix_free_operator.cc
@@ -101,6 +101,9 @@ DealIIMatrixFreeOperator<dim, VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(downcast_b != nullptr,
+               "DealIIMatrixFreeOperator can only be multiplied with a "
+               "DealIITrilinosMatrixOperator");
 
   auto tmp = this->build_range_vector();
   auto b_mat = downcast_b->get_matrix();
diff --git a/source/dealii/dealii_matrix_free_smoother.cc b/source/dealii/dealii_matrix_free_smoother.cc
index 6031ed3..0e55edf 100644
--- a/source/dealii/dealii_matrix_free_smoother.cc
+++ b/source/dealii/dealii_matrix_free_smoother.cc
@@ -25,9 +25,9 @@ DealIIMatrixFreeSmoother<dim, VectorType>::DealIIMatrixFreeSmoother(
 
   auto matrix_free_operator =
       std::dynamic_pointer_cast<operator_type const>(this->_operator);
-  ASSERT(matrix_free_operator != nullptr,
-         "DealIIMartixFreeSmoother must be constructed from a "
-         "DealIIMatrixFreeOperator");
+  ASSERT_THROW(matrix_free_operator != nullptr,
+               "DealIIMatrixFreeSmoother must be constructed from a "
+               "DealIIMatrixFreeOperator");
 
   std::transform(prec_name.begin(), prec_name.end(), prec_name.begin(),
                  ::tolower);
diff --git a/source/dealii/dealii_smoother.cc b/source/dealii/dealii_smoother.cc
index a5c9197..d3adb69 100644
--- a/source/dealii/dealii_smoother.cc
+++ b/source/dealii/dealii_smoother.cc
@@ -29,7 +29,7 @@ DealIISmoother<VectorType>::DealIISmoother(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
-  ASSERT(
+  ASSERT_THROW(
       trilinos_operator != nullptr,
       "DealIISmoother must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
diff --git a/source/dealii/dealii_solver.cc b/source/dealii/dealii_solver.cc
index b77e22a..99d6331 100644
--- a/source/dealii/dealii_solver.cc
+++ b/source/dealii/dealii_solver.cc
@@ -34,6 +34,9 @@ DealIISolver<VectorType>::DealIISolver(
   auto trilinos_operator =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           this->_operator);
+  ASSERT_THROW(
+      trilinos_operator != nullptr,
+      "DealIISolver must be constructed from a DealIITrilinosMatrixOperator");
   auto sparse_matrix = trilinos_operator->get_matrix();
   // Make parameters case-insensitive
   std::string coarse_type_lower = coarse_type;
diff --git a/source/dealii/dealii_trilinos_matrix_operator.cc b/source/dealii/dealii_trilinos_matrix_operator.cc
index bce586a..0dc82fc 100644
--- a/source/dealii/dealii_trilinos_matrix_operator.cc
+++ b/source/dealii/dealii_trilinos_matrix_operator.cc
@@ -61,6 +61,9 @@ DealIITrilinosMatrixOperator<VectorType>::multiply(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(
+      downcast_b != nullptr,
+      "DealIITrilinosMatrixOperator can only be multiplied with another one");
 
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
@@ -80,6 +83,10 @@ DealIITrilinosMatrixOperator<VectorType>::multiply_transpose(
   auto downcast_b =
       std::dynamic_pointer_cast<DealIITrilinosMatrixOperator<VectorType> const>(
           b);
+  ASSERT_THROW(
+      downcast_b != nullptr,
+      "DealIITrilinosMatrixOperator can only be multiplied with another one");
+
   auto a_mat = this->get_matrix();
   auto b_mat = downcast_b->get_matrix();
   auto c_mat = std::make_shared<dealii::TrilinosWrappers::SparseMatrix>(
-- 
2.43.0


From 58121a21e9f771233fe30012005c15756bca6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 10/21] fix: reject products with a transposed operator of
 other size

The result was an empty matrix (matrix-based) or read out of bounds
(matrix-free).
---
 source/dealii/dealii_matrix_free_operator.cc     | 2 ++
 source/dealii/dealii_trilinos_matrix_operator.cc | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/dealii/dealii_matrix_free_operator.cc b/source/dealii/dealii_matrix_free_operator.cc
index b5f9550..e222f1f 100644
--- a/source/dealii/dealii_matrix_free_operator.cc
+++ b/source/dealii/dealii_matrix_free_operator.cc
@@ -107,6 +107,8 @@ DealIIMatrixFreeOperator<dim, VectorType>::multiply_transpose(
 
   auto tmp = this->build_range_vector();
   auto b_mat = downcast_b->get_matrix();
+  ASSERT_THROW(tmp->size() == b_mat->n(),
+               "The sizes of the operators do not match");
 
   auto c_mat = matrix_transpose_matrix_multiply(
       tmp->locally_owned_elements(), b_mat->locally_owned_range_indices(),
diff --git a/source/dealii/dealii_trilinos_matrix_operator.cc b/source/dealii/dealii_trilinos_matrix_operator.cc
index 0dc82fc..0c364c0 100644
--- a/source/dealii/dealii_trilinos_matrix_operator.cc
+++ b/source/dealii/dealii_trilinos_matrix_operator.cc
@@ -95,9 +95,10 @@ DealIITrilinosMatrixOperator<VectorType>::multiply_transpose(
   int error_code = EpetraExt::MatrixMatrix::Multiply(
       a_mat->trilinos_matrix(), false, b_mat->trilinos_matrix(), true,
       const_cast<Epetra_CrsMatrix &>(c_mat->trilinos_matrix()));
-  ASSERT(error_code == 0, "EpetraExt::MatrixMatrix::Multiply() returned "
-                          "non-zero error code in "
-                          "DealIITrilinosMatrixOperator::multiply_transpose()");
+  ASSERT_THROW(error_code == 0,
+               "EpetraExt::MatrixMatrix::Multiply() returned "
+               "non-zero error code in "
+               "DealIITrilinosMatrixOperator::multiply_transpose()");
 
   return std::make_shared<DealIITrilinosMatrixOperator<VectorType>>(c_mat);
 }
-- 
2.43.0


From 3e68be780063a3d60247ef330c2e644aba575f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 11/21] fix: reject missing parameters and nonpositive numbers
 of levels

Both ended in a segmentation fault in release builds.
---
 include/mfmg/common/hierarchy.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index 24811ac..b20b128 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -161,6 +161,8 @@ public:
             std::shared_ptr<dealii::TimerOutput> timer = nullptr)
       : _timer(timer)
   {
+    ASSERT_THROW(params != nullptr, "The parameters must be provided");
+
     timer_enter_subsection(_timer, "Setup");
     // Replace by a factory
     auto hierarchy_helpers = create_hierarchy_helpers<VectorType>(evaluator);
@@ -170,8 +172,9 @@ public:
 
     // TODO: add stopping criteria for levels (number of levels / coarse size)
     int const num_levels = params->get("max levels", 2);
-    ASSERT(num_levels > 0, "number of levels specified by \"max levels\" "
-                           "parameter must be positive");
+    ASSERT_THROW(num_levels > 0,
+                 "number of levels specified by \"max levels\" "
+                 "parameter must be positive");
     _levels.resize(num_levels);
 
     _levels[0].set_operator(hierarchy_helpers->get_global_operator(evaluator));
-- 
2.43.0


From 74329e322a6a015c1a378c4601660f46aff8997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 12/21] fix: reject the fast product for coarser operators

With more than two levels and fast_ap the product of the finest operator was
used on every level and the application corrupted memory.
---
 include/mfmg/common/hierarchy.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index b20b128..f102826 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -218,6 +218,11 @@ public:
       bool fast_ap = params->get("fast_ap", false);
       if (fast_ap)
       {
+        // The fast product is only available for the finest operator
+        ASSERT_THROW(restrictor->build_domain_vector()->size() ==
+                         a->build_range_vector()->size(),
+                     "The restrictor does not match the operator");
+
         timer_enter_subsection(_timer, "Setup: fast_ap");
         ap = hierarchy_helpers->fast_multiply_transpose();
         timer_leave_subsection(_timer);
-- 
2.43.0


From 6f021ad0ef4862c781e21c944ee6059cf97c07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 13/21] fix: MvAddMv when the result is the second operand

The second operand was overwritten before it was used, so mv = alpha A + beta mv
gave (alpha + beta) A. Anasazi's solvers make such calls.
---
 include/mfmg/dealii/anasazi_traits.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/dealii/anasazi_traits.hpp b/include/mfmg/dealii/anasazi_traits.hpp
index b946542..baef3a4 100644
--- a/include/mfmg/dealii/anasazi_traits.hpp
+++ b/include/mfmg/dealii/anasazi_traits.hpp
@@ -161,8 +161,14 @@ public:
 
     for (int i = 0; i < n_vectors; i++)
     {
-      *mv[i] = *A[i];
-      (*mv[i]).sadd(alpha, beta, *B[i]);
+      // mv may be A or B
+      if (mv[i] == B[i])
+        (*mv[i]).sadd(beta, alpha, *A[i]);
+      else
+      {
+        *mv[i] = *A[i];
+        (*mv[i]).sadd(alpha, beta, *B[i]);
+      }
     }
   }
 
-- 
2.43.0


From cb344c1656459eeaee2463861b6506f776e556c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 14/21] fix: make the tolerance for repeated Ritz values
 relative

---
 include/mfmg/common/lanczos.templates.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 93d654e..13ecbbc 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -342,8 +342,10 @@ Lanczos<OperatorType, VectorType>::details_calc_tridiag_epairs(
   // revisions of the simplified algorithm implemented here.
 
   // The following tolerance may need adjustment, however this doesn't
-  // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12.
-  double const tol2 = 5.e-12;
+  // seem critical (cf. C/W vol. 1). Cullum/Willoughby use 1e-12. It is relative
+  // to the norm of T, which determines the round-off.
+  double const tol2 =
+      5.e-12 * std::max(std::abs(evals.front()), std::abs(evals.back()));
 
   // Identify repeated eigenvalues.
   // A "marked" eigenvalue here is nonrepeated or first of a set of repeated.
-- 
2.43.0


From 7747e9c104264688fdee2feaf5500487854c3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 15/21] fix: sort the eigenpairs of all Lanczos cycles before
 dropping the surplus

---
 include/mfmg/common/lanczos.templates.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 13ecbbc..05238dc 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -145,25 +145,22 @@ Lanczos<OperatorType, VectorType>::solve(
     }
   }
 
-  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
-  evals.resize(n_eigenvectors);
-  evecs.resize(n_eigenvectors);
-
   // Sort eigenvalues in ascending order if we run multiple Lanczos
   // The reason is that while each Lanczos solve produces sorted eigenvalues,
   // they may be the same, and thus need to be interleaved
   if (num_cycles > 1)
   {
-    std::vector<double> sorted_evals(n_eigenvectors);
-    std::vector<VectorType> sorted_evecs(n_eigenvectors);
+    int const n_computed = evals.size();
+    std::vector<double> sorted_evals(n_computed);
+    std::vector<VectorType> sorted_evecs(n_computed);
 
     // Compute permutation for ascending order
-    std::vector<int> perm_index(n_eigenvectors);
+    std::vector<int> perm_index(n_computed);
     std::iota(perm_index.begin(), perm_index.end(), 0);
     std::sort(perm_index.begin(), perm_index.end(),
               [&](int i, int j) { return evals[i] < evals[j]; });
 
-    for (int i = 0; i < n_eigenvectors; i++)
+    for (int i = 0; i < n_computed; i++)
     {
       sorted_evals[i] = evals[perm_index[i]];
       sorted_evecs[i] = evecs[perm_index[i]];
@@ -172,6 +169,10 @@ Lanczos<OperatorType, VectorType>::solve(
     evecs = sorted_evecs;
   }
 
+  // Squeeze if num_cycles * num_eigenpairs_per_cycle > n_eigenvectors
+  evals.resize(n_eigenvectors);
+  evecs.resize(n_eigenvectors);
+
   return std::make_tuple(evals, evecs);
 }
 
-- 
2.43.0


From 57a22151dd390d70d4fe46fb70ac8b9a60a9f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:47 +0000
Subject: [PATCH 16/21] fix: detect when Lanczos cannot find the requested
 eigenpairs

---
 include/mfmg/common/lanczos.templates.hpp | 39 +++++++++++++++--------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 05238dc..81c1f29 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -97,9 +97,12 @@ Lanczos<OperatorType, VectorType>::solve(
     num_cycles = params.get<int>("num_cycles");
   }
 
-  ASSERT(num_cycles >= 1, "Number of cycles must be positive");
-  ASSERT(num_evecs_per_cycle >= 1,
-         "Number of computed eigenpairs per cycle must be positive");
+  ASSERT_THROW(num_cycles >= 1, "Number of cycles must be positive");
+  ASSERT_THROW(num_evecs_per_cycle >= 1,
+               "Number of computed eigenpairs per cycle must be positive");
+  ASSERT_THROW(num_cycles * num_evecs_per_cycle >= n_eigenvectors,
+               "Number of computed eigenpairs is smaller than the number of "
+               "requested eigenpairs");
 
   std::vector<double> evals;
   std::vector<VectorType> evecs;
@@ -118,7 +121,10 @@ Lanczos<OperatorType, VectorType>::solve(
     if (cycle > 0)
       internal::details_set_initial_guess(initial_guess, cycle);
 
+    double const initial_norm = initial_guess.l2_norm();
     deflated_op.deflate(initial_guess);
+    ASSERT_THROW(initial_guess.l2_norm() > 1e-12 * initial_norm,
+                 "The initial guess of Lanczos does not reach any eigenvector");
 
     std::vector<double> cycle_evals;
     std::vector<VectorType> cycle_evecs;
@@ -188,11 +194,12 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   double const tol = params.get<double>("tolerance");
   int const percent_overshoot = params.get<int>("percent_overshoot", 0);
 
-  ASSERT(0 <= percent_overshoot && percent_overshoot < 100,
-         "Lanczos overshoot percentage should be in [0, 100)");
-  ASSERT(tol >= 0., "Lanczos tolerance must be non-negative");
-  ASSERT(maxit >= num_requested, "Lanczos max iterations is too small to "
-                                 "produce required number of eigenvectors.");
+  ASSERT_THROW(0 <= percent_overshoot && percent_overshoot < 100,
+               "Lanczos overshoot percentage should be in [0, 100)");
+  ASSERT_THROW(tol >= 0., "Lanczos tolerance must be non-negative");
+  ASSERT_THROW(maxit >= num_requested,
+               "Lanczos max iterations is too small to "
+               "produce required number of eigenvectors.");
 
   int const n = op.n();
 
@@ -202,6 +209,7 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   // Initializations; first Lanczos vector.
   double alpha = 0;
   double beta = initial_guess.l2_norm();
+  double scale = 0; // estimate of the norm of the operator
 
   std::vector<VectorType> lanc_vectors; // Lanczos vectors
 
@@ -255,7 +263,11 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
     bool const max_iterations_reached = (it == maxit);
     bool const percent_overshoot_exceeded =
         (100 * (it - it_prev_check) > percent_overshoot * it_prev_check);
-    if (first_iteration || max_iterations_reached || percent_overshoot_exceeded)
+    // There is no further Lanczos vector but round-off
+    scale = std::max(scale, std::abs(alpha) + beta);
+    bool const breakdown = (beta <= 1e-12 * scale);
+    if (first_iteration || max_iterations_reached ||
+        percent_overshoot_exceeded || breakdown)
     {
       int const dim_hessenberg = it;
       ASSERT((size_t)dim_hessenberg == main_diagonal.size(), "Internal error");
@@ -265,7 +277,8 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
       std::tie(evals, evecs_tridiag) = details_calc_tridiag_epairs(
           main_diagonal, sub_diagonal, num_requested);
 
-      if (details_check_convergence(beta, dim_hessenberg, num_requested, tol,
+      if (breakdown ||
+          details_check_convergence(beta, dim_hessenberg, num_requested, tol,
                                     evecs_tridiag))
       {
         break;
@@ -277,8 +290,8 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
   }
   it = it < maxit ? it : maxit;
 
-  ASSERT(it >= num_requested,
-         "Internal error: required number of iterations not reached");
+  ASSERT_THROW(evals.size() == static_cast<size_t>(num_requested),
+               "Lanczos could not find the requested number of eigenpairs");
 
   // Calculate full operator eigenvectors from tridiagonal eigenvectors.
   // ISSUE: may be needed to modify this code to not save all Lanczos vectors
@@ -462,7 +475,7 @@ bool Lanczos<OperatorType, VectorType>::details_check_convergence(
     std::vector<double> const &evecs)
 {
   // Must iterate at least until we have num_requested eigenpairs
-  if (num_evecs < num_requested)
+  if (num_evecs < num_requested || evecs.empty())
     return false;
 
   bool is_converged = true;
-- 
2.43.0


From 0af4df44fd617a4f349c96c1d2280f0c282718ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 17/21] fix: normalise the eigenvectors Lanczos returns

---
 include/mfmg/common/lanczos.templates.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 81c1f29..9ea3f1c 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -513,6 +513,12 @@ std::vector<VectorType> Lanczos<OperatorType, VectorType>::details_calc_evecs(
     evecs[i] = 0.0;
     for (int j = 0; j < n; ++j)
       evecs[i].add(evecs_tridiag[j + n * i], lanc_vectors[j]);
+
+    // Once the Lanczos vectors have lost their orthogonality, the combination
+    // of them does not have unit norm.
+    double const norm = evecs[i].l2_norm();
+    if (norm > 0.)
+      evecs[i] /= norm;
   }
 
   return evecs;
-- 
2.43.0


From c88a4d15aa07f15df8d59ec8b33e3eb83eeac343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 18/21] fix: keep the vectors of deflated Lanczos deflated

---
 include/mfmg/common/lanczos.templates.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mfmg/common/lanczos.templates.hpp b/include/mfmg/common/lanczos.templates.hpp
index 9ea3f1c..ebe9d3c 100644
--- a/include/mfmg/common/lanczos.templates.hpp
+++ b/include/mfmg/common/lanczos.templates.hpp
@@ -254,6 +254,10 @@ Lanczos<OperatorType, VectorType>::details_solve_lanczos(
 
     lanc_vectors[it].add(-alpha, lanc_vectors[it - 1]);
 
+    // The deflated eigenvectors have eigenvalue zero in the deflated operator,
+    // so that the recurrence lets their round-off components grow.
+    op.deflate(lanc_vectors[it]);
+
     beta = lanc_vectors[it].l2_norm(); // = tridiag_{it+1,it}
 
     // Check convergence if requested
-- 
2.43.0


From 0ed8200aa1030b83f7112f85f1bef5de9b9f78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 19/21] fix: keep constrained dofs and the eigenvalue range
 clear of large operators

---
 include/mfmg/dealii/amge_host.templates.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 141cead..2af8017 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -387,10 +387,14 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
   for (unsigned int i = 0; i < size; ++i)
     agglomerate_system_matrix.diag_element(i) += average_diagonal;
   // Shift diagonal entries for constrained degrees of freedom, to avoid
-  // using the corresponding eigenvectors
+  // using the corresponding eigenvectors. The norm bounds the eigenvalues of
+  // the other degrees of freedom.
+  double const eigenvalue_bound =
+      std::max(100., agglomerate_system_matrix.linfty_norm());
   for (auto const constraint : agglomerate_constraints.get_lines())
   {
-    agglomerate_system_matrix.diag_element(constraint.index) = 200;
+    agglomerate_system_matrix.diag_element(constraint.index) =
+        2. * eigenvalue_bound;
   }
 
   // Compute the eigenvalues and the eigenvectors
@@ -455,7 +459,7 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     full_matrix.copy_from(agglomerate_system_matrix);
 
     double const lower_bound = -0.5;
-    double const upper_bound = 100.;
+    double const upper_bound = 1.5 * eigenvalue_bound;
     double const tol = 1e-12;
     dealii::Vector<double> lapack_eigenvalues(size);
     dealii::FullMatrix<double> lapack_eigenvectors;
-- 
2.43.0


From 7a1965690e0187ccb7b11827a9d7eb2a0b94c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 20/21] fix: report eigensolvers that do not find the
 eigenpairs

---
 include/mfmg/dealii/amge_host.templates.hpp | 3 +++
 include/mfmg/dealii/anasazi.templates.hpp   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mfmg/dealii/amge_host.templates.hpp b/include/mfmg/dealii/amge_host.templates.hpp
index 2af8017..18bd935 100644
--- a/include/mfmg/dealii/amge_host.templates.hpp
+++ b/include/mfmg/dealii/amge_host.templates.hpp
@@ -466,6 +466,9 @@ AMGe_host<dim, MeshEvaluator, VectorType>::compute_local_eigenvectors(
     full_matrix.compute_eigenvalues_symmetric(
         lower_bound, upper_bound, tol, lapack_eigenvalues, lapack_eigenvectors);
 
+    ASSERT_THROW(lapack_eigenvalues.size() >= n_eigenvectors,
+                 "LAPACK could not find the requested number of eigenpairs");
+
     // Copy the eigenvalues and the eigenvectors in the right format
     for (unsigned int i = 0; i < n_eigenvectors; ++i)
       eigenvalues[i] = lapack_eigenvalues[i];
diff --git a/include/mfmg/dealii/anasazi.templates.hpp b/include/mfmg/dealii/anasazi.templates.hpp
index f751be0..94a4dc5 100644
--- a/include/mfmg/dealii/anasazi.templates.hpp
+++ b/include/mfmg/dealii/anasazi.templates.hpp
@@ -73,7 +73,7 @@ AnasaziSolver<OperatorType, VectorType>::solve(
                                          solverParams);
 
   Anasazi::ReturnType rr = solver->solve();
-  ASSERT(rr == Anasazi::Converged, "Anasazi could not solve the problem");
+  ASSERT_THROW(rr == Anasazi::Converged, "Anasazi could not solve the problem");
 
   // Extract solution
   Anasazi::Eigensolution<double, MultiVectorType> solution =
-- 
2.43.0


From 34d0b9f7ce47c18ef25b7ea531d40c90c8a29aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 21/21] fix: leave the timer's subsections when the set-up or
 an application throws

---
 include/mfmg/common/hierarchy.hpp | 49 +++++++++++++------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/include/mfmg/common/hierarchy.hpp b/include/mfmg/common/hierarchy.hpp
index f102826..8274bed 100644
--- a/include/mfmg/common/hierarchy.hpp
+++ b/include/mfmg/common/hierarchy.hpp
@@ -33,17 +33,14 @@
 
 namespace mfmg
 {
-void timer_enter_subsection(std::shared_ptr<dealii::TimerOutput> const &timer,
-                            std::string const &section)
+// The subsection is left when the returned object is destroyed
+inline std::unique_ptr<dealii::TimerOutput::Scope>
+timer_subsection(std::shared_ptr<dealii::TimerOutput> const &timer,
+                 std::string const &section)
 {
   if (timer)
-    timer->enter_subsection(section);
-}
-
-void timer_leave_subsection(std::shared_ptr<dealii::TimerOutput> const &timer)
-{
-  if (timer)
-    timer->leave_subsection();
+    return std::make_unique<dealii::TimerOutput::Scope>(*timer, section);
+  return nullptr;
 }
 
 template <typename VectorType>
@@ -163,7 +160,7 @@ public:
   {
     ASSERT_THROW(params != nullptr, "The parameters must be provided");
 
-    timer_enter_subsection(_timer, "Setup");
+    auto setup_section = timer_subsection(_timer, "Setup");
     // Replace by a factory
     auto hierarchy_helpers = create_hierarchy_helpers<VectorType>(evaluator);
 
@@ -193,26 +190,26 @@ public:
                       _is_preconditioner);
         }
 
-        timer_enter_subsection(_timer, "Setup: build coarse solver");
+        auto section =
+            timer_subsection(_timer, "Setup: build coarse solver");
         auto coarse_solver = hierarchy_helpers->build_coarse_solver(a, params);
         level_fine.set_solver(coarse_solver);
-        timer_leave_subsection(_timer);
 
         break;
       }
 
       auto &level_coarse = _levels[level_index + 1];
 
-      timer_enter_subsection(_timer, "Setup: build smoother");
+      auto section = timer_subsection(_timer, "Setup: build smoother");
       auto smoother = hierarchy_helpers->build_smoother(a, params);
       level_fine.set_smoother(smoother);
-      timer_leave_subsection(_timer);
+      section.reset();
 
-      timer_enter_subsection(_timer, "Setup: build restrictor");
+      section = timer_subsection(_timer, "Setup: build restrictor");
       auto restrictor =
           hierarchy_helpers->build_restrictor(comm, evaluator, params);
       level_coarse.set_restrictor(restrictor);
-      timer_leave_subsection(_timer);
+      section.reset();
 
       std::shared_ptr<Operator<VectorType>> ap;
       bool fast_ap = params->get("fast_ap", false);
@@ -223,32 +220,28 @@ public:
                          a->build_range_vector()->size(),
                      "The restrictor does not match the operator");
 
-        timer_enter_subsection(_timer, "Setup: fast_ap");
+        auto ap_section = timer_subsection(_timer, "Setup: fast_ap");
         ap = hierarchy_helpers->fast_multiply_transpose();
-        timer_leave_subsection(_timer);
       }
       else
       {
-        timer_enter_subsection(_timer, "Setup: ap");
+        auto ap_section = timer_subsection(_timer, "Setup: ap");
         ap = a->multiply_transpose(restrictor);
-        timer_leave_subsection(_timer);
       }
 
-      timer_enter_subsection(_timer, "Setup: build coarse matrix");
+      section = timer_subsection(_timer, "Setup: build coarse matrix");
       auto a_coarse = restrictor->multiply(ap);
-      timer_leave_subsection(_timer);
+      section.reset();
 
       level_coarse.set_operator(a_coarse);
     }
-    timer_leave_subsection(_timer);
   }
 
   void vmult(VectorType &x, VectorType const &b) const
   {
     // Apply calls itself recursively which trips the timer so put it here
-    timer_enter_subsection(_timer, "Apply");
+    auto apply_section = timer_subsection(_timer, "Apply");
     apply(b, x, 0);
-    timer_leave_subsection(_timer);
   }
 
   void apply(VectorType const &b, VectorType &x, int level_index = 0) const
@@ -268,15 +261,14 @@ public:
 
     if (level_index == num_levels - 1)
     {
-      timer_enter_subsection(_timer, "Apply: coarsest level");
+      auto section = timer_subsection(_timer, "Apply: coarsest level");
       // Coarsest level
       auto coarse_solver = level_fine.get_solver();
       coarse_solver->apply(b, x);
-      timer_leave_subsection(_timer);
     }
     else
     {
-      timer_enter_subsection(_timer, "Apply: fine levels");
+      auto section = timer_subsection(_timer, "Apply: fine levels");
       auto &level_coarse = _levels[level_index + 1];
 
       auto restrictor = level_coarse.get_restrictor();
@@ -312,7 +304,6 @@ public:
       // apply post-smoother
       for (unsigned int i = 0; i < _n_smoothing_steps; ++i)
         smoother->apply(b, x);
-      timer_leave_subsection(_timer);
     }
   }
 
-- 
2.43.0

