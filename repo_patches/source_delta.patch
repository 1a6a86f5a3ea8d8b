From 1dbaeddc4afb6ba47677186376c642107b7bc2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 01/11] fix: pass mult its operands in order in A'*u and A'*B'
 products

---
 .../optimized_sequential/sparse_helpers.hpp   | 24 ++++++++++++++++++
 .../optimized_sequential/sparse_mxm_ATBT.hpp  | 25 +++++++++++--------
 .../optimized_sequential/sparse_mxv.hpp       |  3 ++-
 .../platforms/sequential/sparse_helpers.hpp   | 24 ++++++++++++++++++
 .../platforms/sequential/sparse_mxm.hpp       |  4 +--
 .../platforms/sequential/sparse_mxv.hpp       |  3 ++-
 6 files changed, 69 insertions(+), 14 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
index 831714b..3937a38 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_helpers.hpp
@@ -1365,6 +1365,30 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult takes its operands in the opposite
+        /// order.  Used with axpy/masked_axpy when the scalar being
+        /// broadcast is the right hand operand of the multiplication.
+        template <typename SemiringT>
+        struct ReversedMultSemiring
+        {
+            using result_type = typename SemiringT::result_type;
+
+            SemiringT m_semiring;
+
+            template <typename LhsT, typename RhsT>
+            auto add(LhsT const &lhs, RhsT const &rhs)
+            {
+                return m_semiring.add(lhs, rhs);
+            }
+
+            template <typename LhsT, typename RhsT>
+            auto mult(LhsT const &lhs, RhsT const &rhs)
+            {
+                return m_semiring.mult(rhs, lhs);
+            }
+        };
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
index b212a57..e0a6aa3 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ATBT.hpp
@@ -72,12 +72,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, ReversedMultSemiring<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -232,12 +233,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, ReversedMultSemiring<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -331,12 +333,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, ReversedMultSemiring<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -428,12 +431,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, ReversedMultSemiring<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
@@ -526,12 +530,13 @@ namespace grb
                 for (auto const &Bi_elt : B[i])
                 {
                     IndexType    k(std::get<0>(Bi_elt));
-                    AScalarT  b_ik(std::get<1>(Bi_elt));
+                    BScalarT  b_ik(std::get<1>(Bi_elt));
 
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, semiring, b_ik, A[k]);
+                    axpy(T_row, ReversedMultSemiring<SemiringT>{semiring},
+                         b_ik, A[k]);
                 }
 
                 // Transpose the result
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
index 9014a7a..88d8c85 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, ReversedMultSemiring<SemiringT>{op},
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
diff --git a/src/graphblas/platforms/sequential/sparse_helpers.hpp b/src/graphblas/platforms/sequential/sparse_helpers.hpp
index 831714b..3937a38 100644
--- a/src/graphblas/platforms/sequential/sparse_helpers.hpp
+++ b/src/graphblas/platforms/sequential/sparse_helpers.hpp
@@ -1365,6 +1365,30 @@ namespace grb
             }
         }
 
+        // *******************************************************************
+        /// Adapts a semiring so that mult takes its operands in the opposite
+        /// order.  Used with axpy/masked_axpy when the scalar being
+        /// broadcast is the right hand operand of the multiplication.
+        template <typename SemiringT>
+        struct ReversedMultSemiring
+        {
+            using result_type = typename SemiringT::result_type;
+
+            SemiringT m_semiring;
+
+            template <typename LhsT, typename RhsT>
+            auto add(LhsT const &lhs, RhsT const &rhs)
+            {
+                return m_semiring.add(lhs, rhs);
+            }
+
+            template <typename LhsT, typename RhsT>
+            auto mult(LhsT const &lhs, RhsT const &rhs)
+            {
+                return m_semiring.mult(rhs, lhs);
+            }
+        };
+
         // *******************************************************************
         /// perform the following operation on sparse vectors implemented as
         /// vector<tuple<Index, value>>
diff --git a/src/graphblas/platforms/sequential/sparse_mxm.hpp b/src/graphblas/platforms/sequential/sparse_mxm.hpp
index f34cbdf..5d6d7cc 100644
--- a/src/graphblas/platforms/sequential/sparse_mxm.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxm.hpp
@@ -282,7 +282,7 @@ namespace grb
                     if (A[k].empty()) continue;
 
                     // T[i] += (b_ik*A[k])  // must reduce in D3
-                    axpy(T_row, op, b_ik, A[k]);
+                    axpy(T_row, ReversedMultSemiring<SemiringT>{op}, b_ik, A[k]);
                 }
 
                 //C.setCol(i, T_row); // this is a push_back form of setCol
@@ -290,7 +290,7 @@ namespace grb
                 {
                     IndexType j(std::get<0>(t));
 
-                    T[j].emplace_back(i, static_cast<CScalarType>(std::get<1>(t)));
+                    T[j].emplace_back(i, std::get<1>(t));
                 }
             }
 
diff --git a/src/graphblas/platforms/sequential/sparse_mxv.hpp b/src/graphblas/platforms/sequential/sparse_mxv.hpp
index 9014a7a..88d8c85 100644
--- a/src/graphblas/platforms/sequential/sparse_mxv.hpp
+++ b/src/graphblas/platforms/sequential/sparse_mxv.hpp
@@ -142,7 +142,8 @@ namespace grb
                 {
                     if (u.hasElement(row_idx) && !A[row_idx].empty())
                     {
-                        axpy(t, op, u.extractElement(row_idx), A[row_idx]);
+                        axpy(t, ReversedMultSemiring<SemiringT>{op},
+                             u.extractElement(row_idx), A[row_idx]);
                     }
                 }
             }
-- 
2.43.0


From 2687dde9b26207f0c8cec32a055fc666d8ffc6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 02/11] fix: keep the value type of B in eWiseAdd and eWiseMult
 of A and B'

---
 .../platforms/optimized_sequential/sparse_ewiseadd.hpp         | 3 ++-
 .../platforms/optimized_sequential/sparse_ewisemult.hpp        | 3 ++-
 src/graphblas/platforms/sequential/sparse_ewiseadd.hpp         | 3 ++-
 src/graphblas/platforms/sequential/sparse_ewisemult.hpp        | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
index 1bf3c07..fa43273 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,8 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            LilSparseMatrix<typename BMatrixT::ScalarType> Btran(B.ncols(),
+                                                                 B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
index c3f3448..3bf1a83 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_ewisemult.hpp
@@ -208,7 +208,8 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            LilSparseMatrix<typename BMatrixT::ScalarType> Btran(B.ncols(),
+                                                                 B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
index 1bf3c07..fa43273 100644
--- a/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewiseadd.hpp
@@ -215,7 +215,8 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .+ B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            LilSparseMatrix<typename BMatrixT::ScalarType> Btran(B.ncols(),
+                                                                 B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseAdd(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
diff --git a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
index c3f3448..3bf1a83 100644
--- a/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
+++ b/src/graphblas/platforms/sequential/sparse_ewisemult.hpp
@@ -208,7 +208,8 @@ namespace grb
             GRB_LOG_VERBOSE("C<M,z> := A .* B'");
             auto const &B(BT.m_mat);
 
-            AMatrixT Btran(B.ncols(), B.nrows());
+            LilSparseMatrix<typename BMatrixT::ScalarType> Btran(B.ncols(),
+                                                                 B.nrows());
             grb::backend::transpose(Btran, NoMask(), NoAccumulate(), B, REPLACE);
             grb::backend::eWiseMult(C, Mask, accum, op, A, Btran, outp);
         } // ewisemult
-- 
2.43.0


From b868ace99e5ac05cee3ed072c481b11fc46b53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 03/11] fix: assign a constant in ascending index order, each
 index once

---
 .../optimized_sequential/sparse_assign.hpp    | 35 +++++++++++--------
 .../platforms/sequential/sparse_assign.hpp    | 35 +++++++++++--------
 2 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index 94880b4..c6584ab 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -56,6 +57,21 @@ namespace grb
             }
         };
 
+        //********************************************************************
+        // Ascending copy of an index sequence without the repeated indices
+        template <typename SequenceT>
+        IndexArrayType sorted_unique_indices(SequenceT const &indices)
+        {
+            IndexArrayType seq;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+            {
+                seq.push_back(*it);
+            }
+            std::sort(seq.begin(), seq.end());
+            seq.erase(std::unique(seq.begin(), seq.end()), seq.end());
+            return seq;
+        }
+
         //********************************************************************
         // Builds a simple mapping
         template <typename SequenceT>
@@ -251,23 +267,12 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
+            // Rows must be stored in ascending column order, without repeats
+            auto sorted_cols(sorted_unique_indices(col_indices));
 
             assignConstant(T, val,
                            row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -510,7 +515,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto seq = sorted_unique_indices(setupIndices(indices, w.size()));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index 94880b4..c6584ab 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -27,6 +27,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -56,6 +57,21 @@ namespace grb
             }
         };
 
+        //********************************************************************
+        // Ascending copy of an index sequence without the repeated indices
+        template <typename SequenceT>
+        IndexArrayType sorted_unique_indices(SequenceT const &indices)
+        {
+            IndexArrayType seq;
+            for (auto it = indices.begin(); it != indices.end(); ++it)
+            {
+                seq.push_back(*it);
+            }
+            std::sort(seq.begin(), seq.end());
+            seq.erase(std::unique(seq.begin(), seq.end()), seq.end());
+            return seq;
+        }
+
         //********************************************************************
         // Builds a simple mapping
         template <typename SequenceT>
@@ -251,23 +267,12 @@ namespace grb
                             RowIndicesT               const   &row_indices,
                             ColIndicesT               const   &col_indices)
         {
-            // @TODO: Deal with sorting
-            //
-            // Sort row Indices and col_Indices
-            // IndexSequence sorted_rows(row_indices);
-            // IndexSequence sorted_cols(col_indices);
-            // std::sort(sorted_rows.begin(), sorted_rows.end());
-            // std::sort(sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                sorted_rows.begin(), sorted_rows.end(),
-            //                sorted_cols.begin(), sorted_cols.end());
-            // assignConstant(T, val,
-            //                row_indices.begin(), row_indices.end(),
-            //                col_indices.begin(), col_indices.end());
+            // Rows must be stored in ascending column order, without repeats
+            auto sorted_cols(sorted_unique_indices(col_indices));
 
             assignConstant(T, val,
                            row_indices.begin(), row_indices.end(),
-                           col_indices.begin(), col_indices.end());
+                           sorted_cols.begin(), sorted_cols.end());
         }
 
         //=====================================================================
@@ -510,7 +515,7 @@ namespace grb
             std::vector<std::tuple<IndexType, ValueT> > t;
 
             // Set all in T
-            auto seq = setupIndices(indices, w.size());
+            auto seq = sorted_unique_indices(setupIndices(indices, w.size()));
             for (auto it = seq.begin(); it != seq.end(); ++it)
                 t.emplace_back(*it, val);
 
-- 
2.43.0


From 4d611ea9f3a7231b2328b318023b93934bd3edb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 04/11] fix: reject assign with AllIndices of a source larger
 than the output

---
 .../platforms/optimized_sequential/sparse_assign.hpp        | 6 +++---
 src/graphblas/platforms/sequential/sparse_assign.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
index c6584ab..8660aff 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_assign.hpp
@@ -293,7 +293,7 @@ namespace grb
         {
             GRB_LOG_VERBOSE("reference backend - 4.3.7.1");
 
-            check_index_array_content(indices, w.size(),
+            check_index_array_content(setupIndices(indices, u.size()), w.size(),
                                       "assign(std vec): indices content check");
 
             std::vector<std::tuple<IndexType, IndexType>> oi_pairs;
@@ -349,9 +349,9 @@ namespace grb
             using AScalarType = typename AMatrixT::ScalarType;
 
             // execution error checks
-            check_index_array_content(row_indices, C.nrows(),
+            check_index_array_content(setupIndices(row_indices, A.nrows()), C.nrows(),
                                       "assign(std mat): row_indices content check");
-            check_index_array_content(col_indices, C.ncols(),
+            check_index_array_content(setupIndices(col_indices, A.ncols()), C.ncols(),
                                       "assign(std mat): col_indices content check");
 
             // =================================================================
diff --git a/src/graphblas/platforms/sequential/sparse_assign.hpp b/src/graphblas/platforms/sequential/sparse_assign.hpp
index c6584ab..8660aff 100644
--- a/src/graphblas/platforms/sequential/sparse_assign.hpp
+++ b/src/graphblas/platforms/sequential/sparse_assign.hpp
@@ -293,7 +293,7 @@ namespace grb
         {
             GRB_LOG_VERBOSE("reference backend - 4.3.7.1");
 
-            check_index_array_content(indices, w.size(),
+            check_index_array_content(setupIndices(indices, u.size()), w.size(),
                                       "assign(std vec): indices content check");
 
             std::vector<std::tuple<IndexType, IndexType>> oi_pairs;
@@ -349,9 +349,9 @@ namespace grb
             using AScalarType = typename AMatrixT::ScalarType;
 
             // execution error checks
-            check_index_array_content(row_indices, C.nrows(),
+            check_index_array_content(setupIndices(row_indices, A.nrows()), C.nrows(),
                                       "assign(std mat): row_indices content check");
-            check_index_array_content(col_indices, C.ncols(),
+            check_index_array_content(setupIndices(col_indices, A.ncols()), C.ncols(),
                                       "assign(std mat): col_indices content check");
 
             // =================================================================
-- 
2.43.0


From 2a97d4d1a92401a9f62cfdbb12727f9f1e9fb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 05/11] fix: swap the whole state of two LIL matrices

---
 .../platforms/optimized_sequential/LilSparseMatrix.hpp   | 9 ++++-----
 src/graphblas/platforms/sequential/LilSparseMatrix.hpp   | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
index 2efb6a0..4a51511 100644
--- a/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/optimized_sequential/LilSparseMatrix.hpp
@@ -420,11 +420,10 @@ namespace grb
             // TODO: add error checking on dimensions?
             void swap(LilSparseMatrix<ScalarT> &rhs)
             {
-                for (IndexType idx = 0; idx < m_data.size(); ++idx)
-                {
-                    m_data[idx].swap(rhs.m_data[idx]);
-                }
-                m_nvals = rhs.m_nvals;
+                std::swap(m_num_rows, rhs.m_num_rows);
+                std::swap(m_num_cols, rhs.m_num_cols);
+                std::swap(m_nvals, rhs.m_nvals);
+                m_data.swap(rhs.m_data);
             }
 
             // Row access
diff --git a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
index 2efb6a0..4a51511 100644
--- a/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
+++ b/src/graphblas/platforms/sequential/LilSparseMatrix.hpp
@@ -420,11 +420,10 @@ namespace grb
             // TODO: add error checking on dimensions?
             void swap(LilSparseMatrix<ScalarT> &rhs)
             {
-                for (IndexType idx = 0; idx < m_data.size(); ++idx)
-                {
-                    m_data[idx].swap(rhs.m_data[idx]);
-                }
-                m_nvals = rhs.m_nvals;
+                std::swap(m_num_rows, rhs.m_num_rows);
+                std::swap(m_num_cols, rhs.m_num_cols);
+                std::swap(m_nvals, rhs.m_nvals);
+                m_data.swap(rhs.m_data);
             }
 
             // Row access
-- 
2.43.0


From f15809fa557023885cdffe7521d513a40a84fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 06/11] fix: replace the rows of C for which A has no entries
 in C = A*B'

---
 src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 67c86bf..9cb19a7 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -70,7 +70,6 @@ namespace grb
             for (IndexType i = 0; i < A.nrows(); ++i)
             {
                 C_row.clear();
-                if (A[i].empty()) continue;
 
                 // fill row i of T
                 for (IndexType j = 0; j < B.nrows(); ++j)
-- 
2.43.0


From f5bce664574453a3b083914497488185116d48c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 07/11] fix: accumulate the result type of the semiring into an
 aliased C

---
 src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp  | 2 +-
 src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
index 5a2956a..36fb993 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_AB.hpp
@@ -444,7 +444,7 @@ namespace grb
             if ((void*)&C == (void*)&B)
             {
                 // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                LilSparseMatrix<typename SemiringT::result_type> Ctmp(C.nrows(), C.ncols());
                 AB_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
diff --git a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
index 9cb19a7..c8f34e2 100644
--- a/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
+++ b/src/graphblas/platforms/optimized_sequential/sparse_mxm_ABT.hpp
@@ -484,7 +484,7 @@ namespace grb
             if ((void*)&C == (void*)&B)
             {
                 // create temporary to prevent overwrite of inputs
-                LilSparseMatrix<CScalarT> Ctmp(C.nrows(), C.ncols());
+                LilSparseMatrix<typename SemiringT::result_type> Ctmp(C.nrows(), C.ncols());
                 ABT_NoMask_NoAccum_kernel(Ctmp, semiring, A, B);
                 for (IndexType i = 0; i < C.nrows(); ++i)
                 {
-- 
2.43.0


From 19b59a44842bd9c3397df88c80c24ab2ddb78e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 08/11] fix: count the stored values of a vector constructed
 from one value

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp       | 2 +-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 7b31755..5592eca 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -79,7 +79,7 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 7b31755..5592eca 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -79,7 +79,7 @@ namespace grb
 
             BitmapSparseVector(IndexType nsize, ScalarT const &value)
                 : m_size(nsize),
-                  m_nvals(0),
+                  m_nvals(nsize),
                   m_vals(nsize, value),
                   m_bitmap(nsize, true)
             {
-- 
2.43.0


From 9e489ba0fb69f2409976021996380c347eb890c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 09/11] fix: count repeated indices once when constructing a
 vector

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp  | 7 +++++--
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index 5592eca..fbfb6cf 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -159,8 +159,11 @@ namespace grb
                     }
 
                     m_vals[i] = values[idx];
-                    m_bitmap[i] = true;
-                    ++m_nvals;
+                    if (m_bitmap[i] == false)
+                    {
+                        m_bitmap[i] = true;
+                        ++m_nvals;
+                    }
                 }
             }
 
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index 5592eca..fbfb6cf 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -159,8 +159,11 @@ namespace grb
                     }
 
                     m_vals[i] = values[idx];
-                    m_bitmap[i] = true;
-                    ++m_nvals;
+                    if (m_bitmap[i] == false)
+                    {
+                        m_bitmap[i] = true;
+                        ++m_nvals;
+                    }
                 }
             }
 
-- 
2.43.0


From c1873edc5705f48b0ea88cbe32a58150fa987bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 10/11] fix: count repeated indices once in Vector::build

---
 .../platforms/optimized_sequential/BitmapSparseVector.hpp     | 4 +++-
 src/graphblas/platforms/sequential/BitmapSparseVector.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
index fbfb6cf..ad9a0a2 100644
--- a/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/optimized_sequential/BitmapSparseVector.hpp
@@ -343,6 +343,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_vals = 0;
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -361,12 +362,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_vals;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_vals;
             }
 
             bool hasElement(IndexType index) const
diff --git a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
index fbfb6cf..ad9a0a2 100644
--- a/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
+++ b/src/graphblas/platforms/sequential/BitmapSparseVector.hpp
@@ -343,6 +343,7 @@ namespace grb
             {
                 std::vector<ScalarType> vals(m_size);
                 std::vector<bool> bitmap(m_size);
+                IndexType num_vals = 0;
 
                 /// @todo check for same size indices and values
                 for (IndexType idx = 0; idx < nvals; ++idx)
@@ -361,12 +362,13 @@ namespace grb
                     {
                         vals[i] = v_it[idx];
                         bitmap[i] = true;
+                        ++num_vals;
                     }
                 }
 
                 m_vals.swap(vals);
                 m_bitmap.swap(bitmap);
-                m_nvals = nvals;
+                m_nvals = num_vals;
             }
 
             bool hasElement(IndexType index) const
-- 
2.43.0


From 141b50800126e96fa0831255368418d08b2d3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 11/11] fix: size the column sums of normalize_cols by the
 number of columns

---
 src/graphblas/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphblas/matrix_utils.hpp b/src/graphblas/matrix_utils.hpp
index 2acaa4d..4840561 100644
--- a/src/graphblas/matrix_utils.hpp
+++ b/src/graphblas/matrix_utils.hpp
@@ -177,7 +177,7 @@ namespace grb
     {
         using T = typename MatrixT::ScalarType;
 
-        grb::Vector<T> w(A.nrows());
+        grb::Vector<T> w(A.ncols());
         grb::reduce(w,
                     grb::NoMask(), grb::NoAccumulate(),
                     grb::Plus<T>(),
-- 
2.43.0

