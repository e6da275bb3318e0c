From 936167484a14b26d5ec360a5ca63e798bb9462f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 01/54] fix: minimal block sizes in get_hmatrix_information
 were capped by the number of rows or columns

---
 include/htool/hmatrix/hmatrix_output.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 0e7891d..7bcb7da 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -142,7 +142,8 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
     // 0 : dense mat ; 1 : lr mat ; 2 : rank ; 3 : local_size
     std::array<std::size_t, 3> maxinfos = {0, 0, 0};
     std::array<double, 3> meaninfos     = {0, 0, 0};
-    std::array<std::size_t, 3> mininfos = {std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows)};
+    const std::size_t max_block_size    = static_cast<std::size_t>(nb_rows) * nb_cols;
+    std::array<std::size_t, 3> mininfos = {max_block_size, max_block_size, max_block_size};
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> low_rank_blocks;
     get_leaves(hmatrix, dense_blocks, low_rank_blocks);
-- 
2.43.0


From a9b3de12913396529c254c1789abdb0cd3b70a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 02/54] fix: HMatrixTreeBuilder kept the blocks and statistics
 of its previous build

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..b376d09 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -189,6 +189,11 @@ HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<Coefficien
     root_hmatrix.set_minimal_source_depth(m_minsourcedepth);
     root_hmatrix.set_block_tree_consistency(m_is_block_tree_consistent);
 
+    // Forget the blocks of a previous build
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Build hierarchical block structure
     std::chrono::steady_clock::time_point start, end;
     start = std::chrono::steady_clock::now();
-- 
2.43.0


From 2b96e8a43084b639defcf40ac7154385b6836ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 03/54] fix: report the transposes that symmetric and Hermitian
 storage do not support in hmatrix-vector products

---
 .../hmatrix/linalg/add_hmatrix_vector_product.hpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
index 91da819..db319d4 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
@@ -2,12 +2,14 @@
 #define HTOOL_HMATRIX_LINALG_ADD_HMATRIX_VECTOR_PRODUCT_HPP
 
 #include "../../matrix/linalg/add_matrix_vector_product.hpp" // for add_mat...
+#include "../../misc/logger.hpp"                             // for Logger
 #include "../../misc/misc.hpp"                               // for underly...
 #include "../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../hmatrix.hpp"                                    // for HMatrix
 #include "../lrmat/linalg/add_lrmat_vector_product.hpp"      // for add_lrm...
 #include <algorithm>                                         // for transform
 #include <complex>                                           // for complex
+#include <string>                                            // for basic_s...
 #include <vector>                                            // for vector
 
 namespace htool {
@@ -65,6 +67,11 @@ void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPreci
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
 
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S' && is_complex<CoefficientPrecision>())) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     if (trans != 'N') {
         out_size            = A.get_source_cluster().get_size();
         get_input_cluster   = &HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster;
@@ -102,6 +109,11 @@ void openmp_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
 
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S' && is_complex<CoefficientPrecision>())) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     int out_size(A.get_target_cluster().get_size());
     auto get_output_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster};
     auto get_input_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_source_cluster};
-- 
2.43.0


From 67290962be68ec02a9bbec0aba488bd497744943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 04/54] fix: transposed matrix products of local operators
 overwrote the contributions of other local operators

---
 include/htool/local_operators/local_operator.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..dc7c13f 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -173,9 +173,25 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
+        // The product is added to the current content of out
+        if (m_source_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nc; j++) {
+                    buffer_out[j] = out[i + (m_source_cluster.get_offset() + j) * mu];
+                }
+                user_to_cluster(m_source_cluster, buffer_out.data(), buffer_out.data() + nc);
+                for (int j = 0; j < nc; j++) {
+                    output_perm[i + j * mu] = buffer_out[nc + j];
+                }
+            }
+        } else {
+            std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
+        }
+
         if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
             std::copy_n(in, input_perm.size(), input_perm.data());
             conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
+            conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
         }
 
         const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
-- 
2.43.0


From dcd043704b27ee69419acea1fa864e48647a61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 05/54] fix: products with part of the columns mishandled local
 operators that do not start at the first column or come in several

---
 .../distributed_operator.hpp                  |  8 ++++-
 .../htool/local_operators/local_operator.hpp  | 36 ++++++++-----------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..73979be 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -665,8 +665,14 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
+    int rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    int local_size = m_target_partition.get_size_of_partition(rankWorld);
+    std::vector<CoefficientPrecision> buffer(local_size * mu);
+    std::fill_n(out, local_size * mu, CoefficientPrecision(0));
     for (auto &local_operator : m_local_operators) {
-        local_operator->sub_matrix_product_to_local(in, out, mu, offset, size);
+        local_operator->sub_matrix_product_to_local(in, buffer.data(), mu, offset, size);
+        std::transform(out, out + local_size * mu, buffer.data(), out, std::plus<CoefficientPrecision>());
     }
 }
 
diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index dc7c13f..c383f7e 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -36,9 +36,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     virtual void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const = 0;
 
     virtual void local_sub_matrix_vector_product(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
-        std::vector<CoefficientPrecision> temp(m_source_cluster.get_size() * mu, 0);
+        std::vector<CoefficientPrecision> temp((m_source_cluster.get_offset() + m_source_cluster.get_size()) * mu, 0);
         std::copy_n(in, size * mu, temp.data() + offset * mu);
-        add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
+        std::fill_n(out, m_target_cluster.get_size() * mu, CoefficientPrecision(0));
+        add_matrix_product_global_to_local(1, temp.data(), 1, out, mu);
     }
 
   public:
@@ -228,27 +229,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     }
 
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
-        int source_offset   = m_source_cluster.get_offset();
-        int source_size     = m_source_cluster.get_size();
-        bool is_output_null = ((offset + size) < source_offset) || (source_offset + m_source_cluster.get_size() < offset);
-
-        if (!is_output_null) {
-            // Same size as local operator
-            if (source_offset == offset && source_size + source_offset == size + offset)
-                local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
-            else {
-
-                int temp_offset                           = std::max(offset, source_offset);
-                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + source_offset - offset : in;
-                int temp_size                             = (size + offset <= source_size + source_offset) ? size - std::max(source_offset - offset, 0) : size - std::max(source_offset - offset, 0) - (size + offset - source_offset - source_size);
-
-                local_sub_matrix_vector_product(temp_in, out, mu, temp_offset, temp_size);
-            }
+        int source_offset = m_source_cluster.get_offset();
+        int source_size   = m_source_cluster.get_size();
+        int begin         = std::max(offset, source_offset);
+        int end           = std::min(offset + size, source_offset + source_size);
+
+        if (begin >= end) { // no common column
+            std::fill_n(out, m_target_cluster.get_size() * mu, CoefficientPrecision(0));
+        } else if (m_symmetry == 'N' && !m_source_use_permutation_to_mvprod && source_offset == offset && source_size == size) { // Same size as local operator
+            local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
+        } else {
+            local_sub_matrix_vector_product(in + (begin - offset) * mu, out, mu, begin, end - begin);
         }
-        // std::vector<CoefficientPrecision> test(source_size * mu, 0);
-        // std::copy_n(in, size * mu, test.data() + offset * mu);
-        // int rankWorld;
-        // local_add_matrix_product_row_major('N', 1, test.data(), 0, out, mu);
     }
 
     virtual ~LocalOperator() = default;
-- 
2.43.0


From 0b0d302c093d0996ab0802ddccc3a9d1555e243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 06/54] fix: internal_matrix_product_transp_local_to_local
 accumulated in the output while the vector version overwrites it

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 73979be..2753ea6 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -635,6 +635,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From 5ea7698ac177e1e8fc11ed5c676e4cf1372d15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 07/54] fix: do not reuse the contribution of the previous
 local operator in internal_sub_matrix_product_to_local

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 2753ea6..10ef4ec 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -672,6 +672,7 @@ void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_l
     std::vector<CoefficientPrecision> buffer(local_size * mu);
     std::fill_n(out, local_size * mu, CoefficientPrecision(0));
     for (auto &local_operator : m_local_operators) {
+        std::fill(buffer.begin(), buffer.end(), CoefficientPrecision(0));
         local_operator->sub_matrix_product_to_local(in, buffer.data(), mu, offset, size);
         std::transform(out, out + local_size * mu, buffer.data(), out, std::plus<CoefficientPrecision>());
     }
-- 
2.43.0


From b75d6df97877249690fe560d27d9ac94b8024c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 08/54] fix: conjugate in internal transposed local-to-local
 products of Hermitian operators

---
 .../distributed_operator.hpp                  | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 10ef4ec..54be507 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,14 +575,21 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    int sizeWorld, rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    MPI_Comm_size(m_comm, &sizeWorld);
+
+    if (m_symmetry == 'S') {
         this->internal_vector_product_local_to_local(in, out, work);
         return;
+    } else if (m_symmetry == 'H') {
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rankWorld));
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rankWorld));
+        return;
     }
 
-    int sizeWorld, rankWorld;
-    MPI_Comm_rank(m_comm, &rankWorld);
-    MPI_Comm_size(m_comm, &sizeWorld);
 
     int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
     int nc                = m_source_partition.get_global_size();
@@ -621,14 +628,21 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    int sizeWorld, rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    MPI_Comm_size(m_comm, &sizeWorld);
+
+    if (m_symmetry == 'S') {
         this->internal_matrix_product_local_to_local(in, out, mu, work);
         return;
+    } else if (m_symmetry == 'H') {
+        std::vector<CoefficientPrecision> in_conj(in, in + m_target_partition.get_size_of_partition(rankWorld) * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rankWorld) * mu);
+        return;
     }
 
-    int sizeWorld, rankWorld;
-    MPI_Comm_rank(m_comm, &rankWorld);
-    MPI_Comm_size(m_comm, &sizeWorld);
     int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
     int nc                = m_source_partition.get_global_size();
 
-- 
2.43.0


From fb37a37469e18aea7652a1ad54964f78c96e4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 09/54] fix: minima of get_distributed_hmatrix_information were
 contaminated by ranks without dense or low-rank blocks

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index 6f671eb..dfe7ae8 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -12,6 +12,7 @@
 #include <cstddef>                             // for size_t
 #include <iomanip>                             // for operator<<, setfill, setw
 #include <iostream>                            // for basic_ostream, basic_ios, bas...
+#include <limits>                              // for numeric_limits
 #include <map>                                 // for map
 #include <mpi.h>                               // for MPI_Reduce, MPI_DOUBLE, MPI_I...
 #include <string>                              // for basic_string, to_string, oper...
@@ -43,7 +44,9 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
     std::array<double, 5> meaninfos     = {0, 0, 0, double(local_nb_rows), double(local_nb_cols)};
-    std::array<std::size_t, 5> mininfos = {local_size, local_size, local_size, local_nb_rows, local_nb_cols};
+    // a rank without dense (resp. low-rank) blocks must not contribute to their minima
+    constexpr std::size_t no_block      = std::numeric_limits<std::size_t>::max();
+    std::array<std::size_t, 5> mininfos = {no_block, no_block, no_block, local_nb_rows, local_nb_cols};
 
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_low_rank_blocks;
-- 
2.43.0


From 5a1fe2dc40d5f4918e38e7f8dbf30b204075e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 10/54] fix: matrix_to_bytes and bytes_to_matrix report failed
 and incomplete transfers and keep the matrix valid

---
 include/htool/matrix/matrix.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..3ee76b7 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -10,6 +10,7 @@
 #include <fstream>                      // for basic_ofstream, basic_ostream
 #include <iostream>                     // for cout, cerr
 #include <iterator>                     // for ostream_iterator
+#include <memory>                       // for unique_ptr
 #include <string>                       // for operator+, basic_string, all...
 #include <type_traits>                  // for enable_if
 #include <utility>                      // for pair
@@ -125,7 +126,7 @@ class Matrix {
     }
 
     void assign(int number_of_rows, int number_of_cols, T *ptr, bool owning_data) {
-        if (m_number_of_rows * m_number_of_cols > 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
 
         m_number_of_rows = number_of_rows;
@@ -645,6 +646,10 @@ class Matrix {
         out.write((char *)m_data, rows * cols * sizeof(T));
 
         out.close();
+        if (!out) {
+            std::cout << "Cannot write file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                       // LCOV_EXCL_LINE
+        }
         return 0;
     }
 
@@ -663,13 +668,22 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
-        if (m_number_of_rows != 0 && m_number_of_cols != 0 && m_is_owning_data)
+        if (!in || rows < 0 || cols < 0) {
+            std::cout << "Cannot read file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                      // LCOV_EXCL_LINE
+        }
+        std::unique_ptr<T[]> data(new T[rows * cols]);
+        in.read((char *)data.get(), rows * cols * sizeof(T));
+        if (!in) {
+            std::cout << "Cannot read file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                      // LCOV_EXCL_LINE
+        }
+        if (m_is_owning_data)
             delete[] m_data;
-        m_data           = new T[rows * cols];
+        m_data           = data.release();
         m_number_of_rows = rows;
         m_number_of_cols = cols;
         m_is_owning_data = true;
-        in.read((char *)&(m_data[0]), rows * cols * sizeof(T));
 
         in.close();
         return 0;
-- 
2.43.0


From e0504614a3f68343b7ac830f9d8ec7e7fa107621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 11/54] fix: vector_to_bytes and bytes_to_vector report failed
 and incomplete transfers

---
 include/htool/basic_types/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index e19266d..18d8d2f 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -137,6 +137,10 @@ int vector_to_bytes(const std::vector<T> vect, const std::string &file) {
     out.write((char *)&(vect[0]), size * sizeof(T));
 
     out.close();
+    if (!out) {
+        std::cout << "Cannot write file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                                // LCOV_EXCL_LINE
+    }
     return 0;
 }
 
@@ -152,8 +156,14 @@ int bytes_to_vector(std::vector<T> &vect, const std::string &file) {
 
     int size = 0;
     in.read((char *)(&size), sizeof(int));
-    vect.resize(size);
-    in.read((char *)&(vect[0]), size * sizeof(T));
+    if (in && size >= 0) {
+        vect.resize(size);
+        in.read((char *)&(vect[0]), size * sizeof(T));
+    }
+    if (!in || size < 0) {
+        std::cout << "Cannot read file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                               // LCOV_EXCL_LINE
+    }
 
     in.close();
     return 0;
-- 
2.43.0


From 88397ce7f16071d60cdbf54b19cc940329bf9126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 12/54] fix: operator<< of a vector wrote the coefficients to
 std::cout instead of the stream it was given

---
 include/htool/basic_types/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 18d8d2f..26dd5db 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -27,7 +27,7 @@ std::ostream &operator<<(std::ostream &out, const std::vector<T> &v) {
     if (!v.empty()) {
         out << '[';
         for (typename std::vector<T>::const_iterator i = v.begin(); i != v.end(); ++i)
-            std::cout << *i << ',';
+            out << *i << ',';
         out << "\b]";
     }
     return out;
-- 
2.43.0


From b7a9ce3776b4ec7793758f944004b0147f8b7b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 13/54] fix: matlab_save reports a failed write

---
 include/htool/basic_types/vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 26dd5db..c35c1d9 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -192,6 +192,10 @@ int matlab_save(std::vector<T> vector, const std::string &file) {
         out << std::endl;
     }
     out.close();
+    if (!out) {
+        std::cout << "Cannot write file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                                // LCOV_EXCL_LINE
+    }
     return 0;
 }
 
-- 
2.43.0


From fa06baa3eff517460b68532a695499d12518a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 14/54] fix: csv_save of a matrix returns an error if the file
 could not be created or written

---
 include/htool/matrix/matrix.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 3ee76b7..50c4a55 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -705,19 +705,18 @@ class Matrix {
 
     int csv_save(const std::string &file, const std::string &delimiter = ",") const {
         std::ofstream os(file);
-        try {
-            if (!os) {
-                htool::Logger::get_instance().log(LogLevel::WARNING, "Cannot create file " + file); // LCOV_EXCL_LINE
-                // throw std::string("Cannot create file " + file);
-            }
-        } catch (std::string const &error) {
-            std::cerr << error << std::endl;
-            return 1;
+        if (!os) {
+            htool::Logger::get_instance().log(LogLevel::WARNING, "Cannot create file " + file); // LCOV_EXCL_LINE
+            return 1;                                                                           // LCOV_EXCL_LINE
         }
 
         this->print(os, delimiter);
 
         os.close();
+        if (!os) {
+            htool::Logger::get_instance().log(LogLevel::WARNING, "Cannot write file " + file); // LCOV_EXCL_LINE
+            return 1;                                                                          // LCOV_EXCL_LINE
+        }
         return 0;
     }
 };
-- 
2.43.0


From e5b6add8d844349de6df6486d45db5e46ff7b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 15/54] fix: copies, moves and resizes keep a matrix valid and
 memory that belongs to the user untouched

---
 include/htool/matrix/matrix.hpp | 37 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 50c4a55..b600f9a 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -13,7 +13,7 @@
 #include <memory>                       // for unique_ptr
 #include <string>                       // for operator+, basic_string, all...
 #include <type_traits>                  // for enable_if
-#include <utility>                      // for pair
+#include <utility>                      // for pair, move
 #include <vector>                       // for vector
 
 namespace htool {
@@ -42,25 +42,28 @@ class Matrix {
         if (&rhs == this) {
             return *this;
         }
-        if (m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
+        if (m_data != nullptr && m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
             std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);
             m_number_of_rows = rhs.m_number_of_rows;
             m_number_of_cols = rhs.m_number_of_cols;
             // m_is_owning_data = true;
         } else {
-            m_number_of_rows = rhs.m_number_of_rows;
-            m_number_of_cols = rhs.m_number_of_cols;
+            T *new_data = new T[rhs.m_number_of_rows * rhs.m_number_of_cols](); // before anything is changed, it may throw
             if (m_is_owning_data)
                 delete[] m_data;
-            m_data = new T[m_number_of_rows * m_number_of_cols]();
+            m_data           = new_data;
+            m_number_of_rows = rhs.m_number_of_rows;
+            m_number_of_cols = rhs.m_number_of_cols;
             std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);
             m_is_owning_data = true;
         }
         m_pivots = rhs.m_pivots;
         return *this;
     }
-    Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+    Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(std::move(rhs.m_pivots)) {
+        rhs.m_data           = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -71,8 +74,11 @@ class Matrix {
             m_number_of_cols = rhs.m_number_of_cols;
             m_data           = rhs.m_data;
             m_is_owning_data = rhs.m_is_owning_data;
-            rhs.m_data       = nullptr;
-            m_pivots         = rhs.m_pivots;
+            m_pivots         = std::move(rhs.m_pivots);
+
+            rhs.m_data           = nullptr;
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
         }
         return *this;
     }
@@ -221,18 +227,17 @@ class Matrix {
     the number of columns is set to _nbc_.
     */
     void resize(int nbr, int nbc, T value = 0) {
-        if (m_data != nullptr and m_is_owning_data and m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            delete[] m_data;
-            m_data = nullptr;
-            m_data = new T[nbr * nbc];
-        } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
+        if (m_data == nullptr || m_number_of_rows * m_number_of_cols != nbr * nbc) {
+            T *new_data = new T[nbr * nbc]; // before anything is changed, it may throw
+            if (m_is_owning_data)
+                delete[] m_data;
+            m_data           = new_data;
+            m_is_owning_data = true;
         }
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
-        m_is_owning_data = true;
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From 85f27d3d9fbc307d925a9fb32ddf7f13b87cf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 16/54] fix: cluster trees are saved exactly and missing,
 incomplete or unwritten files are reported

---
 include/htool/clustering/cluster_output.hpp | 77 ++++++++++++++++-----
 include/htool/misc/user.hpp                 |  2 +
 2 files changed, 60 insertions(+), 19 deletions(-)

diff --git a/include/htool/clustering/cluster_output.hpp b/include/htool/clustering/cluster_output.hpp
index d1af4b4..3ad788e 100644
--- a/include/htool/clustering/cluster_output.hpp
+++ b/include/htool/clustering/cluster_output.hpp
@@ -9,7 +9,10 @@
 #include <fstream>                 // for basic_ostream, operator<<
 #include <iostream>                // for cout
 #include <iterator>                // for distance
+#include <limits>                  // for numeric_limits
+#include <sstream>                 // for basic_ostringstream
 #include <stack>                   // for stack
+#include <stdexcept>               // for runtime_error
 #include <string>                  // for char_traits, basic_string
 #include <utility>                 // for pair
 #include <vector>                  // for vector
@@ -50,22 +53,34 @@ void save_cluster_tree(const Cluster<CoordinatesPrecision> &cluster, std::string
     }
     output_permutation << "local permutation: " << cluster.is_permutation_local() << "\n";
 
+    output_permutation.close();
+    if (!output_permutation) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Cannot write file containing permutation: " + filename + "_cluster_tree_properties.csv"); // LCOV_EXCL_LINE
+    }
+
     // Cluster tree
+    const auto coordinate_to_str = [](CoordinatesPrecision coordinate) {
+        std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit); // no silently shortened string if an allocation fails
+        ss.precision(std::numeric_limits<CoordinatesPrecision>::max_digits10); // to read back the same value
+        ss << coordinate;
+        return ss.str();
+    };
     std::ofstream output_tree(filename + "_cluster_tree.csv");
     std::vector<std::vector<std::string>> outputs(cluster.get_maximal_depth() + 1);
 
     preorder_tree_traversal(
         cluster,
-        [&outputs](const Cluster<CoordinatesPrecision> &current_cluster) {
+        [&outputs, &coordinate_to_str](const Cluster<CoordinatesPrecision> &current_cluster) {
             std::vector<std::string> infos_str = {NbrToStr(current_cluster.get_children().size()),
                                                   NbrToStr(current_cluster.get_rank()),
                                                   NbrToStr(current_cluster.get_offset()),
                                                   NbrToStr(current_cluster.get_size()),
-                                                  NbrToStr(current_cluster.get_radius()),
+                                                  coordinate_to_str(current_cluster.get_radius()),
                                                   NbrToStr(current_cluster.get_counter()),
                                                   NbrToStr(((is_cluster_on_partition(current_cluster) ? 1 : 0)))};
             for (int p = 0; p < current_cluster.get_center().size(); p++) {
-                infos_str.push_back(NbrToStr(current_cluster.get_center()[p]));
+                infos_str.push_back(coordinate_to_str(current_cluster.get_center()[p]));
             }
 
             std::string infos = join("|", infos_str);
@@ -81,6 +96,10 @@ void save_cluster_tree(const Cluster<CoordinatesPrecision> &cluster, std::string
         }
         output_tree << "\n";
     }
+    output_tree.close();
+    if (!output_tree) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Cannot write file containing tree: " + filename + "_cluster_tree.csv"); // LCOV_EXCL_LINE
+    }
 }
 
 template <typename CoordinatesPrecision>
@@ -90,19 +109,33 @@ Cluster<CoordinatesPrecision> read_cluster_tree(std::string file_cluster_tree_pr
     std::string sub_delimiter = "|";
     std::vector<std::string> splitted_string{};
 
+    const auto incomplete = [](const std::string &file) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Cannot read cluster tree, file is missing or incomplete: " + file); // LCOV_EXCL_LINE
+        throw std::runtime_error("[Htool error] Cannot read cluster tree, file is missing or incomplete: " + file);             // LCOV_EXCL_LINE
+    };
+    const auto get_line = [&line](std::istream &input) {
+        return std::getline(input, line) && !input.eof(); // every line ends with a newline
+    };
+
     // Clusters informtation
     std::ifstream input_tree(file_cluster_tree);
     if (!input_tree) {
         htool::Logger::get_instance().log(LogLevel::ERROR, "Cannot open file containing tree: " + file_cluster_tree); // LCOV_EXCL_LINE
     }
     std::vector<std::vector<std::string>> outputs;
-    while (std::getline(input_tree, line)) {
+    while (get_line(input_tree)) {
         outputs.push_back(split(line, delimiter));
     }
+    if (input_tree.bad() || outputs.empty() || !line.empty()) {
+        incomplete(file_cluster_tree); // LCOV_EXCL_LINE
+    }
 
     // Cluster root
     std::vector<int> counter_offset(outputs.size(), 0);
     std::vector<std::string> local_info_str = split(outputs[0][0], "|");
+    if (local_info_str.size() < 7) {
+        incomplete(file_cluster_tree); // LCOV_EXCL_LINE
+    }
 
     int number_of_children      = std::stoi(local_info_str[0]);
     int rank                    = std::stoi(local_info_str[1]);
@@ -126,25 +159,25 @@ Cluster<CoordinatesPrecision> read_cluster_tree(std::string file_cluster_tree_pr
         htool::Logger::get_instance().log(LogLevel::ERROR, "Cannot open file containing permutation: " + file_cluster_tree_properties); // LCOV_EXCL_LINE
     }
 
-    std::getline(input_permutation, line);
-    splitted_string = split(line, " ");
-    root_cluster.set_minclustersize(std::stoul(splitted_string.back()));
-    std::getline(input_permutation, line);
-    splitted_string = split(line, " ");
-    root_cluster.set_maximal_depth(std::stoi(splitted_string.back()));
-    std::getline(input_permutation, line);
-    splitted_string = split(line, " ");
-    root_cluster.set_minimal_depth(std::stoi(splitted_string.back()));
-
-    std::getline(input_permutation, line);
-    splitted_string = split(split(line, " ").back(), delimiter.c_str());
+    const auto get_property = [&]() {
+        if (!get_line(input_permutation)) {
+            incomplete(file_cluster_tree_properties); // LCOV_EXCL_LINE
+        }
+        return split(line, " ").back();
+    };
+    root_cluster.set_minclustersize(std::stoul(get_property()));
+    root_cluster.set_maximal_depth(std::stoi(get_property()));
+    root_cluster.set_minimal_depth(std::stoi(get_property()));
+
+    splitted_string = split(get_property(), delimiter.c_str());
+    if (splitted_string.size() != permutation.size()) {
+        incomplete(file_cluster_tree_properties); // LCOV_EXCL_LINE
+    }
     for (int i = 0; i < splitted_string.size(); i++) {
         permutation[i] = std::stoi(splitted_string[i]);
     }
 
-    std::getline(input_permutation, line);
-    splitted_string = split(line, " ");
-    root_cluster.set_is_permutation_local(std::stoi(splitted_string.back()));
+    root_cluster.set_is_permutation_local(std::stoi(get_property()));
 
     // Build cluster tree
     std::stack<std::pair<Cluster<CoordinatesPrecision> *, int>> stack;
@@ -159,7 +192,13 @@ Cluster<CoordinatesPrecision> read_cluster_tree(std::string file_cluster_tree_pr
         // Creating sons
         std::vector<Cluster<CoordinatesPrecision> *> children;
         for (int p = 0; p < number_of_children; p++) {
+            if (curr->get_depth() + 1 >= outputs.size() || counter_offset[curr->get_depth() + 1] + p >= outputs[curr->get_depth() + 1].size()) {
+                incomplete(file_cluster_tree); // LCOV_EXCL_LINE
+            }
             local_info_str = split(outputs[curr->get_depth() + 1][counter_offset[curr->get_depth() + 1] + p], "|");
+            if (local_info_str.size() < 7 + spatial_dimension) {
+                incomplete(file_cluster_tree); // LCOV_EXCL_LINE
+            }
 
             number_of_children_next[p] = std::stoi(local_info_str[0]);
             radius                     = StrToNbr<CoordinatesPrecision>(local_info_str[4]);
diff --git a/include/htool/misc/user.hpp b/include/htool/misc/user.hpp
index 8e23c02..32b6090 100644
--- a/include/htool/misc/user.hpp
+++ b/include/htool/misc/user.hpp
@@ -13,6 +13,7 @@ namespace htool {
 template <typename T>
 std::string NbrToStr(T Number) {
     std::ostringstream ss;
+    ss.exceptions(std::ios_base::badbit); // no silently shortened string if an allocation fails
     ss << Number;
     return ss.str();
 }
@@ -20,6 +21,7 @@ std::string NbrToStr(T Number) {
 template <typename T>
 T StrToNbr(const std::string &Text) {
     std::istringstream ss(Text);
+    ss.exceptions(std::ios_base::badbit);
     T result;
     return (ss >> result) ? result : 0;
 }
-- 
2.43.0


From 9551dd63d9f27f4cffe6e9aaeb2ef6c954318b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 17/54] fix: Cholesky factorization updated off-diagonal blocks
 with the wrong factor

---
 include/htool/hmatrix/linalg/factorization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..97cb5a2 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -133,19 +133,21 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *R = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *R, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *L, *U, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From 0be791d275b94b4fd139a7f5887b8731e29583c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 18/54] fix: products with a low-rank matrix of rank zero
 ignored the scaling of the output

---
 include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp  | 6 ++++++
 include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp  | 6 ++++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp  | 5 +++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp | 5 +++++
 .../lrmat/linalg/add_lrmat_matrix_product_row_major.hpp     | 5 +++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp | 5 +++++
 .../htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp | 5 +++++
 7 files changed, 37 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..20d4e17 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -6,10 +6,12 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_hmatrix_matrix_product.hpp"    // for add_hmatrix_m...
 #include "add_lrmat_hmatrix.hpp"             // for add_lrmat_hma...
+#include "scale.hpp"                         // for scale
 #include <algorithm>                         // for copy_n
 
 namespace htool {
@@ -34,6 +36,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +114,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..114e31d 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -6,10 +6,12 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_lrmat_hmatrix.hpp"             // for add_lrmat_hma...
 #include "add_matrix_hmatrix_product.hpp"    // for add_matrix_hm...
+#include "scale.hpp"                         // for scale
 #include <algorithm>                         // for copy_n
 
 namespace htool {
@@ -29,6 +31,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +104,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..1fa3078 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "add_lrmat_matrix_product.hpp"                         // for add_...
+#include "scale.hpp"                                              // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -28,6 +29,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +98,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..d1980e5 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -8,6 +8,7 @@
 #include "../utils/recompression.hpp"                           // for reco...
 #include "htool/matrix/matrix.hpp"                              // for Matrix
 #include "htool/misc/misc.hpp"                                  // for conj...
+#include "scale.hpp"                                              // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -29,6 +30,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +106,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..059a686 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_MATRIX_PRODUCT_ROW_MAJOR_HPP
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
+#include "../../../wrappers/wrapper_blas.hpp"
 #include "../lrmat.hpp"
 #include <vector>
 
@@ -23,6 +24,10 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int size = (transa == 'N' ? A.nb_rows() : A.nb_cols()) * mu;
+        int incx = 1;
+        Blas<CoefficientPrecision>::scal(&size, &beta, out, &incx);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..5d24937 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -1,6 +1,7 @@
 #ifndef HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
+#include "../../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../lrmat.hpp"                                         // for LowR...
 #include <vector>                                               // for vector
 namespace htool {
@@ -20,6 +21,10 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int size = trans == 'N' ? A.nb_rows() : A.nb_cols();
+        int incx = 1;
+        Blas<CoefficientPrecision>::scal(&size, &beta, out, &incx);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..f764fd6 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "../utils/recompression.hpp"                           // for reco...
+#include "scale.hpp"                                              // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -32,6 +33,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +110,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
-- 
2.43.0


From db3cb9d099581ae14b0d20421c6f6446030eac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 19/54] fix: nothing to add or solve for a low-rank matrix of
 rank zero

---
 include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp             | 3 +++
 .../htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
index 520d7b3..b387973 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
@@ -13,6 +13,9 @@ namespace htool {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_lrmat_hmatrix(const LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &lrmat, HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix) {
+    if (lrmat.rank_of() == 0) {
+        return;
+    }
     std::vector<HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     preorder_tree_traversal(hmatrix, [&leaves](HMatrix<CoefficientPrecision, CoordinatePrecision> &current_node) {
         if (!current_node.is_hierarchical()) {
diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
index afb4ed5..623cb0e 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
@@ -9,6 +9,9 @@
 namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = underlying_type<CoefficientPrecision>>
 void internal_triangular_hmatrix_lrmat_solve(char side, char UPLO, char transa, char diag, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &B) {
+    if (B.rank_of() == 0) {
+        return;
+    }
     if (alpha != CoefficientPrecision(1)) {
         scale(alpha, B);
     }
-- 
2.43.0


From 0ec240d6885d7f841b6e6e71498a0f71d4455b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 20/54] fix: hmatrix products scale a hierarchical output also
 when an operand is not hierarchical

---
 .../linalg/add_hmatrix_hmatrix_product.hpp    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..bd6af40 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -214,10 +214,11 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
     } else if (C.is_low_rank()) {
         internal_add_hmatrix_hmatrix_product(transa, transb, alpha, A, B, beta, *C.get_low_rank_data());
     } else {
+        if (beta != CoefficientPrecision(1)) {
+            sequential_scale(beta, C);
+        }
+
         if (A.is_hierarchical() and B.is_hierarchical()) {
-            if (beta != CoefficientPrecision(1)) {
-                sequential_scale(beta, C);
-            }
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
@@ -279,26 +280,26 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(A.is_low_rank() ? A.get_low_rank_data()->get_epsilon() : B.get_low_rank_data()->get_epsilon());
 
                 if (A.is_dense() and B.is_low_rank()) {
-                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_low_rank()) {
-                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), beta, lrmat);
+                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_low_rank()) {
-                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_dense()) {
-                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), beta, lrmat);
+                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_hierarchical()) {
-                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, beta, lrmat);
+                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
             } else {
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(C.get_epsilon());
                 if (A.is_dense() and B.is_dense()) {
-                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), beta, lrmat);
+                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_dense() and B.is_hierarchical()) {
-                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, beta, lrmat);
+                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_dense()) {
-                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), beta, lrmat);
+                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
-- 
2.43.0


From c5ddbdf11d47a26cd446a49d594021249009df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 21/54] fix: hmatrix products were lost when the partition is
 deeper than the children of the root

---
 .../hmatrix/linalg/add_hmatrix_hmatrix_product.hpp  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index bd6af40..6274482 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -266,11 +266,16 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             for (auto &output_cluster_child : output_clusters) {
                 for (auto &input_cluster_child : input_clusters) {
                     for (auto &middle_cluster_child : middle_clusters) {
-                        auto &&A_child = (transa == 'N') ? A.get_child_or_this(*output_cluster_child, *middle_cluster_child) : A.get_child_or_this(*middle_cluster_child, *output_cluster_child);
-                        auto &&B_child = (transb == 'N') ? B.get_child_or_this(*middle_cluster_child, *input_cluster_child) : B.get_child_or_this(*input_cluster_child, *middle_cluster_child);
-                        auto &&C_child = C.get_child_or_this(*output_cluster_child, *input_cluster_child);
+                        // the blocks of the partition may be deeper than the children
+                        const Cluster<CoordinatePrecision> &A_target                      = transa == 'N' ? *output_cluster_child : *middle_cluster_child;
+                        const Cluster<CoordinatePrecision> &A_source                      = transa == 'N' ? *middle_cluster_child : *output_cluster_child;
+                        const Cluster<CoordinatePrecision> &B_target                      = transb == 'N' ? *middle_cluster_child : *input_cluster_child;
+                        const Cluster<CoordinatePrecision> &B_source                      = transb == 'N' ? *input_cluster_child : *middle_cluster_child;
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = block_tree_not_consistent ? A.get_sub_hmatrix(A_target, A_source) : A.get_child_or_this(A_target, A_source);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *B_child = block_tree_not_consistent ? B.get_sub_hmatrix(B_target, B_source) : B.get_child_or_this(B_target, B_source);
+                        HMatrix<CoefficientPrecision, CoordinatePrecision> *C_child       = block_tree_not_consistent ? C.get_sub_hmatrix(*output_cluster_child, *input_cluster_child) : C.get_child_or_this(*output_cluster_child, *input_cluster_child);
                         if (A_child != nullptr && B_child != nullptr && C_child != nullptr) {
-                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C.get_child_or_this(*output_cluster_child, *input_cluster_child));
+                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C_child);
                         }
                     }
                 }
-- 
2.43.0


From 745ffb90a917c5ece77696ab9defa8668f3da380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 22/54] fix: moving a cluster tree left pointers to the moved
 root

---
 include/htool/clustering/cluster_node.hpp | 38 ++++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/htool/clustering/cluster_node.hpp b/include/htool/clustering/cluster_node.hpp
index ae6adcb..93f99e7 100644
--- a/include/htool/clustering/cluster_node.hpp
+++ b/include/htool/clustering/cluster_node.hpp
@@ -9,6 +9,7 @@
 #include <memory>  // for make_shared, operator==
 #include <numeric> // for iota
 #include <string>  // for basic_string
+#include <utility> // for move
 #include <vector>  // for vector
 
 namespace htool {
@@ -23,6 +24,21 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     int m_size;                                   // number of geometric points
     int m_counter;                                // numbering of the nodes level-wise
 
+    // the data shared by the tree must not point to a node that has been moved from
+    void replace_in_tree_data(const Cluster &moved_cluster) noexcept {
+        if (!this->m_tree_data) {
+            return;
+        }
+        if (this->m_tree_data->m_root_cluster == &moved_cluster) {
+            this->m_tree_data->m_root_cluster = this;
+        }
+        for (auto &cluster_on_partition : this->m_tree_data->m_clusters_on_partition) {
+            if (cluster_on_partition == &moved_cluster) {
+                cluster_on_partition = this;
+            }
+        }
+    }
+
   public:
     // Root constructor
     Cluster(CoordinatesPrecision radius, std::vector<CoordinatesPrecision> &center, int rank, int offset, int size) : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(), m_radius(radius), m_center(center), m_rank(rank), m_offset(offset), m_size(size), m_counter(0) {
@@ -42,11 +58,23 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     }
 
     // no copy
-    Cluster(const Cluster &)                       = delete;
-    Cluster &operator=(const Cluster &)            = delete;
-    Cluster(Cluster &&cluster) noexcept            = default;
-    Cluster &operator=(Cluster &&cluster) noexcept = default;
-    virtual ~Cluster()                             = default;
+    Cluster(const Cluster &)            = delete;
+    Cluster &operator=(const Cluster &) = delete;
+    Cluster(Cluster &&cluster) noexcept : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(std::move(cluster)), m_radius(cluster.m_radius), m_center(std::move(cluster.m_center)), m_rank(cluster.m_rank), m_offset(cluster.m_offset), m_size(cluster.m_size), m_counter(cluster.m_counter) {
+        replace_in_tree_data(cluster);
+    }
+    Cluster &operator=(Cluster &&cluster) noexcept {
+        TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>::operator=(std::move(cluster));
+        m_radius  = cluster.m_radius;
+        m_center  = std::move(cluster.m_center);
+        m_rank    = cluster.m_rank;
+        m_offset  = cluster.m_offset;
+        m_size    = cluster.m_size;
+        m_counter = cluster.m_counter;
+        replace_in_tree_data(cluster);
+        return *this;
+    }
+    virtual ~Cluster() = default;
 
     // Cluster getters
     const CoordinatesPrecision &get_radius() const { return m_radius; }
-- 
2.43.0


From e66145cc482e6b3e8892c5817f888122079fc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 23/54] fix: copies of a symmetric hmatrix did not keep the
 symmetry of its leaves

---
 include/htool/hmatrix/hmatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..c33f65a 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
@@ -247,7 +247,7 @@ std::pair<std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *
     hmatrix_stack.push(std::pair<const HMatrix<CoefficientPrecision, CoordinatePrecision> *, bool>(&hmatrix, hmatrix.get_symmetry() != 'N'));
 
     while (!hmatrix_stack.empty()) {
-        auto &current_element = hmatrix_stack.top();
+        auto current_element = hmatrix_stack.top();
         hmatrix_stack.pop();
         const HMatrix<CoefficientPrecision, CoordinatePrecision> *current_hmatrix = current_element.first;
         bool has_symmetric_ancestor                                               = current_element.second;
-- 
2.43.0


From 5115493e93de231cb945086a0f40be3ba24f74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 24/54] fix: cluster trees report the minimal cluster size they
 were built with

---
 include/htool/clustering/tree_builder/recursive_build.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index 17d3442..de42fed 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -71,6 +71,7 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
     T radius              = compute_radius(spatial_dimension, coordinates, radii, center, 0, number_of_points);
 
     Cluster<T> root_cluster(radius, center, -1, 0, number_of_points);
+    root_cluster.set_minclustersize(m_minclustersize);
     std::vector<int> &permutation = root_cluster.get_permutation();
 
     // Taking care of partition initialisation
-- 
2.43.0


From 26ff117d404727ae457379b261a14666ac43ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:28 +0000
Subject: [PATCH 25/54] fix: a node was lost if the list of children of a tree
 could not grow

---
 include/htool/basic_types/tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/basic_types/tree.hpp b/include/htool/basic_types/tree.hpp
index f6ac790..1b9a64a 100644
--- a/include/htool/basic_types/tree.hpp
+++ b/include/htool/basic_types/tree.hpp
@@ -37,7 +37,8 @@ class TreeNode : public CRTPHelper<Derived> {
 
     template <typename... Args>
     Derived *add_child(Args &&...args) {
-        m_children.emplace_back(new Derived(this->underlying(), std::forward<Args>(args)...));
+        std::unique_ptr<Derived> child(new Derived(this->underlying(), std::forward<Args>(args)...)); // owned before the vector may fail to grow
+        m_children.push_back(std::move(child));
         m_children.back()->m_depth   = m_depth + 1;
         m_children.back()->m_is_root = false;
         return m_children.back().get();
-- 
2.43.0


From b6c771c46e35932c16772c468ea00e335d897a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 26/54] fix: assigning an hmatrix kept data of the target that
 the source does not have

---
 include/htool/hmatrix/hmatrix.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index c33f65a..10e5219 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -95,12 +95,8 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
         m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
 
-        if (rhs.m_dense_data) {
-            m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
-        }
-        if (rhs.m_low_rank_data) {
-            m_low_rank_data = std::make_unique<LowRankMatrix<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_low_rank_data);
-        }
+        m_dense_data    = rhs.m_dense_data ? std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data) : nullptr;
+        m_low_rank_data = rhs.m_low_rank_data ? std::make_unique<LowRankMatrix<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_low_rank_data) : nullptr;
         return *this;
     }
 
-- 
2.43.0


From 2540bb464f4c33d5d36591a247d6e4ee846991f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 27/54] fix: the blocks of a copied hmatrix had tree data of
 their own, which the setters of the copy did not reach

---
 include/htool/hmatrix/hmatrix.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 10e5219..55f750a 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -49,6 +49,14 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
 
     StorageType m_storage_type{StorageType::Hierarchical};
 
+    // all the nodes of a tree have the same tree data
+    void share_tree_data(const std::shared_ptr<HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>> &tree_data) {
+        this->m_tree_data = tree_data;
+        for (auto &child : this->m_children) {
+            child->share_tree_data(tree_data);
+        }
+    }
+
   public:
     // Root constructor
     HMatrix(const Cluster<CoordinatePrecision> &target_cluster, const Cluster<CoordinatePrecision> &source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(), m_target_cluster(&target_cluster), m_source_cluster(&source_cluster) {
@@ -67,6 +75,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         this->m_children.clear();
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
+            this->m_children.back()->share_tree_data(this->m_tree_data);
         }
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
@@ -86,6 +95,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         this->m_children.clear();
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
+            this->m_children.back()->share_tree_data(this->m_tree_data);
         }
         m_target_cluster           = rhs.m_target_cluster;
         m_source_cluster           = rhs.m_source_cluster;
-- 
2.43.0


From 8f81684baac1dfb6808fbb0803526d19448210e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 28/54] fix: the products, solves and factorisations took a
 block between the root and the partition to span the whole partition

---
 .../linalg/add_hmatrix_hmatrix_product.hpp    | 24 ++++++++++++++-----
 .../htool/hmatrix/linalg/factorization.hpp    |  8 +++++--
 .../triangular_hmatrix_hmatrix_solve.hpp      | 12 +++++++---
 .../triangular_hmatrix_matrix_solve.hpp       |  8 +++++--
 4 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 6274482..d9d6c8d 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -41,7 +41,9 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             output_clusters.push_back(&output_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &output_cluster_child : output_cluster.get_clusters_on_partition()) {
-                output_clusters.push_back(output_cluster_child);
+                if (left_cluster_contains_right_cluster(output_cluster, *output_cluster_child)) {
+                    output_clusters.push_back(output_cluster_child);
+                }
             }
         } else {
             for (auto &output_cluster_child : output_cluster.get_children()) {
@@ -53,7 +55,9 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             input_clusters.push_back(&input_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &input_cluster_child : input_cluster.get_clusters_on_partition()) {
-                input_clusters.push_back(input_cluster_child);
+                if (left_cluster_contains_right_cluster(input_cluster, *input_cluster_child)) {
+                    input_clusters.push_back(input_cluster_child);
+                }
             }
         } else {
             for (auto &input_cluster_child : input_cluster.get_children()) {
@@ -65,7 +69,9 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             middle_clusters.push_back(&middle_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &middle_cluster_child : middle_cluster.get_clusters_on_partition()) {
-                middle_clusters.push_back(middle_cluster_child);
+                if (left_cluster_contains_right_cluster(middle_cluster, *middle_cluster_child)) {
+                    middle_clusters.push_back(middle_cluster_child);
+                }
             }
         } else {
             for (auto &middle_cluster_child : middle_cluster.get_children()) {
@@ -231,7 +237,9 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 output_clusters.push_back(&output_cluster);
             } else if (block_tree_not_consistent) {
                 for (auto &output_cluster_child : output_cluster.get_clusters_on_partition()) {
-                    output_clusters.push_back(output_cluster_child);
+                    if (left_cluster_contains_right_cluster(output_cluster, *output_cluster_child)) {
+                        output_clusters.push_back(output_cluster_child);
+                    }
                 }
             } else {
                 for (auto &output_cluster_child : output_cluster.get_children()) {
@@ -243,7 +251,9 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 input_clusters.push_back(&input_cluster);
             } else if (block_tree_not_consistent) {
                 for (auto &input_cluster_child : input_cluster.get_clusters_on_partition()) {
-                    input_clusters.push_back(input_cluster_child);
+                    if (left_cluster_contains_right_cluster(input_cluster, *input_cluster_child)) {
+                        input_clusters.push_back(input_cluster_child);
+                    }
                 }
             } else {
                 for (auto &input_cluster_child : input_cluster.get_children()) {
@@ -255,7 +265,9 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 middle_clusters.push_back(&middle_cluster);
             } else if (block_tree_not_consistent) {
                 for (auto &middle_cluster_child : middle_cluster.get_clusters_on_partition()) {
-                    middle_clusters.push_back(middle_cluster_child);
+                    if (left_cluster_contains_right_cluster(middle_cluster, *middle_cluster_child)) {
+                        middle_clusters.push_back(middle_cluster_child);
+                    }
                 }
             } else {
                 for (auto &middle_cluster_child : middle_cluster.get_children()) {
diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 97cb5a2..8493bbf 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -30,7 +30,9 @@ void lu_factorization(HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatri
             clusters.push_back(&cluster);
         } else if (block_tree_not_consistent) {
             for (auto &output_cluster_child : cluster.get_clusters_on_partition()) {
-                clusters.push_back(output_cluster_child);
+                if (left_cluster_contains_right_cluster(cluster, *output_cluster_child)) {
+                    clusters.push_back(output_cluster_child);
+                }
             }
         } else {
             for (auto &output_cluster_child : cluster.get_children()) {
@@ -101,7 +103,9 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
             clusters.push_back(&cluster);
         } else if (block_tree_not_consistent) {
             for (auto &output_cluster_child : cluster.get_clusters_on_partition()) {
-                clusters.push_back(output_cluster_child);
+                if (left_cluster_contains_right_cluster(cluster, *output_cluster_child)) {
+                    clusters.push_back(output_cluster_child);
+                }
             }
         } else {
             for (auto &output_cluster_child : cluster.get_children()) {
diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
index 168a10f..e22f0a8 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
@@ -39,7 +39,9 @@ void internal_triangular_hmatrix_hmatrix_solve(char side, char UPLO, char transa
             output_clusters.push_back(&output_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &output_cluster_child : output_cluster.get_clusters_on_partition()) {
-                output_clusters.push_back(output_cluster_child);
+                if (left_cluster_contains_right_cluster(output_cluster, *output_cluster_child)) {
+                    output_clusters.push_back(output_cluster_child);
+                }
             }
         } else {
             for (auto &output_cluster_child : output_cluster.get_children()) {
@@ -51,7 +53,9 @@ void internal_triangular_hmatrix_hmatrix_solve(char side, char UPLO, char transa
             input_clusters.push_back(&input_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &input_cluster_child : input_cluster.get_clusters_on_partition()) {
-                input_clusters.push_back(input_cluster_child);
+                if (left_cluster_contains_right_cluster(input_cluster, *input_cluster_child)) {
+                    input_clusters.push_back(input_cluster_child);
+                }
             }
         } else {
             for (auto &input_cluster_child : input_cluster.get_children()) {
@@ -63,7 +67,9 @@ void internal_triangular_hmatrix_hmatrix_solve(char side, char UPLO, char transa
             middle_clusters.push_back(&middle_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &middle_cluster_child : middle_cluster.get_clusters_on_partition()) {
-                middle_clusters.push_back(middle_cluster_child);
+                if (left_cluster_contains_right_cluster(middle_cluster, *middle_cluster_child)) {
+                    middle_clusters.push_back(middle_cluster_child);
+                }
             }
         } else {
             for (auto &middle_cluster_child : middle_cluster.get_children()) {
diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp
index 0f25642..f472e13 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_matrix_solve.hpp
@@ -38,7 +38,9 @@ void internal_triangular_hmatrix_matrix_solve_row_major(char side, char UPLO, ch
             output_clusters.push_back(&output_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &output_cluster_child : output_cluster.get_clusters_on_partition()) {
-                output_clusters.push_back(output_cluster_child);
+                if (left_cluster_contains_right_cluster(output_cluster, *output_cluster_child)) {
+                    output_clusters.push_back(output_cluster_child);
+                }
             }
         } else {
             for (auto &output_cluster_child : output_cluster.get_children()) {
@@ -50,7 +52,9 @@ void internal_triangular_hmatrix_matrix_solve_row_major(char side, char UPLO, ch
             input_clusters.push_back(&input_cluster);
         } else if (block_tree_not_consistent) {
             for (auto &input_cluster_child : input_cluster.get_clusters_on_partition()) {
-                input_clusters.push_back(input_cluster_child);
+                if (left_cluster_contains_right_cluster(input_cluster, *input_cluster_child)) {
+                    input_clusters.push_back(input_cluster_child);
+                }
             }
         } else {
             for (auto &input_cluster_child : input_cluster.get_children()) {
-- 
2.43.0


From 33f72a22e209b685e5896cbc1c470a11df716e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 29/54] fix: the local solver with overlap did not solve with
 the whole Cholesky factor of the overlap

---
 .../local_solvers/local_hmatrix_plus_overlap_solvers.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
index e552d56..28c6379 100644
--- a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
+++ b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
@@ -99,7 +99,7 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_C.nb_rows() > 0) {
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_C, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'L', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'L', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 triangular_matrix_matrix_solve('L', 'L', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_C, b2, CoefficientPrecision(1), b1);
             }
@@ -109,7 +109,8 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_B.nb_cols() > 0) {
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'U', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_B, b2, CoefficientPrecision(1), b1);
             }
 
-- 
2.43.0


From c5bfcd04241a4074f19d59f99ced6b7fac7fb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 30/54] fix: the overlap was left out of non-symmetric local
 problems

---
 include/htool/solvers/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 78de9b1..3a2c5f6 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -227,7 +227,8 @@ class DDMSolverBuilder {
         if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'U') {
             B.resize(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap);
             generator0.copy_submatrix(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap, inside_num.data(), overlap_num.data(), B.data());
-        } else if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
+        }
+        if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
             C.resize(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap);
 
             generator0.copy_submatrix(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap, overlap_num.data(), inside_num.data(), C.data());
-- 
2.43.0


From 410c217d4cd55f0779e6553884d726179283ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 31/54] fix: solves with several right-hand sides used the
 conjugate of Hermitian operators

---
 include/htool/wrappers/wrapper_hpddm.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/htool/wrappers/wrapper_hpddm.hpp b/include/htool/wrappers/wrapper_hpddm.hpp
index 6655b0b..68c6afb 100644
--- a/include/htool/wrappers/wrapper_hpddm.hpp
+++ b/include/htool/wrappers/wrapper_hpddm.hpp
@@ -103,9 +103,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
                     (*buffer)[i + j * mu] = in[i * this->getDof() + j];
                 }
             }
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data(), local_size * mu);
-            }
         }
 
         // All gather
@@ -117,9 +114,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
 
         // Tranpose
         if (mu != 1) {
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data() + local_size * mu, local_size * mu);
-            }
             for (int i = 0; i < mu; i++) {
                 for (int j = 0; j < local_size; j++) {
                     out[i * this->getDof() + j] = (*buffer)[i + j * mu + local_size * mu];
-- 
2.43.0


From c46ee924847ce3235911d20e629f5796ba3ca6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 32/54] fix: the coarse operator of Hermitian operators was
 built with their conjugate

---
 .../htool/solvers/geneo/coarse_operator_builder.hpp   | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_operator_builder.hpp b/include/htool/solvers/geneo/coarse_operator_builder.hpp
index 8877df2..4688513 100644
--- a/include/htool/solvers/geneo/coarse_operator_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_operator_builder.hpp
@@ -95,9 +95,6 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << buffer << "\n";
         // }
         MPI_Bcast(buffer.data() + margin * recvcounts[i], HA.get_target_partition().get_size_of_partition(i) * recvcounts[i], wrapper_mpi<CoefficientPrecision>::mpi_type(), i, HA.get_comm());
-        if (HA.get_symmetry_type() == 'H') {
-            conj_if_complex(buffer.data(), buffer.size());
-        }
         HA.internal_sub_matrix_product_to_local(buffer.data(), AZ.data(), recvcounts[i], HA.get_target_partition().get_offset_of_partition(i), HA.get_target_partition().get_size_of_partition(i));
 
         // if (rankWorld == 0) {
@@ -105,10 +102,10 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << AZ << "\n";
         // }
 
-        // Removed because complex scalar product afterward
-        // if (HA.get_symmetry_type() == 'H') {
-        //     conj_if_complex(AZ.data(), AZ.size());
-        // }
+        // Complex scalar product afterward
+        if (HA.get_symmetry_type() == 'H') {
+            conj_if_complex(AZ.data(), AZ.size());
+        }
 
         for (int j = 0; j < recvcounts[i]; j++) {
             for (int k = 0; k < n_inside; k++) {
-- 
2.43.0


From 5238f3e107adb8415bb28468d572e2e947032d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:11 +0000
Subject: [PATCH 33/54] fix: the selection of the coarse space read beyond the
 eigenvalues when all of them are above the threshold

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 125d9b7..9d51bc0 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -97,7 +97,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             });
             if (m_geneo_threshold > 0.0) {
                 nevi = 0;
-                while (std::abs(w[index[nevi]]) > m_geneo_threshold && nevi < index.size()) {
+                while (nevi < index.size() && std::abs(w[index[nevi]]) > m_geneo_threshold) {
                     nevi++;
                 }
             }
@@ -145,7 +145,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (std::abs(beta[index[nevi]]) < 1e-15 || (std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold && nevi < index.size())) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From ef763ba5680af0c2c03e2a5fa6b99aa501531437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 34/54] fix: the coarse space without overlap took the diagonal
 block of an operator in the numbering of the user

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 9d51bc0..5d420dd 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -41,7 +41,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
 
     static GeneoCoarseSpaceDenseBuilder GeneoWithNu(int size_wo_overlap, int size_with_overlap, const HMatrix<CoefficientPrecision, CoordinatePrecision> &Ai, const Matrix<CoefficientPrecision> &Bi, char symmetry, char uplo, int geneo_nu) {
         Matrix<CoefficientPrecision> temp(Ai.nb_rows(), Ai.nb_cols());
-        if (Ai.nb_rows() == size_with_overlap) {
+        if (Ai.nb_rows() == size_with_overlap && Ai.get_target_cluster().is_root()) {
             copy_to_dense_in_user_numbering(Ai, temp.data());
         } else if (Ai.nb_rows() == size_wo_overlap) {
             copy_to_dense(Ai, temp.data());
@@ -53,7 +53,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
 
     static GeneoCoarseSpaceDenseBuilder GeneoWithThreshold(int size_wo_overlap, int size_with_overlap, const HMatrix<CoefficientPrecision, CoordinatePrecision> &Ai, const Matrix<CoefficientPrecision> &Bi, char symmetry, char uplo, htool::underlying_type<CoefficientPrecision> geneo_threshold) {
         Matrix<CoefficientPrecision> temp(Ai.nb_rows(), Ai.nb_cols());
-        if (Ai.nb_rows() == size_with_overlap) {
+        if (Ai.nb_rows() == size_with_overlap && Ai.get_target_cluster().is_root()) {
             copy_to_dense_in_user_numbering(Ai, temp.data());
         } else if (Ai.nb_rows() == size_wo_overlap) {
             copy_to_dense(Ai, temp.data());
-- 
2.43.0


From 6e38b7362571a14a985473434c03be93737992f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 35/54] fix: the direction of largest extent of a cluster in
 the plane could be made of rounding errors

---
 include/htool/misc/evp.hpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/include/htool/misc/evp.hpp b/include/htool/misc/evp.hpp
index 95eb27b..9592c14 100644
--- a/include/htool/misc/evp.hpp
+++ b/include/htool/misc/evp.hpp
@@ -3,6 +3,7 @@
 
 #include "../basic_types/vector.hpp" // for dprod
 #include "../matrix/matrix.hpp"      // for Matrix
+#include <cmath>                     // for hypot, sqrt
 #include <limits>                    // for numeric_limits
 #include <vector>                    // for vector
 
@@ -11,32 +12,27 @@ namespace htool {
 template <typename T>
 std::vector<T> solve_EVP_2(const Matrix<T> &cov) {
     std::vector<T> dir(2, 0);
-    std::vector<T> eigs(2);
-    Matrix<T> I(2, 2);
-    I(0, 0) = 1;
-    I(1, 1) = 1;
-    Matrix<T> prod(2, 2);
     T trace = cov(0, 0) + cov(1, 1);
-    T det   = cov(0, 0) * cov(1, 1) - cov(0, 1) * cov(1, 0);
-    eigs[0] = trace / static_cast<T>(2.) + std::sqrt((trace * trace / static_cast<T>(4.) - det));
-    eigs[1] = trace / static_cast<T>(2.) - std::sqrt((trace * trace / static_cast<T>(4.) - det));
-    if (std::abs(eigs[0]) > std::numeric_limits<T>::epsilon()) {
+    if (trace > 0) {
+        // the eigenvalues are trace / 2 + radius and trace / 2 - radius
+        T half_difference = (cov(0, 0) - cov(1, 1)) / static_cast<T>(2.);
+        T radius          = std::hypot(half_difference, cov(0, 1));
 
-        prod      = (cov - eigs[1] * I);
-        int ind   = 0;
-        T dirnorm = 0;
-        do {
-            dir[0]  = prod(0, ind);
-            dir[1]  = prod(1, ind);
-            dirnorm = std::sqrt(dir[0] * dir[0] + dir[1] * dir[1]);
-            ind++;
-        } while ((dirnorm < std::numeric_limits<T>::epsilon()) && (ind < 2));
-        if (dirnorm < std::numeric_limits<T>::epsilon()) {
-            dir[0] = 1;
-            dir[1] = 0;
+        // largest column of cov minus its smallest eigenvalue, the other one may be only made of rounding errors
+        if (half_difference >= 0) {
+            dir[0] = half_difference + radius;
+            dir[1] = cov(1, 0);
         } else {
+            dir[0] = cov(0, 1);
+            dir[1] = radius - half_difference;
+        }
+        T dirnorm = std::hypot(dir[0], dir[1]);
+        if (dirnorm > 0) {
             dir[0] /= dirnorm;
             dir[1] /= dirnorm;
+        } else {
+            dir[0] = 1;
+            dir[1] = 0;
         }
     }
     return dir;
-- 
2.43.0


From 2b905bdb06f3cf285e889226a13b3d3e02d6882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 36/54] fix: the direction of largest extent of a cluster in
 space was not a number for a double eigenvalue, and depended on the unit of
 the geometry

---
 include/htool/misc/evp.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/htool/misc/evp.hpp b/include/htool/misc/evp.hpp
index 9592c14..aae255f 100644
--- a/include/htool/misc/evp.hpp
+++ b/include/htool/misc/evp.hpp
@@ -39,8 +39,12 @@ std::vector<T> solve_EVP_2(const Matrix<T> &cov) {
 }
 
 template <typename T>
-std::vector<T> solve_EVP_3(const Matrix<T> &cov) {
+std::vector<T> solve_EVP_3(const Matrix<T> &covariance) {
     std::vector<T> dir(3, 0);
+    T trace = covariance(0, 0) + covariance(1, 1) + covariance(2, 2);
+    if (!(trace > 0))
+        return dir;
+    Matrix<T> cov = (static_cast<T>(1) / trace) * covariance; // the thresholds below are relative to the trace
     T p1 = std::pow(cov(0, 1), 2) + std::pow(cov(0, 2), 2) + std::pow(cov(1, 2), 2);
     std::vector<T> eigs(3);
     Matrix<T> I(3, 3);
@@ -129,10 +133,34 @@ std::vector<T> solve_EVP_3(const Matrix<T> &cov) {
                 imax = 1;
             }
             if (d2 > dmax) {
+                dmax = d2;
                 imax = 2;
             }
 
-            if (imax == 0) {
+            // largest column
+            const T *column = col0;
+            for (const T *col : {col1, col2}) {
+                if (std::hypot(std::hypot(col[0], col[1]), col[2]) > std::hypot(std::hypot(column[0], column[1]), column[2])) {
+                    column = col;
+                }
+            }
+            T column_norm = std::hypot(std::hypot(column[0], column[1]), column[2]);
+
+            if (std::sqrt(dmax) <= static_cast<T>(10) * std::numeric_limits<T>::epsilon() * column_norm) {
+                // the largest eigenvalue is double, the columns are parallel and every direction orthogonal to them is fine
+                int smallest = 0;
+                for (int i = 1; i < 3; i++) {
+                    if (std::abs(column[i]) < std::abs(column[smallest])) {
+                        smallest = i;
+                    }
+                }
+                int next      = (smallest + 1) % 3;
+                int last      = (smallest + 2) % 3;
+                T norm        = std::hypot(column[next], column[last]);
+                dir[smallest] = 0;
+                dir[next]     = norm > 0 ? column[last] / norm : static_cast<T>(1);
+                dir[last]     = norm > 0 ? -column[next] / norm : static_cast<T>(0);
+            } else if (imax == 0) {
                 dir = c0xc1 / std::sqrt(d0);
             } else if (imax == 1) {
                 dir = c0xc2 / std::sqrt(d1);
-- 
2.43.0


From 51de18a849bca5451285c0ab885eb6d5258956c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:46 +0000
Subject: [PATCH 37/54] fix: the bounding box of a cluster was wrong for
 negative coordinates

---
 include/htool/clustering/tree_builder/direction_computation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 9ee1c8c..976439c 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -63,7 +63,7 @@ class ComputeBoundingBox final : public VirtualDirectionComputationStrategy<T> {
 
         // min max for each axis
         std::vector<T> min_point(spatial_dimension, std::numeric_limits<T>::max());
-        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::min());
+        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::lowest());
         for (int j = 0; j < cluster->get_size(); j++) {
             std::vector<T> u(spatial_dimension, 0);
             for (int p = 0; p < spatial_dimension; p++) {
-- 
2.43.0


From 9de5fcde76b5460092f93d04c95ca54c85b36529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:29 +0000
Subject: [PATCH 38/54] fix: relative Frobenius error of a low-rank matrix asks
 the generator for the block of its clusters

The call used a signature that the internal generators do not have, so that the
function could not be instantiated.
---
 include/htool/hmatrix/lrmat/lrmat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index d4cc908..a9025b6 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -151,7 +151,7 @@ underlying_type<CoefficientPrecision> Frobenius_relative_error(const Cluster<Coo
     underlying_type<CoefficientPrecision> norm = 0;
     underlying_type<CoefficientPrecision> err  = 0;
     std::vector<CoefficientPrecision> aux(lrmat.nb_rows() * lrmat.nb_cols());
-    ref.copy_submatrix(target_cluster, source_cluster, aux.data());
+    ref.copy_submatrix(target_cluster.get_size(), source_cluster.get_size(), target_cluster.get_offset(), source_cluster.get_offset(), aux.data());
     for (int j = 0; j < lrmat.nb_rows(); j++) {
         for (int k = 0; k < lrmat.nb_cols(); k++) {
             norm += std::pow(std::abs(aux[j + k * lrmat.nb_rows()]), 2);
-- 
2.43.0


From 18d16e90e735940a38dda0e3b57d15a89e826d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 39/54] fix: adaptive cross approximations recognise a
 vanishing remainder relatively to the block

The pivots were compared with an absolute 1e-15: a block whose entries are
small (a kernel in small units) was taken for zero, left dense, or
approximated with fewer crosses than its tolerance needs.
---
 include/htool/hmatrix/lrmat/fullACA.hpp       | 2 +-
 include/htool/hmatrix/lrmat/partialACA.hpp    | 7 +++++--
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index f8de95a..b898123 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -67,7 +67,7 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
             } else {
                 std::pair<int, int> ind    = argmax(mat);
                 CoefficientPrecision pivot = mat(ind.first, ind.second);
-                if (std::abs(pivot) < 1e-15) {
+                if (std::abs(pivot) <= 1e-15 * Norm) { // nothing left, relatively to the block
                     q += -1;
                     break;
                 }
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index d8262ee..12bd9b8 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -9,9 +9,10 @@
 #include "../../misc/logger.hpp"                                // for Logger
 #include "../../misc/misc.hpp"                                  // for unde...
 #include "../../wrappers/wrapper_blas.hpp"                      // for Blas
-#include <algorithm>                                            // for min
+#include <algorithm>                                            // for min, max
 #include <cmath>                                                // for sqrt
 #include <complex>                                              // for real
+#include <limits>                                               // for numeric_limits
 #include <string>                                               // for oper...
 #include <vector>                                               // for vector
 
@@ -76,6 +77,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
         underlying_type<CoefficientPrecision> frob = 0;
         underlying_type<CoefficientPrecision> aux  = 0;
         underlying_type<CoefficientPrecision> pivot, tmp;
+        underlying_type<CoefficientPrecision> largest_pivot = 0;
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> r(source_size), c(target_size);
@@ -120,7 +122,8 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                 CoefficientPrecision gamma = CoefficientPrecision(1.) / r[J];
                 //==================//
                 // Look for a line
-                if (std::abs(r[J]) > 1e-15) {
+                largest_pivot = std::max(largest_pivot, std::abs(r[J]));
+                if (std::abs(r[J]) > std::max(std::numeric_limits<underlying_type<CoefficientPrecision>>::min(), underlying_type<CoefficientPrecision>(1e-15) * largest_pivot)) { // relatively to the block
                     std::fill(c.begin(), c.end(), CoefficientPrecision(0));
                     A.copy_submatrix(target_size, 1, target_offset, J + source_offset, c.data());
                     for (int k = 0; k < uu.size(); k++) {
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 36e4575..4e681e4 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -9,9 +9,10 @@
 #include "../../misc/logger.hpp"                                // for Logger
 #include "../../misc/misc.hpp"                                  // for unde...
 #include "../../wrappers/wrapper_blas.hpp"                      // for Blas
-#include <algorithm>                                            // for min
+#include <algorithm>                                            // for min, max
 #include <cmath>                                                // for sqrt
 #include <complex>                                              // for real
+#include <limits>                                               // for numeric_limits
 #include <string>                                               // for to_s...
 #include <vector>                                               // for vector
 
@@ -93,6 +94,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
         underlying_type<CoefficientPrecision> aux  = 0;
 
         underlying_type<CoefficientPrecision> pivot, tmp;
+        underlying_type<CoefficientPrecision> largest_pivot = 0;
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> u1(n2), u2(n1);
@@ -137,7 +139,8 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
 
                 //==================//
                 // Look for a line
-                if (std::abs(u1[I2]) > 1e-15) {
+                largest_pivot = std::max(largest_pivot, std::abs(u1[I2]));
+                if (std::abs(u1[I2]) > std::max(std::numeric_limits<underlying_type<CoefficientPrecision>>::min(), underlying_type<CoefficientPrecision>(1e-15) * largest_pivot)) { // relatively to the block
                     std::fill(u2.begin(), u2.end(), CoefficientPrecision(0));
                     if (t.get_offset() >= s.get_offset()) {
                         A.copy_submatrix(n1, 1, i1, i2 + I2, u2.data());
-- 
2.43.0


From 25643e5934b7717b7e805b729269a449ca8a3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:22 +0000
Subject: [PATCH 40/54] fix: recompression of a low-rank matrix of rank 0
 leaves it as it is

LAPACK was called with an empty matrix and a leading dimension of 0, which ends
the process, and the singular values were read out of bounds.
---
 include/htool/hmatrix/lrmat/utils/recompression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/utils/recompression.hpp b/include/htool/hmatrix/lrmat/utils/recompression.hpp
index 7e64e13..0e6b161 100644
--- a/include/htool/hmatrix/lrmat/utils/recompression.hpp
+++ b/include/htool/hmatrix/lrmat/utils/recompression.hpp
@@ -22,6 +22,10 @@ void recompression(LowRankMatrix<CoefficientPrecision> &lrmat) {
     auto rank                      = lrmat.rank_of();
     auto epsilon                   = lrmat.get_epsilon();
 
+    if (rank == 0) { // nothing to recompress
+        return;
+    }
+
     if (rank > std::min(U.nb_rows(), V.nb_cols())) {
         Matrix<CoefficientPrecision> UV(U.nb_rows(), V.nb_cols());
         add_matrix_matrix_product('N', 'N', CoefficientPrecision(1), U, V, CoefficientPrecision(1), UV);
-- 
2.43.0


From 86c165ab05b1b3221b42e4412bfc1eb8a8fad835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 41/54] fix: copying the diagonal of an operator missed blocks
 that cross it without starting on it

---
 include/htool/hmatrix/hmatrix.hpp | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 55f750a..6643dcc 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -394,15 +394,17 @@ void copy_diagonal(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset() - target_offset;
         int offset_j = leaf->get_source_cluster().get_offset() - source_offset;
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (*leaf->get_dense_data())(k, k);
+        int begin    = std::max(offset_i, offset_j);
+        int end      = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (begin < end && leaf->is_dense()) {
+            for (int k = begin; k < end; k++) {
+                ptr[k] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (begin < end && leaf->is_low_rank()) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (low_rank_to_dense)(k, k);
+            for (int k = begin; k < end; k++) {
+                ptr[k] = (low_rank_to_dense)(k - offset_i, k - offset_j);
             }
         }
     }
@@ -434,15 +436,17 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset();
         int offset_j = leaf->get_source_cluster().get_offset();
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (*leaf->get_dense_data())(k, k);
+        int begin    = std::max(offset_i, offset_j);
+        int end      = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (begin < end && leaf->is_dense()) {
+            for (int k = begin; k < end; k++) {
+                ptr[permutation[k] - target_offset] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (begin < end && leaf->is_low_rank()) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (low_rank_to_dense)(k, k);
+            for (int k = begin; k < end; k++) {
+                ptr[permutation[k] - target_offset] = (low_rank_to_dense)(k - offset_i, k - offset_j);
             }
         }
     }
-- 
2.43.0


From 08e081b09525463cf819145ca68bb8b65033e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:52 +0000
Subject: [PATCH 42/54] fix: the permutation of the target of a local operator
 was ignored by matrix and transposed products

---
 .../htool/local_operators/local_operator.hpp  | 66 +++++++++++++++----
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index c383f7e..4fddf99 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -42,6 +42,34 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         add_matrix_product_global_to_local(1, temp.data(), 1, out, mu);
     }
 
+    // Renumbering of several vectors stored in row-major order
+    void user_to_cluster_row_major(const Cluster<CoordinatePrecision> &cluster, const CoefficientPrecision *in, CoefficientPrecision *out, int mu) const {
+        int size = cluster.get_size();
+        std::vector<CoefficientPrecision> buffer(2 * size);
+        for (int i = 0; i < mu; i++) {
+            for (int j = 0; j < size; j++) {
+                buffer[j] = in[i + j * mu];
+            }
+            user_to_cluster(cluster, buffer.data(), buffer.data() + size);
+            for (int j = 0; j < size; j++) {
+                out[i + j * mu] = buffer[size + j];
+            }
+        }
+    }
+    void cluster_to_user_row_major(const Cluster<CoordinatePrecision> &cluster, const CoefficientPrecision *in, CoefficientPrecision *out, int mu) const {
+        int size = cluster.get_size();
+        std::vector<CoefficientPrecision> buffer(2 * size);
+        for (int i = 0; i < mu; i++) {
+            for (int j = 0; j < size; j++) {
+                buffer[j] = in[i + j * mu];
+            }
+            cluster_to_user(cluster, buffer.data(), buffer.data() + size);
+            for (int j = 0; j < size; j++) {
+                out[i + j * mu] = buffer[size + j];
+            }
+        }
+    }
+
   public:
     // -- Operations --
     void add_vector_product_global_to_local(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
@@ -95,6 +123,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_target_use_permutation_to_mvprod ? nr * mu : 0);
 
         CoefficientPrecision *output = m_target_use_permutation_to_mvprod ? buffer_out.data() : out;
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster_row_major(m_target_cluster, out, buffer_out.data(), mu);
+        }
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
@@ -132,29 +164,32 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
         // }
 
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            cluster_to_user_row_major(m_target_cluster, output, out, mu);
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? m_source_cluster.get_size() : 0);
-        CoefficientPrecision *output = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod ? buffer_in.data() : in;
+        CoefficientPrecision *output      = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
 
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+        }
         if (m_source_use_permutation_to_mvprod) {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
         }
 
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_vector_product('T', alpha, in, beta, output);
+            local_add_vector_product('T', alpha, input, beta, output);
         } else if (m_symmetry == 'S' || m_symmetry == 'H') {
             // m_data.add_vector_product('T', alpha, in, beta, output);
-            local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            local_add_vector_product_symmetric('T', alpha, input, beta, output, m_UPLO, m_symmetry);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -170,7 +205,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         int nc = m_source_cluster.get_size();
         int nr = m_target_cluster.get_size();
-        std::vector<CoefficientPrecision> input_perm(m_symmetry == 'H' ? nr * mu : 0);
+        std::vector<CoefficientPrecision> input_perm(m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? nr * mu : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
@@ -189,13 +224,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
         }
 
-        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster_row_major(m_target_cluster, in, input_perm.data(), mu);
+        } else {
             std::copy_n(in, input_perm.size(), input_perm.data());
+        }
+
+        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
             conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
             conj_if_complex<CoefficientPrecision>(output_perm.data(), output_perm.size());
         }
 
-        const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? input_perm.data() : in;
 
         // Local to local product
         if (m_symmetry == 'N') {
@@ -236,7 +276,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         if (begin >= end) { // no common column
             std::fill_n(out, m_target_cluster.get_size() * mu, CoefficientPrecision(0));
-        } else if (m_symmetry == 'N' && !m_source_use_permutation_to_mvprod && source_offset == offset && source_size == size) { // Same size as local operator
+        } else if (m_symmetry == 'N' && !m_target_use_permutation_to_mvprod && !m_source_use_permutation_to_mvprod && source_offset == offset && source_size == size) { // Same size as local operator
             local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
         } else {
             local_sub_matrix_vector_product(in + (begin - offset) * mu, out, mu, begin, end - begin);
-- 
2.43.0


From 647254107a282720f7211f2c7ea9bccdac60615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 43/54] fix: transposed products with a Hermitian local
 operator were wrong or refused

---
 .../htool/local_operators/local_operator.hpp   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 4fddf99..8a446e0 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -172,13 +172,15 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
 
-        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? m_target_cluster.get_size() : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? m_source_cluster.get_size() : 0);
-        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod ? buffer_in.data() : in;
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod || m_symmetry == 'H' ? buffer_in.data() : in;
         CoefficientPrecision *output      = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
 
         if (m_target_use_permutation_to_mvprod) {
             user_to_cluster(m_target_cluster, in, buffer_in.data());
+        } else {
+            std::copy_n(in, buffer_in.size(), buffer_in.data());
         }
         if (m_source_use_permutation_to_mvprod) {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
@@ -187,9 +189,13 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_vector_product('T', alpha, input, beta, output);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            // m_data.add_vector_product('T', alpha, in, beta, output);
+        } else if (m_symmetry == 'S') {
             local_add_vector_product_symmetric('T', alpha, input, beta, output, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // the transpose is the conjugate of the adjoint
+            conj_if_complex<CoefficientPrecision>(buffer_in.data(), buffer_in.size());
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
+            local_add_vector_product_symmetric('C', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
+            conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -240,8 +246,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
-        } else if (m_symmetry == 'S' || m_symmetry == 'H') {
+        } else if (m_symmetry == 'S') {
             local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+        } else if (m_symmetry == 'H') { // the transpose is the conjugate of the adjoint
+            local_add_matrix_product_symmetric_row_major('C', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output_perm.data(), mu, m_UPLO, m_symmetry);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
-- 
2.43.0


From 1660072a9b41ae9a1abdfdf1e4fb050f78077877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 44/54] fix: the pivots of an earlier LU factorization of a
 matrix were applied to its later Cholesky factor or to new coefficients

---
 include/htool/matrix/linalg/factorization.hpp | 1 +
 include/htool/matrix/matrix.hpp               | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/htool/matrix/linalg/factorization.hpp b/include/htool/matrix/linalg/factorization.hpp
index 02619b0..e1829b7 100644
--- a/include/htool/matrix/linalg/factorization.hpp
+++ b/include/htool/matrix/linalg/factorization.hpp
@@ -89,6 +89,7 @@ void cholesky_factorization(char UPLO, Matrix<T> &A) {
     int M   = A.nb_rows();
     int lda = M;
     int info;
+    A.get_pivots().clear(); // those of a previous LU factorization are not part of this one
 
     Lapack<T>::potrf(&UPLO, &M, A.data(), &lda, &info);
 }
diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index b600f9a..c8dce0b 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -139,6 +139,7 @@ class Matrix {
         m_number_of_cols = number_of_cols;
         m_data           = ptr;
         m_is_owning_data = owning_data;
+        m_pivots.clear();
     }
 
     int nb_cols() const { return m_number_of_cols; }
@@ -237,6 +238,7 @@ class Matrix {
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
+        m_pivots.clear();
         std::fill_n(m_data, nbr * nbc, value);
     }
 
@@ -689,6 +691,7 @@ class Matrix {
         m_number_of_rows = rows;
         m_number_of_cols = cols;
         m_is_owning_data = true;
+        m_pivots.clear();
 
         in.close();
         return 0;
-- 
2.43.0


From 2454b10814af1c88d31ece384ad2f4e1f1cf5000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 45/54] fix: a GenEO coarse space builder could be used once
 only, its matrices were overwritten

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 5d420dd..86454dd 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -72,6 +72,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         std::iota(index.begin(), index.end(), int(0));
         int nevi = m_geneo_nu;
         int info;
+        Matrix<CoefficientPrecision> DAiD(m_DAiD), Bi(m_Bi); // Lapack overwrites them
         // int rankWorld;
         // MPI_Comm_rank(MPI_COMM_WORLD, &rankWorld);
         // m_DAiD.csv_save("m_DAiD_" + NbrToStr(rankWorld));
@@ -86,10 +87,10 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             }
 
             // std::cout << "OUAAAAH\n";
-            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
+            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, DAiD.data(), &lda, Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
             lwork = (int)std::real(work[0]);
             work.resize(lwork);
-            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
+            Lapack<CoefficientPrecision>::gv(&itype, "V", &m_uplo, &n, DAiD.data(), &lda, Bi.data(), &ldb, w.data(), work.data(), &lwork, rwork.data(), &info);
 
             // std::cout << "OUAAAAH 2\n";
             std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
@@ -123,7 +124,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             Matrix<CoefficientPrecision> Z(n, nevi);
             for (int i = 0; i < m_size_wo_overlap; i++) {
                 for (int j = 0; j < nevi; j++) {
-                    Z(i, j) = m_DAiD(i, index[j]);
+                    Z(i, j) = DAiD(i, index[j]);
                 }
             }
             return Z;
@@ -135,10 +136,10 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         std::vector<CoefficientPrecision> alphar(n), alphai((is_complex<CoefficientPrecision>() ? 0 : n)), beta(n);
         std::vector<CoefficientPrecision> vl(n * n), vr(n * n);
 
-        Lapack<CoefficientPrecision>::ggev("N", "V", &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
+        Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
         lwork = (int)std::real(work[0]);
         work.resize(lwork);
-        Lapack<CoefficientPrecision>::ggev("N", "V", &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
+        Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
             return ((std::abs(beta[a]) < 1e-15 || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < 1e-15));
-- 
2.43.0


From c57370842a1d29f7fe05700b04fb9960db9c63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 46/54] fix: eigenvalues of GenEO were taken for infinite in
 small units of the second operator

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 86454dd..e173339 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -141,12 +141,13 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         work.resize(lwork);
         Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
+        underlying_type<CoefficientPrecision> zero_beta = 1e-15 * normFrob(m_Bi);
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) < 1e-15 || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < 1e-15));
+            return ((std::abs(beta[a]) < zero_beta || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < zero_beta));
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < zero_beta || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From fc1da32397c18661766fb7979b524cb02c4f702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 47/54] fix: GenEO ignored the imaginary part of the
 eigenvalues of general real operators when selecting them

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index e173339..ee882f2 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -6,6 +6,7 @@
 #include "../interfaces/virtual_coarse_space_builder.hpp" // for VirtualCoa...
 #include "htool/misc/misc.hpp"                            // for underlying...
 #include <algorithm>                                      // for copy, max
+#include <cmath>                                          // for hypot
 #include <complex>                                        // for real
 #include <numeric>                                        // for iota
 #include <vector>                                         // for vector
@@ -141,13 +142,19 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         work.resize(lwork);
         Lapack<CoefficientPrecision>::ggev("N", "V", &n, DAiD.data(), &lda, Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
+        // moduli of the numerators, a real pencil has complex pairs
+        std::vector<underlying_type<CoefficientPrecision>> alpha(n);
+        for (int i = 0; i < n; i++) {
+            alpha[i] = is_complex<CoefficientPrecision>() ? std::abs(alphar[i]) : std::hypot(std::real(alphar[i]), std::real(alphai[i]));
+        }
+
         underlying_type<CoefficientPrecision> zero_beta = 1e-15 * normFrob(m_Bi);
         std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) < zero_beta || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < zero_beta));
+            return ((std::abs(beta[a]) < zero_beta || (alpha[a] / std::abs(beta[a]) > alpha[b] / std::abs(beta[b]))) && !(std::abs(beta[b]) < zero_beta));
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < zero_beta || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < zero_beta || alpha[index[nevi]] / std::abs(beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From a147ebdc0d20967c45255a769e47894c4328f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:02 +0000
Subject: [PATCH 48/54] fix: a zero matrix was not truncated by SVD

With a zero norm the relative error is not a number, and the whole rank was
kept: recompressing a low-rank matrix equal to zero did not reduce it.
---
 include/htool/matrix/utils/SVD_truncation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/matrix/utils/SVD_truncation.hpp b/include/htool/matrix/utils/SVD_truncation.hpp
index 0f0e0e0..a54fd14 100644
--- a/include/htool/matrix/utils/SVD_truncation.hpp
+++ b/include/htool/matrix/utils/SVD_truncation.hpp
@@ -46,7 +46,7 @@ int SVD_truncation(Matrix<CoefficientPrecision> &A, htool::underlying_type<Coeff
         do {
             j = j - 1;
             error += std::pow(std::abs(singular_values[j]), 2);
-        } while (j > 0 && std::sqrt(error) / svd_norm < epsilon);
+        } while (j > 0 && (singular_values[0] == 0 || std::sqrt(error) / svd_norm < epsilon));
 
         truncated_rank = j + 1;
     }
-- 
2.43.0


From 99598237426995b14ef3520b593e34280fd1694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:26 +0000
Subject: [PATCH 49/54] fix: rounding errors or tiny pivots were taken for
 pivots by partial ACA

The threshold was relative to the largest pivot only: in a block whose first
rows are small, rows of rounding errors were added as crosses, and a pivot close
to the smallest number gave infinite factors. It is now relative to the largest
coefficient met, and far enough from the smallest number.
---
 include/htool/hmatrix/lrmat/partialACA.hpp    | 12 ++++++++----
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 13 ++++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index 12bd9b8..4e3522d 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -10,7 +10,7 @@
 #include "../../misc/misc.hpp"                                  // for unde...
 #include "../../wrappers/wrapper_blas.hpp"                      // for Blas
 #include <algorithm>                                            // for min, max
-#include <cmath>                                                // for sqrt
+#include <cmath>                                                // for sqrt, cbrt
 #include <complex>                                              // for real
 #include <limits>                                               // for numeric_limits
 #include <string>                                               // for oper...
@@ -77,7 +77,8 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
         underlying_type<CoefficientPrecision> frob = 0;
         underlying_type<CoefficientPrecision> aux  = 0;
         underlying_type<CoefficientPrecision> pivot, tmp;
-        underlying_type<CoefficientPrecision> largest_pivot = 0;
+        underlying_type<CoefficientPrecision> largest_entry = 0;
+        const underlying_type<CoefficientPrecision> smallest_pivot = std::cbrt(std::numeric_limits<underlying_type<CoefficientPrecision>>::min()); // norms of a row divided by it do not overflow
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> r(source_size), c(target_size);
@@ -100,6 +101,8 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                 // Look for a column
                 std::fill(r.begin(), r.end(), CoefficientPrecision(0));
                 A.copy_submatrix(1, source_size, I + target_offset, source_offset, r.data());
+                for (const auto &elt : r)
+                    largest_entry = std::max(largest_entry, std::abs(elt));
                 for (int j = 0; j < uu.size(); j++) {
                     coef = -uu[j][I];
                     Blas<CoefficientPrecision>::axpy(&(source_size), &(coef), vv[j].data(), &incx, r.data(), &incy);
@@ -122,10 +125,11 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                 CoefficientPrecision gamma = CoefficientPrecision(1.) / r[J];
                 //==================//
                 // Look for a line
-                largest_pivot = std::max(largest_pivot, std::abs(r[J]));
-                if (std::abs(r[J]) > std::max(std::numeric_limits<underlying_type<CoefficientPrecision>>::min(), underlying_type<CoefficientPrecision>(1e-15) * largest_pivot)) { // relatively to the block
+                if (std::abs(r[J]) > std::max(smallest_pivot, underlying_type<CoefficientPrecision>(1e-15) * largest_entry)) { // relatively to the block
                     std::fill(c.begin(), c.end(), CoefficientPrecision(0));
                     A.copy_submatrix(target_size, 1, target_offset, J + source_offset, c.data());
+                    for (const auto &elt : c)
+                        largest_entry = std::max(largest_entry, std::abs(elt));
                     for (int k = 0; k < uu.size(); k++) {
                         coef = -vv[k][J];
                         Blas<CoefficientPrecision>::axpy(&(target_size), &(coef), uu[k].data(), &incx, c.data(), &incy);
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 4e681e4..2f21b87 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -10,7 +10,7 @@
 #include "../../misc/misc.hpp"                                  // for unde...
 #include "../../wrappers/wrapper_blas.hpp"                      // for Blas
 #include <algorithm>                                            // for min, max
-#include <cmath>                                                // for sqrt
+#include <cmath>                                                // for sqrt, cbrt
 #include <complex>                                              // for real
 #include <limits>                                               // for numeric_limits
 #include <string>                                               // for to_s...
@@ -94,7 +94,8 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
         underlying_type<CoefficientPrecision> aux  = 0;
 
         underlying_type<CoefficientPrecision> pivot, tmp;
-        underlying_type<CoefficientPrecision> largest_pivot = 0;
+        underlying_type<CoefficientPrecision> largest_entry = 0;
+        const underlying_type<CoefficientPrecision> smallest_pivot = std::cbrt(std::numeric_limits<underlying_type<CoefficientPrecision>>::min()); // norms of a row divided by it do not overflow
         CoefficientPrecision coef;
         int incx(1), incy(1);
         std::vector<CoefficientPrecision> u1(n2), u2(n1);
@@ -117,7 +118,8 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
                 } else {
                     A.copy_submatrix(n2, 1, i2, i1 + I1, u1.data());
                 }
-
+                for (const auto &elt : u1)
+                    largest_entry = std::max(largest_entry, std::abs(elt));
                 for (int j = 0; j < uu.size(); j++) {
                     coef = -uu[j][I1];
                     Blas<CoefficientPrecision>::axpy(&(n2), &(coef), vv[j].data(), &incx, u1.data(), &incy);
@@ -139,14 +141,15 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
 
                 //==================//
                 // Look for a line
-                largest_pivot = std::max(largest_pivot, std::abs(u1[I2]));
-                if (std::abs(u1[I2]) > std::max(std::numeric_limits<underlying_type<CoefficientPrecision>>::min(), underlying_type<CoefficientPrecision>(1e-15) * largest_pivot)) { // relatively to the block
+                if (std::abs(u1[I2]) > std::max(smallest_pivot, underlying_type<CoefficientPrecision>(1e-15) * largest_entry)) { // relatively to the block
                     std::fill(u2.begin(), u2.end(), CoefficientPrecision(0));
                     if (t.get_offset() >= s.get_offset()) {
                         A.copy_submatrix(n1, 1, i1, i2 + I2, u2.data());
                     } else {
                         A.copy_submatrix(1, n1, i2 + I2, i1, u2.data());
                     }
+                    for (const auto &elt : u2)
+                        largest_entry = std::max(largest_entry, std::abs(elt));
                     for (int k = 0; k < uu.size(); k++) {
                         coef = -vv[k][I2];
                         Blas<CoefficientPrecision>::axpy(&(n1), &(coef), uu[k].data(), &incx, u2.data(), &incy);
-- 
2.43.0


From 0dd77733acecf3faa56690094ffd08ca057a7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:08 +0000
Subject: [PATCH 50/54] fix: HPDDM freed a vector that was never set for an
 empty local coarse space

---
 include/htool/solvers/ddm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/solvers/ddm.hpp b/include/htool/solvers/ddm.hpp
index 3a6d843..432c0a1 100644
--- a/include/htool/solvers/ddm.hpp
+++ b/include/htool/solvers/ddm.hpp
@@ -93,8 +93,9 @@ class DDM {
         // int rankWorld;
         // MPI_Comm_rank(MPI_COMM_WORLD, &rankWorld);
         // Z.csv_save("test_" + NbrToStr(rankWorld));
-        CoefficientPrecision **Z_ptr_ptr = new CoefficientPrecision *[nevi];
+        CoefficientPrecision **Z_ptr_ptr = new CoefficientPrecision *[std::max(nevi, 1)]; // HPDDM frees the first vector, even if there is none
         CoefficientPrecision *Z_ptr      = Z.release();
+        Z_ptr_ptr[0]                     = Z_ptr;
         for (int i = 0; i < nevi; i++) {
             Z_ptr_ptr[i] = Z_ptr + i * m_size_w_overlap;
         }
-- 
2.43.0


From a8ec5e06bf5e874e49707e72c5629df725682221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:06 +0000
Subject: [PATCH 51/54] fix: numbers of coefficients overflowed for large
 blocks and operators

The tests for an advantageous rank, the compression ratios and the reported
figures multiplied two sizes as int or unsigned int.
---
 include/htool/hmatrix/hmatrix_distributed_output.hpp          | 2 +-
 include/htool/hmatrix/hmatrix_output.hpp                      | 4 ++--
 include/htool/hmatrix/lrmat/SVD.hpp                           | 2 +-
 include/htool/hmatrix/lrmat/fullACA.hpp                       | 2 +-
 .../htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp   | 2 +-
 include/htool/hmatrix/lrmat/lrmat.hpp                         | 2 +-
 include/htool/hmatrix/lrmat/partialACA.hpp                    | 2 +-
 include/htool/hmatrix/lrmat/sympartialACA.hpp                 | 2 +-
 8 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index dfe7ae8..34d205b 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -39,7 +39,7 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
 
     unsigned int local_nb_rows = hmatrix.get_target_cluster().get_size();
     unsigned int local_nb_cols = hmatrix.get_source_cluster().get_size();
-    std::size_t local_size     = local_nb_cols * local_nb_rows;
+    std::size_t local_size     = static_cast<std::size_t>(local_nb_cols) * local_nb_rows;
 
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 7bcb7da..def7947 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -206,8 +206,8 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
     hmatrix_information["Rank_min"]                  = std::to_string(mininfos[2]);
     hmatrix_information["Number_of_low_rank_blocks"] = std::to_string(low_rank_blocks.size());
     hmatrix_information["Number_of_dense_blocks"]    = std::to_string(dense_blocks.size());
-    hmatrix_information["Compression_ratio"]         = std::to_string((nb_rows * nb_cols) / number_of_generated_coefficient);
-    hmatrix_information["Space_saving"]              = std::to_string(1 - number_of_generated_coefficient / (nb_rows * nb_cols));
+    hmatrix_information["Compression_ratio"]         = std::to_string(max_block_size / number_of_generated_coefficient);
+    hmatrix_information["Space_saving"]              = std::to_string(1 - number_of_generated_coefficient / max_block_size);
 #if defined(_OPENMP)
     hmatrix_information["Number_of_threads"] = std::to_string(omp_get_max_threads());
 #endif
diff --git a/include/htool/hmatrix/lrmat/SVD.hpp b/include/htool/hmatrix/lrmat/SVD.hpp
index 253ec32..8672b52 100644
--- a/include/htool/hmatrix/lrmat/SVD.hpp
+++ b/include/htool/hmatrix/lrmat/SVD.hpp
@@ -35,7 +35,7 @@ class SVD final : public VirtualLowRankGenerator<CoefficientPrecision, Coordinat
         int truncated_rank = SVD_truncation(mat, epsilon, u, vt, singular_values);
 
         if (rank == -1) {
-            if (truncated_rank * (M + N) > (M * N)) {
+            if (static_cast<double>(truncated_rank) * (static_cast<double>(M) + N) > static_cast<double>(M) * N) {
                 truncated_rank = -1;
             }
 
diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index b898123..af45008 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -61,7 +61,7 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
         while (((reqrank > 0) && (q < std::min(reqrank, std::min(M, N)))) || ((reqrank < 0) && (normFrob(mat) / Norm > epsilon || q == 0))) {
 
             q += 1;
-            if (q * (M + N) > (M * N)) { // the current rank would not be advantageous
+            if (static_cast<double>(q) * (static_cast<double>(M) + N) > static_cast<double>(M) * N) { // the current rank would not be advantageous
                 q = -1;
                 break;
             } else {
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d1980e5..b386c88 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -57,7 +57,7 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
                 }
                 add_matrix_matrix_product<CoefficientPrecision>(transa, transb, alpha, U_A, B, 0, V_C);
             }
-            if (C.rank_of() * (C.nb_rows() + C.nb_cols()) > (C.nb_rows() * C.nb_cols())) {
+            if (static_cast<double>(C.rank_of()) * (static_cast<double>(C.nb_rows()) + C.nb_cols()) > static_cast<double>(C.nb_rows()) * C.nb_cols()) {
                 recompression(C);
             }
         } else {
diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index a9025b6..a1e7309 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -135,7 +135,7 @@ class LowRankMatrix {
     }
 
     double compression_ratio() const {
-        return (m_U.nb_rows() * m_V.nb_cols()) / (double)(m_U.nb_cols() * (m_U.nb_rows() + m_V.nb_cols()));
+        return (double(m_U.nb_rows()) * m_V.nb_cols()) / (double(m_U.nb_cols()) * (double(m_U.nb_rows()) + m_V.nb_cols()));
     }
 
     double space_saving() const {
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index 4e3522d..0f36d57 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -91,7 +91,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
             // Next current rank
             q += 1;
 
-            if (q * (target_size + source_size) > (target_size * source_size)) { // the next current rank would not be advantageous
+            if (static_cast<double>(q) * (static_cast<double>(target_size) + source_size) > static_cast<double>(target_size) * source_size) { // the next current rank would not be advantageous
                 q = -1;
                 break;
             } else {
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 2f21b87..42a946c 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -108,7 +108,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
             // Next current rank
             q += 1;
 
-            if (q * (n1 + n2) > (n1 * n2)) { // the next current rank would not be advantageous
+            if (static_cast<double>(q) * (static_cast<double>(n1) + n2) > static_cast<double>(n1) * n2) { // the next current rank would not be advantageous
                 q = -1;
                 break;
             } else {
-- 
2.43.0


From 4b09492ed9b630554c64cd1dfa8785f9b19fbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:27 +0000
Subject: [PATCH 52/54] fix: an operator assigned from one of its own blocks
 read freed memory

---
 include/htool/hmatrix/hmatrix.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 6643dcc..6452974 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -89,9 +89,10 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         if (&rhs == this) {
             return *this;
         }
-        this->m_depth     = rhs.m_depth;
-        this->m_is_root   = rhs.m_is_root;
-        this->m_tree_data = std::make_shared<HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_tree_data);
+        auto previous_children = std::move(this->m_children); // rhs may be one of their blocks
+        this->m_depth          = rhs.m_depth;
+        this->m_is_root        = rhs.m_is_root;
+        this->m_tree_data      = std::make_shared<HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(*rhs.m_tree_data);
         this->m_children.clear();
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
-- 
2.43.0


From 5cac15934d2a3a63d16c933ab79b0fc4809aac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:06 +0000
Subject: [PATCH 53/54] fix: an operator moved from one of its own blocks read
 freed memory

---
 include/htool/hmatrix/hmatrix.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 6452974..61e4d7d 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -111,9 +111,25 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         return *this;
     }
 
-    HMatrix(HMatrix &&) noexcept            = default;
-    HMatrix &operator=(HMatrix &&) noexcept = default;
-    virtual ~HMatrix()                      = default;
+    HMatrix(HMatrix &&) noexcept = default;
+    HMatrix &operator=(HMatrix &&rhs) noexcept {
+        if (&rhs == this) {
+            return *this;
+        }
+        auto previous_children = std::move(this->m_children); // rhs may be one of their blocks
+        TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>::operator=(std::move(rhs));
+        m_target_cluster           = rhs.m_target_cluster;
+        m_source_cluster           = rhs.m_source_cluster;
+        m_symmetry                 = rhs.m_symmetry;
+        m_UPLO                     = rhs.m_UPLO;
+        m_dense_data               = std::move(rhs.m_dense_data);
+        m_low_rank_data            = std::move(rhs.m_low_rank_data);
+        m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
+        m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
+        m_storage_type             = rhs.m_storage_type;
+        return *this;
+    }
+    virtual ~HMatrix() = default;
 
     // HMatrix getters
     const Cluster<CoordinatePrecision> &get_target_cluster() const { return *m_target_cluster; }
-- 
2.43.0


From 9272241d93c4caafc2410b190a172f830aba8e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:55 +0000
Subject: [PATCH 54/54] fix: messages logged by several threads were mixed up
 on the standard output

---
 include/htool/misc/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/misc/logger.hpp b/include/htool/misc/logger.hpp
index b8c4278..ba8a3c1 100644
--- a/include/htool/misc/logger.hpp
+++ b/include/htool/misc/logger.hpp
@@ -54,7 +54,7 @@ class StandartOutputWriter : public IObjectWriter {
     void write(LogLevel log_level, const std::string &message) override {
         std::string prefix;
         if (log_level <= m_current_log_level) {
-            std::cout << logging_level_to_string(log_level) + message << "\n";
+            std::cout << logging_level_to_string(log_level) + message + "\n"; // in one insertion, threads may log at the same time
         }
     }
     void set_log_level(LogLevel log_level) override { m_current_log_level = log_level; }
-- 
2.43.0

