From 6246a984847b8896b3f3a8a7a5e2ce0eb30a7bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:28 +0000
Subject: [PATCH 01/13] fix: 3D advection stabilization reads the x-derivative
 with the 3D stride

---
 src/analysis/assembler/heattransfer/op.advection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/assembler/heattransfer/op.advection.h b/src/analysis/assembler/heattransfer/op.advection.h
index 24d3ec6..f5b9e95 100644
--- a/src/analysis/assembler/heattransfer/op.advection.h
+++ b/src/analysis/assembler/heattransfer/op.advection.h
@@ -101,7 +101,7 @@ template <size_t nodes> struct AdvectionKernel<nodes, 3>: Advection {
         element.conductivity[8] = element.conductivity[8] + stabilization;
 
         for (size_t n = 0; n < nodes; ++n) {
-            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 2 + 0] + uy * element.dND[n * 3 + 1] + uz * element.dND[n * 3 + 2]));
+            SIMD scale = element.det * load1(element.w[gp]) * (load1(element.N[gp][n]) + advection * (ux * element.dND[n * 3 + 0] + uy * element.dND[n * 3 + 1] + uz * element.dND[n * 3 + 2]));
             for (size_t m = 0; m < nodes; ++m) {
                 element.K[n * nodes + m] = element.K[n * nodes + m] + scale * (ux * element.dND[m * 3 + 0] + uy * element.dND[m * 3 + 1] + uz * element.dND[m * 3 + 2]);
             }
-- 
2.43.0


From 63f19f738b0647c43150750fa66335f10c2d2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:23 +0000
Subject: [PATCH 02/13] fix: Neo-Hookean law uses the inverse Cauchy-Green
 tensor of C

The 13 and 23 components of C were exchanged in its determinant and in its
inverse, so stress and tangent were wrong for deformations with transverse shear.
---
 .../assembler/structuralmechanics/op.material.h        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics/op.material.h b/src/analysis/assembler/structuralmechanics/op.material.h
index 490e23e..c697331 100644
--- a/src/analysis/assembler/structuralmechanics/op.material.h
+++ b/src/analysis/assembler/structuralmechanics/op.material.h
@@ -365,15 +365,15 @@ template <size_t nodes, size_t gps> struct MaterialStructuralMechanicsKernel<nod
             SIMD lambda = E * nu / ((load1(1.) + nu) * (load1(1.) - load1(2.) * nu));
             SIMD mu = E / (load1(2.) + load1(2.) * nu);
 
-            SIMD J2 = element.C2[0] * element.C2[4] * element.C2[8] + load1(2) * element.C2[1] * element.C2[5] * element.C2[2] - element.C2[0] * element.C2[2] * element.C2[2] - element.C2[4] * element.C2[5] * element.C2[5] - element.C2[8] * element.C2[1] * element.C2[1];
+            SIMD J2 = element.C2[0] * element.C2[4] * element.C2[8] + load1(2) * element.C2[1] * element.C2[5] * element.C2[2] - element.C2[0] * element.C2[5] * element.C2[5] - element.C2[4] * element.C2[2] * element.C2[2] - element.C2[8] * element.C2[1] * element.C2[1];
             SIMD rJ2 = load1(1) / J2;
             SIMD vCinv[6] = {
-                (element.C2[4] *element.C2[8] - element.C2[2] * element.C2[2] ) * rJ2,
-                (element.C2[0] *element.C2[8] - element.C2[5] * element.C2[5] ) * rJ2,
+                (element.C2[4] *element.C2[8] - element.C2[5] * element.C2[5] ) * rJ2,
+                (element.C2[0] *element.C2[8] - element.C2[2] * element.C2[2] ) * rJ2,
                 (element.C2[0] *element.C2[4] - element.C2[1] * element.C2[1] ) * rJ2,
                 (element.C2[5] *element.C2[2] - element.C2[8] * element.C2[1] ) * rJ2,
-                (element.C2[1] *element.C2[2] - element.C2[4] * element.C2[5] ) * rJ2,
-                (element.C2[1] *element.C2[5] - element.C2[0] * element.C2[2] ) * rJ2,
+                (element.C2[1] *element.C2[2] - element.C2[0] * element.C2[5] ) * rJ2,
+                (element.C2[1] *element.C2[5] - element.C2[4] * element.C2[2] ) * rJ2,
             };
 
             SIMD C05 = load1(.5);
-- 
2.43.0


From fba5be48b8eadc0c95e67900187e02bf76a952b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:32 +0000
Subject: [PATCH 03/13] fix: adding a matrix block to a smaller CSR matrix adds
 instead of multiplies

---
 src/analysis/math/math.physics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/math/math.physics.h b/src/analysis/math/math.physics.h
index 16e8ea3..2a1de3a 100644
--- a/src/analysis/math/math.physics.h
+++ b/src/analysis/math/math.physics.h
@@ -134,7 +134,7 @@ template <typename T, typename I> void add(Matrix_CSR<T, I> &x, const T &alpha,
                 for (esint c = 0; c < x.rows[r + 1] - x.rows[r]; c++) {
                     esint tr = rows.step * (r / rows.size) + rows.offset + r % rows.size;
                     esint tc = cols.step * (c / cols.size) + cols.offset + c % cols.size;
-                    x.vals[x.rows[r] + c - x.rows[0]] *= alpha * y.vals[y.rows[tr] + tc - y.rows[0]];
+                    x.vals[x.rows[r] + c - x.rows[0]] += alpha * y.vals[y.rows[tr] + tc - y.rows[0]];
                 }
             }
         }
-- 
2.43.0


From 696d5fd9acb99e0193ca6454a9b587620ea43b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:24 +0000
Subject: [PATCH 04/13] fix: temperature gradient and flux of an interval are
 not stored behind its end

---
 src/analysis/assembler/heattransfer/op.flux.h     | 6 +++---
 src/analysis/assembler/heattransfer/op.gradient.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.flux.h b/src/analysis/assembler/heattransfer/op.flux.h
index da8e9eb..15810f1 100644
--- a/src/analysis/assembler/heattransfer/op.flux.h
+++ b/src/analysis/assembler/heattransfer/op.flux.h
@@ -25,7 +25,7 @@ struct TemperatureFlux: SubKernel {
     void activate(size_t interval, NamedData *flux, ThermalConductivityConfiguration::MODEL model)
     {
         this->flux = flux->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].begin;
-        this->end = flux->data.data() + flux->data.size();
+        this->end = flux->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].end;
         this->model = model;
         isactive = 1;
     }
@@ -90,7 +90,7 @@ struct TemperatureFluxKernel<nodes, gps, 2>: TemperatureFlux {
         SIMD scale = load1(1. / gps);
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux) / 2);
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.flux[0][s];
@@ -167,7 +167,7 @@ struct TemperatureFluxKernel<nodes, gps, 3>: TemperatureFlux {
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
         element.flux[2] = element.flux[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux) / 3);
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.flux[0][s];
diff --git a/src/analysis/assembler/heattransfer/op.gradient.h b/src/analysis/assembler/heattransfer/op.gradient.h
index 720ac4c..bac261f 100644
--- a/src/analysis/assembler/heattransfer/op.gradient.h
+++ b/src/analysis/assembler/heattransfer/op.gradient.h
@@ -23,7 +23,7 @@ struct TemperatureGradient: SubKernel {
     void activate(size_t interval, NamedData *gradient)
     {
         this->gradient = gradient->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].begin;
-        this->end = gradient->data.data() + gradient->data.size();
+        this->end = gradient->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].end;
         isactive = 1;
     }
 };
@@ -49,7 +49,7 @@ struct TemperatureGradientKernel<nodes, gps, 2>: TemperatureGradient {
         SIMD scale = load1(1. / gps);
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient) / 2);
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.gradient[0][s];
@@ -81,7 +81,7 @@ struct TemperatureGradientKernel<nodes, gps, 3>: TemperatureGradient {
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
         element.gradient[2] = element.gradient[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient) / 3);
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.gradient[0][s];
-- 
2.43.0


From 137c2f00087d26ed169226e18c8de4c563b2ea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:59 +0000
Subject: [PATCH 05/13] fix: work distribution over zero threads does not
 convert NaN to an integer

---
 src/basis/containers/tarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/containers/tarray.hpp b/src/basis/containers/tarray.hpp
index 020775f..abde023 100644
--- a/src/basis/containers/tarray.hpp
+++ b/src/basis/containers/tarray.hpp
@@ -12,7 +12,7 @@ std::vector<TType> tarray<TType>::distribute(int threads, TType size, TType minc
 {
 	std::vector<TType> distribution(threads + 1);
 
-	TType chunksize = std::max((TType)std::ceil(size / (double)threads), minchunk);
+	TType chunksize = threads ? std::max((TType)std::ceil(size / (double)threads), minchunk) : minchunk;
 	for (int t = 1; t < threads; t++) {
 		distribution[t] = t * chunksize;
 		if (distribution[t] > size) {
-- 
2.43.0


From 6b0922caeafe3244c6c7749e41fa2649e289f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:59 +0000
Subject: [PATCH 06/13] fix: triangulation of 6-node triangles contains each
 part only once

---
 src/mesh/element.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mesh/element.cpp b/src/mesh/element.cpp
index 371dcca..f36502e 100644
--- a/src/mesh/element.cpp
+++ b/src/mesh/element.cpp
@@ -156,7 +156,6 @@ template<> void Element::init<Element::CODE::TRIANGLE6>()
         0, 3, 5,
         3, 1, 4,
         4, 2, 5,
-        5, 0, 3,
         3, 4, 5
     };
 
-- 
2.43.0


From 6985ce2cf53e5fba5eb47b9ad721140c19c7eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:59 +0000
Subject: [PATCH 07/13] fix: generated TETRA10 faces on the x=start side are
 oriented outwards as on the other sides

---
 .../meshgenerator/elements/3D/quadraticvolume.cpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
index 0e48562..7160043 100644
--- a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
+++ b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
@@ -157,19 +157,19 @@ void QuadraticVolumeGenerator::pushTriangleNodes(std::vector<esint> &nodes, cons
 {
     switch (face) {
     case CubeFace::X_0:
-        nodes.push_back(indices[ 0]);
         nodes.push_back(indices[ 6]);
+        nodes.push_back(indices[ 0]);
         nodes.push_back(indices[18]);
         nodes.push_back(indices[ 3]);
-        nodes.push_back(indices[12]);
         nodes.push_back(indices[ 9]);
+        nodes.push_back(indices[12]);
 
         nodes.push_back(indices[ 6]);
-        nodes.push_back(indices[24]);
         nodes.push_back(indices[18]);
-        nodes.push_back(indices[15]);
-        nodes.push_back(indices[21]);
+        nodes.push_back(indices[24]);
         nodes.push_back(indices[12]);
+        nodes.push_back(indices[21]);
+        nodes.push_back(indices[15]);
         break;
     case CubeFace::X_1:
         nodes.push_back(indices[ 2]);
-- 
2.43.0


From 8190b450bde43f595347b3eab00215d35e6c1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:22 +0000
Subject: [PATCH 08/13] fix: pack and unpack the data of aligned thread arrays

tarray::pack and unpack copied the unaligned block although the data start at
the aligned address, and unpack never released the previous block.
---
 src/basis/containers/tarray.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/basis/containers/tarray.hpp b/src/basis/containers/tarray.hpp
index abde023..b95408d 100644
--- a/src/basis/containers/tarray.hpp
+++ b/src/basis/containers/tarray.hpp
@@ -214,7 +214,7 @@ void tarray<TType>::pack(char* &p) const
 	memcpy(p, &_size, sizeof(size_t));
 	p += sizeof(size_t);
 	if (_size) {
-		memcpy(p, _dataUnaligned, _size * sizeof(TType));
+		memcpy(p, _data, _size * sizeof(TType));
 		p += _size * sizeof(TType);
 	}
 }
@@ -232,12 +232,10 @@ void tarray<TType>::unpack(const char* &p)
 	memcpy(&_size, p, sizeof(size_t));
 	p += sizeof(size_t);
 
-	if (_dataUnaligned != NULL && _distribution.back() != _size) {
-		this->deallocate();
-	}
+	this->deallocate();
 	if (_size) {
 		this->allocate();
-		memcpy(reinterpret_cast<void*>(_dataUnaligned), p, _size * sizeof(TType));
+		memcpy(reinterpret_cast<void*>(_data), p, _size * sizeof(TType));
 		p += _size * sizeof(TType);
 	}
 }
-- 
2.43.0


From 5014ab6c602895f595f3289380e7438c274f9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 09/13] fix: conjugate the entries when a Hermitian triangle is
 completed in the other order

The loop assigned conj(index) to every entry instead of the conjugate of the entry.
---
 src/math/operations/convert_dnx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/operations/convert_dnx.cpp b/src/math/operations/convert_dnx.cpp
index 2e1d415..1a3d71a 100644
--- a/src/math/operations/convert_dnx.cpp
+++ b/src/math/operations/convert_dnx.cpp
@@ -120,7 +120,7 @@ void convert_dnx<T>::perform()
                     for(size_t ip = 0; ip < size_dst_primary; ip++) {
                         T * prim = M_dst->vals + ip * M_dst->ld;
                         for(size_t is = 0; is < size_dst_secdary; is++) {
-                            prim[is] = std::conj(is);
+                            prim[is] = std::conj(prim[is]);
                         }
                     }
                 }
-- 
2.43.0


From fbcc9f6bc96101e86e5e230224f4ed37e7ddc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:34 +0000
Subject: [PATCH 10/13] fix: BLAS transpose of rectangular matrices

transpose_internal was called with rows and columns swapped, so a rectangular
row-major matrix was read and written outside of its bounds.
---
 src/wrappers/blas/w.blas.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wrappers/blas/w.blas.cpp b/src/wrappers/blas/w.blas.cpp
index 4afa0df..70db415 100644
--- a/src/wrappers/blas/w.blas.cpp
+++ b/src/wrappers/blas/w.blas.cpp
@@ -303,14 +303,14 @@ void transpose(size_t src_nrows, size_t src_ncols, const T * src, size_t src_ld,
 
     if constexpr(utils::is_complex<T>()) {
         if(conj) {
-            transpose_internal<T,true>(src_ncols, src_nrows, src, src_ld, dst, dst_ld);
+            transpose_internal<T,true>(src_nrows, src_ncols, src, src_ld, dst, dst_ld);
         }
         else {
-            transpose_internal<T,false>(src_ncols, src_nrows, src, src_ld, dst, dst_ld);
+            transpose_internal<T,false>(src_nrows, src_ncols, src, src_ld, dst, dst_ld);
         }
     }
     else {
-        transpose_internal<T,false>(src_ncols, src_nrows, src, src_ld, dst, dst_ld);
+        transpose_internal<T,false>(src_nrows, src_ncols, src, src_ld, dst, dst_ld);
     }
 }
 
-- 
2.43.0


From 343dd1d5bba7905158e47ec4a134021985b88f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 11/13] fix: initialize the vectors of pruned rows and columns
 of the sparse pruning operation

---
 src/math/operations/prune_csx_matx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/operations/prune_csx_matx.h b/src/math/operations/prune_csx_matx.h
index a20c88e..92af2ba 100644
--- a/src/math/operations/prune_csx_matx.h
+++ b/src/math/operations/prune_csx_matx.h
@@ -41,8 +41,8 @@ private:
     MatrixCsxView_new<T,I> * M_src = nullptr;
     MatrixCsxView_new<T,I> * M_dst_sp = nullptr;
     MatrixDenseView_new<T> * M_dst_dn = nullptr;
-    VectorDenseView_new<I> * pruned_rows_vec;
-    VectorDenseView_new<I> * pruned_cols_vec;
+    VectorDenseView_new<I> * pruned_rows_vec = nullptr;
+    VectorDenseView_new<I> * pruned_cols_vec = nullptr;
     VectorDenseView_new<I> * pruned_idxs_primary = nullptr;
     VectorDenseView_new<I> * pruned_idxs_secdary = nullptr;
     VectorDenseData_new<I> pruned_idxs_secdary_inverse;
-- 
2.43.0


From 2382ea6090e04ae7d4b7646f41989611a0fdbbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 12/13] fix: set the pointers of trailing empty rows of a
 completed sparse matrix

---
 src/math/operations/complete_csx_csy_map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/operations/complete_csx_csy_map.cpp b/src/math/operations/complete_csx_csy_map.cpp
index cd9bc69..5766fe3 100644
--- a/src/math/operations/complete_csx_csy_map.cpp
+++ b/src/math/operations/complete_csx_csy_map.cpp
@@ -121,7 +121,9 @@ void complete_csx_csy_map<T,I>::perform_pattern()
         M_dst->idxs[i] = entry.c;
         map.vals[i] = entry.i;
     }
-    M_dst->ptrs[M_dst->get_size_primary()] = M_dst->nnz;
+    for(size_t r = prev_r + 1; r <= M_dst->get_size_primary(); r++) {
+        M_dst->ptrs[r] = M_dst->nnz;
+    }
 
     called_perform_pattern = true;
 
-- 
2.43.0


From 2e9216f55a4e354bdcd5a25849054322c95379bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 13/13] fix: conjugate the mirrored entries when a Hermitian
 sparse matrix is completed into the other order

---
 src/math/operations/complete_csx_csy_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/operations/complete_csx_csy_map.cpp b/src/math/operations/complete_csx_csy_map.cpp
index 5766fe3..93c15b6 100644
--- a/src/math/operations/complete_csx_csy_map.cpp
+++ b/src/math/operations/complete_csx_csy_map.cpp
@@ -144,7 +144,7 @@ void complete_csx_csy_map<T,I>::perform_values()
     }
 
     if constexpr(utils::is_complex<T>()) if(do_conj) {
-        bool toggle = ((M_src->order == M_dst->order) == (M_dst->order == 'R')) == (M_src->prop.uplo == 'L');
+        bool toggle = ((M_dst->order == 'R') == (M_src->prop.uplo == 'L'));
         I size_dst_primary = M_dst->get_size_primary();
         for(I ip = 0; ip < size_dst_primary; ip++) {
             I start = M_dst->ptrs[ip];
-- 
2.43.0

