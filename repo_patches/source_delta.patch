From 3817267e152b9731cfe1d74a9a79dfd72e249a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 001/108] fix: out-of-bounds shot-noise writes for 'full'
 three-point data vectors

---
 src/triumvirate/src/threept.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index a08f818..6a38c39 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -924,7 +924,7 @@ trv::BispecMeasurements compute_bispec(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -2100,7 +2100,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
             std::complex<double> S_ik_j_ki_col_ = coupling * (
               stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
             );
-            for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+            for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
               int idx_dv = idx_row * params.num_bins + idx_col;
               sn_dv[idx_dv] +=
                 S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
@@ -3876,7 +3876,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
               std::complex<double> S_ik_j_ki_col_ = coupling * (
                 stats_sn.pk[idx_col] - stats_sn.sn[idx_col]
               );
-              for (int idx_row = 0; idx_row <= params.num_bins; idx_row++) {
+              for (int idx_row = 0; idx_row < params.num_bins; idx_row++) {
                 int idx_dv = idx_row * params.num_bins + idx_col;
                 sn_dv[idx_dv] +=
                   S_ik_j_ki_col_ + factor_mirror * std::conj(S_ik_j_ki_col_);
-- 
2.43.0


From 741c0289301ad2515f59f4ed6027e533fbcaa020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 002/108] fix: periodic wrapping of interlaced TSC mesh
 assignment

---
 src/triumvirate/src/field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 37d55a5..43acd2a 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -945,7 +945,7 @@ OMP_ATOMIC
           ijk[0][iaxis] = idx_grid;
           ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[0][iaxis] + 1;
-          ijk[2][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
+          ijk[2][iaxis] = (ijk[1][iaxis] == this->params.ngrid[iaxis] - 1)
             ? 0 : ijk[1][iaxis] + 1;
         }
 
-- 
2.43.0


From be4ffec007b6923bae1e52da946eacd0e3148d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 003/108] fix: subtract the mean density from the interlacing
 shadow field too

---
 src/triumvirate/src/field.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 43acd2a..b539ecb 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1241,6 +1241,16 @@ void MeshField::compute_unweighted_field_fluctuations_insitu(
     this->field[gid][0] -= nbar;
     // this->field[gid][1] -= 0.; (unused)
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] -= nbar;
+      // this->field_s[gid][1] -= 0.; (unused)
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_field(
-- 
2.43.0


From e36a6f37c75a6305fb95cfce399d27149e2c8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 004/108] fix: scale the interlacing shadow field by the alpha
 contrast too

---
 src/triumvirate/src/field.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index b539ecb..cc7e9ca 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1369,6 +1369,16 @@ void MeshField::compute_ylm_wgtd_field(
     this->field[gid][0] *= alpha;
     this->field[gid][1] *= alpha;
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= alpha;
+      this->field_s[gid][1] *= alpha;
+    }
+  }
 }
 
 void MeshField::compute_ylm_wgtd_quad_field(
@@ -1496,6 +1506,16 @@ void MeshField::compute_ylm_wgtd_quad_field(
     this->field[gid][0] *= std::pow(alpha, 2);
     this->field[gid][1] *= std::pow(alpha, 2);
   }
+
+  if (this->params.interlace == "true") {
+#ifdef TRV_USE_OMP
+#pragma omp parallel for simd
+#endif  // TRV_USE_OMP
+    for (long long gid = 0; gid < this->params.nmesh; gid++) {
+      this->field_s[gid][0] *= std::pow(alpha, 2);
+      this->field_s[gid][1] *= std::pow(alpha, 2);
+    }
+  }
 }
 
 
-- 
2.43.0


From fed7924ebcf516cec6a5f77d16b81a1b5ecc1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 005/108] fix: periodic mesh assignment of particles on the
 upper box boundary

---
 src/triumvirate/src/field.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index cc7e9ca..4566f1c 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -643,6 +643,10 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -689,7 +693,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -753,6 +757,10 @@ void MeshField::assign_weighted_field_to_mesh_cic(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
@@ -800,7 +808,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -864,6 +872,10 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
@@ -929,7 +941,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
@@ -1012,6 +1024,10 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
       double loc_grid = this->params.ngrid[iaxis]
         * particles[pid].pos[iaxis] / this->params.boxsize[iaxis];
 
+      if (loc_grid >= this->params.ngrid[iaxis]) {
+        loc_grid -= this->params.ngrid[iaxis];
+      }
+
       int idx_grid = int(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
@@ -1067,7 +1083,7 @@ OMP_ATOMIC
         double loc_grid = this->params.ngrid[iaxis]
           * particles[pid].pos[iaxis] / this->params.boxsize[iaxis] + 0.5;
 
-        if (loc_grid > this->params.ngrid[iaxis]) {
+        if (loc_grid >= this->params.ngrid[iaxis]) {
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-- 
2.43.0


From 824caee1c7596a71f1f644f8d996ceeb35be5756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 006/108] fix: frequency index of the middle mode on meshes
 with odd grid numbers

---
 src/triumvirate/src/field.cpp | 36 +++++++++++++++++------------------
 src/triumvirate/src/maths.cpp | 12 ++++++------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 4566f1c..d5d6cb9 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -538,26 +538,26 @@ long long MeshField::ret_grid_index(int i, int j, int k) {
 }
 
 void MeshField::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0] + 1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1] + 1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2] + 1)/2) ? k : k - this->params.ngrid[2];
 }
 
 void MeshField::get_grid_pos_vector(int i, int j, int k, double rvec[3]) {
-  rvec[0] = (i < this->params.ngrid[0]/2) ?
+  rvec[0] = (i < (this->params.ngrid[0] + 1)/2) ?
     i * this->dr[0] : (i - this->params.ngrid[0]) * this->dr[0];
-  rvec[1] = (j < this->params.ngrid[1]/2) ?
+  rvec[1] = (j < (this->params.ngrid[1] + 1)/2) ?
     j * this->dr[1] : (j - this->params.ngrid[1]) * this->dr[1];
-  rvec[2] = (k < this->params.ngrid[2]/2) ?
+  rvec[2] = (k < (this->params.ngrid[2] + 1)/2) ?
     k * this->dr[2] : (k - this->params.ngrid[2]) * this->dr[2];
 }
 
 void MeshField::get_grid_wavevector(int i, int j, int k, double kvec[3]) {
-  kvec[0] = (i < this->params.ngrid[0]/2) ?
+  kvec[0] = (i < (this->params.ngrid[0] + 1)/2) ?
     i * this->dk[0] : (i - this->params.ngrid[0]) * this->dk[0];
-  kvec[1] = (j < this->params.ngrid[1]/2) ?
+  kvec[1] = (j < (this->params.ngrid[1] + 1)/2) ?
     j * this->dk[1] : (j - this->params.ngrid[1]) * this->dk[1];
-  kvec[2] = (k < this->params.ngrid[2]/2) ?
+  kvec[2] = (k < (this->params.ngrid[2] + 1)/2) ?
     k * this->dk[2] : (k - this->params.ngrid[2]) * this->dk[2];
 }
 
@@ -1668,13 +1668,13 @@ void MeshField::fourier_transform() {
 
           // Calculate the index vector representing the grid cell.
           double m[3];
-          m[0] = (i < this->params.ngrid[0]/2)
+          m[0] = (i < (this->params.ngrid[0] + 1)/2)
             ? double(i) / this->params.ngrid[0]
             : double(i) / this->params.ngrid[0] - 1;
-          m[1] = (j < this->params.ngrid[1]/2)
+          m[1] = (j < (this->params.ngrid[1] + 1)/2)
             ? double(j) / this->params.ngrid[1]
             : double(j) / this->params.ngrid[1] - 1;
-          m[2] = (k < this->params.ngrid[2]/2)
+          m[2] = (k < (this->params.ngrid[2] + 1)/2)
             ? double(k) / this->params.ngrid[2]
             : double(k) / this->params.ngrid[2] - 1;
 
@@ -2355,9 +2355,9 @@ long long FieldStats::ret_grid_index(int i, int j, int k) {
 }
 
 void FieldStats::shift_grid_indices_fourier(int& i, int& j, int& k) {
-  i = (i < this->params.ngrid[0]/2) ? i : i - this->params.ngrid[0];
-  j = (j < this->params.ngrid[1]/2) ? j : j - this->params.ngrid[1];
-  k = (k < this->params.ngrid[2]/2) ? k : k - this->params.ngrid[2];
+  i = (i < (this->params.ngrid[0] + 1)/2) ? i : i - this->params.ngrid[0];
+  j = (j < (this->params.ngrid[1] + 1)/2) ? j : j - this->params.ngrid[1];
+  k = (k < (this->params.ngrid[2] + 1)/2) ? k : k - this->params.ngrid[2];
 }
 
 trv::BinnedVectors FieldStats::record_binned_vectors(
@@ -2460,11 +2460,11 @@ trv::BinnedVectors FieldStats::record_binned_vectors(
   for (int i: i_range) {
     for (int j: j_range) {
       for (int k: k_range) {
-        double vx = (i < this->params.ngrid[0]/2) ?
+        double vx = (i < (this->params.ngrid[0] + 1)/2) ?
           i * cellsizes[0] : (i - this->params.ngrid[0]) * cellsizes[0];
-        double vy = (j < this->params.ngrid[1]/2) ?
+        double vy = (j < (this->params.ngrid[1] + 1)/2) ?
           j * cellsizes[1] : (j - this->params.ngrid[1]) * cellsizes[1];
-        double vz = (k < this->params.ngrid[2]/2) ?
+        double vz = (k < (this->params.ngrid[2] + 1)/2) ?
           k * cellsizes[2] : (k - this->params.ngrid[2]) * cellsizes[2];
 
         double scale = trvm::get_vec3d_magnitude({vx, vy, vz});
diff --git a/src/triumvirate/src/maths.cpp b/src/triumvirate/src/maths.cpp
index 4358e40..2411c9c 100644
--- a/src/triumvirate/src/maths.cpp
+++ b/src/triumvirate/src/maths.cpp
@@ -249,9 +249,9 @@ store_reduced_spherical_harmonic_in_fourier_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double kvec[3];
-        kvec[0] = (i < ngrid[0]/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
-        kvec[1] = (j < ngrid[1]/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
-        kvec[2] = (k < ngrid[2]/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
+        kvec[0] = (i < (ngrid[0] + 1)/2) ? i * dk[0] : (i - ngrid[0]) * dk[0];
+        kvec[1] = (j < (ngrid[1] + 1)/2) ? j * dk[1] : (j - ngrid[1]) * dk[1];
+        kvec[2] = (k < (ngrid[2] + 1)/2) ? k * dk[2] : (k - ngrid[2]) * dk[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, kvec);
       }
@@ -291,9 +291,9 @@ store_reduced_spherical_harmonic_in_config_space(
         // that negative wavenumbers/frequencies come after zero and
         // positive wavenumbers/frequencies.
         double rvec[3];
-        rvec[0] = (i < ngrid[0]/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
-        rvec[1] = (j < ngrid[1]/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
-        rvec[2] = (k < ngrid[2]/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
+        rvec[0] = (i < (ngrid[0] + 1)/2) ? i * dr[0] : (i - ngrid[0]) * dr[0];
+        rvec[1] = (j < (ngrid[1] + 1)/2) ? j * dr[1] : (j - ngrid[1]) * dr[1];
+        rvec[2] = (k < (ngrid[2] + 1)/2) ? k * dr[2] : (k - ngrid[2]) * dr[2];
 
         ylm_out[idx_grid] = calc_reduced_spherical_harmonic(ell, m, rvec);
       }
-- 
2.43.0


From b77d74f67f019445f08030df2f8e34442e319a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 007/108] fix: out-of-bounds read setting extrapolated FFTLog
 sample points

---
 src/triumvirate/src/fftlog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 3fb92f7..37e0bdb 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -172,7 +172,7 @@ void HankelTransform::initialise(
     this->post_sampts_extrap.resize(this->nsamp_trans);
     for (int j = 0; j < this->nsamp_trans; j++) {
       this->post_sampts_extrap[j] =
-        kr_aprod / this->pre_sampts[this->nsamp_trans - j - 1];
+        kr_aprod / this->pre_sampts_extrap[this->nsamp_trans - j - 1];
     }
   }
 
-- 
2.43.0


From 8ba53ef04696c54128d3d490f30ff897be850161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 008/108] fix: out-of-bounds writes to unsized output of
 spherical Bessel transform

---
 src/triumvirate/src/fftlog.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index 37e0bdb..a89f875 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -532,18 +532,18 @@ void SphericalBesselTransform::biased_transform(
       "The size of array `a` must be equal to the number of samples."
     );
   }
-  if (a.size() != N) {
+  if (b.size() != N) {
     b.resize(N);
   }
 
-  std::complex<double> A[N];
-  std::complex<double> B[N];
+  std::vector< std::complex<double> > A(N);
+  std::vector< std::complex<double> > B(N);
 
   for (std::size_t j = 0; j < N; j++) {
     A[j] = std::pow(this->pre_sampts[j], 3./2) * a[j];
   }
 
-  HankelTransform::biased_transform(A, B);
+  HankelTransform::biased_transform(A.data(), B.data());
 
   for (std::size_t j = 0; j < N; j++) {
     b[j] = std::pow(2*M_PI / this->post_sampts[j], 3./2) * B[j];
-- 
2.43.0


From ed87289b69a8eba531db7e207ea2f1b7eeab1919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 009/108] fix: out-of-bounds access transforming samples of the
 wrong length

---
 src/triumvirate/_fftlog.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index ffbecb6..45199bb 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -120,8 +120,13 @@ cdef class HankelTransform:
             Post-transform sample points and samples.
 
         """
-        fx_ = fx.astype(np.complex128)
-        gy_ = np.zeros_like(fx, dtype=np.complex128)
+        fx_ = np.ascontiguousarray(fx, dtype=np.complex128)
+        if fx_.shape != (self._nsamp,):
+            raise ValueError(
+                "Pre-transform samples must match the sample points "
+                f"in length: {fx_.shape} != ({self._nsamp},)."
+            )
+        gy_ = np.zeros_like(fx_)
         self._transform(fx_, gy_)
 
         y = np.array(self._post_sampts)
-- 
2.43.0


From d97aca42662ee3e4a1b669028305ba9814d7d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 010/108] fix: raise rather than abort on invalid Hankel
 transform order and bias

---
 src/triumvirate/_fftlog.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/_fftlog.pxd b/src/triumvirate/_fftlog.pxd
index 355e9d2..cf0c523 100644
--- a/src/triumvirate/_fftlog.pxd
+++ b/src/triumvirate/_fftlog.pxd
@@ -18,7 +18,7 @@ cdef extern from "include/fftlog.hpp":
         vector[double] pre_sampts
         vector[double] post_sampts
 
-        CppHankelTransform(double mu, double q, bool_t threaded)
+        CppHankelTransform(double mu, double q, bool_t threaded) except +
 
         void initialise(
             vector[double] sample_pts, double kr_c, bool_t lowring,
-- 
2.43.0


From 43970cee63a30640f5e58bd1657e1147462ad31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 011/108] fix: spherical Bessel transform overwriting the
 caller's samples

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index de5d496..f36202e 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -197,7 +197,7 @@ class SphericalBesselTransform:
         if self._extrap_layer == 'outer':
             pre_samples = self._perform_extrap(pre_samples)
 
-        pre_samples *= self._pre_sampts ** (3./2)
+        pre_samples = pre_samples * self._pre_sampts ** (3./2)
 
         post_sampts, post_samples = self._fbht.transform(pre_samples)
 
-- 
2.43.0


From d23bdb83e04110ffc9aef7a97eb647a500302c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 012/108] fix: log-linear resampling failing from round-off at
 the end points

---
 src/triumvirate/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index f36202e..b81aeda 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -578,6 +578,7 @@ def resample_lglin(sampts, samples, size=None, spline=3):
             np.log10(sampts[0]), np.log10(sampts[-1]), size or len(sampts),
             base=10
         )
+        resampts[0], resampts[-1] = sampts[0], sampts[-1]
         resamples = InterpolatedUnivariateSpline(
             sampts, samples, k=spline, ext='raise'
         )(resampts)
-- 
2.43.0


From 8342515a08f2d95ab146c8351ecd0ff8fe6f72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 013/108] fix: 2-d constant padding with different extensions
 of rows and columns

---
 src/triumvirate/_arrayops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index 5eb3eeb..d993eb7 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -637,15 +637,15 @@ def extrap2d_pad(a, n_ext, crow_lower, crow_upper, ccol_lower, ccol_upper):
     nrow_ext, ncol_ext = \
         n_ext if isinstance(n_ext, Sequence) else (n_ext, n_ext)
 
-    a_l = np.tile(crow_lower, (nrow_ext, 1)).T
-    a_r = np.tile(crow_upper, (nrow_ext, 1)).T
+    a_l = np.tile(crow_lower, (ncol_ext, 1)).T
+    a_r = np.tile(crow_upper, (ncol_ext, 1)).T
     a_ = np.c_[a_l, a, a_r]
 
     ccol_lower = np.concatenate([a_l[0], ccol_lower, a_r[0]])
     ccol_upper = np.concatenate([a_l[-1], ccol_upper, a_r[-1]])
 
-    a__u = np.tile(ccol_lower, (ncol_ext, 1))
-    a__d = np.tile(ccol_upper, (ncol_ext, 1))
+    a__u = np.tile(ccol_lower, (nrow_ext, 1))
+    a__d = np.tile(ccol_upper, (nrow_ext, 1))
     a_out = np.r_[a__u, a_, a__d]
 
     return a_out
-- 
2.43.0


From 5bd261d85c7da829d85964e554de87808fc6e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 014/108] fix: log-linear extrapolation of arrays with
 vanishing endpoints giving NaN

---
 src/triumvirate/_arrayops.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_arrayops.py b/src/triumvirate/_arrayops.py
index d993eb7..baf59eb 100644
--- a/src/triumvirate/_arrayops.py
+++ b/src/triumvirate/_arrayops.py
@@ -322,8 +322,12 @@ def extrap_loglin(a, n_ext):
     """
     a = _check_1d_array(a, check_epsign=True)
 
-    a_l = a[0] * (a[0] / a[1]) ** np.arange(n_ext, 0, -1)
-    a_r = a[-1] * (a[-1] / a[-2]) ** np.arange(1, n_ext + 1, 1)
+    # Vanishing endpoints are extrapolated by zeros.
+    ratio_l = a[0] / a[1] if a[0] != 0. else 1.
+    ratio_r = a[-1] / a[-2] if a[-1] != 0. else 1.
+
+    a_l = a[0] * ratio_l ** np.arange(n_ext, 0, -1)
+    a_r = a[-1] * ratio_r ** np.arange(1, n_ext + 1, 1)
     a_out = np.concatenate([a_l, a, a_r])
 
     return a_out
@@ -530,8 +534,12 @@ def _extrap2d_row_loglin(a, ncol_ext):
         Extrapolated 2-d array.
 
     """
-    a_l = a[:, [0]] * (a[:, [0]]/a[:, [1]]) ** np.arange(ncol_ext, 0, -1)
-    a_r = a[:, [-1]] * (a[:, [-1]]/a[:, [-2]]) ** np.arange(1, ncol_ext + 1, 1)
+    # Vanishing endpoints are extrapolated by zeros.
+    ratio_l = a[:, [0]] / np.where(a[:, [0]] != 0., a[:, [1]], 1.)
+    ratio_r = a[:, [-1]] / np.where(a[:, [-1]] != 0., a[:, [-2]], 1.)
+
+    a_l = a[:, [0]] * ratio_l ** np.arange(ncol_ext, 0, -1)
+    a_r = a[:, [-1]] * ratio_r ** np.arange(1, ncol_ext + 1, 1)
 
     a_out = np.c_[a_l, a, a_r]
 
-- 
2.43.0


From fe880a074b200169e16d5f4494f2bd7fdfabf3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 015/108] fix: documented extrapolation options of the Hankel
 transform

---
 src/triumvirate/_fftlog.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/_fftlog.pyx b/src/triumvirate/_fftlog.pyx
index 45199bb..6cc6af7 100644
--- a/src/triumvirate/_fftlog.pyx
+++ b/src/triumvirate/_fftlog.pyx
@@ -36,9 +36,10 @@ cdef class HankelTransform:
         options:
 
         - 0: none;
-        - 1: extrapolate by constant padding;
-        - 2: extrapolate linearly;
-        - 3: extrapolate log-linearly.
+        - 1: extrapolate by zero padding;
+        - 2: extrapolate by constant padding;
+        - 3: extrapolate linearly;
+        - 4: extrapolate log-linearly.
 
         Any extrapolation results in a sample size for the transform that
         is the smallest power of 2 greater than or equal to `extrap_exp`
-- 
2.43.0


From 9b4dee6fb28daedb8ab3d7d7158cacba415c5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 016/108] fix: resampling in 2-d with different numbers of
 sample points

---
 src/triumvirate/transforms.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index b81aeda..05f7cb8 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -523,6 +523,26 @@ class DoubleSphericalBesselTransform:
         return arr
 
 
+def _squeeze_sampts(sampts):
+    """Squeeze sample points.
+
+    Parameters
+    ----------
+    sampts : array_like or sequence of array_like
+        Sample points, possibly different in length in each dimension.
+
+    Returns
+    -------
+    :class:`numpy.ndarray` or list of :class:`numpy.ndarray`
+        Squeezed sample points.
+
+    """
+    try:
+        return np.squeeze(sampts)
+    except ValueError:
+        return [np.squeeze(sampts_) for sampts_ in sampts]
+
+
 def resample_lglin(sampts, samples, size=None, spline=3):
     """Resample at logarithmically spaced sample points in 1- or 2-d.
 
@@ -567,11 +587,11 @@ def resample_lglin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
+    sampts = _squeeze_sampts(sampts)
     samples = np.squeeze(samples)
 
     if samples.ndim == 1:
-        if sampts.ndim != 1:
+        if np.ndim(sampts[0]) != 0:
             raise ValueError("Sample points must be 1-d.")
 
         resampts = np.logspace(
@@ -586,7 +606,7 @@ def resample_lglin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
+        if np.ndim(sampts[0]) == 0:
             sampts = np.array([sampts, sampts])
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
@@ -659,11 +679,11 @@ def resample_lin(sampts, samples, size=None, spline=3):
     Resampling is accurate: True
 
     """
-    sampts = np.squeeze(sampts)
+    sampts = _squeeze_sampts(sampts)
     samples = np.squeeze(samples)
 
     if samples.ndim == 1:
-        if sampts.ndim != 1:
+        if np.ndim(sampts[0]) != 0:
             raise ValueError("Sample points must be 1-d.")
 
         resampts = np.linspace(
@@ -676,7 +696,7 @@ def resample_lin(sampts, samples, size=None, spline=3):
         return resampts, resamples
 
     if samples.ndim == 2:
-        if sampts.ndim == 1:
+        if np.ndim(sampts[0]) == 0:
             sampts = np.array([sampts, sampts])
         if len(sampts) != 2 or sampts[0].ndim != 1 or sampts[-1].ndim != 1:
             raise ValueError(
-- 
2.43.0


From 02d9fac92c33ecb8577e498029f71eb6902a2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 017/108] fix: window convolution matrix generation always
 failing without MPI

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 246bfe9..8c21179 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2850,7 +2850,7 @@ class BispecWinConv(WinConvBase):
                     wcmat[multipole] = wcmat_[select_rows]
 
             return wcmat if (not concat or wcmat is None) \
-                else np.row_stack([
+                else np.vstack([
                     wcmat[multipole] for multipole in self._formulae.multipoles
                 ])
 
@@ -2875,7 +2875,7 @@ class BispecWinConv(WinConvBase):
                 wc_matrices[multipole_] = np.column_stack(
                     wc_matrices[multipole_]
                 )
-            return _return_wcmat(wc_matrices, concat)
+            return _return_wcmat(wc_matrices, concat, diag)
 
         # Run with MPI parallelisation.
         nthreads_env = os.getenv('OMP_NUM_THREADS')
-- 
2.43.0


From 66b70ef1f90ace0867f75036cbd1676a74c0b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 018/108] fix: ordering of multipoles ignoring the penultimate
 degree

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 8c21179..601cb5d 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -272,7 +272,7 @@ class Multipole:
         if self.index[-1] > other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx < idx_other:
                 return True
             if idx > idx_other:
@@ -288,7 +288,7 @@ class Multipole:
         if self.index[-1] < other.index[-1]:
             return False
 
-        for idx, idx_other in zip(self.index[:-2], other.index[:-2]):
+        for idx, idx_other in zip(self.index[:-1], other.index[:-1]):
             if idx > idx_other:
                 return True
             if idx < idx_other:
-- 
2.43.0


From 6c4e3afa0caf8153f4231e7eb3e47f3fd1d225ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 019/108] fix: integral constraint failing with sample points
 common to all multipoles

---
 src/triumvirate/winconv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 601cb5d..4367df5 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1675,7 +1675,7 @@ class WinConvBase:
         else:
             self.r_in = {
                 multipole: r_in
-                for multipole in self._formulae.multipoles_Z
+                for multipole in self._formulae._multipoles_Z_true
             }
 
         if r_out is None:
@@ -1998,7 +1998,7 @@ class PowspecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         try:
@@ -2507,7 +2507,7 @@ class BispecWinConv(WinConvBase):
         else:
             self.k_in = {
                 multipole_Z: k_in
-                for multipole_Z in self._formulae.multipoles_Z
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         self._k_in_orig = None
-- 
2.43.0


From 8c1a805a59ff285c445e7cae5ed2cac92b5d7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 020/108] fix: missing multipoles in sample points for window
 convolution unnoticed

---
 src/triumvirate/winconv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 4367df5..f2f890b 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1667,7 +1667,9 @@ class WinConvBase:
                 Multipole(multipole): r_in[multipole]
                 for multipole in r_in.keys()
             }
-            if not set(self.r_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.r_in.keys()
+            ):
                 raise ValueError(
                     "The input 2PCF separation sample points must contain all "
                     "the multipole keys required by the convolution formulae."
@@ -1989,7 +1991,9 @@ class PowspecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input power spectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
@@ -2498,7 +2502,9 @@ class BispecWinConv(WinConvBase):
                 Multipole(key): val
                 for key, val in k_in.items()
             }
-            if not set(self.k_in.keys()).issubset(self._formulae.multipoles_Z):
+            if not set(self._formulae._multipoles_Z_true).issubset(
+                self.k_in.keys()
+            ):
                 raise ValueError(
                     "The input bispectrum wavenumber sample points must "
                     "contain all the multipole keys required by the "
-- 
2.43.0


From ef38ca11e3115e1db5d7f4715a8b6a246daaeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 021/108] fix: multipole-like keys of samples for window
 convolution

---
 src/triumvirate/winconv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index f2f890b..d3b6dff 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1859,6 +1859,8 @@ class TwoPCFWinConv(WinConvBase):
             a multipole) at sample points :attr:`r_out`.
 
         """
+        xi_in = {Multipole(key): val for key, val in xi_in.items()}
+
         xi_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2110,6 +2112,8 @@ class PowspecWinConv(WinConvBase):
 
         """
         # Backward transform power spectrum multipoles to 2PCF multipoles.
+        P_in = {Multipole(key): val for key, val in P_in.items()}
+
         xi_in = {}
         for multipole_Z in self._formulae._multipoles_Z_true:
             _, xi_in[multipole_Z] = self._bsjt[multipole_Z].\
@@ -2264,6 +2268,8 @@ class ThreePCFWinConv(WinConvBase):
                 )
 
         # Perform convolution term by term.
+        zeta_in = {Multipole(key): val for key, val in zeta_in.items()}
+
         zeta_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
@@ -2336,6 +2342,10 @@ class ThreePCFWinConv(WinConvBase):
             )
 
         # Perform convolution term by term.
+        zeta_diag_in = {
+            Multipole(key): val for key, val in zeta_diag_in.items()
+        }
+
         zeta_diag_conv_out = {}
         for multipole in self._formulae.multipoles:
             summands = []
-- 
2.43.0


From 4cdcfa0dd96619a4766867fd0f83ec7356a03569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 022/108] fix: window convolution changing the caller's
 transform arguments

---
 src/triumvirate/winconv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index d3b6dff..1b4646a 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1970,7 +1970,7 @@ class PowspecWinConv(WinConvBase):
         super().__init__(formulae, window_sampts, window_multipoles)
 
         # Set default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
@@ -2489,7 +2489,7 @@ class BispecWinConv(WinConvBase):
             )
 
         # Initialise default transform parameters.
-        self._transform_kwargs = transform_kwargs or {}
+        self._transform_kwargs = dict(transform_kwargs or {})
         # if 'pivot' not in self._transform_kwargs:
         #     self._transform_kwargs['pivot'] = 1.
         # if 'lowring' not in self._transform_kwargs:
-- 
2.43.0


From 4acfda655e50ed75e2aaad90785fdf5582b7ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 023/108] fix: window function resampled to a single point by
 default

---
 src/triumvirate/winconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 1b4646a..76654f9 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -937,7 +937,7 @@ class ThreePointWindow:
         except (MixedSignError, SpacingError,):
             if make_loglin:
                 self.resample(
-                    size=make_loglin if isinstance(make_loglin, int) else None
+                    size=None if isinstance(make_loglin, bool) else make_loglin
                 )
             else:
                 warnings.warn(
-- 
2.43.0


From 6237d296b94c9c2e42b6fe3cb2592d3a1be54d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 024/108] fix: window function subselection by multipole and as
 a new object

---
 src/triumvirate/winconv.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 76654f9..3a14ac6 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1151,11 +1151,15 @@ class ThreePointWindow:
             }
         elif isinstance(rrange, dict):
             select_range = {
-                Multipole(multipole): np.logical_and(
-                    rmin <= self.r[multipole], self.r[multipole] <= rmax
-                )
-                for multipole, (rmin, rmax) in rrange.items()
+                multipole: np.full_like(self.r[multipole], True, dtype=bool)
+                for multipole in self.multipoles
             }
+            for key, (rmin, rmax) in rrange.items():
+                multipole = Multipole(key)
+                select_range[multipole] = np.logical_and(
+                    (rmin or 0.) <= self.r[multipole],
+                    self.r[multipole] <= (rmax or np.inf)
+                )
         else:
             rmin, rmax = rrange
             rmin = rmin or 0.
@@ -1182,7 +1186,7 @@ class ThreePointWindow:
                 select_idx[Multipole(key)] = np.full_like(
                     self.r[Multipole(key)], False, dtype=bool
                 )
-                select_idx[slice(*val)] = True
+                select_idx[Multipole(key)][slice(*val)] = True
         else:
             select_idx = {
                 multipole: np.full_like(self.r[multipole], False, dtype=bool)
@@ -1200,7 +1204,10 @@ class ThreePointWindow:
 
         if not inplace:
             instance = self.__class__.load_from_dict({
-                'r': self.r[multipole][selector[multipole]],
+                'r': {
+                    multipole: self.r[multipole][selector[multipole]]
+                    for multipole in self.multipoles
+                },
                 'Q': {
                     multipole: Q_in_[
                         selector[multipole], :
-- 
2.43.0


From 77931bc67576c4214fcfcdd529f9fca007b26f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 025/108] fix: window functions loaded from dictionaries and
 files differing in type

---
 src/triumvirate/winconv.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 3a14ac6..2efc0e3 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1049,8 +1049,6 @@ class ThreePointWindow:
         """
         self = cls.__new__(cls)
 
-        self.r = dict_obj['r']
-
         self.Q = {}
         self.Q_diag = {}
         multipoles = []
@@ -1062,6 +1060,16 @@ class ThreePointWindow:
 
         self.multipoles = sorted(multipoles)
 
+        if isinstance(dict_obj['r'], dict):
+            self.r = {
+                Multipole(multipole_in): rpole_in
+                for multipole_in, rpole_in in dict_obj['r'].items()
+            }
+        else:
+            self.r = {
+                multipole: dict_obj['r'] for multipole in self.multipoles
+            }
+
         try:
             self.sources = dict_obj['sources']
         except KeyError:
@@ -1094,8 +1102,8 @@ class ThreePointWindow:
         self.Q = win_obj['Q'].item()
         self.Q_diag = win_obj['Q_diag'].item()
 
-        self.multipoles = win_obj['multipoles']
-        self.sources = win_obj['sources']
+        self.multipoles = sorted(self.Q.keys())
+        self.sources = win_obj['sources'].tolist()
 
         return self
 
-- 
2.43.0


From e472ec23d838f353b0b8b53f48f5d0c43c8d8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 026/108] fix: respacing wavenumber sample points of different
 lengths

---
 src/triumvirate/winconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 2efc0e3..0dff501 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2549,7 +2549,8 @@ class BispecWinConv(WinConvBase):
             self._k_in_orig = self.k_in.copy()
             self.k_in = {
                 multipole_Z: np.logspace(
-                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(k), base=10
+                    np.log10(_k_in_[0]), np.log10(_k_in_[-1]), len(_k_in_),
+                    base=10
                 )
                 for multipole_Z, _k_in_ in self._k_in_orig.items()
             }
-- 
2.43.0


From 0699bbb24ee9617bb258fed661df12cc7c26db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 027/108] fix: multipole-like keys of input bispectra for
 window convolution

---
 src/triumvirate/winconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 0dff501..18e7e9a 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -2661,6 +2661,8 @@ class BispecWinConv(WinConvBase):
             (only returned if `ret_zeta` is `True`).
 
         """
+        B_in = {Multipole(key): val for key, val in B_in.items()}
+
         # Reinterpolate input bispectrum multipoles if necessary.
         if self._k_in_orig is not None:
             B_in = {
@@ -2670,7 +2672,7 @@ class BispecWinConv(WinConvBase):
                     B_in[multipole_Z],
                     kx=self.spline[-1], ky=self.spline[-1]
                 )(self.k_in[multipole_Z], self.k_in[multipole_Z])
-                for multipole_Z in B_in
+                for multipole_Z in self._formulae._multipoles_Z_true
             }
 
         # Backward transform bispectrum multipoles to 3PCF multipoles.
-- 
2.43.0


From 91e2255d61daeb1864226e392e9875a613efc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 028/108] fix: multipole-like keys of common sample points for
 integral constraint

---
 src/triumvirate/winconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/winconv.py b/src/triumvirate/winconv.py
index 18e7e9a..4b1368c 100644
--- a/src/triumvirate/winconv.py
+++ b/src/triumvirate/winconv.py
@@ -1488,7 +1488,9 @@ def calc_threept_ic(window_sampts, window_multipoles, r, zeta,
     # Set common separation sample points.
     if r_common is None:
         r_common = r
-    elif not isinstance(r_common, dict):
+    elif isinstance(r_common, dict):
+        r_common = {Multipole(key): val for key, val in r_common.items()}
+    else:
         r_common = {multipole: r_common for multipole in multipoles_common}
 
     if not _check_conv_range(r_common, r):
-- 
2.43.0


From fe514eeccd0276243b9cb1f864fa943893d6d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 029/108] fix: repeated warnings restored as if unique

---
 src/triumvirate/_mpitools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index d6306be..0246a65 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -131,7 +131,8 @@ def restore_warnings(captured_warnings, unique=True, show=True,
         seen_warnings = set()
         for record in captured_warnings:
             record_tuple = (
-                record.message, record.category, record.filename, record.lineno
+                str(record.message), record.category,
+                record.filename, record.lineno
             )
             if record_tuple not in seen_warnings:
                 restored_warnings.append(record)
-- 
2.43.0


From b1fceb19ec6574c4c8c2f47901b6fba652b60080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 030/108] fix: mixed-mesh normalisation accepted where it is
 not implemented

---
 src/triumvirate/src/parameters.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 466b186..d03fdf4 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -881,6 +881,23 @@ int ParameterSet::validate(bool init) {
       this->npoint.c_str()
     );
   }
+  if (
+    this->norm_convention == "mesh-mixed"
+    && (this->catalogue_type == "random" || this->catalogue_type == "sim")
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Normalisation convention 'mesh-mixed' only applies to "
+        "'survey' catalogues: `catalogue_type` = '%s'.",
+        this->catalogue_type.c_str()
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Normalisation convention 'mesh-mixed' only applies to "
+      "'survey' catalogues: `catalogue_type` = '%s'.",
+      this->catalogue_type.c_str()
+    );
+  }
   if (!(
     this->binning == "lin"
     || this->binning == "log"
-- 
2.43.0


From fc42126a07f3f866e53c96ababd76bbd8011459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 031/108] fix: measurements failing with a plain logger

---
 src/triumvirate/threept.py | 30 ++++++++++--------------------
 src/triumvirate/twopt.py   | 30 ++++++++++--------------------
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index b8e2e3e..3b930cb 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -600,8 +600,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -617,8 +616,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -679,8 +677,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(
@@ -700,8 +697,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1497,8 +1493,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -1512,8 +1507,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1563,8 +1557,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = threept_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1581,8 +1574,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -2045,8 +2037,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring three-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_3pcf_window(
@@ -2065,8 +2056,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured three-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 1d03c07..5270cca 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -523,8 +523,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data = \
@@ -540,8 +539,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -605,8 +603,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "Measuring %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(
@@ -626,8 +623,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info(
                 "... measured %s from paired survey-type catalogues "
                 "in the local plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1053,8 +1049,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "Preparing catalogue for clustering algorithm...",
-                cpp_state='start'
+                "Preparing catalogue for clustering algorithm..."
             )
 
     particles_data =  \
@@ -1068,8 +1063,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             )
         except AttributeError:
             logger.info(
-                "... prepared catalogue for clustering algorithm.",
-                cpp_state='end'
+                "... prepared catalogue for clustering algorithm."
             )
 
     # Set up constants.
@@ -1119,8 +1113,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "Measuring %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation...",
-                statistic_name,
-                cpp_state='start'
+                statistic_name
             )
 
     results = twopt_algofunc(particles_data, paramset, binning, norm_factor)
@@ -1137,8 +1130,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
             logger.info(
                 "... measured %s from a simulation-box catalogue "
                 "in the global plane-parallel approximation.",
-                statistic_name,
-                cpp_state='end'
+                statistic_name
             )
 
     if save:
@@ -1529,8 +1521,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "Measuring two-point correlation function window "
-                "from a random catalogue...",
-                cpp_state='start'
+                "from a random catalogue..."
             )
 
     results = _compute_corrfunc_window(
@@ -1548,8 +1539,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         except AttributeError:
             logger.info(
                 "... measured two-point correlation function window "
-                "from a random catalogue.",
-                cpp_state='end'
+                "from a random catalogue."
             )
 
     if save:
-- 
2.43.0


From 824289cef0959fd24319591d747ea613fb350d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 032/108] fix: wide-angle windows of different orders saved
 under the same name

---
 src/triumvirate/threept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 3b930cb..73dea11 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1934,7 +1934,8 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         paramset=paramset, params_sampling=sampling_params,
         degrees=degrees, wa_orders=wa_orders,
         binning=binning, form=form, idx_bin=idx_bin,
-        catalogue_type='random', statistic_type='3pcf-win'
+        catalogue_type='random',
+        statistic_type='3pcf-win-wa' if wide_angle else '3pcf-win'
     )
 
     if isinstance(paramset, dict):  # likely redundant but safe
-- 
2.43.0


From a9b2de332cacf258be715b80addd7cb00ca73629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 033/108] fix: saved file names cut at the last dot of the
 output tag

---
 src/triumvirate/threept.py | 16 ++++++++--------
 src/triumvirate/twopt.py   | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 73dea11..116fdd5 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -716,14 +716,14 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1280,7 +1280,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #                 ['% .9e'] * (datatab.shape[-1] - 6)
 #             )
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+#             ofilepath = Path(odirpath, ofilename + '.txt')
 #             np.savetxt(
 #                 ofilepath, datatab,
 #                 fmt=datafmt, header=header, delimiter='\t'
@@ -1288,7 +1288,7 @@ def compute_3pcf(catalogue_data, catalogue_rand,
 #         elif save.lower().endswith('.npz'):
 #             results.update({'header': header})
 #             ofilename = _get_measurement_filename(paramset)
-#             ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+#             ofilepath = Path(odirpath, ofilename + '.npz')
 #             np.savez(ofilepath, **results)
 #         else:
 #             raise ValueError(
@@ -1593,14 +1593,14 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -2076,14 +2076,14 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 ['% .9e'] * (datatab.shape[-1] - 6)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 5270cca..ce7954d 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -641,14 +641,14 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1148,14 +1148,14 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
@@ -1557,14 +1557,14 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 ['%.9e'] * 2 + ['%10d'] + ['% .9e'] * (datatab.shape[-1] - 3)
             )
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.txt')
+            ofilepath = Path(odirpath, ofilename + '.txt')
             np.savetxt(
                 ofilepath, datatab, fmt=datafmt, header=header, delimiter='\t'
             )
         elif save.lower().endswith('.npz'):
             results.update({'header': header})
             ofilename = _get_measurement_filename(paramset)
-            ofilepath = Path(odirpath, ofilename).with_suffix('.npz')
+            ofilepath = Path(odirpath, ofilename + '.npz')
             np.savez(ofilepath, **results)
         else:
             raise ValueError(
-- 
2.43.0


From 1efcf99642799d6f7661498628f729cbd9ce4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 034/108] fix: parameter names matched anywhere in a line of
 parameter files

---
 src/triumvirate/src/parameters.cpp | 98 ++++++++++++++++--------------
 1 file changed, 53 insertions(+), 45 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index d03fdf4..21e9404 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -116,28 +116,28 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   double boxsize_x, boxsize_y, boxsize_z;
   int ngrid_x, ngrid_y, ngrid_z;
 
-  char alignment_[16] = "";
-  char padscale_[16] = "";
-  char assignment_[16] = "";
-  char interlace_[16] = "";
-
-  char catalogue_type_[16] = "";
-  char statistic_type_[16] = "";
-  char form_[16] = "";
-  char norm_convention_[16] = "";
-  char binning_[16] = "";
-
-  char fftw_scheme_[16] = "";
+  char alignment_[1024] = "";
+  char padscale_[1024] = "";
+  char assignment_[1024] = "";
+  char interlace_[1024] = "";
+
+  char catalogue_type_[1024] = "";
+  char statistic_type_[1024] = "";
+  char form_[1024] = "";
+  char norm_convention_[1024] = "";
+  char binning_[1024] = "";
+
+  char fftw_scheme_[1024] = "";
   char use_fftw_wisdom_[1024] = "";
   char save_binned_vectors_[1024] = "";
-  char progbar_[16] = "";
+  char progbar_[1024] = "";
 
   // ---------------------------------------------------------------------
   // Extraction
   // ---------------------------------------------------------------------
 
   std::string line_str;
-  char dummy_str[1024], dummy_equal[1024];
+  char par_name_str[1024], dummy_str[1024], dummy_equal[1024];
   while (std::getline(fin, line_str)) {
     // Check if the line is a parameter assignment.
     if (line_str.find("#") == 0) {
@@ -146,7 +146,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     if (
       std::sscanf(
         line_str.data(), "%1023s %1023s %1023s",
-        dummy_str, dummy_equal, dummy_str
+        par_name_str, dummy_equal, dummy_str
       ) != 3
     ) {
       continue;
@@ -155,11 +155,15 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
       continue;
     }  // skip non-assignment lines
 
-    // Define convenience function for scanning string parameters.
-    auto scan_par_str = [line_str, dummy_str, dummy_equal](
-      const char* par_name, const char* fmt, const char* par_value
+    // Define convenience functions for matching parameter names
+    // and scanning string parameters.
+    auto is_par = [&par_name_str](const char* par_name) {
+      return std::strcmp(par_name_str, par_name) == 0;
+    };
+    auto scan_par_str = [&line_str, &dummy_str, &dummy_equal, &is_par](
+      const char* par_name, const char* fmt, char* par_value
     ) {
-      if (line_str.find(par_name) != std::string::npos) {
+      if (is_par(par_name)) {
         std::sscanf(
           line_str.data(), fmt, dummy_str, dummy_equal, par_value
         );
@@ -168,54 +172,58 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- I/O ------------------------------------------------------------
 
-    scan_par_str("catalogue_dir", "%s %s %s", catalogue_dir_);
-    scan_par_str("measurement_dir", "%s %s %s", measurement_dir_);
-    scan_par_str("data_catalogue_file", "%s %s %s", data_catalogue_file_);
-    scan_par_str("rand_catalogue_file", "%s %s %s", rand_catalogue_file_);
-    scan_par_str("catalogue_columns", "%s %s %s", catalogue_columns_);
-    scan_par_str("catalogue_dataset", "%s %s %s", catalogue_dataset_);
-    scan_par_str("output_tag", "%s %s %s", output_tag_);
+    scan_par_str("catalogue_dir", "%1023s %1023s %1023s", catalogue_dir_);
+    scan_par_str("measurement_dir", "%1023s %1023s %1023s", measurement_dir_);
+    scan_par_str(
+      "data_catalogue_file", "%1023s %1023s %262143s", data_catalogue_file_
+    );
+    scan_par_str(
+      "rand_catalogue_file", "%1023s %1023s %262143s", rand_catalogue_file_
+    );
+    scan_par_str("catalogue_columns", "%1023s %1023s %1023s", catalogue_columns_);
+    scan_par_str("catalogue_dataset", "%1023s %1023s %1023s", catalogue_dataset_);
+    scan_par_str("output_tag", "%1023s %1023s %1023s", output_tag_);
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (line_str.find("boxsize_x") != std::string::npos) {
+    if (is_par("boxsize_x")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_x
       );
     }
-    if (line_str.find("boxsize_y") != std::string::npos) {
+    if (is_par("boxsize_y")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_y
       );
     }
-    if (line_str.find("boxsize_z") != std::string::npos) {
+    if (is_par("boxsize_z")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &boxsize_z
       );
     }
 
-    if (line_str.find("ngrid_x") != std::string::npos) {
+    if (is_par("ngrid_x")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_x
       );
     }
-    if (line_str.find("ngrid_y") != std::string::npos) {
+    if (is_par("ngrid_y")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &ngrid_y
       );
     }
-    if (line_str.find("ngrid_z") != std::string::npos) {
+    if (is_par("ngrid_z")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
       );
     }
 
-    if (line_str.find("expand") != std::string::npos) {
+    if (is_par("expand")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->expand
@@ -225,7 +233,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
     scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
 
-    if (line_str.find("padfactor") != std::string::npos) {
+    if (is_par("padfactor")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->padfactor
@@ -243,65 +251,65 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
     scan_par_str("binning", "%1023s %1023s %1023s", binning_);
 
-    if (line_str.find("ell1") != std::string::npos) {
+    if (is_par("ell1")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell1
       );
     }
-    if (line_str.find("ell2") != std::string::npos) {
+    if (is_par("ell2")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ell2
       );
     }
-    if (line_str.find("ELL") != std::string::npos) {
+    if (is_par("ELL")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->ELL
       );
     }
 
-    if (line_str.find("i_wa") != std::string::npos) {
+    if (is_par("i_wa")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->i_wa
       );
     }
-    if (line_str.find("j_wa") != std::string::npos) {
+    if (is_par("j_wa")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->j_wa
       );
     }
 
-    if (line_str.find("bin_min") != std::string::npos) {
+    if (is_par("bin_min")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_min
       );
     }
-    if (line_str.find("bin_max") != std::string::npos) {
+    if (is_par("bin_max")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->bin_max
       );
     }
 
-    if (line_str.find("num_bins") != std::string::npos) {
+    if (is_par("num_bins")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->num_bins
       );
     }
-    if (line_str.find("idx_bin") != std::string::npos) {
+    if (is_par("idx_bin")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->idx_bin
       );
     }
 
-    if (line_str.find("cutoff_nyq") != std::string::npos) {
+    if (is_par("cutoff_nyq")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %lg",
         dummy_str, dummy_equal, &this->cutoff_nyq
@@ -317,7 +325,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     );
     scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
 
-    if (line_str.find("verbose") != std::string::npos) {
+    if (is_par("verbose")) {
       std::sscanf(
         line_str.data(), "%1023s %1023s %d",
         dummy_str, dummy_equal, &this->verbose
-- 
2.43.0


From 2780bb35bdb4d81d5ff153e959de975becde5f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 035/108] fix: unset box size and grid numbers in parameter
 files left uninitialised

---
 src/triumvirate/include/parameters.hpp | 2 +-
 src/triumvirate/src/parameters.cpp     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/include/parameters.hpp b/src/triumvirate/include/parameters.hpp
index 4c90db7..e1c1842 100644
--- a/src/triumvirate/include/parameters.hpp
+++ b/src/triumvirate/include/parameters.hpp
@@ -107,7 +107,7 @@ class ParameterSet {
 
   // Derived mesh quantities.
   double volume = 0.;  ///< box volume (in Mpc^3/h^3)
-  long long nmesh;     ///< number of mesh grid cells
+  long long nmesh = 0;  ///< number of mesh grid cells
 
   int assignment_order = 0;  ///< order of the assignment scheme
 
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 21e9404..7e63919 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -113,8 +113,8 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   char catalogue_dataset_[1024] = "";
   char output_tag_[1024] = "";
 
-  double boxsize_x, boxsize_y, boxsize_z;
-  int ngrid_x, ngrid_y, ngrid_z;
+  double boxsize_x = 0., boxsize_y = 0., boxsize_z = 0.;
+  int ngrid_x = 0, ngrid_y = 0, ngrid_z = 0;
 
   char alignment_[1024] = "";
   char padscale_[1024] = "";
@@ -396,7 +396,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   this->ngrid[2] = ngrid_z;
 
   this->volume = boxsize_x * boxsize_y * boxsize_z;
-  this->nmesh = ngrid_x * ngrid_y * ngrid_z;
+  this->nmesh = static_cast<long long>(ngrid_x) * ngrid_y * ngrid_z;
 
   // ---------------------------------------------------------------------
   // Debugging mode
-- 
2.43.0


From 167a8f4fdc9cd1194fe9b373cd3f757d3797f78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 036/108] fix: parameters saved to files with insufficient
 precision or omitted

---
 src/triumvirate/src/parameters.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 7e63919..e55d63e 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1319,9 +1319,18 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   auto print_par_int = [ofileptr](const char* fmt, int par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
-  auto print_par_double = [ofileptr](const char* fmt, double par_val) {
+  auto print_par_longlong = [ofileptr](const char* fmt, long long par_val) {
     std::fprintf(ofileptr, fmt, par_val);
   };
+  auto print_par_double = [ofileptr](const char* par_name, double par_val) {
+    // Use the precision needed to recover the same value.
+    char par_val_str[32];
+    std::snprintf(par_val_str, sizeof(par_val_str), "%.15g", par_val);
+    if (std::strtod(par_val_str, nullptr) != par_val) {
+      std::snprintf(par_val_str, sizeof(par_val_str), "%.17g", par_val);
+    }
+    std::fprintf(ofileptr, "%s = %s\n", par_name, par_val_str);
+  };
 
   // Print parameters to file.
   print_par_str("catalogue_dir = %s\n", this->catalogue_dir);
@@ -1332,20 +1341,21 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("catalogue_dataset = %s\n", this->catalogue_dataset);
   print_par_str("output_tag = %s\n", this->output_tag);
 
-  print_par_double("boxsize_x = %.3f\n", this->boxsize[0]);
-  print_par_double("boxsize_y = %.3f\n", this->boxsize[1]);
-  print_par_double("boxsize_z = %.3f\n", this->boxsize[2]);
+  print_par_double("boxsize_x", this->boxsize[0]);
+  print_par_double("boxsize_y", this->boxsize[1]);
+  print_par_double("boxsize_z", this->boxsize[2]);
   print_par_int("ngrid_x = %d\n", this->ngrid[0]);
   print_par_int("ngrid_y = %d\n", this->ngrid[1]);
   print_par_int("ngrid_z = %d\n", this->ngrid[2]);
 
-  print_par_double("volume = %.6e\n", this->volume);
-  print_par_int("nmesh = %lld\n", this->nmesh);
+  print_par_double("volume", this->volume);
+  print_par_longlong("nmesh = %lld\n", this->nmesh);
 
-  print_par_double("expand = %.4f\n", this->expand);
+  print_par_double("expand", this->expand);
+  print_par_double("cutoff_nyq", this->cutoff_nyq);
   print_par_str("alignment = %s\n", this->alignment);
   print_par_str("padscale = %s\n", this->padscale);
-  print_par_double("padfactor = %.4f\n", this->padfactor);
+  print_par_double("padfactor", this->padfactor);
 
   print_par_str("assignment = %s\n", this->assignment);
   print_par_str("interlace = %s\n", this->interlace);
@@ -1368,8 +1378,8 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("binning = %s\n", this->binning);
   print_par_str("shape = %s\n", this->shape);
 
-  print_par_double("bin_min = %.4f\n", this->bin_min);
-  print_par_double("bin_max = %.4f\n", this->bin_max);
+  print_par_double("bin_min", this->bin_min);
+  print_par_double("bin_max", this->bin_max);
   print_par_int("num_bins = %d\n", this->num_bins);
   print_par_int("idx_bin = %d\n", this->idx_bin);
 
-- 
2.43.0


From 86f723c5383084b1d340b63f8f22bf2a73c50c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 037/108] fix: directory paths changed by each validation and
 empty FFTW wisdom path taken as root

---
 src/triumvirate/src/parameters.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index e55d63e..954d525 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -475,12 +475,16 @@ int ParameterSet::validate(bool init) {
   trvs::logger.reset_level(this->verbose);
 
   // Validate and derive string parameters.
-  // Any duplicate '/' has no effect.
+  auto end_with_slash = [](std::string& dirpath) {
+    if (dirpath.empty() || dirpath.back() != '/') {
+      dirpath += "/";
+    }
+  };
   if (
     this->catalogue_dir.find_first_not_of(" \t\n\r\v\f") != std::string::npos
     && init
   ) {
-    this->catalogue_dir += "/";  // transmutation
+    end_with_slash(this->catalogue_dir);  // transmutation
   }
   if (
     this->measurement_dir.find_first_not_of(" \t\n\r\v\f") == std::string::npos
@@ -488,7 +492,7 @@ int ParameterSet::validate(bool init) {
     this->measurement_dir = "./";  // transmutation
   } else
   if (init) {
-    this->measurement_dir += "/";  // transmutation
+    end_with_slash(this->measurement_dir);  // transmutation
   }
   trvs::expand_envar_in_path(this->catalogue_dir);
   trvs::expand_envar_in_path(this->measurement_dir);
@@ -969,8 +973,8 @@ int ParameterSet::validate(bool init) {
     if (this->use_fftw_wisdom == "false") {
       this->use_fftw_wisdom = "";  // transmutation
     } else
-    if (init) {
-      this->use_fftw_wisdom += "/";  // transmutation
+    if (this->use_fftw_wisdom != "") {
+      end_with_slash(this->use_fftw_wisdom);  // transmutation
     }
   }
   trvs::expand_envar_in_path(this->use_fftw_wisdom);
-- 
2.43.0


From 95f3447d404ded4208c612f29f8c6da681806265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 038/108] fix: directories prepended again to file paths in
 saved parameter files

---
 src/triumvirate/src/parameters.cpp | 34 +++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 954d525..310d025 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1336,11 +1336,36 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
     std::fprintf(ofileptr, "%s = %s\n", par_name, par_val_str);
   };
 
+  // Define convenience function for restoring paths relative to a directory,
+  // to which the directory is prepended when the file is read.
+  auto relative_to_dir = [](
+    const std::string& filepath, const std::string& dirpath
+  ) {
+    if (!dirpath.empty() && filepath.rfind(dirpath, 0) == 0) {
+      return filepath.substr(dirpath.length());
+    }
+    return filepath;
+  };
+  auto relative_catalogue_files = [&relative_to_dir](
+    std::vector<std::string> filepaths, const std::string& dirpath
+  ) {
+    for (std::string& filepath : filepaths) {
+      filepath = relative_to_dir(filepath, dirpath);
+    }
+    return trvs::join_strings(filepaths, trvs::fn_delimiter);
+  };
+
   // Print parameters to file.
   print_par_str("catalogue_dir = %s\n", this->catalogue_dir);
   print_par_str("measurement_dir = %s\n", this->measurement_dir);
-  print_par_str("data_catalogue_file = %s\n", this->data_catalogue_file);
-  print_par_str("rand_catalogue_file = %s\n", this->rand_catalogue_file);
+  print_par_str(
+    "data_catalogue_file = %s\n",
+    relative_catalogue_files(this->data_catalogue_files, this->catalogue_dir)
+  );
+  print_par_str(
+    "rand_catalogue_file = %s\n",
+    relative_catalogue_files(this->rand_catalogue_files, this->catalogue_dir)
+  );
   print_par_str("catalogue_columns = %s\n", this->catalogue_columns);
   print_par_str("catalogue_dataset = %s\n", this->catalogue_dataset);
   print_par_str("output_tag = %s\n", this->output_tag);
@@ -1391,7 +1416,10 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_str("use_fftw_wisdom = %s\n", this->use_fftw_wisdom.c_str());
   print_par_str("fftw_wisdom_file_f = %s\n", this->fftw_wisdom_file_f.c_str());
   print_par_str("fftw_wisdom_file_b = %s\n", this->fftw_wisdom_file_b.c_str());
-  print_par_str("save_binned_vectors = %s\n", this->save_binned_vectors);
+  print_par_str(
+    "save_binned_vectors = %s\n",
+    relative_to_dir(this->save_binned_vectors, this->measurement_dir)
+  );
   print_par_str("progbar = %s\n", this->progbar);
   print_par_int("verbose = %d\n", this->verbose);
   print_par_int("fftw_planner_flag = %d\n", this->fftw_planner_flag);
-- 
2.43.0


From c840e064c125d087c3705fcf395a07366d8b943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 039/108] fix: negative or non-finite box sizes and grid
 numbers accepted

---
 src/triumvirate/src/parameters.cpp | 33 ++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 310d025..5308093 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1054,6 +1054,39 @@ int ParameterSet::validate(bool init) {
   trvs::expand_envar_in_path(this->save_binned_vectors);
 
   // Validate and derive numerical parameters.
+  for (int iaxis = 0; iaxis < 3; iaxis++) {
+    if (
+      !(this->boxsize[iaxis] >= 0. && std::isfinite(this->boxsize[iaxis]))
+    ) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Box size must be finite and non-negative in each dimension: "
+          "`boxsize[%d]` = %lg.",
+          iaxis, this->boxsize[iaxis]
+        );
+      }
+      throw trvs::InvalidParameterError(
+        "Box size must be finite and non-negative in each dimension: "
+        "`boxsize[%d]` = %lg.",
+        iaxis, this->boxsize[iaxis]
+      );
+    }
+    if (this->ngrid[iaxis] < 0) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Grid cell number must be non-negative in each dimension: "
+          "`ngrid[%d]` = %d.",
+          iaxis, this->ngrid[iaxis]
+        );
+      }
+      throw trvs::InvalidParameterError(
+        "Grid cell number must be non-negative in each dimension: "
+        "`ngrid[%d]` = %d.",
+        iaxis, this->ngrid[iaxis]
+      );
+    }
+  }
+
   this->volume =
     this->boxsize[0] * this->boxsize[1] * this->boxsize[2];  // derivation
   this->nmesh = static_cast<long long>(this->ngrid[0])
-- 
2.43.0


From a7cf1e32b15c602d472c8d27e5e86b6d291d01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 040/108] fix: non-finite bin edges and box factors accepted

---
 src/triumvirate/src/parameters.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 5308093..33f3f0c 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1103,7 +1103,7 @@ int ParameterSet::validate(bool init) {
         this->volume
       );
     }
-    if (this->expand < 1.) {
+    if (!(this->expand >= 1. && std::isfinite(this->expand))) {
       if (trvs::currTask == 0) {
         trvs::logger.error(
           "The box expansion factor must be >= 1: `expand` = %lg",
@@ -1154,7 +1154,7 @@ int ParameterSet::validate(bool init) {
   }
 
   if (this->alignment == "pad") {
-    if (this->padfactor < 0.) {
+    if (!(this->padfactor >= 0.)) {
       if (trvs::currTask == 0) {
         trvs::logger.error(
           "Padding is enabled but the padding factor is negative: "
@@ -1202,7 +1202,7 @@ int ParameterSet::validate(bool init) {
     }
   }
 
-  if (this->bin_min < 0.) {
+  if (!(this->bin_min >= 0.)) {
     if (trvs::currTask == 0) {
       trvs::logger.error("Lower bin edge must be non-negative.");
     }
@@ -1210,14 +1210,16 @@ int ParameterSet::validate(bool init) {
       "Lower bin edge must be non-negative.\n"
     );
   }
-  if (this->bin_min >= this->bin_max) {
+  if (!(this->bin_min < this->bin_max && std::isfinite(this->bin_max))) {
     if (trvs::currTask == 0) {
       trvs::logger.error(
-        "Lower bin edge must be less than the upper bin edge."
+        "Lower bin edge must be less than the upper bin edge, "
+        "which must be finite."
       );
     }
     throw trvs::InvalidParameterError(
-      "Lower bin edge must be less than the upper bin edge.\n"
+      "Lower bin edge must be less than the upper bin edge, "
+      "which must be finite.\n"
     );
   }
   if (this->space == "fourier") {
-- 
2.43.0


From 8077409ad16d995d1dbbbf47ac3b508b14fb3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 041/108] fix: zero Nyquist cutoff accepted when it sets the
 mesh

---
 src/triumvirate/src/parameters.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 33f3f0c..0b41e16 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1136,15 +1136,17 @@ int ParameterSet::validate(bool init) {
         this->nmesh
       );
     }
-    if (this->cutoff_nyq < 0.) {
+    if (!(this->cutoff_nyq > 0. && std::isfinite(this->cutoff_nyq))) {
       if (trvs::currTask == 0) {
         trvs::logger.error(
-          "The Nyquist cutoff must be non-negative: `cutoff_nyq` = %lg",
+          "The Nyquist cutoff must be finite and positive "
+          "when `ngrid` is unset: `cutoff_nyq` = %lg",
           this->cutoff_nyq
         );
       }
       throw trvs::InvalidParameterError(
-        "The Nyquist cutoff must be non-negative: `cutoff_nyq` = %lg",
+        "The Nyquist cutoff must be finite and positive "
+        "when `ngrid` is unset: `cutoff_nyq` = %lg",
         this->cutoff_nyq
       );
     }
-- 
2.43.0


From c5c1d04293f08d393cac132fa2942b765342247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 042/108] fix: grid padding rejected when the mesh is yet to be
 set from the Nyquist cutoff

---
 src/triumvirate/src/parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 0b41e16..7014d71 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1184,7 +1184,7 @@ int ParameterSet::validate(bool init) {
         this->padscale.c_str(), this->padfactor
       );
     }
-    if (this->padscale == "grid" && (
+    if (this->padscale == "grid" && this->nmesh > 0 && (
         this->padfactor >= this->ngrid[0]
         || this->padfactor >= this->ngrid[1]
         || this->padfactor >= this->ngrid[2]
-- 
2.43.0


From 80391ca390c4a2d3c62328d831a77a1cadd6d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 043/108] fix: negative degrees of multipoles accepted

---
 src/triumvirate/src/parameters.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 7014d71..664f41d 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -837,6 +837,20 @@ int ParameterSet::validate(bool init) {
     );
 #endif  // !TRV_EXTCALL
   }
+  if (this->ell1 < 0 || this->ell2 < 0 || this->ELL < 0) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Degrees of the multipoles must be non-negative: "
+        "`ell1` = %d, `ell2` = %d, `ELL` = %d.",
+        this->ell1, this->ell2, this->ELL
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Degrees of the multipoles must be non-negative: "
+      "`ell1` = %d, `ell2` = %d, `ELL` = %d.",
+      this->ell1, this->ell2, this->ELL
+    );
+  }
   if (!(
     this->form == "full"
     || this->form == "diag"
-- 
2.43.0


From 2220b689c2ddb9796b5ab15c2ab3540d55d207f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 044/108] fix: parameter dictionary given by the caller changed
 by the parameter set

---
 src/triumvirate/parameters.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 4cf4bd2..d80af74 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -12,6 +12,7 @@ Configure program parameter set.
 
 """
 import warnings
+from copy import deepcopy
 from pathlib import Path
 from pprint import pformat, pprint
 
@@ -131,7 +132,7 @@ cdef class ParameterSet:
                 self._params = yaml.load(param_file, Loader=yaml.SafeLoader)
         if param_dict is not None:
             self._source = 'dict'
-            self._params = param_dict
+            self._params = deepcopy(param_dict)
 
         self._original = True
         self._validity = False
-- 
2.43.0


From 8b93b35725e8e3767f1ca6060ebd0718125082ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 045/108] fix: non-integral integer parameters silently
 truncated

---
 src/triumvirate/parameters.pyx | 45 ++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index d80af74..34ac082 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -79,6 +79,39 @@ class InvalidParameterError(ValueError):
     pass
 
 
+def _cast_to_int(name, value):
+    """Cast a parameter value to an integer without changing it.
+
+    Parameters
+    ----------
+    name : str
+        Parameter name.
+    value : int or float
+        Parameter value.
+
+    Returns
+    -------
+    int
+        Integer parameter value.
+
+    Raises
+    ------
+    InvalidParameterError
+        If the parameter value is not integral.
+
+    """
+    try:
+        value_ = int(value)
+    except (OverflowError, TypeError, ValueError):
+        value_ = None
+    if value_ is None or value_ != value:
+        raise InvalidParameterError(
+            f"Parameter '{name}' must be an integer: {value}."
+        )
+
+    return value_
+
+
 cdef class ParameterSet:
     """Parameter set.
 
@@ -393,6 +426,10 @@ cdef class ParameterSet:
                 "and the Nyquist cutoff.",
             )
         else:
+            for ax in ['x', 'y', 'z']:
+                self._params['ngrid'][ax] = _cast_to_int(
+                    'ngrid', self._params['ngrid'][ax]
+                )
             self.thisptr.ngrid = [
                 self._params['ngrid']['x'],
                 self._params['ngrid']['y'],
@@ -439,6 +476,14 @@ cdef class ParameterSet:
         # Attribute numerical parameters.
         # Although these parameters may not have to be set, they must be
         # present in any parameter file or dictionary.
+        for name in ['degrees', 'wa_orders']:
+            for label, val in self._params.get(name, {}).items():
+                if val is not None:
+                    self._params[name][label] = _cast_to_int(name, val)
+        for name in ['num_bins', 'idx_bin']:
+            if self._params.get(name) is not None:
+                self._params[name] = _cast_to_int(name, self._params[name])
+
         try:
             if self._params['degrees']['ell1'] is not None:
                 self.thisptr.ell1 = self._params['degrees']['ell1']
-- 
2.43.0


From ceb66dc64e8abafb193868912bc940a92ff33084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 046/108] fix: zero or stale box size and grid numbers accepted
 as set

---
 src/triumvirate/parameters.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 34ac082..3293767 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -412,7 +412,14 @@ cdef class ParameterSet:
                 "the box size will be computed using the particle "
                 "coordinate spans and the box expansion factor.",
             )
+            self.thisptr.boxsize = [0., 0., 0.]
         else:
+            if not all(
+                boxsize_ > 0. for boxsize_ in self._params['boxsize'].values()
+            ):
+                raise InvalidParameterError(
+                    "`boxsize` parameters must be positive if set."
+                )
             self.thisptr.boxsize = [
                 float(self._params['boxsize']['x']),
                 float(self._params['boxsize']['y']),
@@ -425,7 +432,14 @@ cdef class ParameterSet:
                 "the grid cell number will be computed using the box size "
                 "and the Nyquist cutoff.",
             )
+            self.thisptr.ngrid = [0, 0, 0]
         else:
+            if not all(
+                ngrid_ > 0 for ngrid_ in self._params['ngrid'].values()
+            ):
+                raise InvalidParameterError(
+                    "`ngrid` parameters must be positive if set."
+                )
             for ax in ['x', 'y', 'z']:
                 self._params['ngrid'][ax] = _cast_to_int(
                     'ngrid', self._params['ngrid'][ax]
-- 
2.43.0


From e24e600c73db4f99f075e2d49d583adbad127ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 047/108] fix: parameter sets saved to YAML files unreadable

---
 src/triumvirate/parameters.pyx | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 3293767..85f6f57 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -319,9 +319,19 @@ cdef class ParameterSet:
                 "parameters_used{}.yml".format(self._params['tags']['output'])
             )
 
+        # Convert any NumPy values not representable in YAML.
+        def _convert(value):
+            if isinstance(value, dict):
+                return {_key: _convert(_val) for _key, _val in value.items()}
+            if isinstance(value, (list, tuple, np.ndarray)):
+                return [_convert(_val) for _val in value]
+            if isinstance(value, np.generic):
+                return value.item()
+            return value
+
         with open(filepath, 'w') as printout_file:
-            yaml.dump(
-                self._params, printout_file,
+            yaml.safe_dump(
+                _convert(self._params), printout_file,
                 sort_keys=False,
                 default_flow_style=False  # CAVEAT: discretionary
             )
@@ -470,17 +480,17 @@ cdef class ParameterSet:
 
         # Attribute derived parameters.
         try:
-            self._params['volume'] = np.prod(list(
+            self._params['volume'] = float(np.prod(list(
                 self._params['boxsize'].values()
-            ))
+            )))
         except TypeError:
             self._params['volume'] = 0.
         self.thisptr.volume = self._params['volume']
 
         try:
-            self._params['nmesh'] = np.prod(list(
+            self._params['nmesh'] = int(np.prod(list(
                 self._params['ngrid'].values()
-            ))
+            )))
         except TypeError:
             self._params['nmesh'] = 0
         self.thisptr.nmesh = self._params['nmesh']
-- 
2.43.0


From 6214a22f71ffad0d2031db822dbaaf2fd2616e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 048/108] fix: documented progress bar options rejected

---
 src/triumvirate/parameters.pyx | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 85f6f57..1c2baa2 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -608,7 +608,9 @@ cdef class ParameterSet:
             self.thisptr.verbose = verbose_
 
         if (progbar_ := self._params.get('progbar')) is not None:
-            self.thisptr.progbar = str(progbar_).lower().encode('utf-8')
+            progbar_ = str(progbar_).lower()
+            progbar_ = {'on': 'true', 'off': 'false'}.get(progbar_, progbar_)
+            self.thisptr.progbar = progbar_.encode('utf-8')
 
         # ----------------------------------------------------------------
         # Validation
@@ -657,18 +659,25 @@ cdef class ParameterSet:
             )
 
         _progbar = self.thisptr.progbar.decode('utf-8')
-        try:
-            self._params['progbar'] = int(_progbar)
-        except ValueError:
-            if _progbar == 'true':
-                self._params['progbar'] = True
-            elif _progbar == 'false':
-                self._params['progbar'] = False
-            else:
-                raise RuntimeError(
-                    "C++ instance of trv::ParameterSet did not return "
-                    "a recognised 'verbose' value "
-                    "'true', 'false' or an integer."
+        if _progbar == 'true':
+            self._params['progbar'] = True
+        elif _progbar == 'false':
+            self._params['progbar'] = False
+        else:
+            try:
+                self._params['progbar'] = int(_progbar)
+            except ValueError:
+                try:
+                    self._params['progbar'] = float(_progbar)
+                except ValueError:
+                    raise InvalidParameterError(
+                        "`progbar` parameter must be a boolean or "
+                        "a percentage-point interval."
+                    )
+            if not (0. < self._params['progbar'] < 100.):
+                raise InvalidParameterError(
+                    "`progbar` percentage-point interval must be "
+                    "between 0 and 100."
                 )
 
         self._validity = True
-- 
2.43.0


From a6ca4435c2381b6bf89cd86220b4f0703b8c3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 049/108] fix: mesh numbers not set from the Nyquist cutoff in
 parameter sets

---
 src/triumvirate/parameters.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index 1c2baa2..a9d4e72 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -548,8 +548,6 @@ cdef class ParameterSet:
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
                 self.thisptr.cutoff_nyq = cutoff_nyq_
-                if self._params['volume'] > 0.:
-                    self._params = _set_ngrid_from_cutoff(self._params)
             else:
                 raise InvalidParameterError(
                     "`cutoff_nyq` parameter must be set "
@@ -632,6 +630,10 @@ cdef class ParameterSet:
 
         # Fetch validated parameters that have been derived or transmuted.
         # Transmuted I/O paths are not fetched.
+        if None in self._params['ngrid'].values() and self.thisptr.nmesh > 0:
+            for iax, ax in enumerate(['x', 'y', 'z']):
+                self._params['ngrid'][ax] = self.thisptr.ngrid[iax]
+            self._params['nmesh'] = self.thisptr.nmesh
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
@@ -962,9 +964,9 @@ def _set_ngrid_from_cutoff(paramset):
                 paramset['boxsize'][ax] * paramset['cutoff_nyq'] / np.pi
             ))
         elif paramset['space'] == 'config':
-            ngrid_ = int(
-                2 * np.ceil(paramset['boxsize'][ax] / paramset['cutoff_nyq'])
-            )
+            ngrid_ = int(np.ceil(
+                2 * paramset['boxsize'][ax] / paramset['cutoff_nyq']
+            ))
         else:
             raise ValueError(
                 "Space must be either 'fourier' or 'config': "
-- 
2.43.0


From 2cc6ed34099a78abf58266ee2678143850c19ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 050/108] fix: parameter values accepted case-insensitively but
 not normalised

---
 src/triumvirate/parameters.pyx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index a9d4e72..af2b2b4 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -564,7 +564,7 @@ cdef class ParameterSet:
 
         if (form_ := self._params.get('form')) is not None:
             self.thisptr.form = form_.lower().encode('utf-8')
-            if form_ in {'off-diag', 'row'} \
+            if form_.lower() in {'off-diag', 'row'} \
                     and self._params.get('idx_bin') is None:
                 raise InvalidParameterError(
                     "`idx_bin` parameter must be set "
@@ -637,6 +637,18 @@ cdef class ParameterSet:
         self._params['assignment_order'] = self.thisptr.assignment_order
         self._params['npoint'] = self.thisptr.npoint.decode('utf-8')
         self._params['space'] = self.thisptr.space.decode('utf-8')
+        for name, value in [
+            ('alignment', self.thisptr.alignment),
+            ('padscale', self.thisptr.padscale),
+            ('assignment', self.thisptr.assignment),
+            ('catalogue_type', self.thisptr.catalogue_type),
+            ('statistic_type', self.thisptr.statistic_type),
+            ('form', self.thisptr.form),
+            ('norm_convention', self.thisptr.norm_convention),
+            ('binning', self.thisptr.binning),
+        ]:
+            if self._params.get(name) is not None:
+                self._params[name] = value.decode('utf-8')
         self._params['fftw_planner_flag'] = self.thisptr.fftw_planner_flag
         self._params['fftw_wisdom_file_f'] = \
             self.thisptr.fftw_wisdom_file_f.decode('utf-8')
-- 
2.43.0


From 631cc919628dd2d6a29b5009655cd5644f9474ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:50 +0000
Subject: [PATCH 051/108] fix: FFTW wisdom path converted to lower case

---
 src/triumvirate/parameters.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index af2b2b4..bc7c676 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -599,8 +599,10 @@ cdef class ParameterSet:
         if (
             use_fftw_wisdom_ := self._params.get('use_fftw_wisdom')
         ) is not None:
-            self.thisptr.use_fftw_wisdom = \
-                str(use_fftw_wisdom_).lower().encode('utf-8')
+            use_fftw_wisdom_ = str(use_fftw_wisdom_)
+            if use_fftw_wisdom_.lower() in {'false', 'off'}:
+                use_fftw_wisdom_ = 'false'
+            self.thisptr.use_fftw_wisdom = use_fftw_wisdom_.encode('utf-8')
 
         if (verbose_ := self._params.get('verbose')) is not None:
             self.thisptr.verbose = verbose_
-- 
2.43.0


From 12c4f23e38762c3f375eba108bb489e6acfdcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 052/108] fix: box sizes never set from the catalogue bounds

---
 src/triumvirate/parameters.pyx | 24 ++++++++++++++++++++++++
 src/triumvirate/threept.py     | 17 +++++++----------
 src/triumvirate/twopt.py       | 17 +++++++----------
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index bc7c676..caf3393 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -958,6 +958,30 @@ def _modify_measurement_parameters(paramset, params_measure=None,
     return paramset
 
 
+def _set_boxsize_from_expand(paramset, catalogue):
+    """Set the box size from the expanded catalogue bounds.
+
+    Parameters
+    ----------
+    paramset : dict-like
+        Parameter set to be updated.
+    catalogue : :class:`~triumvirate.catalogue.ParticleCatalogue`
+        Particle catalogue.
+
+    Returns
+    -------
+    paramset : dict-like
+        Modified parameter set.
+
+    """
+    for ax in ['x', 'y', 'z']:
+        coord_min, coord_max = catalogue.bounds[ax]
+        paramset['boxsize'][ax] = \
+            float(coord_max - coord_min) * paramset['expand']
+
+    return paramset
+
+
 def _set_ngrid_from_cutoff(paramset):
     """Set the mesh grid size from the Nyquist cutoff.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 116fdd5..e3b9fcc 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -44,6 +44,7 @@ from .dataobjs import Binning
 from .parameters import (
     _modify_measurement_parameters,
     _modify_sampling_parameters,
+    _set_boxsize_from_expand,
     _set_ngrid_from_cutoff,
     fetch_paramset_template,
     ParameterSet,
@@ -538,10 +539,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+        _set_boxsize_from_expand(paramset, catalogue_rand)
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -553,7 +552,7 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -1435,10 +1434,8 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+        _set_boxsize_from_expand(paramset, catalogue_data)
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1450,7 +1447,7 @@ def _compute_3pt_stats_sim_like(threept_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index ce7954d..e17f918 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -44,6 +44,7 @@ from .dataobjs import Binning
 from .parameters import (
     _modify_measurement_parameters,
     _modify_sampling_parameters,
+    _set_boxsize_from_expand,
     _set_ngrid_from_cutoff,
     fetch_paramset_template,
     ParameterSet,
@@ -461,10 +462,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_rand.bounds[ax] * paramset['expand']
-        paramset._validate()
+        _set_boxsize_from_expand(paramset, catalogue_rand)
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -476,7 +475,7 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
@@ -991,10 +990,8 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     # Set up box alignment.
     if None in paramset['boxsize'].values():
-        for ax in ['x', 'y', 'z']:
-            paramset['boxsize'][ax] = \
-                catalogue_data.bounds[ax] * paramset['expand']
-        paramset._validate()
+        _set_boxsize_from_expand(paramset, catalogue_data)
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Box size determined from the expanded catalogue bounds: "
@@ -1006,7 +1003,7 @@ def _compute_2pt_stats_sim_like(twopt_algofunc, catalogue_data,
 
     if None in paramset['ngrid'].values():
         _set_ngrid_from_cutoff(paramset)
-        paramset._validate()
+        paramset._parse_params()
         if logger:
             logger.info(
                 "Mesh number determined from the Nyquist cutoff: "
-- 
2.43.0


From 9b2335f72a13c6a64066a1ab8c48fdc6c1507014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 053/108] fix: box sizes and mesh numbers left unset for window
 functions

---
 src/triumvirate/threept.py | 24 ++++++++++++++++++++++++
 src/triumvirate/twopt.py   | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index e3b9fcc..d23f117 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1968,6 +1968,30 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
             logger.info("Lines of sight have been initialised.")
 
     # Set up box alignment.
+    if None in paramset['boxsize'].values():
+        _set_boxsize_from_expand(paramset, catalogue_rand)
+        paramset._parse_params()
+        if logger:
+            logger.info(
+                "Box size determined from the expanded catalogue bounds: "
+                "(%.3e, %.3e, %.3e).",
+                paramset['boxsize']['x'],
+                paramset['boxsize']['y'],
+                paramset['boxsize']['z']
+            )
+
+    if None in paramset['ngrid'].values():
+        _set_ngrid_from_cutoff(paramset)
+        paramset._parse_params()
+        if logger:
+            logger.info(
+                "Mesh number determined from the Nyquist cutoff: "
+                "(%d, %d, %d).",
+                paramset['ngrid']['x'],
+                paramset['ngrid']['y'],
+                paramset['ngrid']['z']
+            )
+
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
     )
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index e17f918..b3c1be6 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -1451,6 +1451,30 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             logger.info("Lines of sight have been initialised.")
 
     # Set up box alignment.
+    if None in paramset['boxsize'].values():
+        _set_boxsize_from_expand(paramset, catalogue_rand)
+        paramset._parse_params()
+        if logger:
+            logger.info(
+                "Box size determined from the expanded catalogue bounds: "
+                "(%.3e, %.3e, %.3e).",
+                paramset['boxsize']['x'],
+                paramset['boxsize']['y'],
+                paramset['boxsize']['z']
+            )
+
+    if None in paramset['ngrid'].values():
+        _set_ngrid_from_cutoff(paramset)
+        paramset._parse_params()
+        if logger:
+            logger.info(
+                "Mesh number determined from the Nyquist cutoff: "
+                "(%d, %d, %d).",
+                paramset['ngrid']['x'],
+                paramset['ngrid']['y'],
+                paramset['ngrid']['z']
+            )
+
     catalogue_rand.centre(
         [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
     )
-- 
2.43.0


From 449235bdacf2695bc0742ef685898f78e4a66782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 054/108] fix: valid parameter overrides rejected or dropped
 depending on their order

---
 src/triumvirate/threept.py | 10 +++++++++-
 src/triumvirate/twopt.py   | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index d23f117..09eac48 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -142,9 +143,13 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         )
 
     if paramset is None:
+        paramset_base = None
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Parameters are only updated and validated once all overrides
+        # are in place.
+        paramset_base = paramset
+        paramset = deepcopy(dict(paramset_base.items()))
         defaults = None
 
     if params_sampling is not None:
@@ -182,6 +187,9 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
 
     # Implicitly validate parameters.
     paramset.update(type_kwargs)
+    if isinstance(paramset_base, ParameterSet):
+        paramset_base.update(paramset)
+        paramset = paramset_base
 
     if defaults:
         warnings.warn(
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index b3c1be6..343a34e 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -26,6 +26,7 @@ Window function estimator
 
 """  # numpydoc ignore=GL07,SS01
 import warnings
+from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
@@ -116,9 +117,13 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         raise ValueError("Either `paramset` or `binning` must be provided.")
 
     if paramset is None:
+        paramset_base = None
         paramset, defaults = fetch_paramset_template('dict', ret_defaults=True)
     else:
-        # paramset = paramset
+        # Parameters are only updated and validated once all overrides
+        # are in place.
+        paramset_base = paramset
+        paramset = deepcopy(dict(paramset_base.items()))
         defaults = None
 
     if params_sampling is not None:
@@ -144,6 +149,9 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
 
     # Implicitly validate parameters.
     paramset.update(type_kwargs)
+    if isinstance(paramset_base, ParameterSet):
+        paramset_base.update(paramset)
+        paramset = paramset_base
 
     if defaults:
         warnings.warn(
-- 
2.43.0


From 8b4bc23cfe7201d3b2754968c712d986a4ab8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 055/108] fix: unset parameters not given their documented
 defaults

---
 src/triumvirate/parameters.pyx | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index caf3393..e15ef4c 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -350,6 +350,13 @@ cdef class ParameterSet:
 
         # -- I/O ---------------------------------------------------------
 
+        # Set unset parameters with non-`None` defaults.
+        for name, default in _TMPL_PARAM_DICT.items():
+            if default is None or isinstance(default, (dict, list)):
+                continue
+            if self._params.get(name) is None:
+                self._params[name] = default
+
         # Directories, files and tags default to empty if unset.
         # Full path concatenation is handled by C++.
 
@@ -465,6 +472,8 @@ cdef class ParameterSet:
 
         if (padfactor_ := self._params.get('padfactor')) is not None:
             self.thisptr.padfactor = padfactor_
+        else:
+            self.thisptr.padfactor = 0.
 
         # Attribute string parameters.
         if (alignment_ := self._params.get('alignment')) is not None:
@@ -509,22 +518,17 @@ cdef class ParameterSet:
                 self._params[name] = _cast_to_int(name, self._params[name])
 
         try:
-            if self._params['degrees']['ell1'] is not None:
-                self.thisptr.ell1 = self._params['degrees']['ell1']
-            if self._params['degrees']['ell2'] is not None:
-                self.thisptr.ell2 = self._params['degrees']['ell2']
-            if self._params['degrees']['ELL'] is not None:
-                self.thisptr.ELL = self._params['degrees']['ELL']
+            self.thisptr.ell1 = self._params['degrees']['ell1'] or 0
+            self.thisptr.ell2 = self._params['degrees']['ell2'] or 0
+            self.thisptr.ELL = self._params['degrees']['ELL'] or 0
         except KeyError:
             raise InvalidParameterError(
                 "`degrees` parameters must be present even if left unset."
             )
 
         try:
-            if self._params['wa_orders']['i'] is not None:
-                self.thisptr.i_wa = self._params['wa_orders']['i']
-            if self._params['wa_orders']['j'] is not None:
-                self.thisptr.j_wa = self._params['wa_orders']['j']
+            self.thisptr.i_wa = self._params['wa_orders']['i'] or 0
+            self.thisptr.j_wa = self._params['wa_orders']['j'] or 0
         except KeyError:
             raise InvalidParameterError(
                 "`wa_orders` parameters must be present even if left unset."
@@ -544,6 +548,8 @@ cdef class ParameterSet:
             raise InvalidParameterError("`num_bins` parameter must be set.")
         if (idx_bin_ := self._params.get('idx_bin')) is not None:
             self.thisptr.idx_bin = idx_bin_
+        else:
+            self.thisptr.idx_bin = 0
 
         if self._params['nmesh'] == 0:
             if (cutoff_nyq_ := self._params.get('cutoff_nyq')) is not None:
-- 
2.43.0


From d183e46716f040febbc944681485d13d005aa850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 056/108] fix: malformed numbers in parameter files silently
 ignored

---
 src/triumvirate/include/parameters.hpp |   1 +
 src/triumvirate/src/parameters.cpp     | 178 +++++++++----------------
 2 files changed, 66 insertions(+), 113 deletions(-)

diff --git a/src/triumvirate/include/parameters.hpp b/src/triumvirate/include/parameters.hpp
index e1c1842..c063106 100644
--- a/src/triumvirate/include/parameters.hpp
+++ b/src/triumvirate/include/parameters.hpp
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <fstream>
+#include <limits>
 #include <string>
 
 #include "monitor.hpp"
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 664f41d..6fe27a2 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -170,6 +170,52 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
       }
     };
 
+    auto scan_par_double = [&dummy_str, &is_par](
+      const char* par_name, double& par_value
+    ) {
+      if (is_par(par_name)) {
+        char* end_ptr = nullptr;
+        double par_value_ = std::strtod(dummy_str, &end_ptr);
+        if (*end_ptr != '\0') {
+          if (trvs::currTask == 0) {
+            trvs::logger.error(
+              "Parameter value is not a number: `%s` = '%s'.",
+              par_name, dummy_str
+            );
+          }
+          throw trvs::InvalidParameterError(
+            "Parameter value is not a number: `%s` = '%s'.",
+            par_name, dummy_str
+          );
+        }
+        par_value = par_value_;
+      }
+    };
+    auto scan_par_int = [&dummy_str, &scan_par_double, &is_par](
+      const char* par_name, int& par_value
+    ) {
+      if (is_par(par_name)) {
+        double par_value_ = 0.;
+        scan_par_double(par_name, par_value_);
+        if (!(
+          par_value_ == std::floor(par_value_)
+          && std::abs(par_value_) <= std::numeric_limits<int>::max()
+        )) {
+          if (trvs::currTask == 0) {
+            trvs::logger.error(
+              "Parameter value is not a valid integer: `%s` = '%s'.",
+              par_name, dummy_str
+            );
+          }
+          throw trvs::InvalidParameterError(
+            "Parameter value is not a valid integer: `%s` = '%s'.",
+            par_name, dummy_str
+          );
+        }
+        par_value = static_cast<int>(par_value_);
+      }
+    };
+
     // -- I/O ------------------------------------------------------------
 
     scan_par_str("catalogue_dir", "%1023s %1023s %1023s", catalogue_dir_);
@@ -186,59 +232,20 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
 
     // -- Mesh sampling --------------------------------------------------
 
-    if (is_par("boxsize_x")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_x
-      );
-    }
-    if (is_par("boxsize_y")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_y
-      );
-    }
-    if (is_par("boxsize_z")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &boxsize_z
-      );
-    }
+    scan_par_double("boxsize_x", boxsize_x);
+    scan_par_double("boxsize_y", boxsize_y);
+    scan_par_double("boxsize_z", boxsize_z);
 
-    if (is_par("ngrid_x")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_x
-      );
-    }
-    if (is_par("ngrid_y")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &ngrid_y
-      );
-    }
-    if (is_par("ngrid_z")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d", dummy_str, dummy_equal, &ngrid_z
-      );
-    }
+    scan_par_int("ngrid_x", ngrid_x);
+    scan_par_int("ngrid_y", ngrid_y);
+    scan_par_int("ngrid_z", ngrid_z);
 
-    if (is_par("expand")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->expand
-      );
-    }
+    scan_par_double("expand", this->expand);
 
     scan_par_str("alignment", "%1023s %1023s %1023s", alignment_);
     scan_par_str("padscale", "%1023s %1023s %1023s", padscale_);
 
-    if (is_par("padfactor")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->padfactor
-      );
-    }
+    scan_par_double("padfactor", this->padfactor);
 
     scan_par_str("assignment", "%1023s %1023s %1023s", assignment_);
     scan_par_str("interlace", "%1023s %1023s %1023s", interlace_);
@@ -251,70 +258,20 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_str("norm_convention", "%1023s %1023s %1023s", norm_convention_);
     scan_par_str("binning", "%1023s %1023s %1023s", binning_);
 
-    if (is_par("ell1")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell1
-      );
-    }
-    if (is_par("ell2")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ell2
-      );
-    }
-    if (is_par("ELL")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->ELL
-      );
-    }
+    scan_par_int("ell1", this->ell1);
+    scan_par_int("ell2", this->ell2);
+    scan_par_int("ELL", this->ELL);
 
-    if (is_par("i_wa")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->i_wa
-      );
-    }
-    if (is_par("j_wa")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->j_wa
-      );
-    }
+    scan_par_int("i_wa", this->i_wa);
+    scan_par_int("j_wa", this->j_wa);
 
-    if (is_par("bin_min")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_min
-      );
-    }
-    if (is_par("bin_max")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->bin_max
-      );
-    }
+    scan_par_double("bin_min", this->bin_min);
+    scan_par_double("bin_max", this->bin_max);
 
-    if (is_par("num_bins")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->num_bins
-      );
-    }
-    if (is_par("idx_bin")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->idx_bin
-      );
-    }
+    scan_par_int("num_bins", this->num_bins);
+    scan_par_int("idx_bin", this->idx_bin);
 
-    if (is_par("cutoff_nyq")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %lg",
-        dummy_str, dummy_equal, &this->cutoff_nyq
-      );
-    }
+    scan_par_double("cutoff_nyq", this->cutoff_nyq);
 
     // -- Misc -------------------------------------------------------------
 
@@ -325,12 +282,7 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     );
     scan_par_str("progbar", "%1023s %1023s %1023s", progbar_);
 
-    if (is_par("verbose")) {
-      std::sscanf(
-        line_str.data(), "%1023s %1023s %d",
-        dummy_str, dummy_equal, &this->verbose
-      );
-    }
+    scan_par_int("verbose", this->verbose);
   }
 
   // ---------------------------------------------------------------------
-- 
2.43.0


From 25a9958a37224a9d2ff9cfca8941259a9e5682b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 057/108] fix: level-specified log messages rejected and
 stripped of their arguments

---
 src/triumvirate/include/monitor.hpp |  2 ++
 src/triumvirate/src/monitor.cpp     | 19 ++++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/include/monitor.hpp b/src/triumvirate/include/monitor.hpp
index e97fc52..768a284 100644
--- a/src/triumvirate/include/monitor.hpp
+++ b/src/triumvirate/include/monitor.hpp
@@ -561,6 +561,8 @@ class Logger {
   void error(const char* fmt_string, ...);
 
  private:
+  void log_va(int level_entry, const char* fmt_string, std::va_list args);
+
   void emit(std::string log_type, const char* fmt_string, std::va_list args);
 };
 
diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 4bc37a4..5dcdce9 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -371,13 +371,25 @@ void Logger::emit(
 }
 
 void Logger::log(LogLevel entry_level, const char* fmt_string, ...) {
-  Logger::log(static_cast<int>(entry_level), fmt_string);
+  std::va_list args;
+  va_start(args, fmt_string);
+  Logger::log_va(static_cast<int>(entry_level), fmt_string, args);
+  va_end(args);
 }
 
 void Logger::log(int level_entry, const char* fmt_string, ...) {
+  std::va_list args;
+  va_start(args, fmt_string);
+  Logger::log_va(level_entry, fmt_string, args);
+  va_end(args);
+}
+
+void Logger::log_va(
+  int level_entry, const char* fmt_string, std::va_list args
+) {
   if (level_entry >= this->level_limit) {
     // CAVEAT: See @ref trv::sys::LogLevel.
-    level_entry /= 10;
+    level_entry = level_entry / 10 * 10;
 
     std::string log_type;
 
@@ -431,10 +443,7 @@ void Logger::log(int level_entry, const char* fmt_string, ...) {
       }
     }
 
-    std::va_list args;
-    va_start(args, fmt_string);
     Logger::emit(log_type, fmt_string, args);
-    va_end(args);
   }
 }
 
-- 
2.43.0


From ae8c3d051af3dc56a863ebbb136eeaffebb3a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 058/108] fix: progress bar running past its nodes and updating
 between them

---
 src/triumvirate/src/monitor.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 5dcdce9..79c8ece 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -581,7 +581,10 @@ void ProgressBar::set_progress(float progress) {
   this->progress = progress;
 
   this->next_node_idx = 0;
-  while (this->progress > this->nodes[this->next_node_idx]) {
+  while (
+    this->next_node_idx < int(this->nodes.size())
+    && this->progress > this->nodes[this->next_node_idx]
+  ) {
     this->next_node_idx += 1;
   }
 }
@@ -596,7 +599,10 @@ void ProgressBar::update(float progress_now) {
   this->progress = progress_now;
 
   if (this->progress <= 1.) {
-    if (this->progress >= this->nodes[this->next_node_idx]) {
+    if (
+      this->next_node_idx < int(this->nodes.size())
+      && this->progress >= this->nodes[this->next_node_idx]
+    ) {
       int pos = this->bar_width * this->progress;
 
       // Print the timestamped status.
@@ -638,7 +644,12 @@ void ProgressBar::update(float progress_now) {
       std::cout << "\r";
       std::cout.flush();
 
-      this->next_node_idx += 1;
+      while (
+        this->next_node_idx < int(this->nodes.size())
+        && this->progress >= this->nodes[this->next_node_idx]
+      ) {
+        this->next_node_idx += 1;
+      }
     }
   } else {
     throw InvalidDataError(
@@ -649,7 +660,7 @@ void ProgressBar::update(float progress_now) {
 }
 
 void ProgressBar::set_default_pcpt_nodes() {
-  this->nodes.resize(101, 0.);
+  this->nodes.clear();
   for (int pcpt = 0; pcpt <= 100; ++pcpt) {
     this->nodes.push_back(float(pcpt) / 100.);
   }
-- 
2.43.0


From 4065f1c61707b81ab39c68dfe252c99a93bc1df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 059/108] fix: invalid progress bar intervals accepted until a
 measurement fails

---
 src/triumvirate/include/monitor.hpp |  1 +
 src/triumvirate/src/monitor.cpp     | 21 +++++++++------------
 src/triumvirate/src/parameters.cpp  | 20 ++++++++++++++++++++
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/triumvirate/include/monitor.hpp b/src/triumvirate/include/monitor.hpp
index 768a284..6c7bb8e 100644
--- a/src/triumvirate/include/monitor.hpp
+++ b/src/triumvirate/include/monitor.hpp
@@ -47,6 +47,7 @@
 #include <omp.h>
 #endif  // TRV_USE_OMP
 
+#include <algorithm>
 #include <chrono>
 #include <cstdarg>
 #include <cstdio>
diff --git a/src/triumvirate/src/monitor.cpp b/src/triumvirate/src/monitor.cpp
index 79c8ece..3926d38 100644
--- a/src/triumvirate/src/monitor.cpp
+++ b/src/triumvirate/src/monitor.cpp
@@ -667,15 +667,13 @@ void ProgressBar::set_default_pcpt_nodes() {
 }
 
 std::vector<float> set_nodes_by_str(std::string interval_str) {
-  try {
-    std::stof(interval_str);
-  } catch (const std::invalid_argument& e) {
+  char* end_ptr = nullptr;
+  double interval = std::strtod(interval_str.c_str(), &end_ptr);
+  if (end_ptr == interval_str.c_str() || *end_ptr != '\0') {
     throw InvalidParameterError(
       "Progress bar interval must be a float number."
     );
   }
-
-  float interval = std::stof(interval_str);
   if (!(0. < interval && interval < 100.)) {
     throw InvalidParameterError(
       "Progress bar interval must be in (0, 100) interval."
@@ -683,14 +681,13 @@ std::vector<float> set_nodes_by_str(std::string interval_str) {
   }
   interval /= 100.;
 
-  std::vector<float> nodes = {interval};
-  while (nodes.back() < 1.) {
-    if (nodes.back() + interval < 1.) {
-      nodes.push_back(nodes.back() + interval);
-    } else {
-      nodes.push_back(1.);
-    }
+  // Nodes closer than the resolution of the progress values are skipped.
+  std::vector<float> nodes;
+  double step = std::max(interval, 1.e-6);
+  for (int inode = 1; inode * step < 1. - 1.e-6; ++inode) {
+    nodes.push_back(float(inode * step));
   }
+  nodes.push_back(1.);
 
   return nodes;
 }
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 6fe27a2..648b945 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1294,6 +1294,26 @@ int ParameterSet::validate(bool init) {
     }
   }
 
+  if (this->progbar == "true" || this->progbar == "on") {
+    this->progbar = "true";  // transmutation
+  } else
+  if (this->progbar == "false" || this->progbar == "off") {
+    this->progbar = "false";  // transmutation
+  } else {
+    try {
+      trvs::set_nodes_by_str(this->progbar);
+    } catch (const trvs::InvalidParameterError& e) {
+      if (trvs::currTask == 0) {
+        trvs::logger.error(
+          "Progress bar must be 'true'/'on', 'false'/'off' or "
+          "a percentage-point interval between 0 and 100: `progbar` = '%s'.",
+          this->progbar.c_str()
+        );
+      }
+      throw;
+    }
+  }
+
   if (trvs::currTask == 0) {
     trvs::logger.stat("Parameters validated.");
   }
-- 
2.43.0


From f3b71e39ecc177830b7fe636abcef3a1a448314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 060/108] fix: output shape lost when copying a parameter set

---
 src/triumvirate/src/parameters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 648b945..823af8f 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -68,6 +68,7 @@ ParameterSet::ParameterSet(const ParameterSet& other) {
   this->i_wa = other.i_wa;
   this->j_wa = other.j_wa;
   this->form = other.form;
+  this->shape = other.shape;
   this->norm_convention = other.norm_convention;
   this->binning = other.binning;
   this->bin_min = other.bin_min;
-- 
2.43.0


From ebaadb1b56e366d9e1cfa6a8676d4b07ef80cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 061/108] fix: automatic box of the program too small for the
 random catalogue

---
 src/triumvirate/main/triumvirate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index c0de1e6..98fc1ef 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -410,7 +410,7 @@ int main(int argc, char* argv[]) {
 
   if (params.catalogue_type == "survey") {
     if (params.volume == 0.) {
-      trv::set_boxsize_from_expand(catalogue_data.pos_span, params);
+      trv::set_boxsize_from_expand(catalogue_rand.pos_span, params);
       if (params.nmesh == 0) {
         trv::set_ngrid_from_cutoff(params);
       }
-- 
2.43.0


From 00c82796f495936791e117378d49564ee05191d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:30 +0000
Subject: [PATCH 062/108] fix: C++ exceptions in measurements terminating the
 Python process

---
 src/triumvirate/_threept.pyx | 63 +++++++++++++++++-----------------
 src/triumvirate/_twopt.pyx   | 65 +++++++++++++++++++-----------------
 2 files changed, 67 insertions(+), 61 deletions(-)

diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0e8c39f..0cd675c 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/threept.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -55,7 +55,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     ThreePCFMeasurements compute_3pcf_cpp "trv::compute_3pcf" (
         CppParticleCatalogue& catalogue_data,
@@ -65,7 +65,7 @@ cdef extern from "include/threept.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     BispecMeasurements compute_bispec_in_gpp_box_cpp \
         "trv::compute_bispec_in_gpp_box" (
@@ -73,7 +73,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFMeasurements compute_3pcf_in_gpp_box_cpp \
         "trv::compute_3pcf_in_gpp_box" (
@@ -81,7 +81,7 @@ cdef extern from "include/threept.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     ThreePCFWindowMeasurements compute_3pcf_window_cpp \
         "trv::compute_3pcf_window" (
@@ -92,7 +92,7 @@ cdef extern from "include/threept.hpp":
             double alpha,
             double norm_factor,
             bool_t wide_angle
-        )
+        ) except +
 
     # BispecMeasurements compute_bispec_for_los_choice_cpp \
     #     "trv::compute_bispec_for_los_choice" (
@@ -153,14 +153,15 @@ def _compute_bispec(
 
     # Run algorithm.
     cdef BispecMeasurements results
-    results = compute_bispec_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(kbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_bispec_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(kbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'k1_bin': np.asarray(results.k1_bin),
@@ -202,14 +203,15 @@ def _compute_3pcf(
 
     # Run algorithm.
     cdef ThreePCFMeasurements results
-    results = compute_3pcf_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_3pcf_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'r1_bin': np.asarray(results.r1_bin),
@@ -293,14 +295,15 @@ def _compute_3pcf_window(
 
     # Run algorithm.
     cdef ThreePCFWindowMeasurements results
-    results = compute_3pcf_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        alpha, norm_factor,
-        wide_angle
-    )
-
-    free(los_rand_cpp)
+    try:
+        results = compute_3pcf_window_cpp(
+            deref(catalogue_rand.thisptr), los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            alpha, norm_factor,
+            wide_angle
+        )
+    finally:
+        free(los_rand_cpp)
 
     return {
         'r1_bin': np.asarray(results.r1_bin),
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index b258a22..9f3a776 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -40,7 +40,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -48,7 +48,7 @@ cdef extern from "include/twopt.hpp":
             CppParticleCatalogue& particles_rand,
             CppParameterSet& params,
             double alpha
-        )
+        ) except +
 
     double calc_powspec_normalisation_from_meshes_cpp \
         "trv::calc_powspec_normalisation_from_meshes" (
@@ -59,7 +59,7 @@ cdef extern from "include/twopt.hpp":
             double padding,
             double cellsize,
             string assignment
-        )
+        ) except +
 
 
     # --------------------------------------------------------------------
@@ -74,7 +74,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& kbinning,
         double norm_factor
-    )
+    ) except +
 
     TwoPCFMeasurements compute_corrfunc_cpp "trv::compute_corrfunc" (
         CppParticleCatalogue& catalogue_data,
@@ -84,7 +84,7 @@ cdef extern from "include/twopt.hpp":
         CppParameterSet& params,
         CppBinning& rbinning,
         double norm_factor
-    )
+    ) except +
 
     PowspecMeasurements compute_powspec_in_gpp_box_cpp \
         "trv::compute_powspec_in_gpp_box" (
@@ -92,7 +92,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& kbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFMeasurements compute_corrfunc_in_gpp_box_cpp \
         "trv::compute_corrfunc_in_gpp_box" (
@@ -100,7 +100,7 @@ cdef extern from "include/twopt.hpp":
             CppParameterSet& params,
             CppBinning& rbinning,
             double norm_factor
-        )
+        ) except +
 
     TwoPCFWindowMeasurements compute_corrfunc_window_cpp \
         "trv::compute_corrfunc_window" (
@@ -110,7 +110,7 @@ cdef extern from "include/twopt.hpp":
             CppBinning& rbinning,
             double alpha,
             double norm_factor
-        )
+        ) except +
 
 
 def _calc_powspec_normalisation_from_particles(
@@ -189,14 +189,15 @@ def _compute_powspec(
 
     # Run algorithm.
     cdef PowspecMeasurements results
-    results = compute_powspec_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(kbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_powspec_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(kbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'kbin': np.asarray(results.kbin),
@@ -235,14 +236,15 @@ def _compute_corrfunc(
 
     # Run algorithm.
     cdef TwoPCFMeasurements results
-    results = compute_corrfunc_cpp(
-        deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
-        los_data_cpp, los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        norm_factor
-    )
-
-    free(los_data_cpp); free(los_rand_cpp)
+    try:
+        results = compute_corrfunc_cpp(
+            deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
+            los_data_cpp, los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            norm_factor
+        )
+    finally:
+        free(los_data_cpp); free(los_rand_cpp)
 
     return {
         'rbin': np.asarray(results.rbin),
@@ -314,13 +316,14 @@ def _compute_corrfunc_window(
 
     # Run algorithm.
     cdef TwoPCFWindowMeasurements results
-    results = compute_corrfunc_window_cpp(
-        deref(catalogue_rand.thisptr), los_rand_cpp,
-        deref(params.thisptr), deref(rbinning.thisptr),
-        alpha, norm_factor
-    )
-
-    free(los_rand_cpp)
+    try:
+        results = compute_corrfunc_window_cpp(
+            deref(catalogue_rand.thisptr), los_rand_cpp,
+            deref(params.thisptr), deref(rbinning.thisptr),
+            alpha, norm_factor
+        )
+    finally:
+        free(los_rand_cpp)
 
     return {
         'rbin': np.asarray(results.rbin),
-- 
2.43.0


From 4fe60f750f04e25beb4a50830079dab14a60b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 063/108] fix: mesh statistics leaked when recording binned
 vectors

---
 src/triumvirate/_field.pxd | 2 +-
 src/triumvirate/_field.pyx | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/_field.pxd b/src/triumvirate/_field.pxd
index e25f7b9..ccc7311 100644
--- a/src/triumvirate/_field.pxd
+++ b/src/triumvirate/_field.pxd
@@ -10,7 +10,7 @@ from .parameters cimport CppParameterSet
 
 cdef extern from "include/field.hpp":
     cdef cppclass CppFieldStats "trv::FieldStats":
-        CppFieldStats(CppParameterSet& params, bool_t plan_ini)
+        CppFieldStats(CppParameterSet& params, bool_t plan_ini) except +
 
         BinnedVectors record_binned_vectors(
             CppBinning& binning,
diff --git a/src/triumvirate/_field.pyx b/src/triumvirate/_field.pyx
index 8b070ce..cf030f4 100644
--- a/src/triumvirate/_field.pyx
+++ b/src/triumvirate/_field.pyx
@@ -44,9 +44,12 @@ def _record_binned_vectors(Binning binning not None,
     """
     fieldstats_ptr = new CppFieldStats(deref(paramset.thisptr), False)
 
-    binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
-        deref(binning.thisptr), ''.encode('utf-8')
-    )
+    try:
+        binned_vectors_struct = fieldstats_ptr.record_binned_vectors(
+            deref(binning.thisptr), ''.encode('utf-8')
+        )
+    finally:
+        del fieldstats_ptr
 
     binned_vectors = np.empty(
         binned_vectors_struct.count,
-- 
2.43.0


From 36b38893fab7b39ce03aa47b4403788a7b3c6957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 064/108] fix: lines of sight read out of bounds when not
 matching the catalogue

---
 src/triumvirate/catalogue.py | 33 +++++++++++++++++++++++++++++++++
 src/triumvirate/threept.py   | 13 +++----------
 src/triumvirate/twopt.py     | 13 +++----------
 3 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index bcddf2c..e3dacc3 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -457,6 +457,39 @@ class ParticleCatalogue:
 
         return self._compute(los)
 
+    def _parse_los(self, los=None):
+        """Parse lines of sight supplied for each particle.
+
+        Parameters
+        ----------
+        los : (N, 3) array of float, optional
+            Line-of-sight vectors.  If `None` (default), these are computed
+            with :meth:`compute_los`.
+
+        Returns
+        -------
+        los : (N, 3) :class:`numpy.ndarray`
+            Line-of-sight vectors (as a C-contiguous array of float).
+
+        Raises
+        ------
+        ValueError
+            When the shape of `los` does not match the number of particles.
+
+        """
+        if los is None:
+            los = self.compute_los()
+
+        los = np.ascontiguousarray(los, dtype=np.float64)
+        if los.shape != (len(self), 3):
+            raise ValueError(
+                "Lines of sight must have shape {} to match "
+                "the particles in the catalogue: {}."
+                .format((len(self), 3), los.shape)
+            )
+
+        return los
+
     def compute_mean_density(self, volume=None, boxsize=None):
         """Compute the mean density over a volume.
 
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 09eac48..1f905bf 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -531,13 +531,8 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_data is None:
-        los_data = catalogue_data.compute_los()
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = catalogue_data._parse_los(los_data)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
@@ -1965,9 +1960,7 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 343a34e..41c7974 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -454,13 +454,8 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_data is None:
-        los_data = catalogue_data.compute_los()
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-
-    los_data = np.ascontiguousarray(los_data)
-    los_rand = np.ascontiguousarray(los_rand)
+    los_data = catalogue_data._parse_los(los_data)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
@@ -1448,9 +1443,7 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
             logger.info("Binning has been initialised.")
 
     # Set up lines of sight.
-    if los_rand is None:
-        los_rand = catalogue_rand.compute_los()
-    los_rand = np.ascontiguousarray(los_rand)
+    los_rand = catalogue_rand._parse_los(los_rand)
 
     if logger:
         try:
-- 
2.43.0


From 29ac905be6321a9a756ecc5bbc43787bb0625fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 065/108] fix: window functions ignored the requested padding
 of the box

---
 src/triumvirate/threept.py | 25 ++++++++++++++++++-------
 src/triumvirate/twopt.py   | 25 ++++++++++++++++++-------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 1f905bf..5b11f51 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -1993,13 +1993,24 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
                 paramset['ngrid']['z']
             )
 
-    catalogue_rand.centre(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
-
-    catalogue_rand.periodise(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
+    if paramset['alignment'] == 'centre':
+        catalogue_rand.centre(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+        catalogue_rand.periodise(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+    if paramset['alignment'] == 'pad':
+        if paramset['padscale'] == 'box':
+            kwargs = {'boxsize_pad': paramset['padfactor']}
+        if paramset['padscale'] == 'grid':
+            kwargs = {
+                'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
+                'ngrid_pad': paramset['padfactor']
+            }
+        catalogue_rand.pad(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']], **kwargs
+        )
 
     if logger:
         try:
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 41c7974..a482b4c 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -1476,13 +1476,24 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
                 paramset['ngrid']['z']
             )
 
-    catalogue_rand.centre(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
-
-    catalogue_rand.periodise(
-        [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
-    )
+    if paramset['alignment'] == 'centre':
+        catalogue_rand.centre(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+        catalogue_rand.periodise(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']]
+        )
+    if paramset['alignment'] == 'pad':
+        if paramset['padscale'] == 'box':
+            kwargs = {'boxsize_pad': paramset['padfactor']}
+        if paramset['padscale'] == 'grid':
+            kwargs = {
+                'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
+                'ngrid_pad': paramset['padfactor']
+            }
+        catalogue_rand.pad(
+            [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']], **kwargs
+        )
 
     if logger:
         try:
-- 
2.43.0


From 51d723e23b1e91f027d0b3f4265a537404efba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 066/108] fix: catalogues left unaligned when padded without a
 padding factor

---
 src/triumvirate/threept.py | 8 ++++----
 src/triumvirate/twopt.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index 5b11f51..a4cba0d 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -572,11 +572,11 @@ def _compute_3pt_stats_survey_like(threept_algofunc,
         )
     if paramset['alignment'] == 'pad':
         if paramset['padscale'] == 'box':
-            kwargs = {'boxsize_pad': paramset['padfactor']}
+            kwargs = {'boxsize_pad': paramset['padfactor'] or 0.}
         if paramset['padscale'] == 'grid':
             kwargs = {
                 'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
-                'ngrid_pad': paramset['padfactor']
+                'ngrid_pad': paramset['padfactor'] or 0.
             }
         catalogue_data.pad(
             [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']],
@@ -2002,11 +2002,11 @@ def compute_3pcf_window(catalogue_rand, los_rand=None,
         )
     if paramset['alignment'] == 'pad':
         if paramset['padscale'] == 'box':
-            kwargs = {'boxsize_pad': paramset['padfactor']}
+            kwargs = {'boxsize_pad': paramset['padfactor'] or 0.}
         if paramset['padscale'] == 'grid':
             kwargs = {
                 'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
-                'ngrid_pad': paramset['padfactor']
+                'ngrid_pad': paramset['padfactor'] or 0.
             }
         catalogue_rand.pad(
             [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']], **kwargs
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index a482b4c..06188a4 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -495,11 +495,11 @@ def _compute_2pt_stats_survey_like(twopt_algofunc,
         )
     if paramset['alignment'] == 'pad':
         if paramset['padscale'] == 'box':
-            kwargs = {'boxsize_pad': paramset['padfactor']}
+            kwargs = {'boxsize_pad': paramset['padfactor'] or 0.}
         if paramset['padscale'] == 'grid':
             kwargs = {
                 'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
-                'ngrid_pad': paramset['padfactor']
+                'ngrid_pad': paramset['padfactor'] or 0.
             }
         catalogue_data.pad(
             [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']],
@@ -1485,11 +1485,11 @@ def compute_corrfunc_window(catalogue_rand, los_rand=None,
         )
     if paramset['alignment'] == 'pad':
         if paramset['padscale'] == 'box':
-            kwargs = {'boxsize_pad': paramset['padfactor']}
+            kwargs = {'boxsize_pad': paramset['padfactor'] or 0.}
         if paramset['padscale'] == 'grid':
             kwargs = {
                 'ngrid': [paramset['ngrid'][ax] for ax in ['x', 'y', 'z']],
-                'ngrid_pad': paramset['padfactor']
+                'ngrid_pad': paramset['padfactor'] or 0.
             }
         catalogue_rand.pad(
             [paramset['boxsize'][ax] for ax in ['x', 'y', 'z']], **kwargs
-- 
2.43.0


From f8d2f04bbff2810ea40e57c12c3f94c87e4c759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:21 +0000
Subject: [PATCH 067/108] fix: particles left outside the box by the alignment
 were not reported

---
 src/triumvirate/catalogue.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index e3dacc3..66c913e 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -577,6 +577,8 @@ class ParticleCatalogue:
         if catalogue_ref is not None:
             catalogue_ref.offset_coords(origin)
 
+        self._warn_outside_box(boxsize, catalogue_ref_, 'centring')
+
     def pad(self, boxsize, ngrid=None, boxsize_pad=None, ngrid_pad=None,
             catalogue_ref=None):
         """Pad a (pair of) catalogue(s) in a box.
@@ -669,14 +671,7 @@ class ParticleCatalogue:
         if catalogue_ref is not None:
             catalogue_ref.offset_coords(origin)
 
-        for iaxis, axis in enumerate(['x', 'y', 'z']):
-            if (max(self.bounds[axis]) > boxsize[iaxis]
-                    or max(catalogue_ref_.bounds[axis]) > boxsize[iaxis]):
-                warnings.warn(
-                    "`boxsize` is smaller than the particle extents "
-                    f"in {axis} axis. Some particles now lie outside "
-                    "the box after padding."
-                )
+        self._warn_outside_box(boxsize, catalogue_ref_, 'padding')
 
     def periodise(self, boxsize):
         """Place particles in a periodic box of given box size.
@@ -790,6 +785,30 @@ class ParticleCatalogue:
 
         return _axes
 
+    def _warn_outside_box(self, boxsize, catalogue_ref, operation):
+        """Warn if any particle lies outside the box after alignment.
+
+        Parameters
+        ----------
+        boxsize : sequence of [float, float, float]
+            Box size in each dimension.
+        catalogue_ref : :class:`~triumvirate.catalogue.ParticleCatalogue`
+            Reference catalogue used for box alignment.
+        operation : str
+            Alignment operation.
+
+        """
+        for iaxis, axis in enumerate(['x', 'y', 'z']):
+            bounds = (*self.bounds[axis], *catalogue_ref.bounds[axis])
+            # Allow for round-off of the shifted coordinates.
+            tol = 1.e-9 * boxsize[iaxis]
+            if min(bounds) < -tol or max(bounds) > boxsize[iaxis] + tol:
+                warnings.warn(
+                    "`boxsize` is smaller than the particle extents "
+                    f"in {axis} axis. Some particles now lie outside "
+                    f"the box after {operation}."
+                )
+
     def _convert_to_cpp_catalogue(self, verbose=-1):
         """Convert to a C++-wrapped catalogue.
 
-- 
2.43.0


From 7a1c15277fb728709b0666abef7c0300e498c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 068/108] fix: padding factors given as arrays were rejected

---
 src/triumvirate/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 66c913e..217eaa2 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -662,9 +662,9 @@ class ParticleCatalogue:
             catalogue_ref_.bounds[axis][0] for axis in ['x', 'y', 'z']
         ])
 
-        if boxsize_pad:
+        if boxsize_pad is not None:
             origin -= np.multiply(boxsize_pad, boxsize)
-        if ngrid_pad:
+        if ngrid_pad is not None:
             origin -= np.multiply(ngrid_pad, np.divide(boxsize, ngrid))
 
         self.offset_coords(origin)
-- 
2.43.0


From 06b01aa54e363ee36cf761018d17abcb3575c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 069/108] fix: periodic coordinates could be left at the upper
 end of the box

---
 src/triumvirate/catalogue.py      | 2 ++
 src/triumvirate/src/particles.cpp | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 217eaa2..11d893b 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -700,6 +700,8 @@ class ParticleCatalogue:
                     self.bounds[axis][1] + self.bounds[axis][0]
                 ) / 2.
             ) % boxsize[iaxis]
+            # Tiny negative coordinates are rounded up to the box size.
+            self._pdata[axis][self._pdata[axis] >= boxsize[iaxis]] = 0.
 
         self._calc_bounds()
 
diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 0212f53..30d06ef 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -691,6 +691,11 @@ offset_coords_for_periodicity(const double boxsize[3]) {
         this->pdata[pid].pos[iaxis] = std::fmod(
           this->pdata[pid].pos[iaxis], boxsize[iaxis]
         ) + boxsize[iaxis];
+        // Tiny negative coordinates are rounded up to the box size, and
+        // negative multiples of the box size are offset to it.
+        if (this->pdata[pid].pos[iaxis] >= boxsize[iaxis]) {
+          this->pdata[pid].pos[iaxis] = 0.;
+        }
       }
     }
   }
-- 
2.43.0


From 13d171863870204ee83baf8799f7bea7dd0213a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 070/108] fix: catalogue files with missing or malformed
 columns were read out of bounds

---
 src/triumvirate/main/triumvirate.cpp |  4 ++--
 src/triumvirate/src/particles.cpp    | 36 ++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 98fc1ef..0e5267f 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -234,7 +234,7 @@ int main(int argc, char* argv[]) {
         params.catalogue_dataset,
         params.volume
       );
-    } catch (const trv::sys::IOError& err) {
+    } catch (const std::exception& err) {
       exit_code = 1;
     }
     if (exit_code != 0) {
@@ -271,7 +271,7 @@ int main(int argc, char* argv[]) {
         params.catalogue_dataset,
         params.volume
       );
-    } catch (const trv::sys::IOError& err) {
+    } catch (const std::exception& err) {
       exit_code = 1;
     }
     if (exit_code != 0) {
diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 30d06ef..217cb9c 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -158,6 +158,34 @@ int ParticleCatalogue::load_catalogue_file(
     }
   }
 
+  // Check that a row of data has all the columns to be read.
+  auto check_row = [&](const std::vector<double>& row) {
+    for (std::size_t iname = 0; iname < names_ordered.size(); iname++) {
+      bool required = (iname < 3);  // only coordinates are required
+      int col_idx = name_indices[iname];
+      if (
+        (col_idx < 0 && required) || col_idx >= static_cast<int>(row.size())
+      ) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Catalogue '%s' field is missing or invalid (source=%s).",
+            names_ordered[iname].c_str(), this->source.c_str()
+          );
+        }
+        throw trvs::InvalidDataError(
+          "Catalogue '%s' field is missing or invalid (source=%s).",
+          names_ordered[iname].c_str(), this->source.c_str()
+        );
+      }
+    }
+  };
+
+  // Skip blank lines or comment lines.
+  auto skip_line = [](const std::string& line) {
+    return line.find_first_not_of(" \t\r\n\v\f") == std::string::npos
+      || line[0] == '#';
+  };
+
   // ---------------------------------------------------------------------
   // Data reading
   // ---------------------------------------------------------------------
@@ -344,6 +372,8 @@ int ParticleCatalogue::load_catalogue_file(
       int idx_row = 0;    // current row number
       double nz, ws, wc;  // placeholder variables
       for (const auto& row : ctlg_data) {
+        check_row(row);
+
         this->pdata[idx_row].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_row].pos[1] = row[name_indices[1]];  // y
         this->pdata[idx_row].pos[2] = row[name_indices[2]];  // z
@@ -407,7 +437,7 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (line_str.empty() || line_str[0] == '#') {continue;}
+        if (skip_line(line_str)) {continue;}
 
         // Count the line as valid otherwise.
         num_lines++;
@@ -450,7 +480,7 @@ int ParticleCatalogue::load_catalogue_file(
         if (!fin) {break;}
 
         // Skip empty lines or comment lines.
-        if (entry_str.empty() || entry_str[0] == '#') {continue;}
+        if (skip_line(entry_str)) {continue;}
 
         // Extract row entries.
         std::vector<double> row;
@@ -461,6 +491,8 @@ int ParticleCatalogue::load_catalogue_file(
         );
         while (ss >> entry) {row.push_back(entry);}
 
+        check_row(row);
+
         // Add the current line as a particle.
         this->pdata[idx_entry].pos[0] = row[name_indices[0]];  // x
         this->pdata[idx_entry].pos[1] = row[name_indices[1]];  // y
-- 
2.43.0


From 03a2b3784ead0bbe2111ab556f682444861c0366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 071/108] fix: memory of replaced particle data was miscounted

---
 src/triumvirate/src/particles.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 217cb9c..50f3256 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -55,11 +55,11 @@ void ParticleCatalogue::initialise_particles(const int num) {
     );
   }
 
-  this->ntotal = num;
-
   // Renew particle data.
   this->reset_particles();
 
+  this->ntotal = num;
+
   this->pdata = new ParticleData[this->ntotal];
   trvs::gbytesMem += trvs::size_in_gb<struct ParticleData>(this->ntotal);
   trvs::update_maxmem();
-- 
2.43.0


From ff335365ea09de4c4a449e7bf923c0a98925d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 072/108] fix: mesh numbers overflowed for very fine Nyquist
 cutoffs

---
 src/triumvirate/src/parameters.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 823af8f..7795e11 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1524,22 +1524,30 @@ void set_boxsize_from_expand(
 
 void set_ngrid_from_cutoff(trv::ParameterSet& params) {
   for (int iaxis = 0; iaxis < 3; iaxis++) {
-    int ngrid_;
+    double ngrid_nyq;
     if (params.space == "fourier") {
-      ngrid_ = static_cast<int>(std::ceil(
+      ngrid_nyq = std::ceil(
         params.boxsize[iaxis] * params.cutoff_nyq / M_PI
-      ));
+      );
     } else
     if (params.space == "config") {
-      ngrid_ = static_cast<int>(std::ceil(
+      ngrid_nyq = std::ceil(
         2. * params.boxsize[iaxis] / params.cutoff_nyq
-      ));
+      );
     } else {
       throw trvs::InvalidParameterError(
         "Space must be 'fourier' or 'config': `space` = '%s'.",
         params.space.c_str()
       );
     }
+    if (!(ngrid_nyq < std::numeric_limits<int>::max())) {
+      throw trvs::InvalidParameterError(
+        "Mesh grid number required by the Nyquist cutoff is too large: "
+        "`boxsize[%d]` = %lg, `cutoff_nyq` = %lg",
+        iaxis, params.boxsize[iaxis], params.cutoff_nyq
+      );
+    }
+    int ngrid_ = static_cast<int>(ngrid_nyq);
     params.ngrid[iaxis] = ngrid_ + (ngrid_ % 2);
   }
 
-- 
2.43.0


From 592c0aee1742c236777ed49454a82a05b210bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 073/108] fix: tasks lost when processes are also counted
 explicitly

---
 src/triumvirate/_mpitools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/_mpitools.py b/src/triumvirate/_mpitools.py
index 0246a65..8093d3e 100644
--- a/src/triumvirate/_mpitools.py
+++ b/src/triumvirate/_mpitools.py
@@ -88,7 +88,7 @@ def distribute_tasks(ntasks=None, task_total=None, proc_total=None):
 
     """
     ntasks = ntasks if ntasks else allocate_tasks(task_total, proc_total)
-    proc_total = proc_total if proc_total else len(ntasks)
+    proc_total = len(ntasks)
 
     breakpoints = np.insert(np.cumsum(ntasks), 0, values=0)
     segments = [
-- 
2.43.0


From 251df524aa87433f88017c1fcdb849c5e8f5c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:39 +0000
Subject: [PATCH 074/108] fix: program aborted on simulation boxes of unset
 size and mean density

---
 src/triumvirate/main/triumvirate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index 0e5267f..aa382e9 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -448,6 +448,16 @@ int main(int argc, char* argv[]) {
       if (params.nmesh == 0) {
         trv::set_ngrid_from_cutoff(params);
       }
+      // Set any unset mean density now that the box size is known.
+      bool nz_unset = true;
+      for (int pid = 0; pid < catalogue_data.ntotal; pid++) {
+        if (catalogue_data[pid].nz != 0.) {nz_unset = false; break;}
+      }
+      if (nz_unset) {
+        for (int pid = 0; pid < catalogue_data.ntotal; pid++) {
+          catalogue_data[pid].nz = catalogue_data.ntotal / params.volume;
+        }
+      }
     }
     catalogue_data.offset_coords_for_periodicity(params.boxsize);
   } else
-- 
2.43.0


From 50b27a0a2579114291bf70c32cf00328590ff4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 075/108] fix: catalogue columns not in native double precision
 were rejected or truncated

---
 src/triumvirate/catalogue.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 11d893b..02ba1ee 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -128,6 +128,7 @@ class ParticleCatalogue:
             self._backend = 'nbodykit'
         else:
             self._backend = 'astropy'
+            self._convert_columns()
 
         self._source = f'extdata:{id(self._pdata)}'
 
@@ -373,6 +374,9 @@ class ParticleCatalogue:
                 )
                 self._pdata[name_wgt] = 1.
 
+        if self._backend == 'astropy':
+            self._convert_columns()
+
         # Compute catalogue properties.
         self._calc_bounds(init=True)
 
@@ -719,6 +723,16 @@ class ParticleCatalogue:
 
         self._calc_bounds()
 
+    def _convert_columns(self):
+        """Convert particle data columns to native double precision
+        (e.g. from integers or the byte order of FITS files), as needed
+        for in-place operations and by the backend.
+
+        """
+        for name in ['x', 'y', 'z', 'nz', 'ws', 'wc']:
+            if self._pdata[name].dtype != np.dtype(np.float64):
+                self._pdata[name] = self._pdata[name].astype(np.float64)
+
     def _calc_bounds(self, init=False):
         """Calculate coordinate bounds in each dimension.
 
-- 
2.43.0


From 874df4769c4bedbb1186072cfd8e45f3bfd6a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 076/108] fix: catalogue bounds and totals were stale after
 setting a column

---
 src/triumvirate/catalogue.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 02ba1ee..4f1ab93 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -135,11 +135,7 @@ class ParticleCatalogue:
         # Compute catalogue properties.
         self._calc_bounds(init=True)
 
-        self.ntotal = len(self)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_totals()
 
         if self._logger:
             self._logger.info(
@@ -380,11 +376,7 @@ class ParticleCatalogue:
         # Compute catalogue properties.
         self._calc_bounds(init=True)
 
-        self.ntotal = len(self._pdata)
-        self.wtotal = self._compute(
-            (self._pdata['ws'] * self._pdata['wc']).sum()
-        )
-        self.wstotal = self._compute(self._pdata['ws'].sum())
+        self._calc_totals()
 
         if self._logger:
             self._logger.info(
@@ -438,6 +430,14 @@ class ParticleCatalogue:
         else:
             raise ValueError('Cannot set values for non-string-type key.')
 
+        # Keep the catalogue properties up to date.
+        if self._backend == 'astropy':
+            self._convert_columns()
+        if key in ['x', 'y', 'z']:
+            self._calc_bounds()
+        if key in ['ws', 'wc']:
+            self._calc_totals()
+
     def compute_los(self):
         """Compute the line of sight to each particle.
 
@@ -733,6 +733,16 @@ class ParticleCatalogue:
             if self._pdata[name].dtype != np.dtype(np.float64):
                 self._pdata[name] = self._pdata[name].astype(np.float64)
 
+    def _calc_totals(self):
+        """Calculate the total particle number and weights.
+
+        """
+        self.ntotal = len(self._pdata)
+        self.wtotal = self._compute(
+            (self._pdata['ws'] * self._pdata['wc']).sum()
+        )
+        self.wstotal = self._compute(self._pdata['ws'].sum())
+
     def _calc_bounds(self, init=False):
         """Calculate coordinate bounds in each dimension.
 
-- 
2.43.0


From 2a1bf3490e87742d5b6f806e4e2f2bf138c572b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 077/108] fix: catalogue aligned with itself as reference was
 shifted twice

---
 src/triumvirate/catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index 4f1ab93..cf6ee17 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -578,7 +578,7 @@ class ParticleCatalogue:
         ])
 
         self.offset_coords(origin)
-        if catalogue_ref is not None:
+        if catalogue_ref is not None and catalogue_ref is not self:
             catalogue_ref.offset_coords(origin)
 
         self._warn_outside_box(boxsize, catalogue_ref_, 'centring')
@@ -672,7 +672,7 @@ class ParticleCatalogue:
             origin -= np.multiply(ngrid_pad, np.divide(boxsize, ngrid))
 
         self.offset_coords(origin)
-        if catalogue_ref is not None:
+        if catalogue_ref is not None and catalogue_ref is not self:
             catalogue_ref.offset_coords(origin)
 
         self._warn_outside_box(boxsize, catalogue_ref_, 'padding')
-- 
2.43.0


From 0c51a9f1607d07309e2b4cde8ed58f3bf385c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 078/108] fix: keyword arguments of the caller were changed
 when reading catalogues

---
 src/triumvirate/catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/catalogue.py b/src/triumvirate/catalogue.py
index cf6ee17..9e80f4d 100644
--- a/src/triumvirate/catalogue.py
+++ b/src/triumvirate/catalogue.py
@@ -331,7 +331,7 @@ class ParticleCatalogue:
             if table_kwargs is None:
                 table_kwargs = {}
             if format.startswith('ascii'):
-                table_kwargs.update(names=names)
+                table_kwargs = dict(table_kwargs, names=names)
 
             self._pdata = Table.read(
                 filepath, format=format, **table_kwargs
-- 
2.43.0


From 055d0dc24a16e6fa576bcac4c0893c344223b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 079/108] fix: binnings with decreasing, empty or surplus bins
 were accepted

---
 src/triumvirate/dataobjs.pyx     | 15 +++++++++++++++
 src/triumvirate/src/dataobjs.cpp | 24 ++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 40e614e..4fa1393 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -200,7 +200,22 @@ cdef class Binning:
         bin_edges : 1-d array of float
             Bin edges of length (:attr:`num_bins` + 1).
 
+        Raises
+        ------
+        ValueError
+            When `bin_edges` has fewer than two values, is negative or is
+            not strictly increasing.
+
         """
+        if not (
+            np.ndim(bin_edges) == 1 and len(bin_edges) > 1
+            and bin_edges[0] >= 0. and np.all(np.diff(bin_edges) > 0.)
+        ):
+            raise ValueError(
+                "`bin_edges` must be at least two non-negative and "
+                "strictly increasing values."
+            )
+
         self.bin_min, self.bin_max = bin_edges[0], bin_edges[-1]
         self.num_bins = len(bin_edges) - 1
 
diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 0b184b6..4dc69f2 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -139,6 +139,30 @@ void Binning::compute_binning() {
   } else
   if (this->space == "config") {
     dbin_pad = this->dbin_pad_config;
+  } else {
+    throw trvs::InvalidParameterError(
+      "Unrecognised binning `space`: %s.", space.c_str()
+    );
+  }
+
+  // Check the bin range and number so that bin edges are increasing.
+  double bin_start = this->bin_min;
+  int nbin_start = 0;
+  if (scheme == "linpad" || scheme == "logpad") {
+    bin_start = dbin_pad * this->nbin_pad;
+    nbin_start = this->nbin_pad;
+  }
+  if (!(bin_start < this->bin_max)) {
+    throw trvs::InvalidParameterError(
+      "Bin range has an upper end not above its lower end "
+      "(after any padding): [%g, %g].", bin_start, this->bin_max
+    );
+  }
+  if (!(nbin_start < this->num_bins)) {
+    throw trvs::InvalidParameterError(
+      "Number of bins must be greater than %d for binning `scheme` '%s'.",
+      nbin_start, scheme.c_str()
+    );
   }
 
   // Implement binning scheme.
-- 
2.43.0


From 1a2eb15da246be7a4dc30680abf10ac3b6d9f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 080/108] fix: program did not report particles outside the box

---
 src/triumvirate/src/field.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index d5d6cb9..521f387 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -588,6 +588,21 @@ void MeshField::assign_weighted_field_to_mesh(
         );
       }
     }
+    // Allow for round-off of the shifted coordinates.
+    double tol = 1.e-9 * params.boxsize[iaxis];
+    if (
+      particles.pos_min[iaxis] < -tol
+      || particles.pos_max[iaxis] > params.boxsize[iaxis] + tol
+    ) {
+      if (trvs::currTask == 0) {
+        trvs::logger.warn(
+          "Some particles lie outside the box in dimension %d: "
+          "[%.3f, %.3f] is not in [0, %.3f].",
+          iaxis, particles.pos_min[iaxis], particles.pos_max[iaxis],
+          params.boxsize[iaxis]
+        );
+      }
+    }
   }
 
   if (this->params.assignment == "ngp") {
-- 
2.43.0


From 4910c1d760a4bde622edb362c10f07c6ca0336a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 081/108] fix: bispectrum in bins without modes was not a
 number

---
 src/triumvirate/src/field.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 521f387..5ee9e02 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -1954,7 +1954,13 @@ void MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited(
   }
   trvs::count_ifft += 1;
 
-  // Average over wavevector modes in the band.
+  // Average over wavevector modes in the band, which if empty has
+  // vanishing field and effective wavenumber set to its centre.
+  if (nmodes == 0) {
+    k_eff = (k_lower + k_upper) / 2.;
+    return;
+  }
+
 #ifdef TRV_USE_OMP
 #pragma omp parallel for simd
 #endif  // TRV_USE_OMP
-- 
2.43.0


From 0729120c5b12e6097059c4ce0964d812064b5e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 082/108] fix: parameter sets shared entries with the caller's
 objects after updates

---
 src/triumvirate/parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index e15ef4c..ebaa738 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -210,7 +210,7 @@ cdef class ParameterSet:
             Parameter value.
 
         """
-        self._params.update({key: val})
+        self._params.update({key: deepcopy(val)})
         self._parse_params()  # validate
         self._original = False
 
@@ -292,7 +292,7 @@ cdef class ParameterSet:
         """Update parameter set like :meth:`dict.update`.
 
         """
-        self._params.update(*args, **kwargs)
+        self._params.update(deepcopy(dict(*args, **kwargs)))
         self._parse_params()  # validate
         self._original = False
 
-- 
2.43.0


From cabd00469e834b16f3334a52b0839f6648401612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 083/108] fix: progress of bispectra in the 'row' form never
 completed

---
 src/triumvirate/src/threept.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/triumvirate/src/threept.cpp b/src/triumvirate/src/threept.cpp
index 6a38c39..b90fcdb 100644
--- a/src/triumvirate/src/threept.cpp
+++ b/src/triumvirate/src/threept.cpp
@@ -420,6 +420,7 @@ trv::BispecMeasurements compute_bispec(
 
         // Set up FFT counter and progress bar.
         int progbar_task_count = 4 + 3 * dv_dim;
+        if (params.shape == "row") {progbar_task_count -= dv_dim - 1;}
         std::stringstream progbar_name_ss;
         progbar_name_ss
           << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
@@ -1634,6 +1635,7 @@ trv::BispecMeasurements compute_bispec_in_gpp_box(
 
       // Set up FFT counter and progress bar.
       int progbar_task_count = 2 + 3 * dv_dim;
+      if (params.shape == "row") {progbar_task_count -= dv_dim - 1;}
       std::stringstream progbar_name_ss;
       progbar_name_ss
         << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
@@ -3254,6 +3256,7 @@ trv::BispecMeasurements compute_bispec_for_los_choice(
 
         // Set up FFT counter and progress bar.
         int progbar_task_count = 10 + 3 * dv_dim;
+        if (params.shape == "row") {progbar_task_count -= dv_dim - 1;}
         std::stringstream progbar_name_ss;
         progbar_name_ss
           << "component orders (" << m1_ << ", " << m2_ << ", " << M_ << ")";
-- 
2.43.0


From 253ddfe23f5a5518b425a586288cc7e1ca4da4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 084/108] fix: unwritable output files crashed the program

---
 src/triumvirate/src/io.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/triumvirate/src/io.cpp b/src/triumvirate/src/io.cpp
index da00423..53838b5 100644
--- a/src/triumvirate/src/io.cpp
+++ b/src/triumvirate/src/io.cpp
@@ -105,6 +105,10 @@ void print_measurement_header_to_file(
   trv::ParticleCatalogue& catalogue_rand,
   double norm_factor_part, double norm_factor_mesh, double norm_factor_meshes
 ) {
+  if (fileptr == nullptr) {
+    throw trv::sys::IOError("Failed to open the output file for writing.");
+  }
+
   std::fprintf(
     fileptr,
     "%s Data catalogue source: %s\n",
@@ -214,6 +218,10 @@ void print_measurement_header_to_file(
   trv::ParameterSet& params, trv::ParticleCatalogue& catalogue,
   double norm_factor_part, double norm_factor_mesh, double norm_factor_meshes
 ) {
+  if (fileptr == nullptr) {
+    throw trv::sys::IOError("Failed to open the output file for writing.");
+  }
+
   std::fprintf(
     fileptr,
     "%s Catalogue source: %s\n",
@@ -306,6 +314,10 @@ void print_binned_vectors_to_file(
   std::FILE* fileptr, trv::ParameterSet& params,
   trv::BinnedVectors& binned_vectors
 ) {
+  if (fileptr == nullptr) {
+    throw trv::sys::IOError("Failed to open the output file for writing.");
+  }
+
   // Print header.
   std::fprintf(
     fileptr,
-- 
2.43.0


From e76aa1b83e73b433e10e7d1701d09d7f58288ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 085/108] fix: rejected bins left the binning inconsistent

Bins with an unset, non-finite or otherwise rejected range left the number
of bins out of step with the bin edges, which measurements then overran.
---
 src/triumvirate/dataobjs.pyx         |  5 ++--
 src/triumvirate/include/dataobjs.hpp |  6 ++---
 src/triumvirate/src/dataobjs.cpp     | 39 ++++++++++++++++------------
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/triumvirate/dataobjs.pyx b/src/triumvirate/dataobjs.pyx
index 4fa1393..ff26987 100644
--- a/src/triumvirate/dataobjs.pyx
+++ b/src/triumvirate/dataobjs.pyx
@@ -150,11 +150,11 @@ cdef class Binning:
             Number of bins.
 
         """
+        self.thisptr.set_bins(bin_min, bin_max, num_bins)
+
         self.bin_min, self.bin_max = bin_min, bin_max
         self.num_bins = num_bins
 
-        self.thisptr.set_bins(self.bin_min, self.bin_max, self.num_bins)
-
         self.bin_edges = self.thisptr.bin_edges
         self.bin_centres = self.thisptr.bin_centres
         self.bin_widths = self.thisptr.bin_widths
@@ -209,6 +209,7 @@ cdef class Binning:
         """
         if not (
             np.ndim(bin_edges) == 1 and len(bin_edges) > 1
+            and np.all(np.isfinite(bin_edges))
             and bin_edges[0] >= 0. and np.all(np.diff(bin_edges) > 0.)
         ):
             raise ValueError(
diff --git a/src/triumvirate/include/dataobjs.hpp b/src/triumvirate/include/dataobjs.hpp
index 3e63e50..23b7fd5 100644
--- a/src/triumvirate/include/dataobjs.hpp
+++ b/src/triumvirate/include/dataobjs.hpp
@@ -59,9 +59,9 @@ class Binning {
  public:
   std::string space;                ///< coordinate space
   std::string scheme;               ///< binning scheme
-  double bin_min;                   ///< lowest bin edge
-  double bin_max;                   ///< highest bin edge
-  int num_bins;                     ///< number of bins
+  double bin_min = 0.;              ///< lowest bin edge
+  double bin_max = 0.;              ///< highest bin edge
+  int num_bins = 0;                 ///< number of bins
   std::vector<double> bin_edges;    ///< bin edges
   std::vector<double> bin_centres;  ///< bin centres
   std::vector<double> bin_widths;   ///< bin widths
diff --git a/src/triumvirate/src/dataobjs.cpp b/src/triumvirate/src/dataobjs.cpp
index 4dc69f2..a1d96e4 100644
--- a/src/triumvirate/src/dataobjs.cpp
+++ b/src/triumvirate/src/dataobjs.cpp
@@ -56,7 +56,7 @@ Binning::Binning(trv::ParameterSet& params) : Binning::Binning(
 }
 
 void Binning::set_bins(double coord_min, double coord_max, int nbin) {
-  if (coord_min < 0.) {
+  if (!(coord_min >= 0.)) {
     throw trvs::InvalidParameterError(
       "Bin range must be non-negative."
     );
@@ -67,11 +67,16 @@ void Binning::set_bins(double coord_min, double coord_max, int nbin) {
     );
   }
 
-  this->bin_min = coord_min;
-  this->bin_max = coord_max;
-  this->num_bins = nbin;
+  // Leave the existing binning in place unless the new one is valid.
+  trv::Binning binning(*this);
 
-  this->set_bins();
+  binning.bin_min = coord_min;
+  binning.bin_max = coord_max;
+  binning.num_bins = nbin;
+
+  binning.set_bins();
+
+  *this = binning;
 }
 
 void Binning::set_bins() {
@@ -84,29 +89,29 @@ void Binning::set_bins() {
 }
 
 void Binning::set_bins(double boxsize_max, int ngrid_min) {
-  this->scheme = "lin";
+  // Leave the existing binning in place unless the new one is valid.
+  trv::Binning binning(*this);
 
-  this->bin_min = 0.;
+  binning.scheme = "lin";
+
+  binning.bin_min = 0.;
 
   double bin_width = 0.;
   if (this->space == "config") {
     bin_width = boxsize_max / double(ngrid_min);
-    this->bin_max = boxsize_max / 2.;
+    binning.bin_max = boxsize_max / 2.;
   } else
   if (this->space == "fourier") {
     bin_width = 2*M_PI / boxsize_max;
-    this->bin_max = M_PI * double(ngrid_min) / boxsize_max;
+    binning.bin_max = M_PI * double(ngrid_min) / boxsize_max;
   }
-  this->bin_max += bin_width / 2.;
+  binning.bin_max += bin_width / 2.;
 
-  this->num_bins = ngrid_min / 2;
+  binning.num_bins = ngrid_min / 2;
 
-  // Reset vector attributes.
-  this->bin_edges.clear();
-  this->bin_centres.clear();
-  this->bin_widths.clear();
+  binning.set_bins();
 
-  this->compute_binning();
+  *this = binning;
 }
 
 void Binning::set_bins(std::vector<double> bin_edges) {
@@ -152,7 +157,7 @@ void Binning::compute_binning() {
     bin_start = dbin_pad * this->nbin_pad;
     nbin_start = this->nbin_pad;
   }
-  if (!(bin_start < this->bin_max)) {
+  if (!(bin_start < this->bin_max && std::isfinite(this->bin_max))) {
     throw trvs::InvalidParameterError(
       "Bin range has an upper end not above its lower end "
       "(after any padding): [%g, %g].", bin_start, this->bin_max
-- 
2.43.0


From f199d2654834e93a63a9946fae4ffa2504ff5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 086/108] fix: lines of sight of the wrong shape leaked memory

---
 src/triumvirate/_threept.pyx | 47 +++++++++++++++++++-----------------
 src/triumvirate/_twopt.pyx   | 47 +++++++++++++++++++-----------------
 2 files changed, 50 insertions(+), 44 deletions(-)

diff --git a/src/triumvirate/_threept.pyx b/src/triumvirate/_threept.pyx
index 0cd675c..63c937d 100644
--- a/src/triumvirate/_threept.pyx
+++ b/src/triumvirate/_threept.pyx
@@ -138,22 +138,23 @@ def _compute_bispec(
     cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
         len(los_data) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
     cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
         len(los_rand) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
 
     # Run algorithm.
     cdef BispecMeasurements results
     try:
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
         results = compute_bispec_cpp(
             deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
             los_data_cpp, los_rand_cpp,
@@ -188,22 +189,23 @@ def _compute_3pcf(
     cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
         len(los_data) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
     cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
         len(los_rand) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
 
     # Run algorithm.
     cdef ThreePCFMeasurements results
     try:
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
         results = compute_3pcf_cpp(
             deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
             los_data_cpp, los_rand_cpp,
@@ -288,14 +290,15 @@ def _compute_3pcf_window(
     cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
         len(los_rand) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
 
     # Run algorithm.
     cdef ThreePCFWindowMeasurements results
     try:
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
         results = compute_3pcf_window_cpp(
             deref(catalogue_rand.thisptr), los_rand_cpp,
             deref(params.thisptr), deref(rbinning.thisptr),
diff --git a/src/triumvirate/_twopt.pyx b/src/triumvirate/_twopt.pyx
index 9f3a776..11e08b5 100644
--- a/src/triumvirate/_twopt.pyx
+++ b/src/triumvirate/_twopt.pyx
@@ -174,22 +174,23 @@ def _compute_powspec(
     cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
         len(los_data) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
     cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
         len(los_rand) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
 
     # Run algorithm.
     cdef PowspecMeasurements results
     try:
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
         results = compute_powspec_cpp(
             deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
             los_data_cpp, los_rand_cpp,
@@ -221,22 +222,23 @@ def _compute_corrfunc(
     cdef LineOfSight* los_data_cpp = <LineOfSight*>malloc(
         len(los_data) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_data):
-        los_data_cpp[pid].pos[0] = los_x
-        los_data_cpp[pid].pos[1] = los_y
-        los_data_cpp[pid].pos[2] = los_z
-
     cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
         len(los_rand) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
 
     # Run algorithm.
     cdef TwoPCFMeasurements results
     try:
+        for pid, (los_x, los_y, los_z) in enumerate(los_data):
+            los_data_cpp[pid].pos[0] = los_x
+            los_data_cpp[pid].pos[1] = los_y
+            los_data_cpp[pid].pos[2] = los_z
+
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
         results = compute_corrfunc_cpp(
             deref(catalogue_data.thisptr), deref(catalogue_rand.thisptr),
             los_data_cpp, los_rand_cpp,
@@ -309,14 +311,15 @@ def _compute_corrfunc_window(
     cdef LineOfSight* los_rand_cpp = <LineOfSight*>malloc(
         len(los_rand) * sizeof(LineOfSight)
     )
-    for pid, (los_x, los_y, los_z) in enumerate(los_rand):
-        los_rand_cpp[pid].pos[0] = los_x
-        los_rand_cpp[pid].pos[1] = los_y
-        los_rand_cpp[pid].pos[2] = los_z
 
     # Run algorithm.
     cdef TwoPCFWindowMeasurements results
     try:
+        for pid, (los_x, los_y, los_z) in enumerate(los_rand):
+            los_rand_cpp[pid].pos[0] = los_x
+            los_rand_cpp[pid].pos[1] = los_y
+            los_rand_cpp[pid].pos[2] = los_z
+
         results = compute_corrfunc_window_cpp(
             deref(catalogue_rand.thisptr), los_rand_cpp,
             deref(params.thisptr), deref(rbinning.thisptr),
-- 
2.43.0


From d3bb172cc669b323176ed0666007c2623f3620e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 087/108] fix: unrecognised Hankel transform extrapolation
 options were undefined

---
 src/triumvirate/src/fftlog.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/triumvirate/src/fftlog.cpp b/src/triumvirate/src/fftlog.cpp
index a89f875..a1f157c 100644
--- a/src/triumvirate/src/fftlog.cpp
+++ b/src/triumvirate/src/fftlog.cpp
@@ -247,6 +247,14 @@ void HankelTransform::initialise(
   std::vector<double> sample_pts, double kr_c, bool lowring,
   int extrap, double extrap_exp
 ) {
+  if (
+    extrap < trva::ExtrapOption::NONE || extrap > trva::ExtrapOption::LOGLIN
+  ) {
+    throw trvs::InvalidParameterError(
+      "Unrecognised extrapolation option: %d.", extrap
+    );
+  }
+
   this->initialise(
     sample_pts, kr_c, lowring, trva::ExtrapOption(extrap), extrap_exp
   );
-- 
2.43.0


From c746ea1adf9a166f8a0e341d0020da60fcafb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 088/108] fix: integer overflow in parameter validation

---
 src/triumvirate/src/parameters.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 7795e11..76780d7 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1054,6 +1054,22 @@ int ParameterSet::validate(bool init) {
     }
   }
 
+  if (
+    static_cast<double>(this->ngrid[0]) * this->ngrid[1] * this->ngrid[2]
+    >= static_cast<double>(std::numeric_limits<long long>::max())
+  ) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Grid cell numbers are too large: `ngrid` = [%d, %d, %d].",
+        this->ngrid[0], this->ngrid[1], this->ngrid[2]
+      );
+    }
+    throw trvs::InvalidParameterError(
+      "Grid cell numbers are too large: `ngrid` = [%d, %d, %d].",
+      this->ngrid[0], this->ngrid[1], this->ngrid[2]
+    );
+  }
+
   this->volume =
     this->boxsize[0] * this->boxsize[1] * this->boxsize[2];  // derivation
   this->nmesh = static_cast<long long>(this->ngrid[0])
@@ -1259,7 +1275,9 @@ int ParameterSet::validate(bool init) {
     }
   }
 
-  if (std::abs(this->idx_bin) >= this->num_bins) {
+  if (
+    this->idx_bin >= this->num_bins || this->idx_bin <= -this->num_bins
+  ) {
     if (trvs::currTask == 0) {
       trvs::logger.error(
         "Bin index `idx_bin` must be < `num_bins` in absolute value."
-- 
2.43.0


From 04d78ecd9fd99cb9fc310ba1fdff7dde2da03aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 089/108] fix: undefined cell and sample indices of
 unrepresentable coordinates

---
 src/triumvirate/include/field.hpp |  1 +
 src/triumvirate/src/field.cpp     | 43 +++++++++++++++++++++----------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/triumvirate/include/field.hpp b/src/triumvirate/include/field.hpp
index a37b91d..bfc92a0 100644
--- a/src/triumvirate/include/field.hpp
+++ b/src/triumvirate/include/field.hpp
@@ -50,6 +50,7 @@
 #include <cmath>
 #include <complex>
 #include <functional>
+#include <limits>
 #include <vector>
 
 #include "arrayops.hpp"
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 5ee9e02..d4f593b 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -34,6 +34,18 @@ namespace trvm = trv::maths;
 
 namespace trv {
 
+/**
+ * @brief Return the index of the grid cell at a location in one dimension.
+ *
+ * @param loc_grid Location in units of the grid cell size.
+ * @returns Grid cell index, which is outside any mesh if @p loc_grid is
+ *          not a number or is beyond the range of indices.
+ */
+static inline int ret_cell_index(double loc_grid) {
+  const int idx_max = std::numeric_limits<int>::max() / 2;
+  return (std::fabs(loc_grid) < double(idx_max)) ? int(loc_grid) : -idx_max;
+}
+
 // ***********************************************************************
 // Mesh field
 // ***********************************************************************
@@ -662,7 +674,7 @@ void MeshField::assign_weighted_field_to_mesh_ngp(
         loc_grid -= this->params.ngrid[iaxis];
       }
 
-      int idx_grid = int(loc_grid);
+      int idx_grid = ret_cell_index(loc_grid);
       if (loc_grid - idx_grid >= 0.5) {
         idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
           ? 0 : idx_grid + 1;
@@ -712,7 +724,7 @@ OMP_ATOMIC
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-        int idx_grid = int(loc_grid);
+        int idx_grid = ret_cell_index(loc_grid);
         if (loc_grid - idx_grid >= 0.5) {
           idx_grid = (idx_grid == this->params.ngrid[iaxis] - 1)
             ? 0 : idx_grid + 1;
@@ -776,7 +788,7 @@ void MeshField::assign_weighted_field_to_mesh_cic(
         loc_grid -= this->params.ngrid[iaxis];
       }
 
-      int idx_grid = int(loc_grid);
+      int idx_grid = ret_cell_index(loc_grid);
 
       ijk[0][iaxis] = idx_grid;
       ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -827,7 +839,7 @@ OMP_ATOMIC
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-        int idx_grid = int(loc_grid);
+        int idx_grid = ret_cell_index(loc_grid);
 
         ijk[0][iaxis] = idx_grid;
         ijk[1][iaxis] = (idx_grid == this->params.ngrid[iaxis] - 1)
@@ -891,7 +903,7 @@ void MeshField::assign_weighted_field_to_mesh_tsc(
         loc_grid -= this->params.ngrid[iaxis];
       }
 
-      int idx_grid = int(loc_grid);
+      int idx_grid = ret_cell_index(loc_grid);
 
       if (loc_grid - idx_grid < 0.5) {
         ijk[0][iaxis] = (idx_grid == 0)
@@ -960,7 +972,7 @@ OMP_ATOMIC
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-        int idx_grid = int(loc_grid);
+        int idx_grid = ret_cell_index(loc_grid);
 
         if (loc_grid - idx_grid < 0.5) {
           ijk[0][iaxis] = (idx_grid == 0)
@@ -1043,7 +1055,7 @@ void MeshField::assign_weighted_field_to_mesh_pcs(
         loc_grid -= this->params.ngrid[iaxis];
       }
 
-      int idx_grid = int(loc_grid);
+      int idx_grid = ret_cell_index(loc_grid);
 
       ijk[0][iaxis] = (idx_grid == 0)
         ? this->params.ngrid[iaxis] - 1 : idx_grid - 1;
@@ -1102,7 +1114,7 @@ OMP_ATOMIC
           loc_grid -= this->params.ngrid[iaxis];
         }
 
-        int idx_grid = int(loc_grid);
+        int idx_grid = ret_cell_index(loc_grid);
 
         ijk[0][iaxis] = (idx_grid == 0)
           ? this->params.ngrid[iaxis] - 1 : idx_grid - 1;
@@ -2683,8 +2695,9 @@ void FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier(
 
         double k_ = trvm::get_vec3d_magnitude(kv);
 
-        int idx_k = int(k_ / dk_sample);
-        if (0 <= idx_k && idx_k < n_sample) {
+        if (k_ / dk_sample < n_sample) {
+          int idx_k = int(k_ / dk_sample);
+
           std::complex<double> fa(field_a[idx_grid][0], field_a[idx_grid][1]);
           std::complex<double> fb(field_b[idx_grid][0], field_b[idx_grid][1]);
 
@@ -2948,8 +2961,9 @@ void FieldStats::compute_ylm_wgtd_2pt_stats_in_config(
 
         double r_ = trvm::get_vec3d_magnitude(rv);
 
-        int idx_r = int(r_ / dr_sample);
-        if (0 <= idx_r && idx_r < n_sample) {
+        if (r_ / dr_sample < n_sample) {
+          int idx_r = int(r_ / dr_sample);
+
           std::complex<double> xi_pair(
             this->twopt_3d[idx_grid][0], this->twopt_3d[idx_grid][1]
           );
@@ -3192,8 +3206,9 @@ void FieldStats::compute_uncoupled_shotnoise_for_3pcf(
 
         double r_ = trvm::get_vec3d_magnitude(rv);
 
-        int idx_r = int(r_ / dr_sample);
-        if (0 <= idx_r && idx_r < n_sample) {
+        if (r_ / dr_sample < n_sample) {
+          int idx_r = int(r_ / dr_sample);
+
           std::complex<double> xi_pair(
             this->twopt_3d[idx_grid][0], this->twopt_3d[idx_grid][1]
           );
-- 
2.43.0


From 666c9290ae3b8dac0c67d1537d3a8c2ad9167e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 090/108] fix: meshes too large to allocate crashed the program

---
 src/triumvirate/include/field.hpp |  1 +
 src/triumvirate/src/field.cpp     | 45 +++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/triumvirate/include/field.hpp b/src/triumvirate/include/field.hpp
index bfc92a0..abcdfaa 100644
--- a/src/triumvirate/include/field.hpp
+++ b/src/triumvirate/include/field.hpp
@@ -51,6 +51,7 @@
 #include <complex>
 #include <functional>
 #include <limits>
+#include <new>
 #include <vector>
 
 #include "arrayops.hpp"
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index d4f593b..18bd4ad 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -34,6 +34,25 @@ namespace trvm = trv::maths;
 
 namespace trv {
 
+/**
+ * @brief Allocate a complex mesh grid.
+ *
+ * @param nmesh Number of grid cells.
+ * @returns Pointer to the allocated memory.
+ * @throws std::bad_alloc When the memory cannot be allocated.
+ */
+static fftw_complex* alloc_mesh(long long nmesh) {
+  const double size = sizeof(fftw_complex) * static_cast<double>(nmesh);
+  fftw_complex* mesh = nullptr;
+  if (size < static_cast<double>(std::numeric_limits<std::ptrdiff_t>::max())) {
+    mesh = fftw_alloc_complex(nmesh);
+  }
+  if (mesh == nullptr && nmesh > 0) {
+    throw std::bad_alloc();
+  }
+  return mesh;
+}
+
 /**
  * @brief Return the index of the grid cell at a location in one dimension.
  *
@@ -65,7 +84,7 @@ MeshField::MeshField(
 
   // Initialise the field (and its shadow field if interlacing is used)
   // and increase allocated memory.
-  this->field = fftw_alloc_complex(this->params.nmesh);
+  this->field = alloc_mesh(this->params.nmesh);
 
   trvs::count_cgrid += 1;
   trvs::count_grid += 1;
@@ -74,7 +93,15 @@ MeshField::MeshField(
   trvs::update_maxmem();
 
   if (this->params.interlace == "true") {
-    this->field_s = fftw_alloc_complex(this->params.nmesh);
+    try {
+      this->field_s = alloc_mesh(this->params.nmesh);
+    } catch (...) {
+      fftw_free(this->field);
+      trvs::count_cgrid -= 1;
+      trvs::count_grid -= 1;
+      trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(this->params.nmesh);
+      throw;
+    }
 // #ifdef TRV_USE_HIP
 //     if (trvs::is_gpu_enabled()) {
 //       HIP_EXEC(hipMalloc(
@@ -400,7 +427,7 @@ MeshField::MeshField(
 
   // Initialise the field (and its shadow field if interlacing is used)
   // and increase allocated memory.
-  this->field = fftw_alloc_complex(this->params.nmesh);
+  this->field = alloc_mesh(this->params.nmesh);
 
   trvs::count_cgrid += 1;
   trvs::count_grid += 1;
@@ -409,7 +436,15 @@ MeshField::MeshField(
   trvs::update_maxmem();
 
   if (this->params.interlace == "true") {
-    this->field_s = fftw_alloc_complex(this->params.nmesh);
+    try {
+      this->field_s = alloc_mesh(this->params.nmesh);
+    } catch (...) {
+      fftw_free(this->field);
+      trvs::count_cgrid -= 1;
+      trvs::count_grid -= 1;
+      trvs::gbytesMem -= trvs::size_in_gb<fftw_complex>(this->params.nmesh);
+      throw;
+    }
 
     trvs::count_cgrid += 1;
     trvs::count_grid += 1;
@@ -2173,7 +2208,7 @@ FieldStats::FieldStats(trv::ParameterSet& params, bool plan_ini){
 
   // Set up FFTW plans.
   if (plan_ini) {
-    this->twopt_3d = fftw_alloc_complex(this->params.nmesh);
+    this->twopt_3d = alloc_mesh(this->params.nmesh);
 #ifdef TRV_USE_HIP
     if (trvs::is_gpu_enabled()) {
       HIP_EXEC(hipMalloc(
-- 
2.43.0


From 9f6738bf21f84cbc056b5339672f447c81d12ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 091/108] fix: undefined normalisation mesh for unsuitable
 particle spans

---
 src/triumvirate/include/twopt.hpp |  1 +
 src/triumvirate/src/twopt.cpp     | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/triumvirate/include/twopt.hpp b/src/triumvirate/include/twopt.hpp
index 9e048f7..165cd0b 100644
--- a/src/triumvirate/include/twopt.hpp
+++ b/src/triumvirate/include/twopt.hpp
@@ -43,6 +43,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <complex>
 #include <cstdio>
 
diff --git a/src/triumvirate/src/twopt.cpp b/src/triumvirate/src/twopt.cpp
index f840a86..3670960 100644
--- a/src/triumvirate/src/twopt.cpp
+++ b/src/triumvirate/src/twopt.cpp
@@ -241,7 +241,21 @@ double calc_powspec_normalisation_from_meshes(
     *std::max_element(particles_rand.pos_span, particles_rand.pos_span + 3)
   );
 
-  int ngrid_norm = std::ceil(boxsize_norm / cellsize);
+  double ngrid_min = std::ceil(boxsize_norm / cellsize);
+  if (!(ngrid_min >= 1. && ngrid_min < std::numeric_limits<int>::max())) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error(
+        "Particle coordinate spans are unsuitable for a normalisation mesh "
+        "of cell size %g: the box size is %g.", cellsize, boxsize_norm
+      );
+    }
+    throw trvs::InvalidDataError(
+      "Particle coordinate spans are unsuitable for a normalisation mesh "
+      "of cell size %g: the box size is %g.", cellsize, boxsize_norm
+    );
+  }
+
+  int ngrid_norm = int(ngrid_min);
 
   ngrid_norm += ngrid_norm % 2;  // ensure even
   boxsize_norm = ngrid_norm * cellsize;  // enforce cell size
-- 
2.43.0


From 30366063616f23d12443d74a044657aa19c1ae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 092/108] fix: pivots of double spherical Bessel transforms
 could not be read

---
 src/triumvirate/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/triumvirate/transforms.py b/src/triumvirate/transforms.py
index 05f7cb8..b2a1f4a 100644
--- a/src/triumvirate/transforms.py
+++ b/src/triumvirate/transforms.py
@@ -413,7 +413,7 @@ class DoubleSphericalBesselTransform:
         tuple of float
 
         """  # numpydoc ignore=RT03
-        return (self._fbsjt[0]._pivot, self._fbsjt[1]._pivot)
+        return (self._fbsjt[0].pivot, self._fbsjt[1].pivot)
 
     def transform(self, pre_samples):
         """Transform samples at initialised sample points.
-- 
2.43.0


From 165e6eee08429355a9a3d0ffb763ba17d9e6866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 093/108] fix: wrong columns of three-point measurement files
 combined

---
 apps/io/comb_data_vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index ca91646..a74c2ee 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -151,8 +151,8 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
     USECOLS = {
         'pk': list(range(7)),
         'xi': list(range(5)),
-        'bk': list(range(2, 9)),
-        'zeta': list(range(2, 9)),
+        'bk': list(range(3, 10)),
+        'zeta': list(range(3, 10)),
     }
 
     # Check arguments.
-- 
2.43.0


From dc728611f4ef69fc5767aae4864b136ce448b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 094/108] fix: measurement files in subdirectories could not be
 combined

---
 apps/io/comb_data_vectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/io/comb_data_vectors.py b/apps/io/comb_data_vectors.py
index a74c2ee..5635551 100644
--- a/apps/io/comb_data_vectors.py
+++ b/apps/io/comb_data_vectors.py
@@ -161,10 +161,10 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
 
     # Match files.
     paths_found = []
-    for _, _, filenames in os.walk(directory):
+    for dirpath, _, filenames in os.walk(directory):
         for filename in sorted(filenames):
             if re.match(fnpattern, filename):
-                paths_found.append(os.path.join(directory, filename))
+                paths_found.append(os.path.join(dirpath, filename))
 
     if len(paths_found) == 0:
         raise OSError(
@@ -173,7 +173,9 @@ def read_measurements(stat, directory, fnpattern, sn_range=None):
 
     paths = []
     for path in paths_found:
-        serial_num = int(re.search(fnpattern, path).group(1))
+        serial_num = int(
+            re.match(fnpattern, os.path.basename(path)).group(1)
+        )
         if sn_range is None or (sn_range[0] <= serial_num <= sn_range[1]):
             paths.append(path)
 
-- 
2.43.0


From 4c088d172f24ef5e877e7468460ce868af7ceeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 095/108] fix: exchange of axes of equal multipole indices
 raised an error

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index 9a67791..8d6c0cf 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -163,7 +163,7 @@ def main():
         output_filename, stat_type, multipole_ex, multipole = \
             transpose_stat_str(cfg.input_path, ret_multipole=True)
     except ValueError as err:
-        if "The first two multipole indices the same." in str(err):
+        if "The first two multipole indices are the same." in str(err):
             print(
                 "No transposition is performed as the first two multipole "
                 "indices are the same."
-- 
2.43.0


From 50701a322e6ebfb49b7ba6f1ed7a877f2fcdb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 096/108] fix: parameter files could not be generated without
 an output path

---
 apps/io/gen_param_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index f5eec85..763e664 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -86,7 +86,9 @@ def configure():
     else:
         config.file_ext = f".{config.fmt}"
 
-    config.output = config.output or f"{config.file_stem}_new{config.file_ext}"
+    config.output = config.output or str(
+        Path(config.template_path).with_suffix('')
+    ) + f"_new{config.file_ext}"
 
     return config
 
-- 
2.43.0


From 22c37281d45bbd88c8238ed8f15d35bf79433293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 097/108] fix: parameter files could not be generated without
 modifications

---
 apps/io/gen_param_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index 763e664..4742136 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -73,7 +73,7 @@ def configure():
     )
 
     parser.add_argument(
-        '-p', '--modify', action='append', nargs=2,
+        '-p', '--modify', action='append', nargs=2, default=[],
         metavar=('PARAM_NAME', 'PARAM_VALUE'),
         help="pairwise modified parameter name(s) and value(s)"
     )
-- 
2.43.0


From 2bb7fdf6ebdc5c3cc23ddf3bfaa82723e3b26663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 098/108] fix: unset and boolean values of parameter files
 could not be modified

---
 apps/io/gen_param_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/io/gen_param_file.py b/apps/io/gen_param_file.py
index 4742136..d89c63b 100644
--- a/apps/io/gen_param_file.py
+++ b/apps/io/gen_param_file.py
@@ -121,6 +121,9 @@ def setitem_nested_dict(dictionary, keychain, value):
     try:
         if isinstance(base_dict[key_child], list):
             base_dict[key_child] = literal_eval(value)
+        elif base_dict[key_child] is None \
+                or isinstance(base_dict[key_child], bool):
+            base_dict[key_child] = yaml.safe_load(value)
         else:
             base_dict[key_child] = type(base_dict[key_child])(value)
     except KeyError as err:
-- 
2.43.0


From 57ec167d3a86826c850c7c5f554b7a619d6103d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 099/108] fix: vanishing window convolution coefficients were
 listed

---
 apps/calculators/gen_wc_coeffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/calculators/gen_wc_coeffs.py b/apps/calculators/gen_wc_coeffs.py
index a85efd6..e806f10 100644
--- a/apps/calculators/gen_wc_coeffs.py
+++ b/apps/calculators/gen_wc_coeffs.py
@@ -92,7 +92,7 @@ def main():
         wc_coeff = calc_threept_winconv_coeff(
             convolved_multipole, wmpole, umpole, symb=True
         )
-        if wc_coeff != 0.:
+        if wc_coeff != 0:
             terms.append(WinConvTerm(wmpole, umpole, wc_coeff))
 
     # Sort terms.
-- 
2.43.0


From 7800a7f8bca587414e61bc5ce7d596901d5868cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 100/108] fix: error when all window convolution coefficients
 vanish

---
 apps/calculators/gen_wc_coeffs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/calculators/gen_wc_coeffs.py b/apps/calculators/gen_wc_coeffs.py
index e806f10..0832d16 100644
--- a/apps/calculators/gen_wc_coeffs.py
+++ b/apps/calculators/gen_wc_coeffs.py
@@ -120,7 +120,7 @@ def main():
             print(f"Saved terms to file: {args.save}.npy")
 
     # Print terms.
-    maxlen_coeff = max(len(str(term.coeff)) for term in terms)
+    maxlen_coeff = max((len(str(term.coeff)) for term in terms), default=0)
     fmt_str = f"{{:}}: {{: >{maxlen_coeff}}} Q_{{{{{{:}}}}}} Z_{{{{{{:}}}}}}"
 
     for term in terms:
-- 
2.43.0


From 2255139b8d918d32e110dc1e7818d4233b6a360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:14 +0000
Subject: [PATCH 101/108] fix: multipole indices not exchanged in the header of
 window function files

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index 8d6c0cf..a4e18d4 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -195,7 +195,7 @@ def main():
             headerlines.append(line)
             line = measurement_file.readline()
     headerlines[-1] = headerlines[-1].replace(
-        stat_type + multipole, stat_type + multipole_ex
+        stat_type.rstrip('w') + multipole, stat_type.rstrip('w') + multipole_ex
     )
     header = ''.join(headerlines).rstrip()
 
-- 
2.43.0


From 557a54956248f666f7b1948a99278285f6c95990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 102/108] fix: axes of single-row measurement files could not
 be exchanged

---
 apps/io/exchange_coord_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/io/exchange_coord_axes.py b/apps/io/exchange_coord_axes.py
index a4e18d4..9e82c05 100644
--- a/apps/io/exchange_coord_axes.py
+++ b/apps/io/exchange_coord_axes.py
@@ -200,7 +200,7 @@ def main():
     header = ''.join(headerlines).rstrip()
 
     # Transpose the data table.
-    datatab = np.loadtxt(cfg.input_path)
+    datatab = np.loadtxt(cfg.input_path, ndmin=2)
     datatab_ex = transpose_datatab(datatab)
 
     # Save the transposed data table.
-- 
2.43.0


From 52887496af4e99697ad7eec9eced910d841290d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 103/108] fix: parameter ranges given as tuples could not be
 overridden

---
 src/triumvirate/parameters.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index ebaa738..ef0e182 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -952,9 +952,13 @@ def _modify_measurement_parameters(paramset, params_measure=None,
         if params_default: params_default.pop('form', None)
 
     if 'bin_min' in params_measure.keys():
-        paramset['range'][0] = params_measure['bin_min']
+        paramset['range'] = [
+            params_measure['bin_min'], paramset['range'][1]
+        ]
     if 'bin_max' in params_measure.keys():
-        paramset['range'][1] = params_measure['bin_max']
+        paramset['range'] = [
+            paramset['range'][0], params_measure['bin_max']
+        ]
     if 'num_bins' in params_measure.keys():
         paramset['num_bins'] = params_measure['num_bins']
         if params_default: params_default.pop('num_bins', None)
-- 
2.43.0


From 7756793da2869179a189307c7a45a798a2392678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 104/108] fix: scheme of an explicit binning did not override
 the parameter set

---
 src/triumvirate/parameters.pyx | 4 ++++
 src/triumvirate/threept.py     | 1 +
 src/triumvirate/twopt.py       | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/triumvirate/parameters.pyx b/src/triumvirate/parameters.pyx
index ef0e182..bdff5a5 100644
--- a/src/triumvirate/parameters.pyx
+++ b/src/triumvirate/parameters.pyx
@@ -895,6 +895,7 @@ def _modify_measurement_parameters(paramset, params_measure=None,
         - 'ell1', 'ell2', 'ELL': int;
         - 'i_wa', 'j_wa': int;
         - 'form': {'full', 'diag', 'off-diag', 'row'};
+        - 'binning': {'lin', 'log', 'linpad', 'logpad', 'custom'};
         - 'bin_min', 'bin_max': float;
         - 'num_bins': int;
         - 'idx_bin': int.
@@ -951,6 +952,9 @@ def _modify_measurement_parameters(paramset, params_measure=None,
         paramset['form'] = params_measure['form']
         if params_default: params_default.pop('form', None)
 
+    if 'binning' in params_measure.keys():
+        paramset['binning'] = params_measure['binning']
+        if params_default: params_default.pop('binning', None)
     if 'bin_min' in params_measure.keys():
         paramset['range'] = [
             params_measure['bin_min'], paramset['range'][1]
diff --git a/src/triumvirate/threept.py b/src/triumvirate/threept.py
index a4cba0d..eff4f1e 100644
--- a/src/triumvirate/threept.py
+++ b/src/triumvirate/threept.py
@@ -171,6 +171,7 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         })
     if binning is not None:
         params_measure.update({
+            'binning': binning.scheme,
             'bin_min': binning.bin_min,
             'bin_max': binning.bin_max,
             'num_bins': binning.num_bins,
diff --git a/src/triumvirate/twopt.py b/src/triumvirate/twopt.py
index 06188a4..e682db8 100644
--- a/src/triumvirate/twopt.py
+++ b/src/triumvirate/twopt.py
@@ -137,6 +137,7 @@ def _amalgamate_parameters(paramset=None, params_sampling=None,
         params_measure.update({'ELL': degree})
     if binning is not None:
         params_measure.update({
+            'binning': binning.scheme,
             'bin_min': binning.bin_min,
             'bin_max': binning.bin_max,
             'num_bins': binning.num_bins,
-- 
2.43.0


From a46b5fa04e2b02ad3cd4a105aa7ba391cc6a8b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 105/108] fix: files which could not be opened or written in
 full were not reported

---
 src/triumvirate/include/io.hpp       | 18 ++++++++++++++
 src/triumvirate/main/triumvirate.cpp | 36 ++++++++++++++--------------
 src/triumvirate/src/field.cpp        |  4 ++--
 src/triumvirate/src/io.cpp           | 27 +++++++++++++++++++++
 src/triumvirate/src/parameters.cpp   |  9 ++++++-
 5 files changed, 73 insertions(+), 21 deletions(-)

diff --git a/src/triumvirate/include/io.hpp b/src/triumvirate/include/io.hpp
index 9043115..7965144 100644
--- a/src/triumvirate/include/io.hpp
+++ b/src/triumvirate/include/io.hpp
@@ -63,6 +63,24 @@ bool if_filepath_is_set(const std::string& pathstr);
  */
 void make_write_dir(std::string dirstr);
 
+/**
+ * @brief Open a file for writing.
+ *
+ * @param filepath File path.
+ * @returns File pointer.
+ * @throws trv::sys::IOError When the file cannot be opened.
+ */
+std::FILE* open_write_file(const std::string& filepath);
+
+/**
+ * @brief Close a file opened for writing.
+ *
+ * @param fileptr File pointer.
+ * @param filepath File path.
+ * @throws trv::sys::IOError When the file has not been written in full.
+ */
+void close_write_file(std::FILE* fileptr, const std::string& filepath);
+
 }  // namespace trv::sys
 
 
diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index aa382e9..a42b7a3 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -617,7 +617,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -627,7 +627,7 @@ int main(int argc, char* argv[]) {
       meas_powspec = trv::compute_powspec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -636,7 +636,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_powspec
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "2pcf") {
     std::snprintf(
@@ -650,7 +650,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -660,7 +660,7 @@ int main(int argc, char* argv[]) {
       meas_2pcf = trv::compute_corrfunc_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -669,7 +669,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_2pcf
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "2pcf-win") {
     std::snprintf(
@@ -680,7 +680,7 @@ int main(int argc, char* argv[]) {
     trv::TwoPCFWindowMeasurements meas_2pcf_win = trv::compute_corrfunc_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor
     );  // two-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = trv::sys::open_write_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -688,7 +688,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_2pcf_win
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "bispec") {
     if (params.form == "full" || params.form == "diag") {
@@ -723,7 +723,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -733,7 +733,7 @@ int main(int argc, char* argv[]) {
       meas_bispec = trv::compute_bispec_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -742,7 +742,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_bispec
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf") {
     if (params.form == "full" || params.form == "diag") {
@@ -777,7 +777,7 @@ int main(int argc, char* argv[]) {
         catalogue_data, catalogue_rand, los_data, los_rand,
         params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data, catalogue_rand,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -787,7 +787,7 @@ int main(int argc, char* argv[]) {
       meas_3pcf = trv::compute_3pcf_in_gpp_box(
         catalogue_data, params, binning, norm_factor
       );
-      save_fileptr = std::fopen(save_filepath, "w");
+      save_fileptr = trv::sys::open_write_file(save_filepath);
       trv::io::print_measurement_header_to_file(
         save_fileptr, params, catalogue_data,
         norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -796,7 +796,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf-win") {
     if (params.form == "full" || params.form == "diag") {
@@ -829,7 +829,7 @@ int main(int argc, char* argv[]) {
     trv::ThreePCFWindowMeasurements meas_3pcf_win = trv::compute_3pcf_window(
       catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
     );  // three-point correlation function window
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = trv::sys::open_write_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -837,7 +837,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf_win
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   } else
   if (params.statistic_type == "3pcf-win-wa") {
     if (params.form == "full" || params.form == "diag") {
@@ -875,7 +875,7 @@ int main(int argc, char* argv[]) {
       trv::compute_3pcf_window(
         catalogue_rand, los_rand, params, binning, alpha, norm_factor, wa
       );  // three-point correlation function window wide-angle corrections
-    std::FILE* save_fileptr = std::fopen(save_filepath, "w");
+    std::FILE* save_fileptr = trv::sys::open_write_file(save_filepath);
     trv::io::print_measurement_header_to_file(
       save_fileptr, params, catalogue_rand,
       norm_factor_part, norm_factor_mesh, norm_factor_meshes
@@ -883,7 +883,7 @@ int main(int argc, char* argv[]) {
     trv::io::print_measurement_datatab_to_file(
       save_fileptr, params, meas_3pcf_win_wa
     );
-    std::fclose(save_fileptr);
+    trv::sys::close_write_file(save_fileptr, save_filepath);
   }
 
   if (params.save_binned_vectors != "") {
diff --git a/src/triumvirate/src/field.cpp b/src/triumvirate/src/field.cpp
index 18bd4ad..422aa84 100644
--- a/src/triumvirate/src/field.cpp
+++ b/src/triumvirate/src/field.cpp
@@ -2598,11 +2598,11 @@ OMP_CRITICAL
 
   // Save the binned vectors.
   if (save_file != "") {
-    std::FILE* save_fileptr = std::fopen(save_file.c_str(), "w");
+    std::FILE* save_fileptr = trvs::open_write_file(save_file);
     trv::io::print_binned_vectors_to_file(
       save_fileptr, this->params, binned_vectors_sorted
     );
-    std::fclose(save_fileptr);
+    trvs::close_write_file(save_fileptr, save_file);
 
     if (trvs::currTask == 0) {
       trvs::logger.info(
diff --git a/src/triumvirate/src/io.cpp b/src/triumvirate/src/io.cpp
index 53838b5..10c13e5 100644
--- a/src/triumvirate/src/io.cpp
+++ b/src/triumvirate/src/io.cpp
@@ -86,6 +86,33 @@ void make_write_dir(std::string dirstr) {
   }
 }
 
+std::FILE* open_write_file(const std::string& filepath) {
+  std::FILE* fileptr = std::fopen(filepath.c_str(), "w");
+  if (fileptr == nullptr) {
+    if (trv::sys::currTask == 0) {
+      trv::sys::logger.error(
+        "Failed to open file for writing: %s", filepath.c_str()
+      );
+    }
+    throw trv::sys::IOError(
+      "Failed to open file for writing: %s", filepath.c_str()
+    );
+  }
+
+  return fileptr;
+}
+
+void close_write_file(std::FILE* fileptr, const std::string& filepath) {
+  bool failed = std::ferror(fileptr) != 0;
+  failed = (std::fclose(fileptr) != 0) || failed;
+  if (failed) {
+    if (trv::sys::currTask == 0) {
+      trv::sys::logger.error("Failed to write file: %s", filepath.c_str());
+    }
+    throw trv::sys::IOError("Failed to write file: %s", filepath.c_str());
+  }
+}
+
 }  // namespace trv::sys
 
 
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 76780d7..d9f65de 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1466,7 +1466,14 @@ int ParameterSet::print_to_file(char* out_parameter_filepath) {
   print_par_int("verbose = %d\n", this->verbose);
   print_par_int("fftw_planner_flag = %d\n", this->fftw_planner_flag);
 
-  std::fclose(ofileptr);
+  bool failed = std::ferror(ofileptr) != 0;
+  failed = (std::fclose(ofileptr) != 0) || failed;
+  if (failed) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error("Failed to write file: %s", out_parameter_filepath);
+    }
+    throw trvs::IOError("Failed to write file: %s", out_parameter_filepath);
+  }
 
   if (trvs::currTask == 0) {
     trvs::logger.info(
-- 
2.43.0


From a41e2ead210e34b7f7c783b12a8cc4640bd0b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:06 +0000
Subject: [PATCH 106/108] fix: catalogue files which could not be read to the
 end were taken as shorter

---
 src/triumvirate/src/particles.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/triumvirate/src/particles.cpp b/src/triumvirate/src/particles.cpp
index 50f3256..946bed0 100644
--- a/src/triumvirate/src/particles.cpp
+++ b/src/triumvirate/src/particles.cpp
@@ -443,6 +443,18 @@ int ParticleCatalogue::load_catalogue_file(
         num_lines++;
       }
 
+      // Check that the file has been read to its end.
+      if (fin.bad()) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Failed to read file: %s", ctlg_subfilepath.c_str()
+          );
+        }
+        throw trvs::IOError(
+          "Failed to read file: %s", ctlg_subfilepath.c_str()
+        );
+      }
+
       fin.close();
 
       nentry += num_lines;
@@ -524,6 +536,18 @@ int ParticleCatalogue::load_catalogue_file(
         idx_entry++;
       }
 
+      // Check that the file has been read to its end.
+      if (fin.bad() || !fin.is_open()) {
+        if (trvs::currTask == 0) {
+          trvs::logger.error(
+            "Failed to read file: %s", ctlg_subfilepath.c_str()
+          );
+        }
+        throw trvs::IOError(
+          "Failed to read file: %s", ctlg_subfilepath.c_str()
+        );
+      }
+
       fin.close();
     }
   }
-- 
2.43.0


From 1dbe59898d20f689982681909c9e61416b669ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:30 +0000
Subject: [PATCH 107/108] fix: parameter files which could not be read to the
 end were taken as shorter

---
 src/triumvirate/main/triumvirate.cpp |  2 ++
 src/triumvirate/src/parameters.cpp   | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/triumvirate/main/triumvirate.cpp b/src/triumvirate/main/triumvirate.cpp
index a42b7a3..4aa6a9c 100644
--- a/src/triumvirate/main/triumvirate.cpp
+++ b/src/triumvirate/main/triumvirate.cpp
@@ -174,6 +174,8 @@ int main(int argc, char* argv[]) {
     exit_code = params.read_from_file(argv[1]);
   } catch (const trv::sys::InvalidParameterError& err) {
     exit_code = 1;
+  } catch (const trv::sys::IOError& err) {
+    exit_code = 1;
   }
   if (exit_code != 0) {
     if (trv::sys::currTask == 0) {
diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index d9f65de..6ed024c 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -101,6 +101,12 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
   std::string param_filepath = parameter_filepath;
 
   std::ifstream fin(param_filepath.c_str());
+  if (fin.fail()) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error("Failed to open file: %s", param_filepath.c_str());
+    }
+    throw trvs::IOError("Failed to open file: %s", param_filepath.c_str());
+  }
 
   // Initialise temporary variables to hold the extracted parameters.
   // NOTE: Assume file systems allow path character lengths up to 4096,
@@ -286,6 +292,14 @@ int ParameterSet::read_from_file(char* parameter_filepath) {
     scan_par_int("verbose", this->verbose);
   }
 
+  // Check that the file has been read to its end.
+  if (fin.bad()) {
+    if (trvs::currTask == 0) {
+      trvs::logger.error("Failed to read file: %s", param_filepath.c_str());
+    }
+    throw trvs::IOError("Failed to read file: %s", param_filepath.c_str());
+  }
+
   // ---------------------------------------------------------------------
   // Attribution
   // ---------------------------------------------------------------------
-- 
2.43.0


From 93960881cde99f329ce2ab75d39200c0ead83207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:13 +0000
Subject: [PATCH 108/108] fix: default file of binned vectors did not follow an
 overriding output tag

---
 src/triumvirate/src/parameters.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/triumvirate/src/parameters.cpp b/src/triumvirate/src/parameters.cpp
index 6ed024c..10c8d79 100644
--- a/src/triumvirate/src/parameters.cpp
+++ b/src/triumvirate/src/parameters.cpp
@@ -1513,6 +1513,13 @@ void override_paramset_by_envvars(trv::ParameterSet& params) {
   // Override the output tag.
   char* ev_tag = std::getenv("TRV_OVERRIDE_OUTPUT_TAG");
   if (ev_tag != nullptr) {
+    // The default path for binned vectors is to follow the output tag.
+    if (
+      params.save_binned_vectors
+        == params.measurement_dir + "binned_vectors" + params.output_tag
+    ) {
+      params.save_binned_vectors = "true";
+    }
     params.output_tag = std::string(ev_tag);
   }
 
-- 
2.43.0

