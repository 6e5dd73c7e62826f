From 40a50d475d6aae9ed0cb31fe465d91681b17e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 01/33] fix: sign of middle term in C determinant of the
 dielectric tensor

det_array expanded the 3x3 determinant with the wrong sign for the second
term, so the C dipole correction disagreed with the Python one for any
dielectric tensor with xy/xz elements.
---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..39edd02 100644
--- a/c/util.c
+++ b/c/util.c
@@ -24,7 +24,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 double det_array(const double arr[9]) {
    double det;
    det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
-         arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
+         arr[1]*(arr[6]*arr[5] - arr[3]*arr[8]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
 }
-- 
2.43.0


From 19d3b3376dc74837b3fd25e09b28071764b8db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/33] fix: do not share LO-TO splitting loop variables
 between OpenMP threads

i and qpos were declared outside the parallel region, so they were shared:
threads handling different gamma points at the same time could pick each
other's q-direction, or read q_dirs out of bounds.
---
 c/_euphonic.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..678b854 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -224,6 +224,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
             double *qpt, *dmat, *eval, *modeg;
+            int i, qpos;
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
 
-- 
2.43.0


From 3c6802de45863bc96fecc7355bb62ded953bc9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 03/33] fix: workspace query for zheevd wrote past a stack
 variable

The query returns the optimal lwork as a complex number (16 bytes), but only
8 bytes were reserved for it, and lwork/lrwork were passed uninitialised.
---
 c/dyn_mat.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/dyn_mat.c b/c/dyn_mat.c
index 85f43ba..8652bf3 100644
--- a/c/dyn_mat.c
+++ b/c/dyn_mat.c
@@ -344,24 +344,24 @@ int diagonalise_dyn_mat_zheevd(const int n_atoms, const double qpt[3],
     char uplo = 'L';
     int order = 3*n_atoms;
     int lda = order;
-    int lwork, lrwork, liwork = -1;
+    int lwork = -1, lrwork = -1, liwork = -1;
     double *work, *rwork;
     int *iwork;
     int info;
 
-    // Query vars
-    double lworkopt, lrworkopt;
+    // Query vars. The optimal lwork is returned as a complex number
+    double lworkopt[2], lrworkopt;
     int liworkopt;
 
     // Workspace query
-    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, &lworkopt, &lwork,
+    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, lworkopt, &lwork,
         &lrworkopt, &lrwork, &liworkopt, &liwork, &info);
     if (info != 0) {
         printf("INFO: Zheevd failed querying workspace with info %i at "
                "q-point %f %f %f\n", info, qpt[0], qpt[1], qpt[2]);
         return info;
     }
-    lwork = (int)lworkopt;
+    lwork = (int)lworkopt[0];
     lrwork = (int)lrworkopt;
     liwork = liworkopt;
 
-- 
2.43.0


From 0655e7a03699042066fdc67fb30d7dd2960cf4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 04/33] fix: raise if zheevd fails instead of returning
 meaningless frequencies

---
 c/_euphonic.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 678b854..e66c3d8 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -200,8 +200,9 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
 
 
 
+    int zheevd_err = 0;
     omp_set_num_threads(n_threads);
-    #pragma omp parallel
+    #pragma omp parallel reduction(|:zheevd_err)
     {
         const bool calc_dmat_grad = (modegs_len > 0) ? true : false;
         double *corr, *dmat_per_q, *dmat_grad;
@@ -268,7 +269,10 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             }
 
             mass_weight_dyn_mat(dmat_weighting, n_atoms, 2, dmat);
-            diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd);
+            if (diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd) != 0) {
+                zheevd_err = 1;
+                continue;
+            }
             evals_to_freqs(n_atoms, eval);
 
             if (calc_dmat_grad) {
@@ -301,6 +305,12 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         Py_DECREF(py_dipole_init_data);
     }
 
+    if (zheevd_err) {
+        PyErr_Format(PyExc_RuntimeError,
+                     "Failed to diagonalise dynamical matrix\n");
+        return NULL;
+    }
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 60dab870f8c8ceb269ac50041f1b218c63d9c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 05/33] fix: raise MemoryError if the C extension cannot
 allocate work arrays

Previously the result of malloc was used unchecked, crashing the process.
---
 c/_euphonic.c | 42 ++++++++++++++++++++++++++++++++----------
 c/dyn_mat.c   | 22 +++++++++++++++++++---
 c/dyn_mat.h   |  8 ++++++--
 3 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index e66c3d8..4bb664d 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -201,11 +201,12 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
 
 
     int zheevd_err = 0;
+    int memory_err = 0;
     omp_set_num_threads(n_threads);
-    #pragma omp parallel reduction(|:zheevd_err)
+    #pragma omp parallel reduction(|:zheevd_err,memory_err)
     {
         const bool calc_dmat_grad = (modegs_len > 0) ? true : false;
-        double *corr, *dmat_per_q, *dmat_grad;
+        double *corr = NULL, *dmat_per_q = NULL, *dmat_grad;
         if (dipole) {
             corr = (double*) malloc(dmat_elems*sizeof(double));
         }
@@ -222,10 +223,17 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         } else {
             dmat_grad = NULL;
         }
+        if ((dipole && !corr) || (dmats_len == 0 && !dmat_per_q) ||
+            (calc_dmat_grad && !dmat_grad)) {
+            memory_err = 1;
+        }
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
+            if (memory_err) {
+                continue;
+            }
             double *qpt, *dmat, *eval, *modeg;
-            int i, qpos;
+            int i, qpos, info;
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
 
@@ -242,10 +250,13 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
                 dmat, dmat_grad);
 
             if (dipole) {
-                calculate_dipole_correction(qpt, n_atoms, cell_vec, recip_vec,
-                    atom_r, born, dielectric, H_ab, dipole_cells,
+                if (calculate_dipole_correction(qpt, n_atoms, cell_vec,
+                    recip_vec, atom_r, born, dielectric, H_ab, dipole_cells,
                     n_dipole_cells, gvec_phases, gvecs_cart, n_gvecs,
-                    dipole_q0, lambda, corr);
+                    dipole_q0, lambda, corr) != 0) {
+                    memory_err = 1;
+                    continue;
+                }
                 add_arrays(dmat_elems, corr, dmat);
             }
 
@@ -263,14 +274,22 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
                         break;
                     }
                 }
-                calculate_gamma_correction((q_dirs + 3*qpos), n_atoms,
-                    cell_vec, recip_vec, born, dielectric, corr);
+                if (calculate_gamma_correction((q_dirs + 3*qpos), n_atoms,
+                    cell_vec, recip_vec, born, dielectric, corr) != 0) {
+                    memory_err = 1;
+                    continue;
+                }
                 add_arrays(dmat_elems, corr, dmat);
             }
 
             mass_weight_dyn_mat(dmat_weighting, n_atoms, 2, dmat);
-            if (diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd) != 0) {
-                zheevd_err = 1;
+            info = diagonalise_dyn_mat_zheevd(n_atoms, qpt, dmat, eval, zheevd);
+            if (info != 0) {
+                if (info == DYN_MAT_NO_MEMORY) {
+                    memory_err = 1;
+                } else {
+                    zheevd_err = 1;
+                }
                 continue;
             }
             evals_to_freqs(n_atoms, eval);
@@ -305,6 +324,9 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         Py_DECREF(py_dipole_init_data);
     }
 
+    if (memory_err) {
+        return PyErr_NoMemory();
+    }
     if (zheevd_err) {
         PyErr_Format(PyExc_RuntimeError,
                      "Failed to diagonalise dynamical matrix\n");
diff --git a/c/dyn_mat.c b/c/dyn_mat.c
index 8652bf3..65339e6 100644
--- a/c/dyn_mat.c
+++ b/c/dyn_mat.c
@@ -7,6 +7,7 @@
 #include <string.h>
 #include "util.h"
 #include "load_libs.h"
+#include "dyn_mat.h"
 
 #define PI 3.14159265358979323846
 
@@ -105,7 +106,7 @@ void calculate_dyn_mat_at_q(const double *qpt, const int n_atoms,
     }
 }
 
-void calculate_dipole_correction(const double *qpt, const int n_atoms,
+int calculate_dipole_correction(const double *qpt, const int n_atoms,
     const double *cell_vec, const double *recip, const double *atom_r,
     const double *born, const double *dielectric, const double *H_ab,
     const double *cells, const int n_dcells, const double *gvec_phases,
@@ -177,6 +178,9 @@ void calculate_dipole_correction(const double *qpt, const int n_atoms,
     // Calculate q-point phases
     double *q_phases;
     q_phases = (double*)malloc(2*n_atoms*sizeof(double));
+    if (!q_phases) {
+        return DYN_MAT_NO_MEMORY;
+    }
     for (i = 0; i < n_atoms; i++) {
         qdotr = 0;
         for (a = 0; a < 3; a++) {
@@ -270,9 +274,10 @@ void calculate_dipole_correction(const double *qpt, const int n_atoms,
         }
     }
 
+    return 0;
 }
 
-void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
+int calculate_gamma_correction(const double q_dir[3], const int n_atoms,
     const double *cell_vec, const double *recip_vec, const double *born,
     const double *dielectric, double *corr) {
 
@@ -283,7 +288,7 @@ void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
 
     if (is_gamma(q_dir)) {
         memset(corr, 0, 2*9*n_atoms*n_atoms*sizeof(double));
-        return;
+        return 0;
     }
 
     for (a = 0; a < 3; a++) {
@@ -302,6 +307,9 @@ void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
     fac = (4*PI)/(cell_volume(cell_vec)*denominator);
 
     q_born_sum = (double*)calloc(3*n_atoms, sizeof(double));
+    if (!q_born_sum) {
+        return DYN_MAT_NO_MEMORY;
+    }
     memset(q_born_sum, 0, 3*n_atoms*sizeof(double));
     for (i = 0; i < n_atoms; i++) {
         for (a = 0; a < 3; a++) {
@@ -322,6 +330,8 @@ void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
         }
     }
     free((void*)q_born_sum);
+
+    return 0;
 }
 
 void mass_weight_dyn_mat(const double* dyn_mat_weighting, const int n_atoms,
@@ -369,6 +379,12 @@ int diagonalise_dyn_mat_zheevd(const int n_atoms, const double qpt[3],
     work = (double*)malloc(2*lwork*sizeof(double));
     rwork = (double*)malloc(lrwork*sizeof(double));
     iwork = (int*)malloc(liwork*sizeof(int));
+    if (!work || !rwork || !iwork) {
+        free((void*)work);
+        free((void*)rwork);
+        free((void*)iwork);
+        return DYN_MAT_NO_MEMORY;
+    }
 
     (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, work, &lwork,
         rwork, &lrwork, iwork, &liwork, &info);
diff --git a/c/dyn_mat.h b/c/dyn_mat.h
index 6ee9e21..24bca6a 100644
--- a/c/dyn_mat.h
+++ b/c/dyn_mat.h
@@ -1,20 +1,24 @@
 #ifndef __dyn_mat_H__
 #define __dyn_mat_H__
 
+// Returned if memory for work arrays couldn't be allocated. Outside the range
+// of possible zheevd info values
+#define DYN_MAT_NO_MEMORY -1000
+
 void calculate_dyn_mat_at_q(const double *qpt, const int n_atoms,
     const int n_cells, const int max_ims, const int *n_sc_images,
     const int *sc_image_i, const int *cell_origins, const int *sc_origins,
     const double *fc_mat, const double *all_origins_cart,
     const bool calc_dmat_grad, double *dyn_mat, double *dmat_grad);
 
-void calculate_dipole_correction(const double *qpt, const int n_atoms,
+int calculate_dipole_correction(const double *qpt, const int n_atoms,
     const double *cell_vec, const double *recip, const double *atom_r,
     const double *born, const double *dielectric, const double *H_ab,
     const double *cells, const int n_dcells, const double *gvec_phases,
     const double *gvecs_cart, const int n_gvecs, const double *dipole_q0,
     const double lambda, double *corr);
 
-void calculate_gamma_correction(const double q_dir[3], const int n_atoms,
+int calculate_gamma_correction(const double q_dir[3], const int n_atoms,
     const double *cell_vec, const double *recip_vec, const double *born,
     const double *dielectric, double *corr);
 
-- 
2.43.0


From 225c57c0a7e3ed0836416bcfd3aaa78600628233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 06/33] fix: discard cached data when force constants, Born
 charges or dielectric are replaced

---
 euphonic/force_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..4f07053 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -131,6 +131,8 @@ class ForceConstants:
     def force_constants(self, value: Quantity) -> None:
         self.force_constants_unit = str(value.units)
         self._force_constants = value.to('hartree/bohr**2').magnitude
+        # Data derived from the old value must be recalculated
+        self.__dict__.pop('_force_constants_asr', None)
 
     @property
     def born(self) -> Union[Quantity, None]:
@@ -143,6 +145,7 @@ class ForceConstants:
     def born(self, value: Quantity) -> None:
         self.born_unit = str(value.units)
         self._born = value.to('e').magnitude
+        self.__dict__.pop('_dipole_init_data', None)
 
     @property
     def dielectric(self) -> Union[Quantity, None]:
@@ -156,6 +159,7 @@ class ForceConstants:
     def dielectric(self, value: Quantity) -> None:
         self.dielectric_unit = str(value.units)
         self._dielectric = value.to('e**2/(bohr*hartree)').magnitude
+        self.__dict__.pop('_dipole_init_data', None)
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-- 
2.43.0


From 9027da202851cc2a2a7d26b20219d9bcfd488484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 07/33] fix: reciprocal ASR correction must project with the
 conjugate eigenvector

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 4f07053..172bb04 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1456,7 +1456,7 @@ class ForceConstants:
                                         dtype=np.complex128)
         for i, ac in enumerate(ac_i):
             recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
-                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
+                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac].conj())
 
         return recip_asr_correction
 
-- 
2.43.0


From d03dc817d2d28b8a4e0684ceabff96cff6370625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 08/33] fix: acoustic sum rule only falls back to uncorrected
 data when there are no 3 acoustic modes

Any exception, such as a MemoryError, raised while looking for the acoustic
modes was turned into a warning, and (for the real-space correction) the
uncorrected force constants were then used by every later calculation.
---
 euphonic/force_constants.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 172bb04..31d7e51 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -29,6 +29,10 @@ class ImportCError(Exception):
     pass
 
 
+class AcousticModesError(Exception):
+    pass
+
+
 class ForceConstants:
     """
     A class to read and store the data required for a phonon
@@ -1399,7 +1403,7 @@ class ForceConstants:
 
         try:
             ac_i, evals, evecs = self._find_acoustic_modes(sq_fc)
-        except Exception:
+        except (AcousticModesError, np.linalg.LinAlgError):
             warnings.warn((
                 '\nError correcting for acoustic sum rule, could not '
                 'find 3 acoustic modes.\nReturning uncorrected FC '
@@ -1445,7 +1449,7 @@ class ForceConstants:
         try:
             ac_i, g_evals, g_evecs = self._find_acoustic_modes(
                 dyn_mat_gamma)
-        except Exception:
+        except (AcousticModesError, np.linalg.LinAlgError):
             warnings.warn(('\nError correcting for acoustic sum rule, '
                            'could not find 3 acoustic modes.\nNot '
                            'correcting dynamical matrix'), stacklevel=3)
@@ -1497,7 +1501,7 @@ class ForceConstants:
         sc_mass = 1.0*n_atoms
         # Check number of acoustic modes
         if np.sum(c_of_m_disp_sq > sensitivity*sc_mass) < 3:
-            raise Exception('Could not find 3 acoustic modes')
+            raise AcousticModesError('Could not find 3 acoustic modes')
         # Find idx of acoustic modes (3 largest c of m displacements)
         ac_i = np.argsort(c_of_m_disp_sq)[-3:]
 
-- 
2.43.0


From 52ff588ec4350206b008ef01e36c65350cc92011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:00 +0000
Subject: [PATCH 09/33] fix: calculations sharing a ForceConstants object
 between threads no longer use each other's data

The dipole initialisation data and the arrays read by the C extension were
read back from the object, where another thread calculating with a different
dipole_parameter, or calculating the supercell images, may have replaced them.
---
 euphonic/force_constants.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 31d7e51..8e3a18b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1,3 +1,4 @@
+import copy
 import math
 import os
 import sys
@@ -586,12 +587,16 @@ class ForceConstants:
         masses = np.tile(np.repeat(atom_mass, 3), (3*n_atoms, 1))
         dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
 
-        # Initialise dipole correction calc to FC matrix if required
-        if dipole and (not hasattr(self, '_dipole_init_data') or
-                       dipole_parameter != self._dipole_init_data[
+        # Initialise dipole correction calc to FC matrix if required. Keep
+        # hold of the data, as self._dipole_init_data may be replaced by
+        # another thread using a different dipole_parameter
+        dipole_init_data = getattr(self, '_dipole_init_data', None)
+        if dipole and (dipole_init_data is None or
+                       dipole_parameter != dipole_init_data[
                            'dipole_parameter']):
-            self._dipole_init_data = self._dipole_correction_init(
+            dipole_init_data = self._dipole_correction_init(
                 self.crystal, self._born, self._dielectric, dipole_parameter)
+            self._dipole_init_data = dipole_init_data
 
         force_constants = self._force_constants
         if asr == 'realspace':
@@ -616,7 +621,7 @@ class ForceConstants:
             if dipole:
                 dyn_mat_gamma += self._calculate_dipole_correction(
                     q_gamma, self.crystal, self._born, self._dielectric,
-                    self._dipole_init_data)
+                    dipole_init_data)
             recip_asr_correction = self._enforce_reciprocal_asr(dyn_mat_gamma)
 
 
@@ -691,10 +696,14 @@ class ForceConstants:
             dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
                             '_cells', '_gvec_phases', '_gvecs_cart',
                             '_dipole_q0']
-            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            # Use a shallow copy so the attributes passed to C can't be
+            # replaced by another thread before C has read them
+            c_data = copy.copy(self)
+            c_data._dipole_init_data = dipole_init_data
+            _ensure_contiguous_attrs(c_data, attrs, opt_attrs=dipole_attrs)
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
-                    self, cell_vectors, recip_vectors, reduced_qpts,
+                    c_data, cell_vectors, recip_vectors, reduced_qpts,
                     split_idx, q_dirs, fc_img_weighted, sc_origins,
                     recip_asr_correction, dyn_mat_weighting, dipole,
                     splitting, rfreqs, reigenvecs, rmode_gradients,
@@ -710,7 +719,8 @@ class ForceConstants:
                 rfreqs[qi], evecs, grads = self._calculate_phonons_at_q(
                     qpt, fc_img_weighted, unique_sc_origins, unique_sc_i,
                     unique_cell_origins, unique_cell_i, all_origins_cart,
-                    dyn_mat_weighting, recip_asr_correction, dipole, q_dir)
+                    dyn_mat_weighting, recip_asr_correction, dipole, q_dir,
+                    dipole_init_data)
                 if return_eigenvectors:
                     reigenvecs[qi] = evecs
                 if return_mode_gradients:
@@ -755,7 +765,8 @@ class ForceConstants:
             dyn_mat_weighting: np.ndarray,
             recip_asr_correction: np.ndarray,
             dipole: bool,
-            q_dir: Optional[np.ndarray] = None
+            q_dir: Optional[np.ndarray] = None,
+            dipole_init_data: Optional[dict] = None
             ) -> Tuple[np.ndarray, np.ndarray, Union[np.ndarray, None]]:
         """
         Given a q-point and some precalculated q-independent values,
@@ -808,6 +819,9 @@ class ForceConstants:
         q_dir
             Shape (3,) float ndarray, the q-direction to use in LO-TO
             splitting, if applicable
+        dipole_init_data
+            The q-independent data from _dipole_correction_init, if
+            applicable
 
         Returns
         -------
@@ -829,7 +843,7 @@ class ForceConstants:
         if dipole:
             dipole_corr = self._calculate_dipole_correction(
                 qpt, self.crystal, self._born, self._dielectric,
-                self._dipole_init_data)
+                dipole_init_data)
             dyn_mat += dipole_corr
 
         if len(recip_asr_correction) > 0:
-- 
2.43.0


From db85990a300cf9cccc5443db3a435c79e7ede151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 10/33] fix: halve integer weights at split gamma points
 without truncation

---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 8e3a18b..4b17afd 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -498,8 +498,9 @@ class ForceConstants:
             # bandstructures) but we need to handle this case anyway
             # Where 1 q-point splits into 2, half the weight for each
             if weights is not None:
-                # Don't change original array
-                weights = np.copy(weights)
+                # Don't change original array. Integer weights can't be
+                # halved in place
+                weights = np.array(weights, dtype=np.float64)
                 weights[split_gamma] = weights[split_gamma]/2
                 weights = np.insert(weights, split_gamma,
                                     weights[split_gamma])
-- 
2.43.0


From 9d7f999cc9e8bf2cec1f4ece7890b98efa81c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 11/33] fix: give the C extension doubles and int32 whatever
 the arrays' type or memory layout

---
 euphonic/force_constants.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 4b17afd..bc35d7b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -684,6 +684,10 @@ class ForceConstants:
             # a very small difference and can only be seen in near-flat
             # mode gradients, but should be corrected anyway
             recip_asr_correction =  recip_asr_correction.conj().T
+            # C needs floats even where integers have been provided
+            cell_vectors, reduced_qpts, fc_img_weighted = (
+                arr.astype(np.float64, copy=False)
+                for arr in (cell_vectors, reduced_qpts, fc_img_weighted))
             # Make sure all arrays are contiguous before calling C
             (cell_vectors, recip_vectors, reduced_qpts, split_idx, q_dirs,
              fc_img_weighted, sc_origins, recip_asr_correction,
@@ -694,14 +698,19 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
-                            '_dipole_q0']
+            dipole_attrs = ['_born', '_dielectric']
             # Use a shallow copy so the attributes passed to C can't be
             # replaced by another thread before C has read them
             c_data = copy.copy(self)
+            c_data.crystal = copy.copy(self.crystal)
             c_data._dipole_init_data = dipole_init_data
+            c_data.cell_origins = np.rint(self.cell_origins).astype(np.int32)
+            c_data.crystal.atom_r = self.crystal.atom_r.astype(np.float64)
+            if dipole:
+                c_data._born = self._born.astype(np.float64)
+                c_data._dielectric = self._dielectric.astype(np.float64)
             _ensure_contiguous_attrs(c_data, attrs, opt_attrs=dipole_attrs)
+            _ensure_contiguous_attrs(c_data.crystal, ['atom_r'])
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     c_data, cell_vectors, recip_vectors, reduced_qpts,
@@ -1024,10 +1033,14 @@ class ForceConstants:
                 The dipole correction to the dynamical matrix at
                 q=0
         """
-        cell_vectors = crystal._cell_vectors
-        recip = crystal.reciprocal_cell().to('1/bohr').magnitude
+        # C needs double precision even where e.g. integers or single
+        # precision have been provided
+        cell_vectors, recip, atom_r, born, dielectric = (
+            np.asarray(arr, dtype=np.float64)
+            for arr in (crystal._cell_vectors,
+                        crystal.reciprocal_cell().to('1/bohr').magnitude,
+                        crystal.atom_r, born, dielectric))
         n_atoms = crystal.n_atoms
-        atom_r = crystal.atom_r
         inv_dielectric = np.linalg.inv(dielectric)
         sqrt_pi = math.sqrt(math.pi)
 
-- 
2.43.0


From ccdadffb93162f3027a7f399caeddfb5b5a3627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:24 +0000
Subject: [PATCH 12/33] fix: raise when a CASTEP text file is cut short or
 zero-filled instead of hanging or returning incomplete data

---
 euphonic/readers/castep.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 2e150c5..fb53f2e 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -40,6 +40,7 @@ def read_phonon_dos_data(
         'dos_bins', 'dos_bins_unit', 'dos', 'pdos'
     """
     with open(filename, 'r') as f:
+        _check_no_null_chars(f)
 
         f.readline()  # Skip BEGIN header
         n_atoms = int(f.readline().split()[-1])
@@ -72,6 +73,9 @@ def read_phonon_dos_data(
                 f'Expected "BEGIN DOS" in {filename}, got {line}')
 
         dos_data = np.loadtxt(f, max_rows=n_bins)
+        if len(dos_data) != n_bins:
+            raise EOFError(f'Expected {n_bins} DOS bins in {filename}, but '
+                           f'only found {len(dos_data)}')
 
     data_dict: Dict[str, Any] = {}
     cry_dict = data_dict['crystal'] = {}
@@ -166,6 +170,7 @@ def read_phonon_data(
         'eigenvectors' key
     """
     with open(filename, 'r') as f:
+        _check_no_null_chars(f)
 
         f.readline()  # Skip BEGIN header
         n_atoms = int(f.readline().split()[-1])
@@ -185,6 +190,7 @@ def read_phonon_data(
         # q-points as points are duplicated on LO-TO splitting
         idx = 0
         previous_qpt_id = -1
+        qpt_ids = set()
         repeated_qpt_ids = defaultdict(set)
         loto_split_indices = set()
 
@@ -198,6 +204,7 @@ def read_phonon_data(
                 and (qpt_id == previous_qpt_id)):
                 repeated_qpt_ids[qpt_id].update({idx - 1, idx})
             previous_qpt_id = qpt_id
+            qpt_ids.add(qpt_id)
 
             [f.readline() for x in range(2)]  # Skip 2 label lines
             evec_lines = np.array(
@@ -229,6 +236,10 @@ def read_phonon_data(
                     eigenvecs = np.concatenate((eigenvecs, [qeigenvec]))
             idx += 1
 
+        if len(qpt_ids) != n_qpts:
+            raise EOFError(f'Expected {n_qpts} q-points in {filename}, but '
+                           f'only found {len(qpt_ids)}')
+
     # Multiple qpts with same CASTEP q-pt index: correct weights
     for qpt_id, indices in repeated_qpt_ids.items():
         if (prefer_non_loto
@@ -271,6 +282,24 @@ def read_phonon_data(
     return data_dict
 
 
+def _check_no_null_chars(f: TextIO) -> None:
+    """
+    Raises an error if a text file contains null characters, so is
+    damaged (e.g. zero-filled blocks left by a system crash), as these
+    might otherwise be read as part of a valid line
+
+    Parameters
+    ----------
+    f
+        File object in read mode for the text file
+    """
+    for line in f:
+        if '\0' in line:
+            raise ValueError(f'Null characters found in {f.name}, '
+                             f'the file is damaged')
+    f.seek(0)
+
+
 def _read_crystal_info(
         f: TextIO, n_atoms: int
         ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, np.ndarray]:
@@ -300,8 +329,10 @@ def _read_crystal_info(
         Shape (n_atoms,) float ndarray. The mass of each atom in the
         unit cell in atomic mass units
     """
-    while 'Unit cell vectors' not in f.readline():
-        pass
+    while 'Unit cell vectors' not in (line := f.readline()):
+        if not line:
+            raise EOFError(
+                f'Unexpected end of file reading crystal from {f.name}')
     cell_vectors = np.array([[float(x) for x in f.readline().split()[0:3]]
                              for i in range(3)])
     f.readline()  # Skip fractional co-ordinates label
-- 
2.43.0


From 4bf873e44d30c8e167c931e0e54a4e72568ce236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:11 +0000
Subject: [PATCH 13/33] fix: raise when Phonopy yaml, BORN or force constants
 files are incomplete or hold no numbers

---
 euphonic/readers/phonopy.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..9fd6f03 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -84,6 +84,19 @@ def _extract_phonon_data_yaml(filename: str,
     phonons = [phon for phon in phonon_data['phonon']]
     bands_data_each_qpt = [bands_data['band'] for bands_data in phonons]
 
+    # Incomplete files may still be valid yaml, so check against header
+    n_qpts = phonon_data.get('nqpoint', len(phonons))
+    if len(phonons) != n_qpts:
+        raise ValueError(f'Expected {n_qpts} q-points in {filename}, but '
+                         f'found {len(phonons)}')
+    if 'natom' in phonon_data:
+        n_modes = 3*phonon_data['natom']
+        for bands_data in bands_data_each_qpt:
+            if len(bands_data) != n_modes:
+                raise ValueError(f'Expected {n_modes} bands at each q-point '
+                                 f'in {filename}, but found '
+                                 f'{len(bands_data)}')
+
     data_dict['qpts'] = np.array([phon['q-position'] for phon in phonons])
     data_dict['frequencies'] = np.array(
         [[band_data['frequency'] for band_data in bands_data]
@@ -373,6 +386,8 @@ def _extract_force_constants(fc_pathname: str, n_atoms: int, n_cells: int,
         fc = np.genfromtxt(fc_pathname, skip_header=1,
                            max_rows=4*(n_atoms*n_cells)**2, usecols=(0,1,2),
                            invalid_raise=False)
+    if not np.all(np.isfinite(fc)):
+        raise ValueError(f'Values that are not numbers found in {fc_pathname}')
     return fc.reshape(fc_dims + [3, 3])
 
 
@@ -554,6 +569,12 @@ def _extract_summary(filename: str, fc_extract: bool = False
         # not necessarily contain NAC factor, so just try reading it
         # from phonopy.yaml anyway
 
+        # An incomplete file may end after one of these keys
+        nac_object = summary_object.get('nac', summary_object)
+        for key in ('born_effective_charge', 'dielectric_constant'):
+            if key in nac_object and nac_object[key] is None:
+                raise ValueError(f'{key} in {filename} is empty')
+
         # New format
         if 'nac' in summary_object:
             nac = summary_object['nac']
-- 
2.43.0


From 578d837014751ee2e0a29dd05bca7e49d9382ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 14/33] fix: failed unit changes and assignments leave objects
 unchanged, and reciprocal display units are refused

---
 euphonic/crystal.py             |  4 ++--
 euphonic/debye_waller.py        |  2 +-
 euphonic/force_constants.py     | 10 +++++-----
 euphonic/qpoint_frequencies.py  |  2 +-
 euphonic/qpoint_phonon_modes.py |  2 +-
 euphonic/spectra.py             | 32 ++++++++++++++++++--------------
 euphonic/validate.py            | 15 ++++++++++++---
 7 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 57191a5..1b1691d 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -80,7 +80,7 @@ class Crystal:
                 
     @property
     def cell_vectors(self) -> Quantity:
-        return self._cell_vectors*ureg('bohr').to(
+        return (self._cell_vectors*ureg('bohr')).to(
             self.cell_vectors_unit)
 
     @cell_vectors.setter
@@ -90,7 +90,7 @@ class Crystal:
 
     @property
     def atom_mass(self) -> Quantity:
-        return self._atom_mass*ureg('m_e').to(
+        return (self._atom_mass*ureg('m_e')).to(
             self.atom_mass_unit)
 
     @atom_mass.setter
diff --git a/euphonic/debye_waller.py b/euphonic/debye_waller.py
index c05dcea..e445545 100644
--- a/euphonic/debye_waller.py
+++ b/euphonic/debye_waller.py
@@ -59,7 +59,7 @@ class DebyeWaller:
 
     @property
     def debye_waller(self) -> Quantity:
-        return self._debye_waller*ureg('bohr**2').to(
+        return (self._debye_waller*ureg('bohr**2')).to(
             self.debye_waller_unit)
 
     @debye_waller.setter
diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index bc35d7b..e11910a 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -128,8 +128,8 @@ class ForceConstants:
 
     @property
     def force_constants(self) -> Quantity:
-        return self._force_constants*ureg(
-            'hartree/bohr**2').to(
+        return (self._force_constants*ureg(
+            'hartree/bohr**2')).to(
                 self.force_constants_unit)
 
     @force_constants.setter
@@ -142,7 +142,7 @@ class ForceConstants:
     @property
     def born(self) -> Union[Quantity, None]:
         if self._born is not None:
-            return self._born*ureg('e').to(self.born_unit)
+            return (self._born*ureg('e')).to(self.born_unit)
         else:
             return None
 
@@ -155,8 +155,8 @@ class ForceConstants:
     @property
     def dielectric(self) -> Union[Quantity, None]:
         if self._dielectric is not None:
-            return self._dielectric*ureg((
-                'e**2/(bohr*hartree)')).to(self.dielectric_unit)
+            return (self._dielectric*ureg((
+                'e**2/(bohr*hartree)'))).to(self.dielectric_unit)
         else:
             return None
 
diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index 63310b2..ddbe63d 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -79,7 +79,7 @@ class QpointFrequencies:
 
     @property
     def frequencies(self) -> Quantity:
-        return self._frequencies*ureg('hartree').to(self.frequencies_unit)
+        return (self._frequencies*ureg('hartree')).to(self.frequencies_unit)
 
     @frequencies.setter
     def frequencies(self, value: Quantity) -> None:
diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..9430643 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -419,7 +419,7 @@ class QpointPhononModes(QpointFrequencies):
                                                  rot_cart[s], dw, rot_cart[s])
             dw = dw_tmp/len(rot)
 
-        dw = dw*ureg('bohr**2').to(self.crystal.cell_vectors_unit + '**2')
+        dw = dw*ureg('bohr**2').to(f'{self.crystal.cell_vectors_unit}**2')
         return DebyeWaller(self.crystal, dw, temperature)
 
     def calculate_pdos(
diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..221e855 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -38,7 +38,8 @@ class Spectrum(ABC):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['x_data_unit', 'y_data_unit'])
+                               ['x_data_unit', 'y_data_unit', 'z_data_unit'],
+                               'reciprocal_spectroscopy')
         super().__setattr__(name, value)
 
     def _set_data(self, data: Quantity, attr_name: str) -> None:
@@ -47,6 +48,18 @@ class Spectrum(ABC):
         setattr(self, f'_internal_{attr_name}_data_unit', str(data.units))
         setattr(self, f'{attr_name}_data_unit', str(data.units))
 
+    def _replace_data(self, data: Quantity, attr_name: str) -> None:
+        # Check and convert before changing anything, so that nothing is
+        # changed if it fails
+        unit_name = f'{attr_name}_data_unit'
+        _check_unit_conversion(self, unit_name, str(data.units), [unit_name],
+                               'reciprocal_spectroscopy')
+        magnitude = data.to(getattr(self, f'_internal_{attr_name}_data_unit'),
+                            'reciprocal_spectroscopy').magnitude
+        setattr(self, unit_name, str(data.units))
+        setattr(self, f'_{attr_name}_data',
+                np.array(magnitude, dtype=np.float64))
+
     @property
     def x_data(self) -> Quantity:
         return ureg.Quantity(self._x_data, self._internal_x_data_unit
@@ -54,8 +67,7 @@ class Spectrum(ABC):
 
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
-        self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._replace_data(value, 'x')
 
     @property
     def y_data(self) -> Quantity:
@@ -64,8 +76,7 @@ class Spectrum(ABC):
 
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
-        self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._replace_data(value, 'y')
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1500,19 +1511,13 @@ class Spectrum2D(Spectrum):
 
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
-        self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._replace_data(value, 'z')
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
         self.z_data = self.z_data * other
         return self
 
-    def __setattr__(self, name: str, value: Any) -> None:
-        _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
-        super(Spectrum2D, self).__setattr__(name, value)
-
     def _split_by_indices(self,
                           indices: Union[Sequence[int], np.ndarray]
                           ) -> List[T]:
@@ -1919,8 +1924,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
-        self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._replace_data(value, 'z')
 
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..3e28fd5 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -56,7 +56,7 @@ def _check_constructor_inputs(
 
 
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
-                           unit_attrs: List[str]) -> None:
+                           unit_attrs: List[str], *contexts: str) -> None:
     """
     If setting an attribute on an object that relates to the units of a
     Quantity (e.g. 'frequencies_unit' in QpointPhononModes) check that
@@ -73,6 +73,9 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     unit_attrs
         Only check the unit conversion if the attribute is one of
         unit_attrs
+    *contexts
+        The names of any Pint contexts used by obj when converting to
+        this unit
 
     Raises
     ------
@@ -82,9 +85,15 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     if hasattr(obj, attr_name):
         if attr_name in unit_attrs:
             try:
-                ureg(getattr(obj, attr_name)).ito(attr_value,
-                                                  "reciprocal_spectroscopy")
+                converted = ureg.Quantity(
+                    np.array([1., 2.]), getattr(obj, attr_name)
+                    ).to(attr_value, *contexts).magnitude
+                # A reciprocal conversion (e.g. energy to wavelength) is
+                # only possible if obj converts values using contexts
+                valid = bool(contexts) or converted[1] > converted[0]
             except DimensionalityError:
+                valid = False
+            if not valid:
                 raise ValueError((
                     f'"{attr_value}" is not a known dimensionally-consistent '
                     f'unit for "{attr_name}"'))
-- 
2.43.0


From 84294c15f27345fa395d203fcaf60b12e3731990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 15/33] fix: structure factors and Debye-Waller data with a
 temperature in Celsius can be restored and used

---
 euphonic/io.py               | 2 +-
 euphonic/powder.py           | 3 ++-
 euphonic/structure_factor.py | 7 ++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..596db04 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -91,7 +91,7 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            val = ureg.Quantity(val, dictionary.pop(qkey + '_unit'))
         dictionary[qkey] = val
     return dictionary
 
diff --git a/euphonic/powder.py b/euphonic/powder.py
index b51105e..bedaff1 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -299,7 +299,8 @@ def sample_sphere_structure_factor(
                                                           **calc_modes_args)
             dw = dw_phonons.calculate_debye_waller(temperature
                                                    )  # type: DebyeWaller
-        elif not np.isclose(dw.temperature, temperature):
+        elif not np.isclose(dw.temperature.to('K').magnitude,
+                            temperature.to('K').magnitude):
             raise ValueError('Temperature argument is not consistent with '
                              'temperature stored in DebyeWaller object.')
 
diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 97d2ddb..9fa4b2f 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -91,7 +91,7 @@ class StructureFactor(QpointFrequencies):
 
     @property
     def structure_factors(self) -> Quantity:
-        return self._structure_factors*ureg('bohr**2').to(
+        return (self._structure_factors*ureg('bohr**2')).to(
             self.structure_factors_unit)
 
     @structure_factors.setter
@@ -317,7 +317,8 @@ class StructureFactor(QpointFrequencies):
         """
         if self.temperature is not None:
             if (temperature is not None
-                    and not np.isclose(temperature, self.temperature)):
+                    and not np.isclose(temperature.to('K').magnitude,
+                                       self._temperature)):
                 raise ValueError((
                     'Temperature provided to calculate the Bose factor '
                     '({:~P}) is not consistent with the temperature '
@@ -332,7 +333,7 @@ class StructureFactor(QpointFrequencies):
         kB = (1*ureg.k).to('E_h/K').magnitude
         temp = temperature.to('K').magnitude
         bose = np.zeros(self._frequencies.shape)
-        if temperature > 0:
+        if temp > 0:
             bose = 1/(np.exp(np.absolute(self._frequencies)/(kB*temp)) - 1)
         else:
             bose = 0
-- 
2.43.0


From 60b49d01490077e74f5ed15c29df23bca7a7730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:30 +0000
Subject: [PATCH 16/33] fix: save complex arrays of any memory layout and
 precision to JSON

---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 596db04..be5f0dd 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -16,8 +16,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     """
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
-            if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+            if np.issubdtype(val.dtype, np.complexfloating):
+                val = np.stack((val.real, val.imag), axis=-1)
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From a92d7ed9da2b653ed01673a22389511a6b520538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:36 +0000
Subject: [PATCH 17/33] fix: allow --pdos for materials with a single species

---
 euphonic/cli/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..b18f6b0 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -400,7 +400,8 @@ def _arrange_pdos_groups(pdos: Spectrum1DCollection,
         # Only label total DOS if there are other lines on the plot
         dos.metadata['label'] = 'Total'
         pdos = pdos.group_by('species')
-        for line_metadata in pdos.metadata['line_data']:
+        # (There is no line_data if there is only one species)
+        for line_metadata in pdos.metadata.get('line_data', [pdos.metadata]):
             line_metadata['label'] = line_metadata['species']
         if len(cl_arg_pdos) > 0:
             pdos = pdos.select(species=cl_arg_pdos)
-- 
2.43.0


From 9feb988af2078f8307e75cbf54ec059fc2e01558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 18/33] fix: leave the caller's interpolation_kwargs alone in
 BrilleInterpolator.from_force_constants

---
 euphonic/brille.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 4b33a62..475bda4 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -240,8 +240,9 @@ class BrilleInterpolator:
                'Calculating frequencies/eigenvectors...')
         if interpolation_kwargs is None:
             interpolation_kwargs = {}
-        interpolation_kwargs['insert_gamma'] = False
-        interpolation_kwargs['reduce_qpts'] = False
+        interpolation_kwargs = {**interpolation_kwargs,
+                                'insert_gamma': False,
+                                'reduce_qpts': False}
         phonons = force_constants.calculate_qpoint_phonon_modes(
             grid.rlu, **interpolation_kwargs)
 
-- 
2.43.0


From 5db94038146fee33960e73004b8bed22ecebe4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 19/33] fix: create brille grids from the cell in angstrom,
 whichever unit it is shown in

---
 euphonic/brille.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 475bda4..0978b56 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -183,7 +183,9 @@ class BrilleInterpolator:
             raise ValueError(f'Grid type "{grid_type}" not recognised')
 
         crystal = force_constants.crystal
-        cell = crystal.to_spglib_cell()
+        # Brille works in angstrom, whichever unit the crystal is shown in
+        cell = (crystal.cell_vectors.to('angstrom').magnitude,
+                *crystal.to_spglib_cell()[1:])
 
         dataset = spg.get_symmetry_dataset(cell)
         # Spglib 2.5 introduced dataclass structures:
-- 
2.43.0


From 78c6e03e5b5066ebac0a167d908c5cda08df1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:55 +0000
Subject: [PATCH 20/33] fix: spectra, their getters, dictionaries and broadened
 copies no longer share data

---
 euphonic/io.py      |  4 ++--
 euphonic/spectra.py | 22 ++++++++++++----------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index be5f0dd..84679b3 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -61,8 +61,8 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
 
         if isinstance(val, np.ndarray):
             dout[attr] = np.copy(val)
-        elif isinstance(val, list):
-            dout[attr] = val.copy()
+        elif isinstance(val, (dict, list)):
+            dout[attr] = copy.deepcopy(val)
         elif isinstance(val, Quantity):
             if isinstance(val.magnitude, np.ndarray):
                 dout[attr] = np.copy(val.magnitude)
diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 221e855..c3a41ae 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -62,7 +62,8 @@ class Spectrum(ABC):
 
     @property
     def x_data(self) -> Quantity:
-        return ureg.Quantity(self._x_data, self._internal_x_data_unit
+        return ureg.Quantity(np.copy(self._x_data),
+                             self._internal_x_data_unit
                              ).to(self.x_data_unit, "reciprocal_spectroscopy")
 
     @x_data.setter
@@ -71,8 +72,9 @@ class Spectrum(ABC):
 
     @property
     def y_data(self) -> Quantity:
-        return ureg.Quantity(self._y_data, self._internal_y_data_unit).to(
-            self.y_data_unit, "reciprocal_spectroscopy")
+        return ureg.Quantity(
+            np.copy(self._y_data), self._internal_y_data_unit).to(
+                self.y_data_unit, "reciprocal_spectroscopy")
 
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
@@ -464,7 +466,7 @@ class Spectrum1D(Spectrum):
         self._set_data(x_data, 'x')
         self._set_data(y_data, 'y')
         self.x_tick_labels = x_tick_labels
-        self.metadata = {} if metadata is None else metadata
+        self.metadata = {} if metadata is None else copy.deepcopy(metadata)
 
     def __add__(self, other: 'Spectrum1D') -> 'Spectrum1D':
         """
@@ -1200,7 +1202,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         self._set_data(y_data, 'y')
         self.x_tick_labels = x_tick_labels
 
-        self.metadata = metadata if metadata is not None else {}
+        self.metadata = copy.deepcopy(metadata) if metadata is not None else {}
         self._check_metadata()
 
     def _split_by_indices(self,
@@ -1501,12 +1503,12 @@ class Spectrum2D(Spectrum):
         self._set_data(y_data, 'y')
         self.x_tick_labels = x_tick_labels
         self._set_data(z_data, 'z')
-        self.metadata = {} if metadata is None else metadata
+        self.metadata = {} if metadata is None else copy.deepcopy(metadata)
 
     @property
     def z_data(self) -> Quantity:
         return ureg.Quantity(
-            self._z_data, self._internal_z_data_unit
+            np.copy(self._z_data), self._internal_z_data_unit
         ).to(self.z_data_unit, "reciprocal_spectroscopy")
 
     @z_data.setter
@@ -1624,7 +1626,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
@@ -1901,7 +1903,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self.x_tick_labels = x_tick_labels
         self._set_data(z_data, 'z')
 
-        self.metadata = metadata if metadata is not None else {}
+        self.metadata = copy.deepcopy(metadata) if metadata is not None else {}
         self._check_metadata()
 
     def _split_by_indices(self, indices: Sequence[int] | np.ndarray
@@ -1919,7 +1921,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @property
     def z_data(self) -> Quantity:
         return ureg.Quantity(
-            self._z_data, self._internal_z_data_unit
+            np.copy(self._z_data), self._internal_z_data_unit
         ).to(self.z_data_unit, "reciprocal_spectroscopy")
 
     @z_data.setter
-- 
2.43.0


From 814ea9253c9a9a1334dbb738be2512707256f04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 21/33] fix: scale the intensities, not the y axis, of a
 Spectrum2DCollection in place

---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index c3a41ae..766bafb 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1928,6 +1928,11 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     def z_data(self, value: Quantity) -> None:
         self._replace_data(value, 'z')
 
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self.z_data = self.z_data * other
+        return self
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 08fd1bdc8511f8e2ed10decb468fe069abb7f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:09 +0000
Subject: [PATCH 22/33] fix: combine Spectrum2D shown in any units, give
 Spectrum2DCollection correct bin edges and centres

---
 euphonic/spectra.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 766bafb..ff323c5 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1720,7 +1720,9 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin edges for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        # Count from the end so it also works for Spectrum2DCollection
+        # which has z_data shape (n_spectra, x_bins, y_bins)
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1743,7 +1745,9 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin centres for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        # Count from the end so it also works for Spectrum2DCollection
+        # which has z_data shape (n_spectra, x_bins, y_bins)
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1928,6 +1932,11 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     def z_data(self, value: Quantity) -> None:
         self._replace_data(value, 'z')
 
+    get_bin_edges = Spectrum2D.get_bin_edges
+    get_bin_centres = Spectrum2D.get_bin_centres
+    get_bin_widths = Spectrum2D.get_bin_widths
+    assert_regular_bins = Spectrum2D.assert_regular_bins
+
     def __imul__(self, other: Real) -> Self:
         """Scale spectral data in-place"""
         self.z_data = self.z_data * other
@@ -1959,9 +1968,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1969,7 +1977,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From 670d10f644b5fce7f7a5526ef0819c82683d6b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:48 +0000
Subject: [PATCH 23/33] fix: refuse to combine spectra with different numbers
 of points

---
 euphonic/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index ff323c5..7375083 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1242,6 +1242,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
             assert np.allclose(spectrum.x_data, x_data)
             assert spectrum.x_data.units == x_data.units
             assert spectrum.x_tick_labels == x_tick_labels
+            assert spectrum.y_data.shape == (y_data_length,)
             y_data_magnitude[i + 1, :] = spectrum.y_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
@@ -1977,6 +1978,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
+            assert spectrum_i_data.shape == spectrum_data_shape
             spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
-- 
2.43.0


From 9d2d0e17b4e50d271444c70ca52a44bb710b72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:04 +0000
Subject: [PATCH 24/33] fix: spherical_polar_improved yields exactly npts
 points for every npts

---
 euphonic/sampling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index b36f9bc..d741153 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -300,12 +300,16 @@ def spherical_polar_improved(npts: int,
     theta_circumferences = 2 * np.pi * np.abs(np.sin(theta_sequence))
     bin_edges = np.concatenate([[0], np.cumsum(theta_circumferences)])
 
-    counts, _ = np.histogram(np.linspace(0, theta_circumferences.sum(), npts),
+    # Use the last bin edge as the end of the range (rather than a separate
+    # sum, which may round differently) so that no point is left out
+    counts, _ = np.histogram(np.linspace(0, bin_edges[-1], npts),
                              bins=bin_edges, density=False)
 
     for row_theta, count in zip(theta_sequence, counts):
+        if count == 0:
+            continue
         phi_sequence = np.linspace(-np.pi, np.pi, count + 1)[:-1]
-        phi_spacing = phi_sequence[1] - phi_sequence[0]
+        phi_spacing = 2 * np.pi / count
         for phi in phi_sequence:
             if jitter:
                 displacement = (np.random.random(2) - 0.5) * [phi_spacing,
-- 
2.43.0


From 9224b7150940fc80db352319e6d755c66eeb2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:04 +0000
Subject: [PATCH 25/33] fix: spherical_polar_grid with a single row or column
 of points

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index d741153..8997860 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -218,12 +218,12 @@ def spherical_polar_grid(n_phi: int, n_theta: int,
         (r, phi, theta) spherical coordinates.
     """
     phi_sequence = np.linspace(-np.pi, np.pi, n_phi + 1)[:-1]
-    phi_spacing = phi_sequence[1] - phi_sequence[0]
+    phi_spacing = 2 * np.pi / n_phi
 
     # Offset theta samples to avoid redundancy at pole
     theta_sequence = (np.linspace(0, np.pi, n_theta + 1)[:-1]
                       + np.pi / (2 * n_theta))
-    theta_spacing = theta_sequence[1] - theta_sequence[0]
+    theta_spacing = np.pi / n_theta
 
     for phi, theta in product(phi_sequence, theta_sequence):
         if jitter:
-- 
2.43.0


From c3b7f6ecd5e611a37a763fc9eda43782c0b2ada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:04 +0000
Subject: [PATCH 26/33] fix: keep jittered regular_square points inside the
 unit square

---
 euphonic/sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index 8997860..fc41287 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -97,8 +97,9 @@ def regular_square(n_rows: int, n_cols: int,
         else:
             delta_x, delta_y = 0, 0
 
-        yield (x + x_offset + delta_x,
-               y + y_offset + delta_y)
+        # Points displaced across an edge re-enter at the opposite edge
+        yield ((x + x_offset + delta_x) % 1,
+               (y + y_offset + delta_y) % 1)
 
 
 def _spherical_polar_to_cartesian(phi, theta):
-- 
2.43.0


From 0379dbafe75af112ddf16c80122dfd7b6bf08fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:04 +0000
Subject: [PATCH 27/33] fix: report the actual number of points when rounding
 up a spherical grid

---
 euphonic/powder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index bedaff1..f09aab7 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -389,5 +389,5 @@ def _check_gridpts(npts: int) -> int:
     actual_npts = n_cols**2 * 2
     if actual_npts != npts:
         print("Requested npts ∉ {2x^2, x ∈ Z, x > 1}; "
-              f"rounding up to {npts}.")
+              f"rounding up to {actual_npts}.")
     return n_cols
-- 
2.43.0


From dbb4690121f4ae42316163f60cad06f352a5dc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 28/33] fix: density of states maps of q-points with zero
 weight

---
 euphonic/qpoint_frequencies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index ddbe63d..74c5841 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -196,7 +196,8 @@ class QpointFrequencies:
             weights = self.weights
         else:
             freqs = self._frequencies[q_idx][np.newaxis, :]
-            weights = np.array([self.weights[q_idx]])
+            # The weight of a lone q-point cancels out (and may be zero)
+            weights = np.ones(1)
         n_modes = freqs.shape[-1]
         # dos_bins commonly contains a 0 bin, and converting from 0 1/cm
         # to 0 hartree causes a RuntimeWarning, so suppress it
-- 
2.43.0


From 3d443267260e16ba4ece3318a35fff8720e67da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:28 +0000
Subject: [PATCH 29/33] fix: modes of zero frequency are left out of the
 Debye-Waller factor instead of making it NaN

---
 euphonic/qpoint_phonon_modes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 9430643..2ce2555 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -383,6 +383,8 @@ class QpointPhononModes(QpointFrequencies):
         # Mask out frequencies below frequency_min
         freq_mask = np.ones(freqs.shape)
         freq_mask[freqs < freq_min] = 0
+        # Masked frequencies may be zero, don't let them cause infinities
+        freqs = np.where(freq_mask, freqs, 1.)
 
         if temp > 0:
             x = freqs/(2*kB*temp)
-- 
2.43.0


From 784bb9a28e03c387e8b9cdad92ac57ee3da3f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:02 +0000
Subject: [PATCH 30/33] fix: energy-dependent broadening in
 euphonic-intensity-map used only the first coefficient

---
 euphonic/cli/intensity_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/euphonic/cli/intensity_map.py b/euphonic/cli/intensity_map.py
index 3256489..46a49d5 100755
--- a/euphonic/cli/intensity_map.py
+++ b/euphonic/cli/intensity_map.py
@@ -9,6 +9,7 @@ from euphonic import ureg, Spectrum2D, QpointFrequencies, ForceConstants
 import euphonic.plot
 from euphonic.util import get_qpoint_labels
 from euphonic.styles import base_style
+from .powder_map import _get_broaden_kwargs
 from .utils import (_bands_from_force_constants, _calc_modes_kwargs,
                     _compose_style, _plot_label_kwargs,
                     get_args, _get_debye_waller,
@@ -72,11 +73,11 @@ def main(params: Optional[List[str]] = None) -> None:
 
     if args.q_broadening or args.energy_broadening:
         spectrum = spectrum.broaden(
-            x_width=(args.q_broadening * recip_length_unit
-                     if args.q_broadening else None),
-            y_width=(args.energy_broadening[0] * ebins.units
-                     if args.energy_broadening else None),
-            shape=args.shape, method='convolve')
+            shape=args.shape, method='convolve',
+            **_get_broaden_kwargs(q_broadening=args.q_broadening,
+                                  q_unit=recip_length_unit,
+                                  energy_broadening=args.energy_broadening,
+                                  energy_unit=args.energy_unit))
 
     print("Plotting figure")
     plot_label_kwargs = _plot_label_kwargs(
-- 
2.43.0


From e9613bb8187f6f891291ebf8c0d9a735c3e5b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:40 +0000
Subject: [PATCH 31/33] fix: adaptive broadening of euphonic-dos with an
 energy-dependent width in units other than meV

---
 euphonic/cli/dos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 7933932..77b3f6f 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -79,7 +79,8 @@ def main(params: Optional[List[str]] = None) -> None:
                     mode_widths**2
                     + (energy_broadening_poly(modes.frequencies
                                               .to(args.energy_unit).magnitude
-                                              ) * ureg(args.energy_unit))**2)
+                                              ) * ureg(args.energy_unit)
+                       ).to(mode_widths.units)**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From c0ce0d93724deaca99f34d4fd4dfdd680f08de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:33 +0000
Subject: [PATCH 32/33] fix: unequal bins are recognised whatever the display
 unit of a spectrum

---
 euphonic/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 7375083..c966304 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -261,7 +261,8 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    if not np.all(np.isclose(bin_widths, bin_widths[0],
+                                             atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
-- 
2.43.0


From 181c2088a6f4aba91d2169447bb25e1d4ae6a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:45 +0000
Subject: [PATCH 33/33] fix: spectra with different axes are not combined in
 small display units

---
 euphonic/spectra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index c966304..df1f07c 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1240,7 +1240,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
             assert spectrum.y_data.units == y_data_units
-            assert np.allclose(spectrum.x_data, x_data)
+            assert _same_axis(spectrum.x_data, x_data)
             assert spectrum.x_data.units == x_data.units
             assert spectrum.x_tick_labels == x_tick_labels
             assert spectrum.y_data.shape == (y_data_length,)
@@ -1975,7 +1975,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
-                assert np.allclose(item_bins.magnitude, ref_bins.magnitude)
+                assert _same_axis(item_bins, ref_bins)
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
@@ -2106,6 +2106,12 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
     return max(limiting_values), min(limiting_values)
 
 
+def _same_axis(bins: Quantity, ref_bins: Quantity) -> bool:
+    """Whether bins are the same to within rounding, in whatever unit"""
+    tolerance = 1e-8*np.max(np.abs(ref_bins.magnitude))
+    return np.allclose(bins.magnitude, ref_bins.magnitude, atol=tolerance)
+
+
 def _distribution_1d(xbins: np.ndarray,
                      xwidth: float,
                      shape: Literal['lorentz'] = 'lorentz',
-- 
2.43.0

