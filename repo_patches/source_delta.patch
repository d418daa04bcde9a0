From 3df5afcbe179f0e6e60347584ebbcc46c1b4e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 01/57] fix: refuse wrong-triangle and non-square input when
 building a triplet matrix from arrays

---
 russell_sparse/src/coo_matrix.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 9805be4..c4eb850 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -267,6 +267,9 @@ where
         if values.len() != nnz {
             return Err("values.len() must be = nnz");
         }
+        if symmetric != Sym::No && nrow != ncol {
+            return Err("symmetric storage requires a square matrix");
+        }
         let m = to_i32(nrow);
         let n = to_i32(ncol);
         for k in 0..nnz {
@@ -276,6 +279,12 @@ where
             if col_indices[k] < 0 || col_indices[k] >= n {
                 return Err("col index is out-of-range");
             }
+            if symmetric == Sym::YesLower && col_indices[k] > row_indices[k] {
+                return Err("COO matrix: j > i is incorrect for lower triangular storage");
+            }
+            if symmetric == Sym::YesUpper && col_indices[k] < row_indices[k] {
+                return Err("COO matrix: j < i is incorrect for upper triangular storage");
+            }
         }
         Ok(NumCooMatrix {
             symmetric,
-- 
2.43.0


From 56e7f84eeec480ebebc3a56c6287a4af147331fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 02/57] fix: report out-of-order pointers of compressed
 matrices as an error instead of panicking

---
 russell_sparse/src/csc_matrix.rs | 2 +-
 russell_sparse/src/csr_matrix.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/csc_matrix.rs b/russell_sparse/src/csc_matrix.rs
index 9f9bafa..29efbb2 100644
--- a/russell_sparse/src/csc_matrix.rs
+++ b/russell_sparse/src/csc_matrix.rs
@@ -229,7 +229,7 @@ where
             if col_pointers[j] < 0 {
                 return Err("col pointers must be ≥ 0");
             }
-            if col_pointers[j] > col_pointers[j + 1] {
+            if col_pointers[j] > col_pointers[j + 1] || col_pointers[j + 1] > nnz {
                 return Err("col pointers must be sorted in ascending order");
             }
             let start = col_pointers[j] as usize;
diff --git a/russell_sparse/src/csr_matrix.rs b/russell_sparse/src/csr_matrix.rs
index ac01ddd..1cc649c 100644
--- a/russell_sparse/src/csr_matrix.rs
+++ b/russell_sparse/src/csr_matrix.rs
@@ -225,7 +225,7 @@ where
             if row_pointers[i] < 0 {
                 return Err("row pointers must be ≥ 0");
             }
-            if row_pointers[i] > row_pointers[i + 1] {
+            if row_pointers[i] > row_pointers[i + 1] || row_pointers[i + 1] > nnz {
                 return Err("row pointers must be sorted in ascending order");
             }
             let start = row_pointers[i] as usize;
-- 
2.43.0


From 8ab9423e83abd4f5429e29fcc11c4ecb2e1281ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:59 +0000
Subject: [PATCH 03/57] fix: report a singular matrix also when the determinant
 is requested

---
 russell_sparse/c_code/interface_complex_umfpack.c | 2 +-
 russell_sparse/c_code/interface_umfpack.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_umfpack.c b/russell_sparse/c_code/interface_complex_umfpack.c
index c14b231..fa7038b 100644
--- a/russell_sparse/c_code/interface_complex_umfpack.c
+++ b/russell_sparse/c_code/interface_complex_umfpack.c
@@ -188,7 +188,7 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
     // compute determinant
-    if (compute_determinant == C_TRUE) {
+    if (compute_determinant == C_TRUE && code == UMFPACK_OK) {
         code = umfpack_zi_get_determinant(determinant_coefficient_real,
                                           determinant_coefficient_imag,
                                           determinant_exponent,
diff --git a/russell_sparse/c_code/interface_umfpack.c b/russell_sparse/c_code/interface_umfpack.c
index 2133ffb..471bf12 100644
--- a/russell_sparse/c_code/interface_umfpack.c
+++ b/russell_sparse/c_code/interface_umfpack.c
@@ -184,7 +184,7 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
     // compute determinant
-    if (compute_determinant == C_TRUE) {
+    if (compute_determinant == C_TRUE && code == UMFPACK_OK) {
         code = umfpack_di_get_determinant(determinant_coefficient,
                                           determinant_exponent,
                                           solver->numeric,
-- 
2.43.0


From 256fbff1bb8e749d35feca14027b3b50a594e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:42 +0000
Subject: [PATCH 04/57] fix: keep the determinant request of the first
 factorization in later factorizations

---
 russell_sparse/src/complex_solver_umfpack.rs | 7 ++++++-
 russell_sparse/src/solver_umfpack.rs         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index 8691eb6..99725e0 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -139,6 +139,9 @@ pub struct ComplexSolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the request for the determinant made in the first factorization
+    compute_determinant: bool,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -204,6 +207,7 @@ impl ComplexSolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                compute_determinant: false,
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -274,6 +278,7 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.compute_determinant = params.map_or(false, |p| p.compute_determinant);
             self.csc = Some(ComplexCscMatrix::from_coo(mat)?);
         }
         let csc = self.csc.as_ref().unwrap();
@@ -286,7 +291,7 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
         let scaling = umfpack_scaling(par.scaling);
 
         // requests
-        let compute_determinant = if par.compute_determinant { 1 } else { 0 };
+        let compute_determinant = if self.compute_determinant { 1 } else { 0 };
         let verbose = if par.verbose { 1 } else { 0 };
 
         // matrix config
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index 3653716..764f24c 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -129,6 +129,9 @@ pub struct SolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the request for the determinant made in the first factorization
+    compute_determinant: bool,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -189,6 +192,7 @@ impl SolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                compute_determinant: false,
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -258,6 +262,7 @@ impl LinSolTrait for SolverUMFPACK {
             self.initialized_sym = mat.symmetric;
             self.initialized_ndim = mat.nrow;
             self.initialized_nnz = mat.nnz;
+            self.compute_determinant = params.map_or(false, |p| p.compute_determinant);
             self.csc = Some(CscMatrix::from_coo(mat)?);
         }
         let csc = self.csc.as_ref().unwrap();
@@ -270,7 +275,7 @@ impl LinSolTrait for SolverUMFPACK {
         let scaling = umfpack_scaling(par.scaling);
 
         // requests
-        let compute_determinant = if par.compute_determinant { 1 } else { 0 };
+        let compute_determinant = if self.compute_determinant { 1 } else { 0 };
         let verbose = if par.verbose { 1 } else { 0 };
 
         // matrix config
-- 
2.43.0


From 0203d368c18bdf68f3158a792bce677b48456ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:14 +0000
Subject: [PATCH 05/57] fix: write all entries of complex matrices to
 MatrixMarket files

---
 russell_sparse/src/write_matrix_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/write_matrix_market.rs b/russell_sparse/src/write_matrix_market.rs
index b65e7f3..0f07239 100644
--- a/russell_sparse/src/write_matrix_market.rs
+++ b/russell_sparse/src/write_matrix_market.rs
@@ -258,7 +258,7 @@ impl ComplexCscMatrix {
                 for p in self.col_pointers[j]..self.col_pointers[j + 1] {
                     let i = self.row_indices[p as usize] as usize;
                     let aij = self.values[p as usize];
-                    if f64::abs(aij.re) > tol || f64::abs(aij.im) < tol {
+                    if f64::abs(aij.re) > tol || f64::abs(aij.im) > tol {
                         match self.symmetric {
                             Sym::No => write!(&mut buffer, "{} {} {:?} {:?}\n", i + 1, j + 1, aij.re, aij.im).unwrap(),
                             Sym::YesLower => {
-- 
2.43.0


From a2ad77c033a54509add3f0a4040bab83b472a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 06/57] fix: make exactly the computed number of equal steps in
 ODE runs

---
 russell_ode/src/ode_solver.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5f99a82..ab2b1b3 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -195,22 +195,22 @@ impl<'a, A> OdeSolver<'a, A> {
         let info = self.params.method.information();
 
         // initial stepsize
-        let (equal_stepping, mut h) = match h_equal {
+        let (equal_stepping, nstep, mut h) = match h_equal {
             Some(h_eq) => {
                 if h_eq < 10.0 * f64::EPSILON {
                     return Err("h_equal must be ≥ 10.0 * f64::EPSILON");
                 }
                 let n = f64::ceil((x1 - x0) / h_eq) as usize;
                 let h = (x1 - x0) / (n as f64);
-                (true, h)
+                (true, n, h)
             }
             None => {
                 if info.embedded {
                     let h = f64::min(self.params.step.h_ini, x1 - x0);
-                    (false, h)
+                    (false, 0, h)
                 } else {
                     let h = (x1 - x0) / (N_EQUAL_STEPS as f64);
-                    (true, h)
+                    (true, N_EQUAL_STEPS, h)
                 }
             }
         };
@@ -237,7 +237,6 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // equal-stepping loop
         if equal_stepping {
-            let nstep = f64::ceil((x1 - x) / h) as usize;
             for _ in 0..nstep {
                 self.work.stats.sw_step.reset();
 
-- 
2.43.0


From 550e787bbf28b3023b71582945ed44970c417995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 07/57] fix: report diverging Newton iterations in ODE runs
 with equal steps

---
 russell_ode/src/ode_solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index ab2b1b3..4a24be0 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -244,6 +244,11 @@ impl<'a, A> OdeSolver<'a, A> {
                 self.work.stats.n_steps += 1;
                 self.actual.step(&mut self.work, x, &y, h, args)?;
 
+                // handle diverging iterations (the stepsize cannot be changed)
+                if self.work.iterations_diverging {
+                    return Err("the iterations are diverging with equal steps");
+                }
+
                 // update x and y
                 self.work.stats.n_accepted += 1; // this must be after `self.actual.step`
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
-- 
2.43.0


From a54936ab65d6b039156b3d38c5b186ea533684d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 08/57] fix: return an error instead of panicking when an ODE
 run with dense output exceeds the steps limit

---
 russell_ode/src/ode_solver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 4a24be0..df28aa5 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -370,8 +370,10 @@ impl<'a, A> OdeSolver<'a, A> {
         }
 
         // last output
-        if let Some(out) = output.as_deref_mut() {
-            out.last(&self.work, h, x, y, args)?;
+        if success {
+            if let Some(out) = output.as_deref_mut() {
+                out.last(&self.work, h, x, y, args)?;
+            }
         }
 
         // done
-- 
2.43.0


From d63bd6cb52c66a1ada04fc318942a283f9249ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 09/57] fix: discard the records of previous runs when an ODE
 output is used again

---
 russell_ode/src/output.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index a9f238a..9fa6140 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -433,11 +433,14 @@ impl<'a, A> Output<'a, A> {
                     ym.clear();
                 }
             }
-            if self.stiff_recording {
-                self.stiff_step_index.clear();
-                self.stiff_x.clear();
-                self.stiff_h_times_rho.clear();
+            self.stiff_step_index.clear();
+            self.stiff_x.clear();
+            self.stiff_h_times_rho.clear();
+            for (_, ym) in self.dense_y.iter_mut() {
+                ym.clear();
             }
+            self.step_file_count = 0;
+            self.dense_file_count = 0;
         }
         // handle dense output stations
         if self.with_dense_output() {
-- 
2.43.0


From d93f63e817cbc8452e5d5e74e3e51f25d1a11b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 10/57] fix: allow linear solver parameters with the implicit
 ODE methods

---
 russell_ode/src/euler_backward.rs | 12 +++++++++++-
 russell_ode/src/radau5.rs         | 26 +++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 1b7fd5a..9449eb5 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -30,6 +30,9 @@ pub(crate) struct EulerBackward<'a, A> {
 
     /// Linear solver
     solver: LinSolver<'a>,
+
+    /// Tells that the parameters were already given to the linear solver
+    lin_sol_configured: bool,
 }
 
 impl<'a, A> EulerBackward<'a, A> {
@@ -52,6 +55,7 @@ impl<'a, A> EulerBackward<'a, A> {
             dy: Vector::new(ndim),
             kk: CooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver: LinSolver::new(params.newton.genie).unwrap(),
+            lin_sol_configured: false,
         }
     }
 }
@@ -124,7 +128,13 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
                 // perform factorization
                 work.stats.sw_factor.reset();
                 work.stats.n_factor += 1;
-                self.solver.actual.factorize(kk, self.params.newton.lin_sol_params)?;
+                let lin_sol_params = if self.lin_sol_configured {
+                    None // the parameters must be given only once
+                } else {
+                    self.params.newton.lin_sol_params
+                };
+                self.lin_sol_configured = true;
+                self.solver.actual.factorize(kk, lin_sol_params)?;
                 work.stats.stop_sw_factor();
             }
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 472191c..144d89e 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -2,7 +2,7 @@ use crate::StrError;
 use crate::{OdeSolverTrait, Params, System, Workspace};
 use russell_lab::math::SQRT_6;
 use russell_lab::{ComplexVector, Vector, complex_vec_zip, cpx, format_fortran, vec_copy};
-use russell_sparse::{
+use russell_sparse::{LinSolParams, 
     ComplexCooMatrix, ComplexCscMatrix, ComplexLinSolver, CooMatrix, CscMatrix, Genie, LinSolver, numerical_jacobian,
 };
 use std::thread;
@@ -50,6 +50,9 @@ pub(crate) struct Radau5<'a, A> {
     /// Linear solver (for complex system)
     solver_comp: ComplexLinSolver<'a>,
 
+    /// Tells that the parameters were already given to the linear solvers
+    lin_sol_configured: bool,
+
     /// Indicates that the Jacobian can be reused (once)
     reuse_jacobian: bool,
 
@@ -152,6 +155,7 @@ impl<'a, A> Radau5<'a, A> {
             kk_comp: ComplexCooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver_real: LinSolver::new(params.newton.genie).unwrap(),
             solver_comp: ComplexLinSolver::new(params.newton.genie).unwrap(),
+            lin_sol_configured: false,
             reuse_jacobian: false,
             reuse_jacobian_kk_and_fact: false,
             jacobian_computed: false,
@@ -256,29 +260,41 @@ impl<'a, A> Radau5<'a, A> {
         Ok(())
     }
 
+    /// Returns the linear solver parameters for the next factorization (they must be given only once)
+    fn take_lin_sol_params(&mut self) -> Option<LinSolParams> {
+        if self.lin_sol_configured {
+            None
+        } else {
+            self.lin_sol_configured = true;
+            self.params.newton.lin_sol_params
+        }
+    }
+
     /// Factorizes the real and complex systems in serial
     fn factorize(&mut self) -> Result<(), StrError> {
+        let lin_sol_params = self.take_lin_sol_params();
         self.solver_real
             .actual
-            .factorize(&self.kk_real, self.params.newton.lin_sol_params)?;
+            .factorize(&self.kk_real, lin_sol_params)?;
         self.solver_comp
             .actual
-            .factorize(&self.kk_comp, self.params.newton.lin_sol_params)
+            .factorize(&self.kk_comp, lin_sol_params)
     }
 
     /// Factorizes the real and complex systems concurrently
     fn factorize_concurrently(&mut self) -> Result<(), StrError> {
+        let lin_sol_params = self.take_lin_sol_params();
         thread::scope(|scope| {
             let handle_real = scope.spawn(|| {
                 self.solver_real
                     .actual
-                    .factorize(&self.kk_real, self.params.newton.lin_sol_params)
+                    .factorize(&self.kk_real, lin_sol_params)
                     .unwrap();
             });
             let handle_comp = scope.spawn(|| {
                 self.solver_comp
                     .actual
-                    .factorize(&self.kk_comp, self.params.newton.lin_sol_params)
+                    .factorize(&self.kk_comp, lin_sol_params)
                     .unwrap();
             });
             let err_real = handle_real.join();
-- 
2.43.0


From e79ac05c613e830db8f6f638d3906eb4862cadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 11/57] fix: discard the Jacobian of previous runs when a
 Radau5 solver is used again

---
 russell_ode/src/radau5.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 144d89e..55a78b2 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -352,6 +352,13 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError> {
         // Perform the initialization for the first time
         if work.stats.n_accepted == 0 {
+            // discard the data from previous runs
+            if !work.follows_reject_step {
+                self.reuse_jacobian_kk_and_fact = false;
+                self.reuse_jacobian = false;
+                self.jacobian_computed = false;
+                self.eta = 1.0;
+            }
             self.initialize(work, x, y, args)?;
         }
 
-- 
2.43.0


From 8e29c42b536ce62efba73c7a0d9b98da94bfbf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 12/57] fix: let updated stepsize parameters take effect in
 explicit Runge-Kutta methods

---
 russell_ode/src/explicit_runge_kutta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 021977c..fa348ff 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -358,6 +358,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
+        self.lund_factor =
+            1.0 / ((self.info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m;
+        self.d_min = 1.0 / params.step.m_min;
+        self.d_max = 1.0 / params.step.m_max;
         self.params = params;
     }
 }
-- 
2.43.0


From ab96362e1614153a2187ff9820aa929578e2cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 13/57] fix: do not compute dense output data in ODE runs
 without dense output

---
 russell_ode/src/explicit_runge_kutta.rs | 5 +++++
 russell_ode/src/ode_solver.rs           | 3 +++
 russell_ode/src/ode_solver_trait.rs     | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index fa348ff..0ae6f34 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -154,6 +154,11 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
         Ok(())
     }
 
+    /// Disables dense output
+    fn disable_dense_output(&mut self) {
+        self.dense_out = None;
+    }
+
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError> {
         // auxiliary
diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index df28aa5..4b98c7c 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -223,6 +223,9 @@ impl<'a, A> OdeSolver<'a, A> {
         let mut x = x0; // will become x1 at the end
         let y = y0; // will become y1 at the end
 
+        // dense output may have been enabled by a previous run
+        self.actual.disable_dense_output();
+
         // first output
         if let Some(out) = output.as_deref_mut() {
             out.initialize(x0, x1, self.params.stiffness.save_results)?;
diff --git a/russell_ode/src/ode_solver_trait.rs b/russell_ode/src/ode_solver_trait.rs
index 6432222..9c9cec3 100644
--- a/russell_ode/src/ode_solver_trait.rs
+++ b/russell_ode/src/ode_solver_trait.rs
@@ -7,6 +7,9 @@ pub(crate) trait OdeSolverTrait<A>: Send {
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError>;
 
+    /// Disables dense output
+    fn disable_dense_output(&mut self) {}
+
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError>;
 
-- 
2.43.0


From 049ad3d6de896d85318768e0ba4828ef16cd9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 14/57] fix: factorize the matrix when the first step of
 backward Euler needs no iteration

---
 russell_ode/src/euler_backward.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 9449eb5..91ac221 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -31,6 +31,9 @@ pub(crate) struct EulerBackward<'a, A> {
     /// Linear solver
     solver: LinSolver<'a>,
 
+    /// Tells that the linear solver holds a factorization made in the current run
+    factorized: bool,
+
     /// Tells that the parameters were already given to the linear solver
     lin_sol_configured: bool,
 }
@@ -55,6 +58,7 @@ impl<'a, A> EulerBackward<'a, A> {
             dy: Vector::new(ndim),
             kk: CooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver: LinSolver::new(params.newton.genie).unwrap(),
+            factorized: false,
             lin_sol_configured: false,
         }
     }
@@ -72,6 +76,11 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
         let traditional_newton = !self.params.bweuler.use_modified_newton;
         let ndim = self.system.ndim;
 
+        // discard the factorization from previous runs
+        if work.stats.n_accepted == 0 {
+            self.factorized = false;
+        }
+
         // trial update
         let x_new = x + h;
         let y_new = &mut self.w;
@@ -101,7 +110,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
             }
 
             // compute K matrix (augmented Jacobian)
-            if traditional_newton || work.stats.n_accepted == 0 {
+            if traditional_newton || work.stats.n_accepted == 0 || !self.factorized {
                 // stats
                 work.stats.sw_jacobian.reset();
                 work.stats.n_jacobian += 1;
@@ -135,6 +144,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
                 };
                 self.lin_sol_configured = true;
                 self.solver.actual.factorize(kk, lin_sol_params)?;
+                self.factorized = true;
                 work.stats.stop_sw_factor();
             }
 
-- 
2.43.0


From c68a7bc5cad10a78cefb9ad237a01bc944e0d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:37 +0000
Subject: [PATCH 15/57] fix: refactorize in Radau5 when the stepsize is
 truncated

---
 russell_ode/src/radau5.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 55a78b2..bcb8918 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -59,6 +59,9 @@ pub(crate) struct Radau5<'a, A> {
     /// Indicates that the J, K_real, and K_comp matrices (and their factorizations) can be reused (once)
     reuse_jacobian_kk_and_fact: bool,
 
+    /// Holds the stepsize used in the coefficient matrices that have been factorized
+    h_factorized: f64,
+
     /// Indicates that the Jacobian has been computed
     ///
     /// This flag assists in reusing the Jacobian if the step has been rejected.
@@ -159,6 +162,7 @@ impl<'a, A> Radau5<'a, A> {
             reuse_jacobian: false,
             reuse_jacobian_kk_and_fact: false,
             jacobian_computed: false,
+            h_factorized: 0.0,
             eta: 1.0,
             theta,
             k_accepted: Vector::new(ndim),
@@ -367,9 +371,14 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let ndim = self.system.ndim;
 
         // Jacobian, K_real, K_comp, and factorizations (for all iterations: simple Newton's method)
-        if self.reuse_jacobian_kk_and_fact {
+        if self.reuse_jacobian_kk_and_fact && h == self.h_factorized {
             self.reuse_jacobian_kk_and_fact = false; // just once
         } else {
+            if self.reuse_jacobian_kk_and_fact {
+                // the stepsize has been truncated; thus, only the Jacobian can be reused
+                self.reuse_jacobian_kk_and_fact = false;
+                self.reuse_jacobian = true;
+            }
             self.assemble(work, x, y, h, args)?;
             work.stats.sw_factor.reset();
             work.stats.n_factor += 1;
@@ -379,6 +388,7 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
                 self.factorize()?;
             }
             work.stats.stop_sw_factor();
+            self.h_factorized = h;
         }
 
         // update u
-- 
2.43.0


From 568dffbb5726ee00f71b86cb91424abe4bd6fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:41 +0000
Subject: [PATCH 16/57] fix: detect NaN in any component of the residual and of
 the correction

---
 russell_nonlin/src/iteration_error.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/russell_nonlin/src/iteration_error.rs b/russell_nonlin/src/iteration_error.rs
index bd190a5..fda07cc 100644
--- a/russell_nonlin/src/iteration_error.rs
+++ b/russell_nonlin/src/iteration_error.rs
@@ -133,8 +133,8 @@ impl IterationError {
         // compute max norm
         self.residual_max = f64::max(vec_norm(gg, Norm::Max), f64::abs(nn));
 
-        // check for NaN or Inf
-        if !self.residual_max.is_finite() {
+        // check for NaN or Inf (in every component because the max functions ignore NaN)
+        if !nn.is_finite() || gg.as_data().iter().any(|v| !v.is_finite()) {
             return true;
         }
 
@@ -174,8 +174,8 @@ impl IterationError {
         // compute max norm
         self.delta_max = vec_norm(x, Norm::Max);
 
-        // check for NaN or Inf
-        if !self.delta_max.is_finite() {
+        // check for NaN or Inf (in every component because the max functions ignore NaN)
+        if x.as_data().iter().any(|v| !v.is_finite()) {
             return true;
         }
 
-- 
2.43.0


From 0f875e629b4d0f13c03b84301145d3a201033aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:41 +0000
Subject: [PATCH 17/57] fix: allow linear solver parameters in numerical
 continuation

---
 russell_nonlin/src/solver_arclength.rs | 20 ++++++++++++++++++--
 russell_nonlin/src/solver_natural.rs   | 12 +++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 36b1d6d..b74d1c1 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -180,6 +180,9 @@ pub struct SolverArclength<'a, A> {
     /// Linear solver
     ls: LinSolver<'a>,
 
+    /// Tells that the parameters were already given to the linear solver
+    ls_configured: bool,
+
     /// Auxiliary augmented vector (u, λ) or (δu, δλ)
     ///
     /// The left-hand side vector of the linear problem A x = b
@@ -265,6 +268,7 @@ impl<'a, A> SolverArclength<'a, A> {
             duds_prev: Vector::new(ndim),
             dlds_prev: 0.0,
             ls: LinSolver::new(genie)?,
+            ls_configured: false,
             x: Vector::new(ndim + 1),
             ggu,
             mdu,
@@ -302,7 +306,13 @@ impl<'a, A> SolverArclength<'a, A> {
         // factorize Gu matrix
         work.stats.sw_factor.reset();
         work.stats.n_factor += 1;
-        self.ls.actual.factorize(&mut self.ggu, self.config.lin_sol_config)?;
+        let lin_sol_config = if self.ls_configured {
+            None // the parameters must be given only once
+        } else {
+            self.config.lin_sol_config
+        };
+        self.ls_configured = true;
+        self.ls.actual.factorize(&mut self.ggu, lin_sol_config)?;
         work.stats.stop_sw_factor();
         Ok(())
     }
@@ -383,7 +393,13 @@ impl<'a, A> SolverArclength<'a, A> {
         // factorize matrix A
         work.stats.sw_factor.reset();
         work.stats.n_factor += 1;
-        self.ls.actual.factorize(&mut self.aa, self.config.lin_sol_config)?;
+        let lin_sol_config = if self.ls_configured {
+            None // the parameters must be given only once
+        } else {
+            self.config.lin_sol_config
+        };
+        self.ls_configured = true;
+        self.ls.actual.factorize(&mut self.aa, lin_sol_config)?;
         work.stats.stop_sw_factor();
         Ok(())
     }
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 11c3819..377507f 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -40,6 +40,9 @@ pub struct SolverNatural<'a, A> {
     /// Linear solver
     ls: LinSolver<'a>,
 
+    /// Tells that the parameters were already given to the linear solver
+    ls_configured: bool,
+
     /// Previous u variable for the curvature estimation
     u_prev: Vector,
 }
@@ -74,6 +77,7 @@ impl<'a, A> SolverNatural<'a, A> {
             ggu,
             mdu: Vector::new(ndim),
             ls: LinSolver::new(genie)?,
+            ls_configured: false,
             u_prev: Vector::new(ndim),
         })
     }
@@ -103,7 +107,13 @@ impl<'a, A> SolverNatural<'a, A> {
         // factorize Gu matrix
         work.stats.sw_factor.reset();
         work.stats.n_factor += 1;
-        self.ls.actual.factorize(&mut self.ggu, self.config.lin_sol_config)?;
+        let lin_sol_config = if self.ls_configured {
+            None // the parameters must be given only once
+        } else {
+            self.config.lin_sol_config
+        };
+        self.ls_configured = true;
+        self.ls.actual.factorize(&mut self.ggu, lin_sol_config)?;
         work.stats.stop_sw_factor();
         Ok(())
     }
-- 
2.43.0


From 412f66fd70d4ae84bdf18571bb57d350cead1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:41 +0000
Subject: [PATCH 18/57] fix: stop after the given number of steps also when
 that step is repeated

---
 russell_nonlin/src/enums.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_nonlin/src/enums.rs b/russell_nonlin/src/enums.rs
index 4f5d0b7..8c447f4 100644
--- a/russell_nonlin/src/enums.rs
+++ b/russell_nonlin/src/enums.rs
@@ -204,7 +204,7 @@ impl Stop {
             }
             Stop::MinLambda(l1) => l < *l1 || f64::abs(*l1 - l) < CONFIG_H_MIN,
             Stop::MaxLambda(l1) => l > *l1 || f64::abs(l - *l1) < CONFIG_H_MIN,
-            Stop::Steps(n) => (step + 1) == *n,
+            Stop::Steps(n) => (step + 1) >= *n,
         }
     }
 }
-- 
2.43.0


From 66b1c892e7971dcd02b2ac9376644c2659738592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:30 +0000
Subject: [PATCH 19/57] fix: record the predictor before updating the secondary
 state

---
 russell_nonlin/src/solver_arclength.rs | 18 +++++++++---------
 russell_nonlin/src/solver_natural.rs   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index b74d1c1..ec228e5 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -748,15 +748,6 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -770,6 +761,15 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 377507f..256a5ef 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -296,15 +296,6 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             vec_copy(&mut work.u, &u).unwrap();
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -318,6 +309,15 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
-- 
2.43.0


From 52cfab1576697842e6942a433dc8013cf200d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:38 +0000
Subject: [PATCH 20/57] fix: keep the status of a failed step with the precise
 stop criterion

---
 russell_nonlin/src/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 1415433..c474df8 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -221,7 +221,7 @@ impl<'a, A> Solver<'a, A> {
                 status = self.actual.step(&mut self.work, u, *l, stop, args)?;
 
                 // redo the step if it violates the stop u-component criterion
-                if self.config.enable_precise_stop_u_comp {
+                if self.config.enable_precise_stop_u_comp && status.success() {
                     if let Some((i, u1i, is_min)) = stop.u_comp() {
                         if (is_min && self.work.u[i] < u1i - CONFIG_H_MIN)
                             || (!is_min && self.work.u[i] > u1i + CONFIG_H_MIN)
-- 
2.43.0


From 4da4e4f8ad500488451a1f8a297469cc37795c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:38 +0000
Subject: [PATCH 21/57] fix: restore the secondary state when a failed step
 ends the run

---
 russell_nonlin/src/solver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index c474df8..c60964a 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -237,12 +237,14 @@ impl<'a, A> Solver<'a, A> {
                         self.work.n_continued_failure += 1;
                         self.work.follows_failure = true;
                     } else {
+                        self.actual.reject(&mut self.work, args);
                         break;
                     }
                 }
 
                 // handle continued failure
                 if self.work.n_continued_failure >= self.config.n_cont_failure_max {
+                    self.actual.reject(&mut self.work, args);
                     status = Status::ContinuedFailure;
                     break;
                 }
-- 
2.43.0


From 4f6dfe6dadefd076fbdd1e3eb2e908878478faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:51 +0000
Subject: [PATCH 22/57] fix: recognise uniform grids on large domains

The spacing was compared with an absolute tolerance, so uniform grids with
coordinates far from the origin were reported as non-uniform.
---
 russell_pde/src/grid_1d.rs |  6 ++++--
 russell_pde/src/grid_2d.rs | 12 +++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 3b453b1..72c8327 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -354,10 +354,12 @@ impl Grid1d {
     ///
     /// # Notes
     ///
-    /// * The method uses a tolerance of 10·ε to account for floating-point precision
+    /// * The method uses a tolerance of 10·ε (scaled with the coordinates) to account for floating-point precision
     /// * For grids created with `new_uniform()`, this always returns `Some(dx)`
     /// * For CGL grids or arbitrary grids, this typically returns `None`
     pub fn get_dx(&self) -> Option<f64> {
+        let max = f64::max(f64::abs(self.coords[0]), f64::abs(self.coords[self.nx - 1]));
+        let tol = 10.0 * f64::EPSILON * f64::max(1.0, f64::exp2(max.log2().floor() - 1.0));
         let mut dx = f64::NEG_INFINITY;
         for i in 1..self.nx {
             let x = self.coords[i];
@@ -365,7 +367,7 @@ impl Grid1d {
             if dx == f64::NEG_INFINITY {
                 dx = x - xl;
                 assert!(dx > 0.0);
-            } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+            } else if f64::abs(x - xl - dx) > tol {
                 return None; // non-uniform
             }
         }
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index 457128b..5e88b87 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -655,8 +655,14 @@ impl Grid2d {
     ///
     /// * For uniform grids: dx = (xmax - xmin) / (nx - 1), dy = (ymax - ymin) / (ny - 1)
     /// * Chebyshev-Gauss-Lobatto grids are non-uniform and return `None`
-    /// * Uses a tolerance of 10×ε to check for uniform spacing
+    /// * Uses a tolerance of 10×ε (scaled with the coordinates) to check for uniform spacing
     pub fn get_dx_dy(&self) -> Option<(f64, f64)> {
+        let get_tol = |min: f64, max: f64| {
+            let max = f64::max(f64::abs(min), f64::abs(max));
+            10.0 * f64::EPSILON * f64::max(1.0, f64::exp2(max.log2().floor() - 1.0))
+        };
+        let tol_x = get_tol(self.xmin, self.xmax);
+        let tol_y = get_tol(self.ymin, self.ymax);
         let mut dx = f64::NEG_INFINITY;
         let mut dy = f64::NEG_INFINITY;
         for j in 1..self.ny {
@@ -670,13 +676,13 @@ impl Grid2d {
                 if dx == f64::NEG_INFINITY {
                     dx = x - xl;
                     assert!(dx > 0.0);
-                } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+                } else if f64::abs(x - xl - dx) > tol_x {
                     return None; // non-uniform in x
                 }
                 if dy == f64::NEG_INFINITY {
                     dy = y - yb;
                     assert!(dy > 0.0);
-                } else if f64::abs(y - yb - dy) > 10.0 * f64::EPSILON {
+                } else if f64::abs(y - yb - dy) > tol_y {
                     return None; // non-uniform in y
                 }
             }
-- 
2.43.0


From da21e7f121339762b94ca185fe23d54385d88742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:51 +0000
Subject: [PATCH 23/57] fix: do not halve fluxes at corners of periodic grids

With one periodic axis the corner points are ordinary side points of the
other axis, so their flux must be applied in full.
---
 russell_pde/src/fdm_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 54ed987..1dd43a3 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -760,7 +760,8 @@ impl<'a> Fdm2d<'a> {
             let iu = self.equations.iu(m);
             let (x, y) = self.grid.coord(m);
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let both = !self.ebcs.periodic_along_x && !self.ebcs.periodic_along_y;
+            let cf = if both && self.grid.is_corner(m) { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
@@ -847,7 +848,8 @@ impl<'a> Fdm2d<'a> {
         let mut ff = Vector::new(ndim);
         self.grid.for_each_coord(|m, x, y| {
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let both = !self.ebcs.periodic_along_x && !self.ebcs.periodic_along_y;
+            let cf = if both && self.grid.is_corner(m) { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
-- 
2.43.0


From 24d1594311040b69435402d5022a7f9d066aa328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:08 +0000
Subject: [PATCH 24/57] fix: solve problems without prescribed values by
 eliminating none

Problems with flux or periodic sides only and a reaction term have a unique
solution, but solving them with the partitioned strategy panicked.
---
 russell_pde/src/fdm_1d.rs | 5 +++--
 russell_pde/src/fdm_2d.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 615db05..4eee95d 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -371,10 +371,11 @@ impl<'a> Fdm1d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // update the right-hand side with the prescribed values
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 1dd43a3..ec25837 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -447,10 +447,11 @@ impl<'a> Fdm2d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
-- 
2.43.0


From fb812f612c6d1fc0498aec4d5defcfb72b500d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:08 +0000
Subject: [PATCH 25/57] fix: return the prescribed values when there are no
 unknowns

Solving on a grid whose points are all prescribed panicked instead of
returning the prescribed field.
---
 russell_pde/src/fdm_1d.rs     | 6 ++++++
 russell_pde/src/fdm_2d.rs     | 6 ++++++
 russell_pde/src/spc_1d.rs     | 6 ++++++
 russell_pde/src/spc_2d.rs     | 6 ++++++
 russell_pde/src/spc_map_2d.rs | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 4eee95d..234f561 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -367,6 +367,12 @@ impl<'a> Fdm1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case without unknown values
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index ec25837..7f3fbc0 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -443,6 +443,12 @@ impl<'a> Fdm2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case without unknown values
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 7948e72..786c619 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -279,6 +279,12 @@ impl<'a> Spc1d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case without unknown values
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 08a8372..4c6b768 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -330,6 +330,12 @@ impl<'a> Spc2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case without unknown values
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 23ad109..feb0b71 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -382,6 +382,12 @@ impl<'a> SpcMap2d<'a> {
         // validates the boundary conditions data
         self.ebcs.validate(&self.nbcs)?;
 
+        // handle the case without unknown values
+        if self.equations.nu() == 0 {
+            let (a_bar, a_check, _) = self.get_vectors_sps(source);
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // assemble the coefficient matrix and the lhs and rhs vectors
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-- 
2.43.0


From f291a95733b2909e103c397e1a5d5bd3f9b66a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:19 +0000
Subject: [PATCH 26/57] fix: solve spectral problems without prescribed values

Assembling the partitioned matrices panicked when all sides have fluxes.
---
 russell_pde/src/spc_1d.rs     | 6 ++++--
 russell_pde/src/spc_2d.rs     | 6 ++++--
 russell_pde/src/spc_map_2d.rs | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 786c619..734a84f 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -290,7 +290,9 @@ impl<'a> Spc1d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -474,7 +476,7 @@ impl<'a> Spc1d<'a> {
         let nx = self.grid.nx();
         let nnz_wcs = nx * nx; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap();
 
         // spectral derivative matrices
         let d1r = self.interp.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 4c6b768..3c036e2 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -341,7 +341,9 @@ impl<'a> Spc2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -543,7 +545,7 @@ impl<'a> Spc2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nx * nx * ny * ny; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap();
 
         // spectral derivative matrices
         let d1r = self.interp_x.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index feb0b71..1d66247 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -393,7 +393,9 @@ impl<'a> SpcMap2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -580,7 +582,7 @@ impl<'a> SpcMap2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nr * nr * ns * ns; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap();
 
         // add all terms to the coefficient matrix
         for m in self.equations.unknown().clone() {
-- 
2.43.0


From 6394887f2791df7821c21df6e08cdc4c2b7abb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:57 +0000
Subject: [PATCH 27/57] fix: include the tangential part of fluxes on mapped
 sides

On maps whose coordinate lines are not orthogonal at a side, the normal
derivative depends on both reference derivatives.
---
 russell_pde/src/spc_map_2d.rs | 40 +++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 1d66247..aeca845 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -604,6 +604,11 @@ impl<'a> SpcMap2d<'a> {
                             let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
                             val += self.mk * self.d1r(i, k) * alpha;
                         }
+                        if i == k {
+                            self.calc_unit_normal(Side::Xmin);
+                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+                            val += self.mk * self.d1s(j, l) * beta;
+                        }
                     }
                     if i == nr - 1 {
                         // Xmax
@@ -612,6 +617,11 @@ impl<'a> SpcMap2d<'a> {
                             let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
                             val += self.mk * self.d1r(i, k) * alpha;
                         }
+                        if i == k {
+                            self.calc_unit_normal(Side::Xmax);
+                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+                            val += self.mk * self.d1s(j, l) * beta;
+                        }
                     }
                     if j == 0 {
                         // Ymin
@@ -620,6 +630,11 @@ impl<'a> SpcMap2d<'a> {
                             let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
                             val += self.mk * self.d1s(j, l) * beta;
                         }
+                        if j == l {
+                            self.calc_unit_normal(Side::Ymin);
+                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+                            val += self.mk * self.d1r(i, k) * alpha;
+                        }
                     }
                     if j == ns - 1 {
                         // Ymax
@@ -628,6 +643,11 @@ impl<'a> SpcMap2d<'a> {
                             let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
                             val += self.mk * self.d1s(j, l) * beta;
                         }
+                        if j == l {
+                            self.calc_unit_normal(Side::Ymax);
+                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+                            val += self.mk * self.d1r(i, k) * alpha;
+                        }
                     }
                     self.put_val(&mut kk_bar, &mut kk_check, m, n, val);
                 }
@@ -704,6 +724,11 @@ impl<'a> SpcMap2d<'a> {
                             let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
                             val += self.mk * self.d1r(i, k) * alpha;
                         }
+                        if i == k {
+                            self.calc_unit_normal(Side::Xmin);
+                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+                            val += self.mk * self.d1s(j, l) * beta;
+                        }
                     }
                     if i == nr - 1 {
                         // Xmax
@@ -712,6 +737,11 @@ impl<'a> SpcMap2d<'a> {
                             let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
                             val += self.mk * self.d1r(i, k) * alpha;
                         }
+                        if i == k {
+                            self.calc_unit_normal(Side::Xmax);
+                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+                            val += self.mk * self.d1s(j, l) * beta;
+                        }
                     }
                     if j == 0 {
                         // Ymin
@@ -720,6 +750,11 @@ impl<'a> SpcMap2d<'a> {
                             let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
                             val += self.mk * self.d1s(j, l) * beta;
                         }
+                        if j == l {
+                            self.calc_unit_normal(Side::Ymin);
+                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+                            val += self.mk * self.d1r(i, k) * alpha;
+                        }
                     }
                     if j == ns - 1 {
                         // Ymax
@@ -728,6 +763,11 @@ impl<'a> SpcMap2d<'a> {
                             let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
                             val += self.mk * self.d1s(j, l) * beta;
                         }
+                        if j == l {
+                            self.calc_unit_normal(Side::Ymax);
+                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+                            val += self.mk * self.d1r(i, k) * alpha;
+                        }
                     }
                     mm.put(m, n, val).unwrap();
                 }
-- 
2.43.0


From 2895cccec28f52e921d39f9223ec8e4c3568fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:02 +0000
Subject: [PATCH 28/57] fix: keep the scaled output when the inner dimension is
 zero

---
 russell_lab/src/matrix/complex_mat_mat_mul.rs   | 8 ++++++--
 russell_lab/src/matrix/complex_mat_t_mat_mul.rs | 8 ++++++--
 russell_lab/src/matrix/mat_mat_mul.rs           | 8 ++++++--
 russell_lab/src/matrix/mat_t_mat_mul.rs         | 8 ++++++--
 russell_lab/src/matvec/mat_vec_mul_update.rs    | 8 ++++++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_mat_mul.rs b/russell_lab/src/matrix/complex_mat_mat_mul.rs
index 60b019f..c908a5a 100644
--- a/russell_lab/src/matrix/complex_mat_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::ComplexMatrix;
+use super::{ComplexMatrix, complex_mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, Complex64, StrError, to_i32};
 
 unsafe extern "C" {
@@ -80,7 +80,11 @@ pub fn complex_mat_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            complex_mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
index 1ebb410..b8624c7 100644
--- a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::ComplexMatrix;
+use super::{ComplexMatrix, complex_mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, CBLAS_TRANS, Complex64, StrError, to_i32};
 
 unsafe extern "C" {
@@ -80,7 +80,11 @@ pub fn complex_mat_t_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            complex_mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_mat_mul.rs b/russell_lab/src/matrix/mat_mat_mul.rs
index dffc384..a3a485a 100644
--- a/russell_lab/src/matrix/mat_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::Matrix;
+use super::{Matrix, mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -69,7 +69,11 @@ pub fn mat_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f64
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_t_mat_mul.rs b/russell_lab/src/matrix/mat_t_mat_mul.rs
index de19cf5..d626570 100644
--- a/russell_lab/src/matrix/mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_t_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::Matrix;
+use super::{Matrix, mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, CBLAS_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -67,7 +67,11 @@ pub fn mat_t_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matvec/mat_vec_mul_update.rs b/russell_lab/src/matvec/mat_vec_mul_update.rs
index e1a5a3b..d79e8ca 100644
--- a/russell_lab/src/matvec/mat_vec_mul_update.rs
+++ b/russell_lab/src/matvec/mat_vec_mul_update.rs
@@ -1,5 +1,5 @@
 use crate::matrix::Matrix;
-use crate::vector::Vector;
+use crate::vector::{Vector, vec_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -70,7 +70,11 @@ pub fn mat_vec_mul_update(v: &mut Vector, alpha: f64, a: &Matrix, u: &Vector, be
         return Ok(());
     }
     if n == 0 {
-        v.fill(0.0);
+        if beta == 0.0 {
+            v.fill(0.0);
+        } else {
+            vec_scale(v, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
-- 
2.43.0


From 253c9be2d4e8f65f12ec2d7d40a49a14d3418779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:18 +0000
Subject: [PATCH 29/57] fix: scale the output of rank operations with an empty
 operand

---
 russell_lab/src/matrix/complex_mat_herm_rank_op.rs | 2 +-
 russell_lab/src/matrix/complex_mat_sym_rank_op.rs  | 2 +-
 russell_lab/src/matrix/mat_sym_rank_op.rs          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
index 11ab5a9..7c3184f 100644
--- a/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_herm_rank_op.rs
@@ -115,7 +115,7 @@ pub fn complex_mat_herm_rank_op(
         if col != n {
             return Err("[a] matrix is incompatible");
         }
-        (row, row, CBLAS_CONJ_TRANS)
+        (usize::max(1, row), row, CBLAS_CONJ_TRANS)
     };
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
diff --git a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
index 3b829cf..1e597f0 100644
--- a/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/complex_mat_sym_rank_op.rs
@@ -117,7 +117,7 @@ pub fn complex_mat_sym_rank_op(
         if col != n {
             return Err("[a] matrix is incompatible");
         }
-        (row, row, CBLAS_TRANS)
+        (usize::max(1, row), row, CBLAS_TRANS)
     };
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
diff --git a/russell_lab/src/matrix/mat_sym_rank_op.rs b/russell_lab/src/matrix/mat_sym_rank_op.rs
index c064f23..8b5197f 100644
--- a/russell_lab/src/matrix/mat_sym_rank_op.rs
+++ b/russell_lab/src/matrix/mat_sym_rank_op.rs
@@ -113,7 +113,7 @@ pub fn mat_sym_rank_op(
         if col != n {
             return Err("[a] matrix is incompatible");
         }
-        (row, row, CBLAS_TRANS)
+        (usize::max(1, row), row, CBLAS_TRANS)
     };
     let uplo = if upper { CBLAS_UPPER } else { CBLAS_LOWER };
     let n_i32 = to_i32(n);
-- 
2.43.0


From ed391b1b60014b6e98ab28ca8043a745ac6087ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:10 +0000
Subject: [PATCH 30/57] fix: compute the left vectors of the complex
 generalized eigenproblem

---
 russell_lab/src/matrix/complex_mat_gen_eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/complex_mat_gen_eigen.rs b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
index 2572f99..52d89a6 100644
--- a/russell_lab/src/matrix/complex_mat_gen_eigen.rs
+++ b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
@@ -284,7 +284,7 @@ pub fn complex_mat_gen_eigen_lr(
     let mut info = 0;
     unsafe {
         c_zggev(
-            C_FALSE,
+            C_TRUE,
             C_TRUE,
             &m_i32,
             a.as_mut_data().as_mut_ptr(),
-- 
2.43.0


From c278cd464122241f8e516a3b2337063a19b6f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:12 +0000
Subject: [PATCH 31/57] fix: let Jacobi rotations settle for repeated
 eigenvalues

---
 russell_lab/src/matrix/mat_eigen_sym_jacobi.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
index fcc526f..2b8c254 100644
--- a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
+++ b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
@@ -139,6 +139,13 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
         // rotations
         for p in 0..(n - 1) {
             for q in (p + 1)..n {
+                // after four sweeps, drop the elements that are negligible next to the diagonal
+                // (a rotation would only mix equal eigenvalues and never settle)
+                g = 100.0 * f64::abs(a.get(p, q));
+                if iteration > 3 && f64::abs(l[p]) + g == f64::abs(l[p]) && f64::abs(l[q]) + g == f64::abs(l[q]) {
+                    a.set(p, q, 0.0);
+                    continue;
+                }
                 h = l[q] - l[p];
                 if f64::abs(h) <= TOLERANCE {
                     t = 1.0;
-- 
2.43.0


From 2d64a940691ec854296be8db46c5aca8f9baacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:40 +0000
Subject: [PATCH 32/57] fix: format vectors with non-finite values or
 three-digit exponents

---
 russell_lab/src/vector/vec_fmt_scientific.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/russell_lab/src/vector/vec_fmt_scientific.rs b/russell_lab/src/vector/vec_fmt_scientific.rs
index a714420..fb2764a 100644
--- a/russell_lab/src/vector/vec_fmt_scientific.rs
+++ b/russell_lab/src/vector/vec_fmt_scientific.rs
@@ -13,14 +13,9 @@ pub fn vec_fmt_scientific(u: &Vector, precision: usize) -> String {
     }
     // find largest width
     let mut width = 0;
-    let mut buf = String::new();
     for i in 0..u.dim() {
-        write!(&mut buf, "{:.1$e}", u[i], precision).unwrap();
-        let _ = buf.split_off(buf.find('e').unwrap());
-        width = cmp::max(buf.chars().count(), width);
-        buf.clear();
+        width = cmp::max(format_scientific(u[i], 0, precision).chars().count(), width);
     }
-    width += 4;
     // draw vector
     width += 1;
     write!(f, "┌{:1$}┐\n", " ", width + 1).unwrap();
-- 
2.43.0


From 0dffa7ff0ee6694b7872b502a70afa6353527ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:13 +0000
Subject: [PATCH 33/57] fix: reject tables with fewer columns than the given
 labels

---
 russell_lab/src/base/read_table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_lab/src/base/read_table.rs b/russell_lab/src/base/read_table.rs
index e48de2b..e7c7456 100644
--- a/russell_lab/src/base/read_table.rs
+++ b/russell_lab/src/base/read_table.rs
@@ -195,6 +195,11 @@ where
 
                 // set or check the number of columns
                 if first_row {
+                    if let Some(ls) = &labels {
+                        if column_index != ls.len() {
+                            return Err("column data is missing");
+                        }
+                    }
                     number_of_columns = column_index; // the first row determines the number of columns
                     first_row = false;
                 } else {
-- 
2.43.0


From b1816a4b448290c05b1ebb411bce033c8d1f764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:06 +0000
Subject: [PATCH 34/57] fix: accept small function values of opposite signs in
 the root search

---
 russell_lab/src/algo/root_finder_brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder_brent.rs b/russell_lab/src/algo/root_finder_brent.rs
index 03d4bc6..9a99075 100644
--- a/russell_lab/src/algo/root_finder_brent.rs
+++ b/russell_lab/src/algo/root_finder_brent.rs
@@ -85,7 +85,7 @@ impl RootFinder {
         self.stats.inc_n_function(2);
 
         // check
-        if fa * fb >= -f64::EPSILON {
+        if !((fa < 0.0 && fb > 0.0) || (fa > 0.0 && fb < 0.0)) {
             return Err("xa and xb must bracket the root and f(xa) × f(xb) < 0");
         }
 
-- 
2.43.0


From a30cbf489948533a6944d035695a330130e55f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:50 +0000
Subject: [PATCH 35/57] fix: report NaN in the maximum norm of a vector

---
 russell_lab/src/vector/vec_norm.rs       | 3 +++
 russell_lab/src/vector/vec_norm_chunk.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/russell_lab/src/vector/vec_norm.rs b/russell_lab/src/vector/vec_norm.rs
index e94d3ee..2144c8d 100644
--- a/russell_lab/src/vector/vec_norm.rs
+++ b/russell_lab/src/vector/vec_norm.rs
@@ -42,6 +42,9 @@ pub fn vec_norm(v: &Vector, kind: Norm) -> f64 {
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, v.as_data().as_ptr(), 1),
             Norm::Inf | Norm::Max => {
+                if v.as_data().iter().any(|x| x.is_nan()) {
+                    return f64::NAN; // idamax may skip NaN
+                }
                 let idx = cblas_idamax(n, v.as_data().as_ptr(), 1);
                 f64::abs(v.get(idx as usize))
             }
diff --git a/russell_lab/src/vector/vec_norm_chunk.rs b/russell_lab/src/vector/vec_norm_chunk.rs
index 5954027..fad1f28 100644
--- a/russell_lab/src/vector/vec_norm_chunk.rs
+++ b/russell_lab/src/vector/vec_norm_chunk.rs
@@ -54,6 +54,9 @@ pub fn vec_norm_chunk(v: &Vector, kind: Norm, start: usize, stop: usize) -> f64
         match kind {
             Norm::Euc | Norm::Fro => cblas_dnrm2(n, slice.as_ptr(), 1),
             Norm::Inf | Norm::Max => {
+                if slice.iter().any(|x| x.is_nan()) {
+                    return f64::NAN; // idamax may skip NaN
+                }
                 let idx = cblas_idamax(n, slice.as_ptr(), 1);
                 f64::abs(slice[idx as usize])
             }
-- 
2.43.0


From f41547ca16d77d91464559543b4d32aea23b3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:30 +0000
Subject: [PATCH 36/57] fix: differentiate Chebyshev-Gauss interpolants at the
 ends of the range

---
 russell_lab/src/algo/interp_lagrange.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/algo/interp_lagrange.rs b/russell_lab/src/algo/interp_lagrange.rs
index efc5df3..e90669c 100644
--- a/russell_lab/src/algo/interp_lagrange.rs
+++ b/russell_lab/src/algo/interp_lagrange.rs
@@ -612,10 +612,10 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
+        if x == -1.0 && self.xx[0] == -1.0 {
             at_node = true;
             at_node_index = 0;
-        } else if x == 1.0 {
+        } else if x == 1.0 && self.xx[self.nn] == 1.0 {
             at_node = true;
             at_node_index = self.nn;
         } else {
@@ -731,10 +731,10 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
+        if x == -1.0 && self.xx[0] == -1.0 {
             at_node = true;
             at_node_index = 0;
-        } else if x == 1.0 {
+        } else if x == 1.0 && self.xx[self.nn] == 1.0 {
             at_node = true;
             at_node_index = self.nn;
         } else {
-- 
2.43.0


From e09308a94f285c9f4b174e180100785c151c86f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:30 +0000
Subject: [PATCH 37/57] fix: scale the thresholds of the cubic solver with the
 roots

---
 russell_lab/src/algo/cubic.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/algo/cubic.rs b/russell_lab/src/algo/cubic.rs
index d3381a5..c15f26e 100644
--- a/russell_lab/src/algo/cubic.rs
+++ b/russell_lab/src/algo/cubic.rs
@@ -46,17 +46,22 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     let third_a = aa / 3.0;
     let delta = half_b * half_b + third_a.powf(3.0);
 
+    // thresholds relative to the magnitude of the roots
+    let scale = p.abs().max(q.abs().sqrt()).max(r.abs().cbrt());
+    let eps_delta = EPS * scale.powi(6);
+    let eps_half_b = EPS * scale.powi(3);
+
     let mut ys = Vec::with_capacity(3);
 
     match delta {
-        d if d > EPS => {
+        d if d > eps_delta => {
             let sqrt_delta = delta.sqrt();
             let u = (-half_b + sqrt_delta).cbrt();
             let v = (-half_b - sqrt_delta).cbrt();
             ys.push(u + v);
         }
 
-        d if d < -EPS => {
+        d if d < -eps_delta => {
             let sqrt_neg_third_a = (-third_a).sqrt();
             let radicand = -half_b / sqrt_neg_third_a.powf(3.0);
             let radicand_clamped = radicand.clamp(-1.0, 1.0);
@@ -70,7 +75,7 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
         }
 
         _ => {
-            if half_b.abs() < EPS {
+            if half_b.abs() <= eps_half_b {
                 ys.extend_from_slice(&[0.0, 0.0, 0.0]);
             } else {
                 let u = (-half_b).cbrt();
-- 
2.43.0


From c05fac8128572f99e880efd5c35ebffba67728b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:47 +0000
Subject: [PATCH 38/57] fix: report too close integration bounds instead of
 overflowing

---
 russell_lab/src/algo/quadrature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/quadrature.rs b/russell_lab/src/algo/quadrature.rs
index 2625cab..f7f2575 100644
--- a/russell_lab/src/algo/quadrature.rs
+++ b/russell_lab/src/algo/quadrature.rs
@@ -248,7 +248,7 @@ impl Quadrature {
                     //
                     n_ib = 0.5 - f64::ln(c) / LN2;
                     let nib = n_ib as usize;
-                    lmx = usize::min(n_lmx, n_bit - nib - 7);
+                    lmx = usize::min(n_lmx, n_bit.saturating_sub(nib + 7));
                     if lmx < 1 {
                         return Err("the lower and upper bounds must not be so close one from another");
                     }
-- 
2.43.0


From 215960713e44a3d18207fa3519fbfa41a18267c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:47 +0000
Subject: [PATCH 39/57] fix: store the data of constant Chebyshev interpolants

---
 russell_lab/src/algo/interp_chebyshev.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b990e43..b646804 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -170,6 +170,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = f((self.xa + self.xb) / 2.0, args)?;
+            self.a[0] = self.constant_fx;
+            self.uu_rev[0] = self.constant_fx;
         } else {
             chebyshev_data_vector(&mut self.uu_rev, self.nn, self.xa, self.xb, args, &mut f)?;
             chebyshev_coefficients(&mut self.a, &self.uu_rev, self.nn);
@@ -236,6 +238,8 @@ impl InterpChebyshev {
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = uu[0];
+            self.a[0] = self.constant_fx;
+            self.uu_rev[0] = self.constant_fx;
         } else {
             for i in 0..np {
                 self.uu_rev[nn - i] = uu[i];
-- 
2.43.0


From 599eca66c56d8c9442e5a67ac213bc2c411bce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:47 +0000
Subject: [PATCH 40/57] fix: return errors of the function in the last step of
 adaptive interpolation

---
 russell_lab/src/algo/interp_chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b646804..fe4263f 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -399,7 +399,7 @@ impl InterpChebyshev {
             let an = self.a[nn];
             if nn > 1 && f64::abs(an_prev) < tol && f64::abs(an) < tol {
                 let actual_nn = nn - 2; // -2 because the last two coefficients are zero
-                self.set_function(actual_nn, args, f).unwrap();
+                self.set_function(actual_nn, args, f)?;
                 return Ok(());
             }
             an_prev = an;
-- 
2.43.0


From 3dc21eeaf4b19cc32728fa058608131f8bbe56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:47 +0000
Subject: [PATCH 41/57] fix: allow rounding at the last point of general data

---
 russell_lab/src/algo/interp_chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index fe4263f..4e270fe 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -295,7 +295,7 @@ impl InterpChebyshev {
                 let mut found = false;
                 for i_gen in 0..np {
                     let x_gen = xx_gen[i_gen];
-                    if x <= x_gen {
+                    if x <= x_gen || i_gen == np - 1 {
                         let u = if i_gen == 0 {
                             yy_gen[0]
                         } else {
-- 
2.43.0


From 53e33ff641bc2df5eb28fda385c524431774db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:47 +0000
Subject: [PATCH 42/57] fix: evaluate recursive spline functions at the end of
 wide ranges

---
 russell_lab/src/algo/bspline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index f89d833..9b7ee1f 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -410,14 +410,16 @@ impl Bspline {
     fn recursive_nn(&self, u: f64, i: usize, p: usize) -> f64 {
         // remove noise, e.g., 1.000000000000002
         let u = if f64::abs(u - self.u_max) < 1e-14 {
-            self.u_max - 1e-14
+            self.u_max
         } else {
             u
         };
 
         // exit point
         if p == 0 {
-            if u >= self.uu[i] && u < self.uu[i + 1] {
+            // the last non-empty span includes its end
+            let at_end = u == self.u_max && self.uu[i] < u && self.uu[i + 1] == u;
+            if at_end || (u >= self.uu[i] && u < self.uu[i + 1]) {
                 return 1.0;
             } else {
                 return 0.0;
-- 
2.43.0


From 6ecdb526ec68bac7fcaa473c29bf6010195da4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:02:47 +0000
Subject: [PATCH 43/57] fix: allow control points with another space dimension

---
 russell_lab/src/algo/bspline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index 9b7ee1f..2780e3e 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -215,6 +215,8 @@ impl Bspline {
             return Err("the number of dimensions must be ≥ 1");
         }
         self.pp = Vec::with_capacity(nb);
+        self.cc_ders.clear(); // the space dimension may change
+        self.pp_ders.clear();
         for i in 0..nb {
             let mut point = Vec::with_capacity(ndim);
             for j in 0..ndim {
-- 
2.43.0


From 8d0169271a4ae79dc2aa9c87900193b2d697b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:46 +0000
Subject: [PATCH 44/57] fix: return the logarithm of the magnitude of negative
 beta values

---
 russell_lab/src/math/beta.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/math/beta.rs b/russell_lab/src/math/beta.rs
index 3606b30..2f0d86a 100644
--- a/russell_lab/src/math/beta.rs
+++ b/russell_lab/src/math/beta.rs
@@ -236,8 +236,8 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
 
     // avoid loss of precision in ln_gamma(a + b) - ln_gamma(a)
     if f64::abs(aa) > ASYMPTOTIC_FACTOR * f64::abs(bb) && aa > ASYMPTOTIC_FACTOR {
-        let (ll, sign) = ln_beta_asymptotic(aa, bb);
-        return (sign as f64) * ll;
+        let (ll, _) = ln_beta_asymptotic(aa, bb);
+        return ll;
     }
 
     // use the ln_gamma identity
-- 
2.43.0


From 2298a5ec73b0e5ca9b4152ae370beb2914126570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:46 +0000
Subject: [PATCH 45/57] fix: compute the logarithm of small beta values

---
 russell_lab/src/math/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/beta.rs b/russell_lab/src/math/beta.rs
index 2f0d86a..e48ca1b 100644
--- a/russell_lab/src/math/beta.rs
+++ b/russell_lab/src/math/beta.rs
@@ -275,7 +275,7 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
     };
 
     // handle near zero results
-    if f64::abs(ans) < 10.0 * f64::EPSILON {
+    if f64::abs(ans) < 10.0 * f64::EPSILON && (aa < 0.0 || bb < 0.0) {
         // noting that f64::exp(f64::NEG_INFINITY))
         return f64::NEG_INFINITY;
     }
-- 
2.43.0


From d6c42072e92e342c000a531018b803a171560bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:46 +0000
Subject: [PATCH 46/57] fix: evaluate modified Bessel functions of negative
 order

---
 russell_lab/src/math/bessel_mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/russell_lab/src/math/bessel_mod.rs b/russell_lab/src/math/bessel_mod.rs
index 3f09522..58e939c 100644
--- a/russell_lab/src/math/bessel_mod.rs
+++ b/russell_lab/src/math/bessel_mod.rs
@@ -269,6 +269,7 @@ pub fn bessel_kn(n: i32, x: f64) -> f64 {
     } else if x == 0.0 {
         return f64::INFINITY;
     }
+    let n = n.saturating_abs(); // K(-n, x) = K(n, x)
     if n == 0 {
         return bessel_k0(x);
     }
-- 
2.43.0


From 292ea97d263171ca4867964fd03861a0603124d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:41:46 +0000
Subject: [PATCH 47/57] fix: return the weights of the two-point
 Legendre-Lobatto rule

---
 russell_lab/src/math/legendre.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/legendre.rs b/russell_lab/src/math/legendre.rs
index 9773d7e..5c4bd95 100644
--- a/russell_lab/src/math/legendre.rs
+++ b/russell_lab/src/math/legendre.rs
@@ -301,7 +301,7 @@ pub fn legendre_lobatto_points(nn: usize) -> Vector {
 /// ```
 pub fn legendre_lobatto_weights(nn: usize) -> Vector {
     let mut ww = Vector::new(nn + 1);
-    if nn < 2 {
+    if nn < 1 {
         return ww;
     }
     let np1 = (nn + 1) as f64;
-- 
2.43.0


From deee54bd161877206430c0306b0d4b37fbfe735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:08 +0000
Subject: [PATCH 48/57] fix: do not count NaN in the first bin of a histogram

---
 russell_stat/src/histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/histogram.rs b/russell_stat/src/histogram.rs
index 54a066f..8f03961 100644
--- a/russell_stat/src/histogram.rs
+++ b/russell_stat/src/histogram.rs
@@ -137,10 +137,10 @@ where
     fn find_bin(&self, x: T) -> Option<usize> {
         // handle values outside range
         let nstation = self.stations.len();
-        if x < self.stations[0] {
+        if !(x >= self.stations[0]) {
             return None;
         }
-        if x >= self.stations[nstation - 1] {
+        if !(x < self.stations[nstation - 1]) {
             return None;
         }
 
-- 
2.43.0


From 6417c979f2276ba025cedc20f8de83fd79aa0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:08 +0000
Subject: [PATCH 49/57] fix: reject parameters without a normal or lognormal
 distribution

---
 russell_stat/src/distribution_lognormal.rs | 6 ++++++
 russell_stat/src/distribution_normal.rs    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 17e19ea..670a1d3 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -27,6 +27,9 @@ impl DistributionLognormal {
     /// * `mu_logx` -- mean (μ) of log(x)
     /// * `sig_logx` -- standard deviation (σ) of log(x)
     pub fn new(mu_logx: f64, sig_logx: f64) -> Result<Self, StrError> {
+        if !mu_logx.is_finite() || !(sig_logx > 0.0) {
+            return Err("invalid parameters");
+        }
         Ok(DistributionLognormal {
             mu_logx,
             sig_logx,
@@ -45,6 +48,9 @@ impl DistributionLognormal {
     ///
     /// This function will hence calculate `mu_logx` (mean of log(x)) and `sig_logx` (std-dev of log(x))
     pub fn new_from_mu_sig(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || !(mu > 0.0) || !sig.is_finite() || !(sig > 0.0) {
+            return Err("invalid parameters");
+        }
         let d = sig / mu;
         let v = f64::ln(1.0 + d * d);
         let sig_logx = f64::sqrt(v);
diff --git a/russell_stat/src/distribution_normal.rs b/russell_stat/src/distribution_normal.rs
index e5e04f3..d096ffb 100644
--- a/russell_stat/src/distribution_normal.rs
+++ b/russell_stat/src/distribution_normal.rs
@@ -25,6 +25,9 @@ impl DistributionNormal {
     /// * `mu` -- mean μ
     /// * `sig` -- standard deviation σ
     pub fn new(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || !(sig > 0.0) {
+            return Err("invalid parameters");
+        }
         Ok(DistributionNormal {
             mu,
             sig,
-- 
2.43.0


From 992c1b108a0c25c0d5559d4dd51c513ff52a5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:27 +0000
Subject: [PATCH 50/57] fix: evaluate the Gumbel density far below the location

---
 russell_stat/src/distribution_gumbel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_stat/src/distribution_gumbel.rs b/russell_stat/src/distribution_gumbel.rs
index 4eb7103..b40d2ea 100644
--- a/russell_stat/src/distribution_gumbel.rs
+++ b/russell_stat/src/distribution_gumbel.rs
@@ -70,7 +70,11 @@ impl ProbabilityDistribution for DistributionGumbel {
     /// ```
     fn pdf(&self, x: f64) -> f64 {
         let mz = (self.location - x) / self.scale;
-        f64::exp(mz) * f64::exp(-f64::exp(mz)) / self.scale
+        let p = f64::exp(-f64::exp(mz));
+        if p == 0.0 {
+            return 0.0;
+        }
+        f64::exp(mz) * p / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From e4a27a7fffc33987e1d27d1848d573ccd3f846d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:27 +0000
Subject: [PATCH 51/57] fix: evaluate the Frechet density close to the location

---
 russell_stat/src/distribution_frechet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index e61a2df..b1a69cd 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -59,7 +59,11 @@ impl ProbabilityDistribution for DistributionFrechet {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
-        f64::exp(-f64::powf(z, -self.shape)) * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
+        let p = f64::exp(-f64::powf(z, -self.shape));
+        if p == 0.0 {
+            return 0.0;
+        }
+        p * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From 49be5a01527e777dab0a09a406390fbdb1c2ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:06:52 +0000
Subject: [PATCH 52/57] fix: write every component of a plane tensor when
 exporting to a given array

---
 russell_tensor/src/tensor2.rs |  3 +++
 russell_tensor/src/tensor3.rs | 12 ++++++------
 russell_tensor/src/tensor4.rs |  2 +-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b96c2c2..f2e2883 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -656,6 +656,9 @@ impl Tensor2 {
     /// ```
     pub fn to_std_matrix(&self, mat: &mut Matrix) {
         assert_eq!(mat.dims(), (3, 3));
+        if self.dim == 4 {
+            mat.fill(0.0);
+        }
         if self.dim < 9 {
             for m in 0..self.dim {
                 let (i, j) = M_TO_IJ[m];
diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index e522958..061dcb0 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -970,8 +970,8 @@ impl Tensor3 {
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<f64>>>) {
         if self.case_a {
-            if self.nrow == 9 {
-                // General
+            if self.nrow != 6 {
+                // General / Symmetric2D
                 for i in 0..3 {
                     for j in 0..3 {
                         for k in 0..3 {
@@ -980,7 +980,7 @@ impl Tensor3 {
                     }
                 }
             } else {
-                // Symmetric / Symmetric2D
+                // Symmetric
                 for m in 0..self.nrow {
                     for n in 0..self.ncol {
                         let (i, j, k) = MN_TO_IJK_CASE_A[m][n];
@@ -992,8 +992,8 @@ impl Tensor3 {
                 }
             }
         } else {
-            if self.ncol == 9 {
-                // General
+            if self.ncol != 6 {
+                // General / Symmetric2D
                 for i in 0..3 {
                     for j in 0..3 {
                         for k in 0..3 {
@@ -1002,7 +1002,7 @@ impl Tensor3 {
                     }
                 }
             } else {
-                // Symmetric / Symmetric2D
+                // Symmetric
                 for m in 0..self.nrow {
                     for n in 0..self.ncol {
                         let (i, j, k) = MN_TO_IJK_CASE_B[m][n];
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 3b74333..b166bec 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -881,7 +881,7 @@ impl Tensor4 {
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<Vec<f64>>>>) {
         let dim = self.dim;
-        if dim < 9 {
+        if dim == 6 {
             for m in 0..dim {
                 for n in 0..dim {
                     let (i, j, k, l) = MN_TO_IJKL[m][n];
-- 
2.43.0


From 05ccc75627c70f89dd2c750b6f00c14fee16a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:01 +0000
Subject: [PATCH 53/57] fix: clear the skew part of a reused symmetric part of
 a tensor

---
 russell_tensor/src/tensor2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index f2e2883..de3afc3 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -1743,6 +1743,9 @@ impl Tensor2 {
                 sym.vec[m] = self.vec[m];
                 skw.vec[m] = 0.0;
             }
+            for m in 6..9 {
+                sym.vec[m] = 0.0;
+            }
             skw.set(6, self.vec[6]);
             skw.set(7, self.vec[7]);
             skw.set(8, self.vec[8]);
-- 
2.43.0


From d99ca565310ce3ef414a793447d832b98d95f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:01 +0000
Subject: [PATCH 54/57] fix: reject out-of-plane vectors in the dyadic product
 of a 2D symmetric tensor

---
 russell_tensor/src/operations_t2.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/operations_t2.rs b/russell_tensor/src/operations_t2.rs
index a0ae546..66fb3fa 100644
--- a/russell_tensor/src/operations_t2.rs
+++ b/russell_tensor/src/operations_t2.rs
@@ -424,9 +424,16 @@ pub fn t1_dyad_t1(a: &mut Tensor2, alpha: f64, u: &Tensor1, v: &Tensor1) -> Resu
         if (u.get(0) * v.get(1)) != (u.get(1) * v.get(0)) {
             return Err("dyadic product between u and v does not generate a symmetric tensor");
         }
+        if u.get(0) * v.get(2) != 0.0
+            || u.get(1) * v.get(2) != 0.0
+            || u.get(2) * v.get(0) != 0.0
+            || u.get(2) * v.get(1) != 0.0
+        {
+            return Err("dyadic product between u and v does not generate a 2D symmetric tensor");
+        }
         a.vec[0] = alpha * u.get(0) * v.get(0);
         a.vec[1] = alpha * u.get(1) * v.get(1);
-        a.vec[2] = 0.0;
+        a.vec[2] = alpha * u.get(2) * v.get(2);
         a.vec[3] = alpha * (u.get(0) * v.get(1) + u.get(1) * v.get(0)) / SQRT_2;
     } else {
         a.vec[0] = alpha * u.get(0) * v.get(0);
-- 
2.43.0


From 30302de1823af0a61aeca22c2223c8f168e2dbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:23 +0000
Subject: [PATCH 55/57] fix: keep the Lode invariant of symmetric tensors
 within [-1, 1]

Round-off gave values slightly above one for axisymmetric states such as
uniaxial tension, which Tensor2::new_from_octahedral then rejected.
---
 russell_tensor/src/tensor2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index de3afc3..6ee7e75 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -2221,7 +2221,12 @@ impl Tensor2 {
         let jj2 = self.invariant_jj2();
         if jj2 > TOL_J2 {
             let jj3 = self.invariant_jj3();
-            Some(1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5))
+            let lode = 1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5);
+            if self.rep.symmetric() {
+                Some(f64::max(-1.0, f64::min(lode, 1.0))) // round-off may lead to |lode| slightly greater than 1
+            } else {
+                Some(lode)
+            }
         } else {
             None
         }
-- 
2.43.0


From ad60d634cfd297c64632bf3a1dcd9c0aa30cc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:42 +0000
Subject: [PATCH 56/57] fix: restore the point of evaluation when the function
 of a numerical Jacobian fails

---
 russell_sparse/src/numerical_jacobian.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/numerical_jacobian.rs b/russell_sparse/src/numerical_jacobian.rs
index 936c469..23b3f1e 100644
--- a/russell_sparse/src/numerical_jacobian.rs
+++ b/russell_sparse/src/numerical_jacobian.rs
@@ -173,7 +173,9 @@ where
         let original_yj = y[j];
         let delta_yj = f64::sqrt(f64::EPSILON * f64::max(THRESHOLD, f64::abs(y[j])));
         y[j] += delta_yj; // Yⱼ := yⱼ + Δyⱼ
-        function(w2, x, y, args)?; // F := f(x, y + Δy)
+        let status = function(w2, x, y, args); // F := f(x, y + Δy)
+        y[j] = original_yj; // restore yⱼ (also if the function fails)
+        status?;
         let (start, endp1) = match jj.symmetric {
             Sym::YesLower => (j, ndim),
             Sym::YesUpper => (0, j + 1),
@@ -183,7 +185,6 @@ where
             let delta_fi = w2[i] - w1[i]; // Δfᵢ := Fᵢ - fᵢ
             jj.put(i, j, alpha * delta_fi / delta_yj).unwrap(); // Δfᵢ/Δyⱼ
         }
-        y[j] = original_yj; // restore yⱼ
     }
     Ok(())
 }
-- 
2.43.0


From 2d241362464e17ed768a24256d2af0e76c86abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:42 +0000
Subject: [PATCH 57/57] fix: keep the last interior station of uniformly spaced
 dense output

---
 russell_ode/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_ode/src/output.rs b/russell_ode/src/output.rs
index 9fa6140..06e1af5 100644
--- a/russell_ode/src/output.rs
+++ b/russell_ode/src/output.rs
@@ -446,7 +446,7 @@ impl<'a, A> Output<'a, A> {
         if self.with_dense_output() {
             if let Some(h_out) = self.dense_h_out {
                 // uniform spacing
-                let n = usize::max(2, ((x1 + EPS_X1_H_OUT - x0) / h_out) as usize + 1); // at least 2 (first and last) are required
+                let n = usize::max(2, f64::ceil((x1 - EPS_X1_H_OUT - x0) / h_out) as usize + 1); // at least 2 (first and last) are required
                 if self.dense_x.len() != n {
                     self.dense_x.resize(n, 0.0);
                 }
-- 
2.43.0

