From dfd7fa07e4ecf975d4b0111848cccb16620a05fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 01/13] fix: take the linearity tolerance from the constructor
 argument

inv_tol was initialised from the (still uninitialised) member micro_params[4]
instead of the argument _micro_params[4], so the user's tolerance was ignored
and the linear shortcut was taken, or not, depending on heap/stack garbage.
---
 src/micro.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index 898363e..cfb224c 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -34,7 +34,7 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 	lz(dim == 2 ? 0.0 : _micro_params[2]),
 	width(_micro_params[3]),
 
-	inv_tol(micro_params[4]),
+	inv_tol(_micro_params[4]),
 	nx(size[0]),
 	ny(size[1]),
 	nz(_dim == 2 ? 1 : size[2]),
-- 
2.43.0


From 14f4155742e6e138f020f5dafbeb84d9b9c51ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 02/13] fix: count Newton-Raphson iterations

*its++ moved the pointer instead of incrementing the counter: the iteration
limit was tested on memory past the caller's variable (out-of-bounds read) and
the reported number of iterations was always 0.
---
 src/solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solve.cpp b/src/solve.cpp
index 70d61a6..fc6a450 100644
--- a/src/solve.cpp
+++ b/src/solve.cpp
@@ -60,7 +60,7 @@ void micropp_t::newton_raphson(bool * nl_flag, int *its, double *err)
 		for (int i = 0; i < nn * dim; i++)
 			u[i] = u[i] + du[i];
 
-		*its++;
+		(*its)++;
 
 	} while ((*its < NR_MAX_ITS) && (*err > NR_MAX_TOL));
 }
-- 
2.43.0


From c79def9604f09ab872f572a1ae70ee554ccd7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 03/13] fix: average 3D stress and strain over the cell volume

The 3D volume integrals were divided by the area lx * ly, so every macro
stress and tangent was off by a factor lz unless lz == 1.
---
 src/assembly.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 8a1e43b..64f7d26 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -784,7 +784,7 @@ void micropp_t::calc_ave_stress(double stress_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		stress_ave[v] /= (lx * ly);
+		stress_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_ave_strain(double strain_ave[6])
@@ -840,7 +840,7 @@ void micropp_t::calc_ave_strain(double strain_ave[6])
 	}
 
 	for (int v = 0; v < nvoi; v++)
-		strain_ave[v] /= (lx * ly);
+		strain_ave[v] /= (dim == 2) ? (lx * ly) : (lx * ly * lz);
 }
 
 void micropp_t::calc_fields()
-- 
2.43.0


From 8864bde834cc93d7bdd741282a665e0050673f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 04/13] fix: do not read uninitialised heap memory

The displacement start value, the internal variables used while computing the
linear tangent, the internal variables of elements whose material has none and
inv_max were read without ever being written, so results and output files
depended on what malloc returned.
---
 src/micro.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/micro.cpp b/src/micro.cpp
index cfb224c..a0e8228 100644
--- a/src/micro.cpp
+++ b/src/micro.cpp
@@ -50,19 +50,20 @@ micropp_t::micropp_t(const int _dim, const int size[3], const int _micro_type,
 
 	micro_type(_micro_type),
 	num_int_vars(nelem * 8 * NUM_VAR_GP),
-	output_files_header(false)
+	output_files_header(false),
+	inv_max(-1.0e10)
 {
 	assert(dim == 2 || dim == 3);
 
 
 	b = (double *) malloc(nn * dim * sizeof(double));
 	du = (double *) malloc(nn * dim * sizeof(double));
-	u = (double *) malloc(nn * dim * sizeof(double));
+	u = (double *) calloc(nn * dim, sizeof(double));
 	elem_stress = (double *) malloc(nelem * nvoi * sizeof(double));
 	elem_strain = (double *) malloc(nelem * nvoi * sizeof(double));
 	elem_type = (int *) malloc(nelem * sizeof(int));
-	vars_old = (double *) malloc(num_int_vars * sizeof(double));
-	vars_new = (double *) malloc(num_int_vars * sizeof(double));
+	vars_old = (double *) calloc(num_int_vars, sizeof(double));
+	vars_new = (double *) calloc(num_int_vars, sizeof(double));
 
 	assert( b && du && u && elem_stress && elem_strain &&
 	        elem_type && vars_old && vars_new );
-- 
2.43.0


From 2c7bcee29cd4392827acfc807abd8c658412b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 05/13] fix: value-initialise a new Gauss point

macro_stress, macro_ctan, nr_its and nr_err (and in 2D the components past
nvoi that write_info_files prints) were read uninitialised.
---
 src/homogenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 1fcf6c6..40363f9 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -98,7 +98,7 @@ void micropp_t::set_macro_strain(const int gp_id, const double *macro_strain)
 		}
 	}
 	if (gp == gauss_list.end()) {
-		gp_t gp_n;
+		gp_t gp_n = gp_t();
 		gp_n.id = gp_id;
 		gp_n.int_vars_n = NULL;
 		gp_n.int_vars_k = NULL;
-- 
2.43.0


From 539288fcdd4d684aac107f974cc5181a98c624c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 06/13] fix: commit the last trial state, not an older
 discarded one

When a plastic trial was followed, before update_vars, by an elastic one, the
trial internal variables kept the values of the discarded plastic trial and
update_vars committed them.
---
 src/homogenize.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index 40363f9..aa05a9a 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -170,16 +170,15 @@ void micropp_t::homogenize()
 			newton_raphson(&nl_flag, &nr_its, &nr_err);
 			calc_ave_stress(gp.macro_stress);
 
-			if (nl_flag == true) {
-				if (gp.int_vars_n == NULL) {
-					gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
-					gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
-					for (int i = 0; i < num_int_vars; ++i)
-						gp.int_vars_n[i] = 0.0;
-				}
+			if (nl_flag == true && gp.int_vars_n == NULL) {
+				gp.int_vars_k = (double *) malloc(num_int_vars * sizeof(double));
+				gp.int_vars_n = (double *) malloc(num_int_vars * sizeof(double));
 				for (int i = 0; i < num_int_vars; ++i)
-					gp.int_vars_k[i] = vars_new[i];
+					gp.int_vars_n[i] = 0.0;
 			}
+			if (gp.int_vars_n != NULL)
+				for (int i = 0; i < num_int_vars; ++i)
+					gp.int_vars_k[i] = vars_new[i];
 
 			gp.nr_its[0] = nr_its;
 			gp.nr_err[0] = nr_err;
-- 
2.43.0


From f46707c439e0fc218fd4c75d1d49f890a7475c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:14 +0000
Subject: [PATCH 07/13] fix: subtract plastic shear strain in the same
 convention as total shear

The strains carry engineering shears while the plastic strains accumulate
tensor shears (dl * normal), so only half of the plastic shear was removed
from the trial stress: holding the strain after a shear step made the material
flow again.
---
 src/assembly.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index 64f7d26..db7e74f 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -1021,8 +1021,9 @@ void micropp_t::plastic_step(material_t *material, double eps[6],
 	for (int i = 0; i < 3; ++i)
 		sig_dev_trial[i] = 2 * material->mu * (eps_dev[i] - eps_p_dev_1[i]);
 
+	// eps has engineering shears (2*e12 ...), eps_p tensor ones (dl * normal)
 	for (int i = 3; i < 6; ++i)
-		sig_dev_trial[i] = material->mu * (eps_dev[i] - eps_p_dev_1[i]);
+		sig_dev_trial[i] = material->mu * (eps_dev[i] - 2 * eps_p_dev_1[i]);
 
 	sig_dev_trial_norm = sqrt(sig_dev_trial[0] * sig_dev_trial[0] +
 	                          sig_dev_trial[1] * sig_dev_trial[1] +
-- 
2.43.0


From 72aab9cae57b5cf64ae20c4e54227da40885deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 08/13] fix: column of the upper neighbour on the x = lx side
 of a 2D grid

ell_init_2D stored the node itself as the upper neighbour of the nodes on
x = lx, so products with a matrix assembled on the grid were wrong there.
---
 src/ell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index ea883bd..1a58404 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -837,7 +837,7 @@ void ell_init_2D(ell_matrix *m, int nFields, int nx, int ny)
 					mcols[4 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
 					mcols[5 * nFields + nnz * d1 + d2] = 0;
 					mcols[6 * nFields + nnz * d1 + d2] = (i + nx - 1) * nFields + d2;
-					mcols[7 * nFields + nnz * d1 + d2] = (i) * nFields + d2;
+					mcols[7 * nFields + nnz * d1 + d2] = (i + nx) * nFields + d2;
 					mcols[8 * nFields + nnz * d1 + d2] = 0;
 				}
 			}
-- 
2.43.0


From 6d46fdbd83a57a73cdc34d7125776e5d55eea790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 09/13] fix: eliminate all boundary columns in ell_set_bc_2D

Next to y = ly only one of the three boundary neighbours was eliminated, and
next to x = lx (side and upper corner) the boundary nodes were addressed
instead of their interior neighbours, leaving a matrix that is not symmetric.
---
 src/ell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index 1a58404..e9f97f0 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -461,7 +461,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 		for (int i = 0; i < nx - 4; i++) {
 			for (int l = 6; l < 9; ++l)
 				for (int d2 = 0; d2 < nFields; d2++)
-					mvals[n * nFields * nnz + d1 * nnz + 6 * nFields + d2] = 0;
+					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
 			n += 1;
 		}
 	}
@@ -482,7 +482,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{ // x = lx - hx
 		const int tmp[] = { 2, 5, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = 4 * nx - 1;
+			int n = 3 * nx - 2;
 			for (int i = 0; i < ny - 4; i++) {
 				for (auto l : tmp)
 					for (int d2 = 0; d2 < nFields; d2++)
@@ -516,7 +516,7 @@ void ell_set_bc_2D(ell_matrix *m, int nFields, int nx, int ny)
 	{// x = lx - hx , y = ly - hy
 		const int tmp[] = { 2, 5, 6, 7, 8 };
 		for (int d1 = 0; d1 < nFields; d1++) {
-			int n = (ny - 1) * nx - 1;
+			int n = (ny - 1) * nx - 2;
 			for (auto l : tmp)
 				for (int d2 = 0; d2 < nFields; d2++)
 					mvals[n * nFields * nnz + d1 * nnz + l * nFields + d2] = 0;
-- 
2.43.0


From 72734dc5bf67f06f33082c3051d68f9f415f99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 10/13] fix: free the work vectors of ell_solve_jacobi_2D

Both were leaked on every call; err was returned uninitialised when max_its
allowed no iteration.
---
 src/ell.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ell.cpp b/src/ell.cpp
index e9f97f0..ace6557 100644
--- a/src/ell.cpp
+++ b/src/ell.cpp
@@ -77,7 +77,7 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 
 	int its = 0;
 	int max_its = solver->max_its;
-	double err;
+	double err = 0.0;
 	double min_tol = solver->min_tol;
 
 	while (its < max_its) {
@@ -110,6 +110,10 @@ int ell_solve_jacobi_2D(ell_solver *solver, ell_matrix *m, int nFields, int nx,
 	}
 	solver->err = err;
 	solver->its = its;
+
+	free(k);
+	free(e_i);
+
 	return 0;
 }
 
-- 
2.43.0


From 1572ca8cc4bf616820b00f4db284920f23c35368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 11/13] fix: sign of the shear terms in the second invariant

get_inv_2 added the squared shears, which is not invariant under rotation.
---
 src/homogenize.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/homogenize.cpp b/src/homogenize.cpp
index aa05a9a..168ff07 100644
--- a/src/homogenize.cpp
+++ b/src/homogenize.cpp
@@ -79,9 +79,9 @@ double micropp_t::get_inv_2(const double *tensor)
 	if (dim == 3)
 		return tensor[0] * tensor[1] +
 			tensor[0] * tensor[2] +
-			tensor[1] * tensor[2] +
-			tensor[3] * tensor[3] +
-			tensor[4] * tensor[4] +
+			tensor[1] * tensor[2] -
+			tensor[3] * tensor[3] -
+			tensor[4] * tensor[4] -
 			tensor[5] * tensor[5];
 
 	return NAN;
-- 
2.43.0


From 11a83c9286a49fcda0708740300c959a9c0f35bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 12/13] fix: release the previous instance when the wrapper
 constructs again

---
 src/wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wrapper.cpp b/src/wrapper.cpp
index 22ac880..35926d3 100644
--- a/src/wrapper.cpp
+++ b/src/wrapper.cpp
@@ -30,6 +30,7 @@ extern "C" {
 	void micropp_construct_(int *dim, int size[3], int *micro_type,
 	                        double *micro_params, int *mat_types, double *params)
 	{
+		delete micro;
 		micro = new micropp_t(*dim, size, *micro_type, micro_params, mat_types, params); 
 	}
 
-- 
2.43.0


From 646ef0e9f25dafe09f90ea8b2cb46eb5237aa726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:56 +0000
Subject: [PATCH 13/13] fix: an element yields when any of its integration
 points does

get_stress3D resets the flag for every integration point, so only the last
one of each element decided and a cell yielding elsewhere lost its history.
---
 src/assembly.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/assembly.cpp b/src/assembly.cpp
index db7e74f..e27fb9e 100644
--- a/src/assembly.cpp
+++ b/src/assembly.cpp
@@ -705,13 +705,18 @@ void micropp_t::get_elem_rhs3D(int ex, int ey, int ez, bool * non_linear, double
 	for (int i = 0; i < 3 * 8; i++)
 		be[i] = 0.0;
 
+	*non_linear = false;
+
 	for (int gp = 0; gp < 8; gp++) {
 
 		calc_bmat_3D(gp, bmat);
 
+		bool non_linear_gp;
 		double strain_gp[6];
 		get_strain3D(ex, ey, ez, gp, strain_gp);
-		get_stress3D(ex, ey, ez, gp, strain_gp, non_linear, stress_gp);
+		get_stress3D(ex, ey, ez, gp, strain_gp, &non_linear_gp, stress_gp);
+		if (non_linear_gp == true)
+			*non_linear = true;
 
 		double wg = (1 / 8.0) * dx * dy * dz;
 		for (int i = 0; i < npe * dim; i++)
-- 
2.43.0

