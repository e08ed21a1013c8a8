// Monitors of the sparse matrix routines, against dense linear algebra.
#pragma once
#include "common.hpp"
#include "ell.hpp"

struct Grid {
	int dim, n[3], nf;
	int nn() const { return n[0] * n[1] * (dim == 3 ? n[2] : 1); }
	int nr() const { return nn() * nf; }
	int npe() const { return dim == 2 ? 4 : 8; }
	bool boundary(int k) const
	{
		int i = k % n[0], j = (k / n[0]) % n[1], l = k / (n[0] * n[1]);
		return i == 0 || j == 0 || i == n[0] - 1 || j == n[1] - 1 || (dim == 3 && (l == 0 || l == n[2] - 1));
	}
};
struct Ell { // owns the matrix
	ell_matrix m;
	Grid g;
	explicit Ell(const Grid &gg) : g(gg)
	{
		memset(&m, 0, sizeof m);
		if (g.dim == 2) ell_init_2D(&m, g.nf, g.n[0], g.n[1]);
		else ell_init_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]);
	}
	~Ell() { ell_free(&m); }
	void add(int ex, int ey, int ez, double *Ae)
	{
		if (g.dim == 2) ell_add_struct2D(&m, ex, ey, Ae, g.nf, g.n[0], g.n[1]);
		else ell_add_struct3D(&m, ex, ey, ez, Ae, g.nf, g.n[0], g.n[1], g.n[2]);
	}
	void bc()
	{
		if (g.dim == 2) ell_set_bc_2D(&m, g.nf, g.n[0], g.n[1]);
		else ell_set_bc_3D(&m, g.nf, g.n[0], g.n[1], g.n[2]);
	}
	void mul(const std::vector<double> &x, std::vector<double> &y)
	{
		std::vector<double> c = x;
		y.assign(g.nr() + 2, 3.5e55); // guard entries behind
		ell_mvp_2D(&m, c.data(), y.data());
	}
	// dense copy by products with unit vectors
	std::vector<double> dense()
	{
		int N = g.nr();
		std::vector<double> A((size_t) N * N), e(N, 0.0), y;
		for (int j = 0; j < N; j++) {
			e[j] = 1;
			mul(e, y);
			e[j] = 0;
			for (int i = 0; i < N; i++) A[(size_t) i * N + j] = y[i];
		}
		return A;
	}
};
static Grid gen_grid(Ctx &x, int maxn2, int maxn3, int maxrows)
{
	Rng &r = x.rng;
	for (;;) {
		Grid g;
		g.dim = r.ch(0.5) ? 2 : 3;
		int mx = g.dim == 2 ? maxn2 : maxn3;
		g.n[2] = 1;
		for (int d = 0; d < g.dim; d++) g.n[d] = r.ch(0.2) ? 2 : r.ch(0.2) ? 3 : r.ir(2, mx);
		if (r.ch(0.1)) g.n[r.ir(0, g.dim - 1)] = r.ir(mx, 3 * mx);
		g.nf = r.ch(0.4) ? g.dim : r.ir(1, 4);
		if (g.nr() <= maxrows) return g;
	}
}
static void elem_nodes(const Grid &g, int ex, int ey, int ez, int nd[8])
{
	static const int o[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
	for (int a = 0; a < g.npe(); a++) nd[a] = ((ez + o[a][2]) * g.n[1] + ey + o[a][1]) * g.n[0] + ex + o[a][0];
}
template <class F> static void each_elem(const Grid &g, F f)
{
	for (int k = 0; k < (g.dim == 3 ? g.n[2] - 1 : 1); k++)
		for (int j = 0; j < g.n[1] - 1; j++)
			for (int i = 0; i < g.n[0] - 1; i++) f(i, j, k);
}
// assemble random element matrices both ways; spd: symmetric positive definite ones
static void assemble(Ctx &x, Ell &E, std::vector<double> &D, bool spd, double skip, double diag = 1e-2, double contrast = 1)
{
	Rng &r = x.rng;
	const Grid &g = E.g;
	int N = g.nr(), ne = g.npe() * g.nf;
	if (D.empty()) D.assign((size_t) N * N, 0);
	each_elem(g, [&](int i, int j, int k) {
		if (r.ch(skip)) return;
		std::vector<double> A((size_t) ne * ne, 0);
		double sc = contrast > 1 ? r.logu(1, contrast) : 1;
		if (spd) {
			int rk = ne;
			std::vector<double> B((size_t) rk * ne);
			for (double &q : B) q = r.normal();
			for (int a = 0; a < ne; a++) for (int b = 0; b < ne; b++) {
				double s = a == b ? diag * ne : 0;
				for (int q = 0; q < rk; q++) s += B[q * ne + a] * B[q * ne + b];
				A[a * ne + b] = sc * s / ne;
			}
		} else
			for (double &q : A) q = r.ch(0.1) ? 0.0 : r.normal() * r.logu(1e-3, 1e3);
		int nd[8];
		elem_nodes(g, i, j, k, nd);
		std::vector<double> A0 = A;
		E.add(i, j, k, A.data());
		x.expect("input-modified", A == A0, "element matrix modified by assembly");
		for (int a = 0; a < g.npe(); a++) for (int b = 0; b < g.npe(); b++)
			for (int p = 0; p < g.nf; p++) for (int q = 0; q < g.nf; q++)
				D[(size_t) (nd[a] * g.nf + p) * N + nd[b] * g.nf + q] += A[(a * g.nf + p) * ne + b * g.nf + q];
		x.cnt["elements_assembled"]++;
	});
}
static void compare_product(Ctx &x, Ell &E, const std::vector<double> &D, const char *key)
{
	Rng &r = x.rng;
	int N = E.g.nr();
	std::vector<double> v(N), y;
	for (double &q : v) q = r.ch(0.2) ? 0 : r.normal();
	E.mul(v, y);
	for (int i = 0; i < N; i++) {
		double s = 0, m = 0;
		for (int j = 0; j < N; j++) { s += D[(size_t) i * N + j] * v[j]; m += std::fabs(D[(size_t) i * N + j] * v[j]); }
		if (!x.near(key, y[i], s, 1e-12 * m + 1e-300, "product with the assembled matrix, row", i)) return;
	}
	x.expect("overrun", y[N] == 3.5e55 && y[N + 1] == 3.5e55, "product wrote behind the result");
	x.cnt["products"]++;
}
static void compare_dense(Ctx &x, Ell &E, const std::vector<double> &D, const char *key)
{
	int N = E.g.nr();
	std::vector<double> A = E.dense();
	double mx = 0;
	for (double q : D) mx = std::max(mx, std::fabs(q));
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
		if (!x.near(key, A[(size_t) i * N + j], D[(size_t) i * N + j], 1e-12 * mx, "matrix entry", i, j)) return;
	x.cnt["entries_compared"] += (long) N * N;
}
// grids too large for dense copies: products are checked element by element
static double resid(Ell &E, const std::vector<double> &X, const std::vector<double> &b);
struct Huge {
	Ctx &x;
	Grid g;
	int ne;
	std::vector<std::vector<double>> pool;
	std::vector<int> pick;
	static Grid grid(Rng &r)
	{
		for (;;) {
			Grid g;
			g.dim = r.ch(0.5) ? 2 : 3;
			g.n[2] = 1;
			for (int d = 0; d < g.dim; d++) g.n[d] = r.ch(0.1) ? r.ir(2, 3) : r.ir(4, g.dim == 2 ? 130 : 22);
			if (r.ch(0.15)) g.n[r.ir(0, g.dim - 1)] = r.ir(100, 1200);
			g.nf = r.ch(0.6) ? g.dim : r.ir(1, 4);
			if (g.nr() >= 2500 && g.nr() <= 26000) return g;
		}
	}
	Huge(Ctx &c, bool spd) : x(c), g(grid(c.rng)), ne(g.npe() * g.nf) { fill(spd); }
	void fill(bool spd)
	{
		Rng &r = x.rng;
		pool.clear();
		for (int k = 0; k < 4; k++) {
			std::vector<double> A((size_t) ne * ne);
			for (int a = 0; a < ne; a++) for (int b = 0; b <= a; b++) { A[a * ne + b] = r.normal(); A[b * ne + a] = spd ? A[a * ne + b] : r.normal(); }
			if (spd) for (int a = 0; a < ne; a++) { double t = 0; for (int b = 0; b < ne; b++) if (b != a) t += std::fabs(A[a * ne + b]); A[a * ne + a] = t * 1.05; }
			pool.push_back(A);
		}
	}
	void add(Ell &E)
	{
		pick.clear();
		each_elem(g, [&](int i, int j, int k) { int q = x.rng.ir(0, 3); pick.push_back(q); std::vector<double> &A = pool[q]; E.add(i, j, k, A.data()); });
	}
	// product with the sum of the element matrices; inner: without rows and columns of boundary nodes
	void mul(const std::vector<double> &v, std::vector<double> &y, std::vector<double> &mag, bool inner)
	{
		y.assign(g.nr(), 0);
		mag.assign(g.nr(), 0);
		size_t q = 0;
		each_elem(g, [&](int i, int j, int k) {
			const std::vector<double> &A = pool[pick[q++]];
			int nd[8];
			elem_nodes(g, i, j, k, nd);
			for (int a = 0; a < g.npe(); a++) {
				if (inner && g.boundary(nd[a])) continue;
				for (int b = 0; b < g.npe(); b++) {
					if (inner && g.boundary(nd[b])) continue;
					for (int p = 0; p < g.nf; p++) for (int s = 0; s < g.nf; s++) {
						double t = A[(a * g.nf + p) * ne + b * g.nf + s] * v[nd[b] * g.nf + s];
						y[nd[a] * g.nf + p] += t;
						mag[nd[a] * g.nf + p] += std::fabs(t);
					}
				}
			}
		});
	}
	void check(Ell &E, const char *key, bool inner)
	{
		std::vector<double> v(g.nr()), y, w, m;
		for (double &q : v) q = x.rng.normal();
		E.mul(v, y);
		mul(v, w, m, inner);
		if (inner) for (int i = 0; i < g.nr(); i++) if (g.boundary(i / g.nf)) { w[i] = v[i]; m[i] = 0; }
		for (int i = 0; i < g.nr(); i++) if (!x.near(key, y[i], w[i], 1e-12 * m[i] + 1e-300, "large grid, product, row", i)) return;
		x.cnt["products"]++;
	}
};
static void p_C18(Ctx &x)
{
	Rng &r = x.rng;
	if (r.ch(0.004)) {
		Huge h(x, false);
		Ell E(h.g);
		x.expect("shape", E.m.nrow == h.g.nr(), "matrix has %d rows, expected %d", E.m.nrow, h.g.nr());
		ell_set_zero_mat(&E.m);
		h.add(E);
		h.check(E, "assembly", false);
		ell_set_zero_mat(&E.m);
		h.fill(false);
		h.add(E);
		h.check(E, "reassembly", false);
		x.cnt["huge_grids"]++;
		x.sig("huge %dD %dx%dx%d f%d", h.g.dim, h.g.n[0], h.g.n[1], h.g.n[2], h.g.nf);
		return;
	}
	bool big = r.ch(0.01);
	Grid g = big ? gen_grid(x, 40, 12, 1500) : gen_grid(x, 9, 6, x.thorough() ? 420 : 260);
	if (big) x.cnt["large_grids"]++;
	Ell E(g);
	x.expect("shape", E.m.nrow == g.nr(), "matrix has %d rows, expected %d", E.m.nrow, g.nr());
	std::vector<double> D;
	ell_set_zero_mat(&E.m);
	D.assign((size_t) g.nr() * g.nr(), 0);
	compare_product(x, E, D, "not-zero");
	assemble(x, E, D, r.ch(0.3), r.ch(0.3) ? 0.5 : 0);
	compare_product(x, E, D, "assembly");
	compare_dense(x, E, D, "assembly");
	assemble(x, E, D, false, 0.3);            // accumulates
	compare_product(x, E, D, "accumulate");
	compare_product(x, E, D, "accumulate");
	if (r.ch(0.01)) x.expect("print", ell_print(&E.m) == 0 && ell_print(nullptr) != 0, "printing the matrix");
	ell_set_zero_mat(&E.m);
	D.clear();
	D.assign((size_t) g.nr() * g.nr(), 0);
	compare_product(x, E, D, "reset");
	assemble(x, E, D, false, 0);
	compare_dense(x, E, D, "reassembly");
	x.sig("%dD %dx%dx%d f%d", g.dim, g.n[0], g.n[1], g.n[2], g.nf);
}
static void p_C19(Ctx &x)
{
	Rng &r = x.rng;
	if (r.ch(0.004)) {
		Huge h(x, r.ch(0.5));
		Ell E(h.g);
		ell_set_zero_mat(&E.m);
		h.add(E);
		E.bc();
		h.check(E, "interior", true);
		x.cnt["huge_grids"]++;
		x.sig("huge %dD %dx%dx%d f%d", h.g.dim, h.g.n[0], h.g.n[1], h.g.n[2], h.g.nf);
		return;
	}
	bool big = r.ch(0.004);
	Grid g = big ? gen_grid(x, 40, 12, 1200) : gen_grid(x, 9, 6, x.thorough() ? 420 : 280);
	if (big) x.cnt["large_grids"]++;
	Ell E(g);
	std::vector<double> D;
	ell_set_zero_mat(&E.m);
	bool spd = r.ch(0.5);
	assemble(x, E, D, spd, 0);
	std::vector<double> A = E.dense();
	E.bc();
	std::vector<double> B = E.dense();
	int N = g.nr();
	long in = 0;
	for (int i = 0; i < N; i++) {
		bool bi = g.boundary(i / g.nf);
		for (int j = 0; j < N; j++) {
			bool bj = g.boundary(j / g.nf);
			double b = B[(size_t) i * N + j];
			if (bi || bj) {
				if (!x.expect(bi ? "boundary-row" : "boundary-column", b == (i == j ? 1.0 : 0.0), "entry (%d,%d) of the boundary is %.6g", i, j, b)) return;
			} else {
				in++;
				if (!x.expect("interior", b == A[(size_t) i * N + j], "interior entry (%d,%d) changed from %.9g to %.9g", i, j, A[(size_t) i * N + j], b)) return;
			}
		}
	}
	if (spd) { // still symmetric; positive definite by a Cholesky factorisation
		std::vector<double> L = B;
		bool ok = true;
		for (int i = 0; i < N && ok; i++)
			for (int j = 0; j <= i && ok; j++) {
				x.evals++;
				if (std::fabs(B[(size_t) i * N + j] - B[(size_t) j * N + i]) > 1e-12 * (std::fabs(B[(size_t) i * N + j]) + 1)) ok = false;
				double s = L[(size_t) i * N + j];
				for (int k = 0; k < j; k++) s -= L[(size_t) i * N + k] * L[(size_t) j * N + k];
				if (i == j) { if (!(s > 0)) ok = false; else L[(size_t) i * N + i] = std::sqrt(s); }
				else L[(size_t) i * N + j] = s / L[(size_t) j * N + j];
			}
		x.expect("not-spd", ok, "matrix is no longer symmetric positive definite");
	}
	// applying them twice changes nothing more
	E.bc();
	std::vector<double> C = E.dense();
	x.expect("idempotent", B == C, "applying the conditions again changed the matrix");
	x.cnt["interior_entries"] += in;
	x.sig("%dD %dx%dx%d f%d", g.dim, g.n[0], g.n[1], g.n[2], g.nf);
}
static double resid(Ell &E, const std::vector<double> &X, const std::vector<double> &b)
{
	std::vector<double> y;
	E.mul(X, y);
	double s = 0;
	for (size_t i = 0; i < b.size(); i++) s += (y[i] - b[i]) * (y[i] - b[i]);
	return std::sqrt(s);
}
static void p_C20(Ctx &x)
{
	Rng &r = x.rng;
	int which = r.ir(0, 2); // 0 cg 2D, 1 cg struct, 2 jacobi
	if (r.ch(0.002)) {
		Huge h(x, true);
		Ell E(h.g);
		ell_set_zero_mat(&E.m);
		h.add(E);
		if (r.ch(0.7)) E.bc();
		int N = h.g.nr();
		size_t nz = (size_t) E.m.nrow * E.m.nnz;
		std::vector<double> b(N), X(N, 0.0), v0(E.m.vals, E.m.vals + nz);
		for (double &q : b) q = r.normal();
		std::vector<double> b0 = b;
		double nb = std::sqrt((double) N);
		ell_solver sv;
		sv.max_its = 20000; sv.min_tol = nb * r.logu(1e-9, 1e-4); sv.its = -5; sv.err = -5;
		if (h.g.dim == 2 && which == 0) ell_solve_cgpd_2D(&sv, &E.m, h.g.nf, h.g.n[0], h.g.n[1], b.data(), X.data());
		else if (h.g.dim == 2 && which == 2) ell_solve_jacobi_2D(&sv, &E.m, h.g.nf, h.g.n[0], h.g.n[1], b.data(), X.data());
		else ell_solve_cgpd_struct(&sv, &E.m, h.g.nf, h.g.dim, h.g.nn(), b.data(), X.data());
		double t = resid(E, X, b);
		x.expect("no-convergence", sv.err < sv.min_tol, "large grid: reported error %.3g for the tolerance %.3g after %d iterations", sv.err, sv.min_tol, sv.its);
		x.expect("false-convergence", t < sv.min_tol * 1.01 + 1e-11 * nb, "large grid: reported error %.3g, true residual %.3g, tolerance %.3g", sv.err, t, sv.min_tol);
		x.expect("rhs-modified", b == b0, "right-hand side modified");
		x.expect("matrix-modified", memcmp(v0.data(), E.m.vals, nz * sizeof(double)) == 0, "matrix modified");
		x.cnt["solves"]++;
		x.cnt["huge_grids"]++;
		x.sig("huge w%d %dD %dx%dx%d f%d", which, h.g.dim, h.g.n[0], h.g.n[1], h.g.n[2], h.g.nf);
		return;
	}
	Grid g;
	bool big = r.ch(0.005);
	if (big) x.cnt["large_grids"]++;
	do g = big ? gen_grid(x, 40, 14, 2400) : gen_grid(x, 10, 6, x.thorough() ? 900 : 400); while (which != 1 && g.dim != 2);
	int N = g.nr();
	Ell E(g);
	ell_set_zero_mat(&E.m);
	std::vector<double> D;
	if (which == 2) {
		// diagonally dominant, not necessarily symmetric
		int ne = g.npe() * g.nf;
		each_elem(g, [&](int i, int j, int k) {
			std::vector<double> A((size_t) ne * ne);
			for (int a = 0; a < ne; a++) { double s = 0; for (int b = 0; b < ne; b++) if (a != b) { A[a * ne + b] = r.normal(); s += std::fabs(A[a * ne + b]); } A[a * ne + a] = s * r.uni(1.2, 2) + 0.1; }
			E.add(i, j, k, A.data());
		});
	} else
		assemble(x, E, D, true, 0, r.logu(1e-2, 1), r.ch(0.4) ? 100 : 1);
	double ms = r.ch(0.3) ? std::ldexp(1.0, r.ir(-40, 40)) : 1; // other units
	if (ms != 1) { for (long i = 0; i < (long) E.m.nrow * E.m.nnz; i++) E.m.vals[i] *= ms; x.cnt["scaled_systems"]++; }
	bool bc = r.ch(0.5);
	if (bc) E.bc();
	std::vector<double> A0 = E.dense();
	double sc = ms * r.logu(1e-3, 1e4);
	if (r.ch(0.1)) sc *= r.logu(1e-8, 1e8);
	std::vector<double> b(N), X(N), xs(N);
	if (r.ch(0.1)) std::fill(b.begin(), b.end(), 0.0); else for (double &q : b) q = sc * r.normal();
	int start = r.ir(0, 2);
	for (double &q : X) q = start == 0 ? 0 : r.normal() * (start == 1 ? 1 : 100);
	double nb = 0, r0 = resid(E, X, b);
	for (double q : b) nb += q * q;
	nb = std::sqrt(nb);
	double scale = std::max(nb, r0);
	ell_solver sv;
	sv.max_its = 20000;
	sv.min_tol = scale * r.logu(1e-11, 1e-4) + 1e-300;
	sv.its = -5;
	sv.err = -5;
	auto solve = [&](ell_solver *s, ell_matrix *m, double *bb, double *xx) {
		if (which == 0) return ell_solve_cgpd_2D(s, m, g.nf, g.n[0], g.n[1], bb, xx);
		if (which == 1) return ell_solve_cgpd_struct(s, m, g.nf, g.dim, g.nn(), bb, xx);
		return ell_solve_jacobi_2D(s, m, g.nf, g.n[0], g.n[1], bb, xx);
	};
	// null arguments
	std::vector<double> b0 = b, X0 = X;
	x.expect("null", solve(&sv, nullptr, b.data(), X.data()) != 0, "null matrix accepted");
	x.expect("null", solve(&sv, &E.m, nullptr, X.data()) != 0, "null right-hand side accepted");
	x.expect("null", solve(&sv, &E.m, b.data(), nullptr) != 0, "null solution accepted");
	x.expect("null", X == X0 && b == b0, "rejected call changed its arguments");
	// full solve
	int rc = solve(&sv, &E.m, b.data(), X.data());
	x.expect("code", rc == 0, "return code %d", rc);
	double tr = resid(E, X, b);
	double slack = 1e-12 * scale * std::sqrt((double) N) * 10;
	double xn = 0, amax = 0;
	for (double q : X) xn += q * q;
	for (double q : A0) amax = std::max(amax, std::fabs(q));
	slack += 1e-14 * std::sqrt(xn) * amax * 30;
	x.expect("no-convergence", sv.err < sv.min_tol, "reported error %.3g for the tolerance %.3g after %d iterations", sv.err, sv.min_tol, sv.its);
	x.expect("false-convergence", !(sv.err < sv.min_tol) || tr < sv.min_tol + slack, "reported error %.3g, true residual %.3g, tolerance %.3g", sv.err, tr, sv.min_tol);
	if (sv.err < sv.min_tol) x.expect("wrong-error", std::fabs(tr - sv.err) <= 0.01 * sv.err + slack, "reported error %.3g, true residual %.3g", sv.err, tr);
	x.expect("iterations", sv.its >= 0 && sv.its <= sv.max_its, "%d iterations", sv.its);
	if (r0 > 2 * sv.min_tol && which != 2) x.expect("iterations", sv.its >= 1, "no iteration counted");
	x.expect("rhs-modified", b == b0, "right-hand side modified");
	x.expect("matrix-modified", E.dense() == A0, "matrix modified");
	x.cnt["solves"]++;
	x.cnt["iterations"] += sv.its;
	if (which != 2) x.expect("too-many-iterations", sv.its <= 30 * N + 100, "%d iterations for %d unknowns", sv.its, N);
	// independent solution: the error is bounded through the residual; check by a second start
	{
		std::vector<double> Y(N);
		for (double &q : Y) q = r.normal();
		ell_solver s2 = sv;
		s2.min_tol = std::max(sv.min_tol * 1e-2, 1e-13 * scale);
		s2.max_its = 40000;
		solve(&s2, &E.m, b.data(), Y.data());
		double t2 = resid(E, Y, b);
		x.expect("false-convergence", !(s2.err < s2.min_tol) || t2 < s2.min_tol + slack + 1e-13 * std::sqrt(N) * amax * 100, "second start: reported %.3g, true %.3g", s2.err, t2);
		// x^T A (x-y) bound: A (X-Y) is the difference of residuals
		std::vector<double> dlt(N), y;
		for (int i = 0; i < N; i++) dlt[i] = X[i] - Y[i];
		E.mul(dlt, y);
		double q = 0;
		for (int i = 0; i < N; i++) q += y[i] * y[i];
		x.expect("start-dependence", std::sqrt(q) <= (sv.min_tol + s2.min_tol) * 1.01 + 3 * slack + 1e-13 * std::sqrt(N) * amax * 100 || !(s2.err < s2.min_tol), "solutions from two starts differ by a residual of %.3g", std::sqrt(q));
	}
	// iteration cap
	if (sv.its > 2) {
		std::vector<double> Z = X0;
		ell_solver s3 = sv;
		s3.max_its = r.ir(1, sv.its - 1);
		solve(&s3, &E.m, b.data(), Z.data());
		x.expect("cap-exceeded", s3.its <= s3.max_its, "%d iterations with a cap of %d", s3.its, s3.max_its);
		bool conv = s3.err < s3.min_tol;
		double t3 = resid(E, Z, b);
		x.expect("cap-untrue", !conv || t3 < s3.min_tol + slack, "capped solve reported %.3g, true residual %.3g", s3.err, t3);
		x.expect("cap-hidden", conv || s3.its == s3.max_its, "stopped unconverged after %d of %d iterations", s3.its, s3.max_its);
		x.cnt["capped_solves"]++;
	}
	// restart from the solution: nothing to do
	{
		std::vector<double> Z = X;
		ell_solver s4 = sv;
		s4.min_tol = sv.min_tol * 1.5 + 2 * slack;
		solve(&s4, &E.m, b.data(), Z.data());
		x.expect("restart", s4.its <= 1 && s4.err < s4.min_tol, "restart from the solution took %d iterations, error %.3g", s4.its, s4.err);
	}
	x.sig("w%d %dD %dx%dx%d f%d bc%d", which, g.dim, g.n[0], g.n[1], g.n[2], g.nf, bc);
}
