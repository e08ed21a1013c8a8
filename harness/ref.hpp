// Independent reference model of the micro problem: trilinear/bilinear finite
// elements on a structured grid, affine (pure Dirichlet) boundary displacements,
// isotropic elasticity, J2 plasticity with hardening frozen during a step.
// Written from the documentation (README, doc/manual.tex), not from src/; solved
// with a direct banded Cholesky factorisation and a line-searched Newton method.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdlib>
#include <vector>

namespace ref {

struct Mat { double E = 0, nu = 0, Sy = 0, Ka = 0; int type = 0; };

struct Cfg {
	int dim = 3;
	int n[3] = {2, 2, 2};          // nodes per direction
	double l[3] = {1, 1, 1};
	int micro_type = 0;
	double width = 0.2;
	double inv_tol = 0.0;
	bool exact = false;            // geometry in numbers for which the phase decision is exact, ties included
	Mat mat[2];
	int nvoi() const { return dim == 2 ? 3 : 6; }
	int nelem() const { return (n[0] - 1) * (n[1] - 1) * (dim == 3 ? n[2] - 1 : 1); }
	int nnodes() const { return n[0] * n[1] * (dim == 3 ? n[2] : 1); }
};

// phase (0 or 1) of a cell; `margin` = distance of the decision from a tie, relative
inline int phase(const Cfg &c, int ex, int ey, int ez, double *margin = nullptr)
{
	double xc[3];
	int e[3] = {ex, ey, ez};
	for (int d = 0; d < c.dim; d++)
		xc[d] = (e[d] + 0.5) * c.l[d] / (c.n[d] - 1);
	double lhs, rhs;
	if (c.micro_type == 0) {
		lhs = 0;
		for (int d = 0; d < c.dim; d++)
			lhs += (xc[d] - 0.5 * c.l[d]) * (xc[d] - 0.5 * c.l[d]);
		rhs = c.width * c.width;
	} else {
		lhs = xc[1];
		rhs = c.width;
	}
	if (margin)
		*margin = std::fabs(lhs - rhs) / std::max(1e-300, std::max(std::fabs(lhs), std::fabs(rhs)));
	return lhs < rhs ? 1 : 0;
}

typedef std::array<double, 7> GpState;       // 6 plastic strains (tensor), alpha
typedef std::vector<GpState> State;          // [elem*8+gp]

// stress and consistent tangent in Voigt notation with engineering shears
// returns true when plastic flow happened. f_rel: |f_trial| relative to the yield radius
inline bool stress3(const Mat &m, const double eps[6], const GpState &old, GpState &nw,
                    double sig[6], double C[6][6], double *f_rel)
{
	const double mu = m.E / (2 * (1 + m.nu));
	const double kb = m.E / (3 * (1 - 2 * m.nu));
	nw = old;
	double tr = eps[0] + eps[1] + eps[2];
	// tensor deviator of elastic trial strain
	double ptr = old[0] + old[1] + old[2];
	double s[6];
	for (int i = 0; i < 6; i++) {
		double e = i < 3 ? eps[i] - tr / 3 : eps[i] / 2;
		double p = i < 3 ? old[i] - ptr / 3 : old[i];
		s[i] = 2 * mu * (e - (m.type == 1 ? p : 0.0));
	}
	double nrm = 0;
	for (int i = 0; i < 6; i++)
		nrm += (i < 3 ? 1 : 2) * s[i] * s[i];
	nrm = std::sqrt(nrm);
	double fac = 1.0, nn = 0.0;
	bool pl = false;
	double n[6] = {0, 0, 0, 0, 0, 0};
	if (f_rel) *f_rel = 1e300;
	if (m.type == 1) {
		double R = std::sqrt(2.0 / 3.0) * (m.Sy + m.Ka * old[6]);
		double f = nrm - R;
		if (f_rel) *f_rel = std::fabs(f) / std::max(R, 1e-300);
		if (f > 0) {
			pl = true;
			double dl = f / (2 * mu);
			for (int i = 0; i < 6; i++) {
				n[i] = s[i] / nrm;
				nw[i] = old[i] + dl * n[i];
			}
			nw[6] = old[6] + std::sqrt(2.0 / 3.0) * dl;
			fac = R / nrm;
			nn = 1.0;
		}
	}
	for (int i = 0; i < 6; i++)
		sig[i] = fac * s[i] + (i < 3 ? kb * tr : 0.0);
	if (C) {
		for (int i = 0; i < 6; i++)
			for (int j = 0; j < 6; j++) {
				double v = 0;
				if (i < 3 && j < 3)
					v += kb + 2 * mu * fac * ((i == j ? 1.0 : 0.0) - 1.0 / 3.0);
				else if (i == j)
					v += mu * fac;
				// -2 mu theta n (x) n ; engineering shears: n_j on column already right
				v -= nn * 2 * mu * fac * n[i] * n[j];
				C[i][j] = v;
			}
	}
	return pl;
}

inline void elast2(const Mat &m, double C[3][3])
{
	double f = m.E / ((1 + m.nu) * (1 - 2 * m.nu));
	for (int i = 0; i < 3; i++)
		for (int j = 0; j < 3; j++)
			C[i][j] = 0;
	C[0][0] = C[1][1] = f * (1 - m.nu);
	C[0][1] = C[1][0] = f * m.nu;
	C[2][2] = m.E / (2 * (1 + m.nu));
}

// banded SPD solver (lower band storage)
struct Band {
	int n = 0, bw = 0;
	std::vector<double> a;
	void init(int n_, int bw_) { n = n_; bw = bw_; a.assign((size_t) n * (bw + 1), 0.0); }
	double &at(int i, int j) { return a[(size_t) i * (bw + 1) + (j - i + bw)]; } // j<=i
	bool factor()
	{
		for (int i = 0; i < n; i++) {
			int j0 = std::max(0, i - bw);
			double *ri = &a[(size_t) i * (bw + 1) + bw - i];
			for (int j = j0; j <= i; j++) {
				double *rj = &a[(size_t) j * (bw + 1) + bw - j];
				int k0 = std::max(j0, j - bw);
				double s = ri[j];
				for (int k = k0; k < j; k++)
					s -= ri[k] * rj[k];
				if (j < i)
					ri[j] = s / rj[j];
				else {
					if (!(s > 0)) return false;
					ri[i] = std::sqrt(s);
				}
			}
		}
		return true;
	}
	void solve(std::vector<double> &b) const
	{
		for (int i = 0; i < n; i++) {
			const double *ri = &a[(size_t) i * (bw + 1) + bw - i];
			double s = b[i];
			for (int k = std::max(0, i - bw); k < i; k++) s -= ri[k] * b[k];
			b[i] = s / ri[i];
		}
		for (int i = n - 1; i >= 0; i--) {
			const double *ri = &a[(size_t) i * (bw + 1) + bw - i];
			b[i] /= ri[i];
			for (int k = std::max(0, i - bw); k < i; k++) b[k] -= ri[k] * b[i];
		}
	}
};

struct Sol {
	bool ok = false;
	int its = 0;
	double res = 0;                 // final residual norm (free dofs)
	std::vector<double> u;          // nodal displacement
	std::vector<double> esig, eeps; // per-element averages [e*nvoi+v]
	double sig[6] = {0};
	double ctan[36] = {0};
	double wnorm[6] = {0};          // |d sig_v / d residual|
	double wdnorm[36] = {0};        // unused
	bool plastic = false;
	double minfrel = 1e300;         // distance of the closest gauss point to its yield kink
	int nplastic = 0;
	double umax = 0;
	State st;
};

class Model {
public:
	Cfg c;
	int nn, ne, npe, nv, ngp;
	std::vector<int> ph;            // phase per element
	std::vector<int> fdof;          // free dof number or -1
	int nfree = 0;
	double B[8][6][24];
	double wg, vol;
	double tiemargin = 1e300;

	explicit Model(const Cfg &cc) : c(cc)
	{
		nn = c.nnodes(); ne = c.nelem(); nv = c.nvoi();
		npe = c.dim == 2 ? 4 : 8; ngp = npe;
		int nx = c.n[0], ny = c.n[1], nz = c.dim == 3 ? c.n[2] : 1;
		vol = c.l[0] * c.l[1] * (c.dim == 3 ? c.l[2] : 1.0);
		ph.resize(ne);
		int e = 0;
		for (int k = 0; k < (c.dim == 3 ? nz - 1 : 1); k++)
			for (int j = 0; j < ny - 1; j++)
				for (int i = 0; i < nx - 1; i++) {
					double m;
					ph[e++] = phase(c, i, j, k, &m);
					if (!c.exact) tiemargin = std::min(tiemargin, m);
				}
		fdof.assign(nn * c.dim, -1);
		for (int k = 0; k < nz; k++)
			for (int j = 0; j < ny; j++)
				for (int i = 0; i < nx; i++) {
					bool bd = i == 0 || j == 0 || i == nx - 1 || j == ny - 1 ||
						(c.dim == 3 && (k == 0 || k == nz - 1));
					if (!bd)
						for (int d = 0; d < c.dim; d++)
							fdof[((k * ny + j) * nx + i) * c.dim + d] = nfree++;
				}
		// B matrices
		double h[3];
		for (int d = 0; d < c.dim; d++) h[d] = c.l[d] / (c.n[d] - 1);
		static const int cs[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
		const double g = 1 / std::sqrt(3.0);
		wg = 1;
		for (int d = 0; d < c.dim; d++) wg *= h[d] / 2;
		for (int q = 0; q < ngp; q++) {
			for (int v = 0; v < 6; v++) for (int a = 0; a < 24; a++) B[q][v][a] = 0;
			for (int a = 0; a < npe; a++) {
				double dN[3] = {0, 0, 0};
				for (int d = 0; d < c.dim; d++) {
					double p = cs[a][d] / h[d]; // = cs/2 * 2/h
					for (int o = 0; o < c.dim; o++)
						if (o != d) p *= 0.5 * (1 + cs[a][o] * cs[q][o] * g);
					dN[d] = p;
				}
				if (c.dim == 2) {
					B[q][0][a * 2] = dN[0]; B[q][1][a * 2 + 1] = dN[1];
					B[q][2][a * 2] = dN[1]; B[q][2][a * 2 + 1] = dN[0];
				} else {
					for (int d = 0; d < 3; d++) B[q][d][a * 3 + d] = dN[d];
					B[q][3][a * 3] = dN[1]; B[q][3][a * 3 + 1] = dN[0];
					B[q][4][a * 3] = dN[2]; B[q][4][a * 3 + 2] = dN[0];
					B[q][5][a * 3 + 1] = dN[2]; B[q][5][a * 3 + 2] = dN[1];
				}
			}
		}
	}
	State zero() const { GpState z; z.fill(0); return State((size_t) ne * 8, z); }

	void nodes(int e, int nd[8]) const
	{
		int nx = c.n[0], ny = c.n[1];
		int ex = e % (nx - 1), ey = (e / (nx - 1)) % (ny - 1), ez = e / ((nx - 1) * (ny - 1));
		static const int o[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
		for (int a = 0; a < npe; a++)
			nd[a] = ((ez + o[a][2]) * ny + ey + o[a][1]) * nx + ex + o[a][0];
	}
	void coord(int n, double x[3]) const
	{
		int nx = c.n[0], ny = c.n[1];
		int i[3] = {n % nx, (n / nx) % ny, n / (nx * ny)};
		for (int d = 0; d < 3; d++) x[d] = d < c.dim ? i[d] * c.l[d] / (c.n[d] - 1) : 0;
	}
	void affine(const double *eps, const double x[3], double u[3]) const
	{
		if (c.dim == 2) {
			u[0] = eps[0] * x[0] + 0.5 * eps[2] * x[1];
			u[1] = 0.5 * eps[2] * x[0] + eps[1] * x[1];
		} else {
			u[0] = eps[0] * x[0] + 0.5 * (eps[3] * x[1] + eps[4] * x[2]);
			u[1] = eps[1] * x[1] + 0.5 * (eps[3] * x[0] + eps[5] * x[2]);
			u[2] = eps[2] * x[2] + 0.5 * (eps[4] * x[0] + eps[5] * x[1]);
		}
	}
	bool has_plastic() const { return c.dim == 3 && (c.mat[0].type == 1 || c.mat[1].type == 1); }

	// internal forces at u; optionally tangent (K band + coupling) ; state
	double forces(const std::vector<double> &u, const State &old, State *nst, std::vector<double> &r,
	              Band *K, std::vector<double> *G /* nfree x nv : int B^T C */, double *Cavg /* nv*nv */,
	              double *sigavg, Sol *info) const
	{
		r.assign(nfree, 0.0);
		if (G) G->assign((size_t) nfree * nv, 0.0);
		if (Cavg) for (int i = 0; i < nv * nv; i++) Cavg[i] = 0;
		if (sigavg) for (int i = 0; i < nv; i++) sigavg[i] = 0;
		if (info) { info->esig.assign((size_t) ne * nv, 0); info->eeps.assign((size_t) ne * nv, 0);
			info->minfrel = 1e300; info->nplastic = 0; info->plastic = false; }
		const int nd = npe * c.dim;
		std::vector<double> Ke;
		for (int e = 0; e < ne; e++) {
			int nds[8];
			nodes(e, nds);
			double ue[24];
			int fd[24];
			for (int a = 0; a < npe; a++)
				for (int d = 0; d < c.dim; d++) {
					ue[a * c.dim + d] = u[nds[a] * c.dim + d];
					fd[a * c.dim + d] = fdof[nds[a] * c.dim + d];
				}
			const Mat &m = c.mat[ph[e]];
			double ke[24][24];
			if (K) for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) ke[i][j] = 0;
			for (int q = 0; q < ngp; q++) {
				double eps[6] = {0}, sig[6] = {0}, C[6][6];
				for (int v = 0; v < nv; v++)
					for (int a = 0; a < nd; a++) eps[v] += B[q][v][a] * ue[a];
				if (c.dim == 2) {
					double C2[3][3];
					elast2(m, C2);
					for (int i = 0; i < 3; i++) { sig[i] = 0; for (int j = 0; j < 3; j++) { C[i][j] = C2[i][j]; sig[i] += C2[i][j] * eps[j]; } }
				} else {
					GpState nw; double fr;
					bool pl = stress3(m, eps, old[(size_t) e * 8 + q], nw, sig, (K || G || Cavg) ? C : nullptr, &fr);
					if (nst) (*nst)[(size_t) e * 8 + q] = nw;
					if (info) { info->minfrel = std::min(info->minfrel, fr); if (pl) { info->plastic = true; info->nplastic++; } }
				}
				double cb[6][24];
				if (K || G)
					for (int v = 0; v < nv; v++)
						for (int a = 0; a < nd; a++) { double s = 0; for (int w = 0; w < nv; w++) s += C[v][w] * B[q][w][a]; cb[v][a] = s * wg; }
				for (int a = 0; a < nd; a++)
					if (fd[a] >= 0) {
						double s = 0;
						for (int v = 0; v < nv; v++) s += B[q][v][a] * sig[v];
						r[fd[a]] += s * wg;
						if (G) for (int v = 0; v < nv; v++) (*G)[(size_t) v * nfree + fd[a]] += cb[v][a];
					}
				if (K)
					for (int a = 0; a < nd; a++)
						for (int b2 = 0; b2 < nd; b2++) { double s = 0; for (int v = 0; v < nv; v++) s += B[q][v][a] * cb[v][b2]; ke[a][b2] += s; }
				if (Cavg) for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) Cavg[i * nv + j] += C[i][j] * wg / vol;
				if (sigavg) for (int v = 0; v < nv; v++) sigavg[v] += sig[v] * wg / vol;
				if (info) for (int v = 0; v < nv; v++) { info->esig[e * nv + v] += sig[v] / ngp; info->eeps[e * nv + v] += eps[v] / ngp; }
			}
			if (K)
				for (int a = 0; a < nd; a++) if (fd[a] >= 0)
					for (int b2 = 0; b2 < nd; b2++) if (fd[b2] >= 0 && fd[b2] <= fd[a])
						K->at(fd[a], fd[b2]) += ke[a][b2];
		}
		double s = 0;
		for (double v : r) s += v * v;
		return std::sqrt(s);
	}
	int bandwidth() const
	{
		int bw = 0;
		for (int e = 0; e < ne; e++) {
			int nds[8], lo = 1 << 30, hi = -1;
			nodes(e, nds);
			for (int a = 0; a < npe; a++) for (int d = 0; d < c.dim; d++) {
				int f = fdof[nds[a] * c.dim + d];
				if (f >= 0) { lo = std::min(lo, f); hi = std::max(hi, f); }
			}
			if (hi >= 0) bw = std::max(bw, hi - lo);
		}
		return bw;
	}
	// Undamped Newton with the tolerance of the library (absolute 1e-5): number of
	// iterations from the interior field u0 (boundary values are imposed), -1 if it
	// does not converge within `maxit`.
	int plain_newton(const double *eps, const State &old, const std::vector<double> &u0, int maxit) const
	{
		if (nfree == 0) return 0;
		std::vector<double> u(u0), r;
		for (int n = 0; n < nn; n++)
			if (fdof[n * c.dim] < 0) {
				double x[3], v[3];
				coord(n, x); affine(eps, x, v);
				for (int d = 0; d < c.dim; d++) u[n * c.dim + d] = v[d];
			}
		int bw = bandwidth();
		for (int it = 0; it <= maxit; it++) {
			Band K;
			K.init(nfree, bw);
			double rn = forces(u, old, nullptr, r, &K, nullptr, nullptr, nullptr, nullptr);
			if (!(rn < 1e300)) return -1;
			if (rn < 1e-5) return it;
			if (!K.factor()) return -1;
			K.solve(r);
			for (size_t i = 0; i < u.size(); i++) if (fdof[i] >= 0) u[i] -= r[fdof[i]];
		}
		return -1;
	}
	// residual norm on the free dofs of a given field
	double residual(const std::vector<double> &u, const State &old) const
	{
		std::vector<double> r;
		return forces(u, old, nullptr, r, nullptr, nullptr, nullptr, nullptr, nullptr);
	}
	// incremental solve from committed state `old`
	Sol solve(const double *eps, const State &old, const std::vector<double> *u0 = nullptr) const
	{
		Sol s;
		s.u.assign((size_t) nn * c.dim, 0.0);
		for (int n = 0; n < nn; n++) {
			double x[3], v[3];
			coord(n, x); affine(eps, x, v);
			for (int d = 0; d < c.dim; d++)
				s.u[n * c.dim + d] = (u0 && fdof[n * c.dim + d] >= 0) ? (*u0)[n * c.dim + d] : v[d];
		}
		s.st = old;
		double Emax = std::max(c.mat[0].E, c.mat[1].E), em = 0;
		for (int v = 0; v < nv; v++) em = std::max(em, std::fabs(eps[v]));
		double hmin = 1e300;
		for (int d = 0; d < c.dim; d++) hmin = std::min(hmin, c.l[d] / (c.n[d] - 1));
		double lmax = std::max(c.l[0], c.l[1]);
		if (c.dim == 3) lmax = std::max(lmax, c.l[2]);
		// natural force scale of a node, to which the residual is relative
		double scale = Emax * em * wg * 8 / hmin * std::sqrt((double) std::max(1, nfree));
		double goal = std::max(scale * 1e-12, 1e-300);
		std::vector<double> r, rt;
		int bw = bandwidth();
		double rn = 0;
		for (s.its = 0; s.its < 400; s.its++) {
			Band K;
			K.init(nfree, bw);
			rn = forces(s.u, old, nullptr, r, &K, nullptr, nullptr, nullptr, nullptr);
			if (rn <= goal) { s.ok = true; break; }
			Band K0 = K;
			double reg = 0, dmax = 0;
			for (int i = 0; i < nfree; i++) dmax = std::max(dmax, K.at(i, i));
			while (!K.factor()) {
				reg = reg == 0 ? 1e-12 * dmax : reg * 100;
				if (reg > dmax) break;
				K = K0;
				for (int i = 0; i < nfree; i++) K.at(i, i) += reg;
			}
			std::vector<double> du = r;
			for (double &v : du) v = -v;
			K.solve(du);
			// line search: residual . direction, convex energy
			double t = 1.0, g0 = 0, best = -1, bestr = 1e300;
			for (int i = 0; i < nfree; i++) g0 += r[i] * du[i];
			std::vector<double> ub = s.u;
			double lo = 0, hi = -1;
			for (int ls = 0; ls < 30; ls++) {
				std::vector<double> ut = s.u;
				for (size_t i = 0; i < ut.size(); i++) if (fdof[i] >= 0) ut[i] += t * du[fdof[i]];
				double rtn = forces(ut, old, nullptr, rt, nullptr, nullptr, nullptr, nullptr, nullptr);
				double gt = 0;
				for (int i = 0; i < nfree; i++) gt += rt[i] * du[i];
				if (rtn < bestr) { bestr = rtn; best = t; ub = ut; }
				if (rtn < 0.5 * rn) break;
				if (std::fabs(gt) <= 0.1 * std::fabs(g0)) { ub = ut; bestr = rtn; break; }
				if (gt > 0) hi = t; else lo = t;
				t = hi < 0 ? 2 * t : 0.5 * (lo + hi);
			}
			(void) best;
			double stepmax = 0, umaxv = 0;
			for (size_t i = 0; i < ub.size(); i++) { stepmax = std::max(stepmax, std::fabs(ub[i] - s.u[i])); umaxv = std::max(umaxv, std::fabs(ub[i])); }
			s.u = ub;
			if (stepmax <= 1e-17 * umaxv) { // no further progress possible
				rn = forces(s.u, old, nullptr, r, nullptr, nullptr, nullptr, nullptr, nullptr);
				s.ok = rn <= goal * 1e3;
				break;
			}
		}
		if (!s.ok && rn <= goal * 1e3) s.ok = true;
		// post
		Band K;
		K.init(nfree, bw);
		std::vector<double> G;
		double Cavg[36];
		State nst = old;
		s.res = forces(s.u, old, &nst, r, &K, &G, Cavg, s.sig, &s);
		s.st = nst;
		for (double v : s.u) s.umax = std::max(s.umax, std::fabs(v));
		Band K0 = K;
		bool fok = K.factor();
		if (!fok) {
			double dmax = 0;
			for (int i = 0; i < nfree; i++) dmax = std::max(dmax, K0.at(i, i));
			K = K0;
			for (int i = 0; i < nfree; i++) K.at(i, i) += 1e-10 * dmax;
			if (!K.factor()) { for (int v = 0; v < nv; v++) s.wnorm[v] = 1e300; s.ok = false; return s; }
		}
		for (int v = 0; v < nv; v++) {
			std::vector<double> w(G.begin() + (size_t) v * nfree, G.begin() + (size_t)(v + 1) * nfree);
			K.solve(w);
			double q = 0;
			for (double x : w) q += x * x;
			s.wnorm[v] = std::sqrt(q) / vol;
			for (int j = 0; j < nv; j++) {
				double t = 0;
				for (int i = 0; i < nfree; i++) t += w[i] * G[(size_t) j * nfree + i];
				s.ctan[v * nv + j] = Cavg[v * nv + j] - t / vol;
			}
		}
		return s;
	}
};

} // namespace ref
