// Monitors of the homogenisation properties.
#pragma once
#include "gen.hpp"
#include <dirent.h>

static std::string cfgsig(const ref::Cfg &c)
{
	char b[200];
	snprintf(b, sizeof b, "%dD %dx%dx%d mt%d %d%d %s", c.dim, c.n[0], c.n[1], c.n[2], c.micro_type, c.mat[0].type, c.mat[1].type, c.inv_tol > 0 ? "tol" : "");
	return b;
}
static void rand_strain(Rng &r, int nv, double amp, double *e)
{
	rand_dir(r, nv, e);
	for (int i = 0; i < nv; i++) e[i] *= amp;
}
static double vnorm(const double *v, int n)
{
	double s = 0;
	for (int i = 0; i < n; i++) s += v[i] * v[i];
	return std::sqrt(s);
}
// scale of the largest strain for which the residual roundoff stays below the tolerance
static double max_amp(const ref::Cfg &c)
{
	double E = std::max(c.mat[0].E, c.mat[1].E), l2 = 0;
	for (int d = 0; d < c.dim; d++) l2 = std::max(l2, c.dim == 2 ? c.l[d] : c.l[d] * c.l[d]);
	return std::min(1.0, 1e9 / (E * l2));
}

static int weird_id(Rng &r)
{
	switch (r.ir(0, 5)) {
	case 0: return r.ir(0, 5);
	case 1: return -r.ir(1, 1000);
	case 2: return 2147483647 - r.ir(0, 3);
	case 3: return -2147483647 - 1 + r.ir(0, 3);
	default: return r.ir(0, 100000);
	}
}
// ---------------------------------------------------------------- C01
static void p_C01(Ctx &x)
{
	Rng &r = x.rng;
	GenOpt o;
	o.plastic = r.ch(0.15) ? 1 : 0;
	o.Elo = 1e7; o.Ehi = 1e9; o.contrast = r.ch(0.3) ? 300 : 20;
	o.maxn3 = r.ch(0.25) ? 7 : 5; o.maxn2 = r.ch(0.3) ? 14 : 8; o.maxel = x.thorough() ? 260 : 150;
	bool big = r.ch(0.02);
	if (big) { o.maxn3 = 11; o.maxn2 = 40; o.maxel = 1600; o.longn3 = 40; o.longn2 = 120; }
	if (r.ch(0.6)) o.phases = 2;
	if (!big) o.slender = 0.06;
	o.stiffnu = 0.1;
	ref::Cfg c = gen_cfg(x, o);
	if (big) x.cnt["large_grids"]++;
	if (r.ch(0.25)) c.inv_tol = 1e300;              // answered by the stored elastic tensor
	Session s(x, c);
	s.mask = CMP_STRESS;
	int ngp = r.ir(1, 3), nst = r.ir(2, 4);
	double am = max_amp(c);
	double ey = yield_strain(c);
	for (int k = 0; k < nst; k++) {
		for (int g = 0; g < ngp; g++) {
			double e[6];
			double amp = r.ch(0.2) ? r.logu(1e-6, 1e-4) : r.logu(1e-4, 0.05) ;
			if (r.ch(0.1)) amp = 0.5;
			if (r.ch(0.05)) amp = 0;
			amp = std::min(amp, am);
			if (o.plastic == 1 && c.inv_tol == 0) amp = std::min(amp, 0.05 * ey);
			rand_strain(r, c.nvoi(), amp, e);
			s.set(g, e);
		}
		s.homogenize();
		if (r.ch(0.3)) s.update();
	}
	s.account();
	x.sig("%s", cfgsig(c).c_str());
}

// ---------------------------------------------------------------- C02
static void p_C02(Ctx &x)
{
	Rng &r = x.rng;
	int kind = r.ir(0, 3); // 0 elastic any, 1 plastic taylor, 2 plastic interior, 3 plastic taylor self-derivative
	GenOpt o;
	o.Elo = 1e9; o.Ehi = 1e10; o.contrast = 10;
	if (kind == 0) { o.plastic = 0; o.maxn3 = 6; o.maxel = 120; }
	else { o.dim = 3; o.plastic = 1; o.shape = kind == 2 ? 1 : 0; o.maxn3 = kind == 2 ? 4 : 5; o.syLo = 2e-3; o.syHi = 3e-2; if (r.ch(0.5)) o.phases = 2; }
	ref::Cfg c = gen_cfg(x, o);
	if (kind == 0 && r.ch(0.3)) c.inv_tol = 1e300;
	Session s(x, c);
	s.mask = CMP_CTAN;
	double ey = yield_strain(c);
	Path P(r, c.nvoi(), kind == 0 ? std::min(0.02, max_amp(c)) : ey * r.uni(1, kind == 2 ? 3 : 8));
	int nst = kind == 2 ? 4 : kind == 0 ? 2 : 8;
	for (int k = 0; k < nst; k++) {
		double e[6];
		P.next(r, e);
		s.set(1, e);
		s.homogenize();
		if (kind == 3) {
			// derivative of the library's own stress, by central differences of larger step
			GpM &g = s.gps[0];
			if (g.ctanOk && g.sol.minfrel > 0.05) {
				double C[36], e0[6];
				s.d->ctan(1, C);
				memcpy(e0, g.eps, sizeof e0);
				double h = 1e-6, kap = 2e-3 * ey;
				h = kap;
				for (int j = 0; j < 6; j++) {
					double sp[6], sm[6], sp2[6], sm2[6], ee[6];
					auto ev = [&](double hh, double *out) { memcpy(ee, e0, sizeof ee); ee[j] += hh; s.d->set(1, ee); s.d->homog(); s.d->stress(1, out); };
					ev(h, sp); ev(-h, sm); ev(2 * h, sp2); ev(-2 * h, sm2);
					for (int i = 0; i < 6; i++) {
						double dd = (8 * (sp[i] - sm[i]) - (sp2[i] - sm2[i])) / (12 * h);
						x.near("ctan-self", C[i * 6 + j], dd, 2e-4 * s.Cscale, "tangent vs central difference of the returned stress", i, j);
					}
				}
				s.d->set(1, e0);
				s.d->homog();
				x.cnt["self_derivatives"] += 6;
			}
		}
		if (r.ch(0.7)) s.update();
	}
	s.account();
	x.sig("%s k%d %s", cfgsig(c).c_str(), kind, P.name());
}

// known finding: a cell of very soft material, whose nodal forces lie below the absolute Newton tolerance
static void k_C02(Ctx &x)
{
	ref::Cfg c;
	c.dim = 3;
	c.n[0] = c.n[1] = c.n[2] = 4;
	c.l[0] = c.l[1] = c.l[2] = 1;
	c.micro_type = 0;
	c.width = 0.4;
	c.inv_tol = 0;
	for (int m = 0; m < 2; m++) { c.mat[m].E = m ? 10 : 1; c.mat[m].nu = 0.3; c.mat[m].Sy = 1; c.mat[m].Ka = 0; c.mat[m].type = 0; }
	Session s(x, c);
	s.quiet = true;
	double e[6] = {1e-3, 0, 0, 0, 0, 0}, C[36];
	s.set(0, e);
	s.homogenize();
	s.d->ctan(0, C);
	for (int i = 0; i < 36; i++) if (!x.near("soft-cell-tangent", C[i], s.gps[0].ctan[i], 1e-3 * s.Cscale, "tangent of a soft cell", i / 6, i % 6)) break;
	x.sig("soft");
}

// ---------------------------------------------------------------- field file
// Solution expected in the field file of point g: its current strain, committed history
static ref::Sol field_solution(Session &s, GpM &g)
{
	ref::Sol f;
	for (int k = 0; !s.resolvable(g, f); k++) {
		if (k > 8) throw Skip{"unresolvable field"};
		for (int i = 0; i < s.M.nv; i++) g.eps[i] = k > 7 ? g.evalEps[i] : 0.5 * (g.eps[i] + g.evalEps[i]);
		s.d->set(g.id, g.eps);
	}
	if (s.M.nfree) s.ulast = f.u;
	return f;
}
enum { V_MESH = 1, V_BOUNDARY = 2, V_DISPL = 4, V_AVG = 8, V_FIELD = 16, V_PHASE = 32, V_HIST = 64, V_LAW = 128, V_RESID = 256, V_MACRO = 512 };

static void check_vtu(Ctx &x, Session &s, const GpM &g, const ref::Sol &f, const Vtu &v, int what)
{
	const ref::Model &M = s.M;
	const ref::Cfg &c = s.cfg;
	const int nv = M.nv, nn = M.nn, ne = M.ne;
	if (!x.expect("vtu-missing", v.found, "field file of point %d was not written", g.id)) return;
	if (!x.expect("vtu-malformed", v.ok, "field file: %s", v.why.c_str())) return;
	auto arr = [&](const char *n, size_t sz, int ncomp) -> const std::vector<double> * {
		auto it = v.a.find(n);
		if (!x.expect("vtu-array", it != v.a.end(), "array %s missing", n)) return nullptr;
		if (!x.expect("vtu-array", it->second.size() == sz, "array %s has %zu entries, expected %zu", n, it->second.size(), sz)) return nullptr;
		if (!x.expect("vtu-array", v.ncomp.at(n) == ncomp, "array %s declares %d components", n, v.ncomp.at(n))) return nullptr;
		return &it->second;
	};
	auto D = arr("displ", (size_t) nn * 3, 3), P = arr("Position", (size_t) nn * 3, 3), B = arr("b", (size_t) nn * 3, 3);
	auto ST = arr("strain", (size_t) ne * nv, nv), SS = arr("stress", (size_t) ne * nv, nv);
	auto T = arr("elem_type", ne, 1), PL = arr("plasticity", ne, 1), HA = arr("hardening", ne, 1);
	if (M.nfree && M.has_plastic() && B) {
		double q = 0;
		for (double b : *B) q += b * b;
		x.cnt["newton_solves"]++;
		if (!(std::sqrt(q) < 1.001e-5)) { x.cnt["newton_unconverged"]++; throw Skip{"field solve not converged"}; }
	}
	auto CN = arr("connectivity", (size_t) ne * M.npe, 1), OF = arr("offsets", ne, 1), TY = arr("types", ne, 1);
	if (!D || !P || !B || !ST || !SS || !T || !PL || !HA || !CN || !OF || !TY) return;
	x.cnt["field_files"]++;
	if (what & V_MESH) {
		x.expect("vtu-count", v.npoints == nn && v.ncells == ne, "counts %ld/%ld, expected %d/%d", v.npoints, v.ncells, nn, ne);
		double L = std::max(c.l[0], std::max(c.l[1], c.dim == 3 ? c.l[2] : 0.0));
		for (int n = 0; n < nn; n++) {
			double X[3];
			M.coord(n, X);
			for (int d = 0; d < 3; d++)
				if (!x.near("vtu-coord", (*P)[n * 3 + d], d < c.dim ? X[d] : 0.0, 1e-5 * L, "node coordinate", n, d)) break;
		}
		for (int e = 0; e < ne; e++) {
			int nd[8];
			M.nodes(e, nd);
			bool ok = true;
			for (int a = 0; a < M.npe; a++) ok = ok && (*CN)[(size_t) e * M.npe + a] == nd[a];
			x.expect("vtu-conn", ok, "connectivity of cell %d", e);
			x.expect("vtu-conn", (*OF)[e] == (e + 1.0) * M.npe, "offset of cell %d", e);
			x.expect("vtu-conn", (*TY)[e] == (c.dim == 2 ? 9 : 12), "type of cell %d", e);
		}
	}
	double um = f.umax, hm = 1e300;
	for (int d = 0; d < c.dim; d++) hm = std::min(hm, c.l[d] / (c.n[d] - 1));
	double Emin = std::min(c.mat[0].E, c.mat[1].E);
	bool pl = f.nplastic > 0 && M.nfree;
	double utol = 1.1e-5 * um + 1e-4 / (Emin * (c.dim == 3 ? hm : 1.0)) * M.nfree + (pl ? 3e-4 * um : 0);
	for (int n = 0; n < nn; n++)
		for (int d = 0; d < 3; d++) {
			bool fr = d < c.dim && M.fdof[n * c.dim + (d < c.dim ? d : 0)] >= 0;
			double want = d < c.dim ? f.u[n * c.dim + d] : 0.0, got = (*D)[n * 3 + d];
			if (!fr && (what & V_BOUNDARY)) x.near("vtu-boundary", got, want, 1.1e-5 * std::fabs(want) + 1e-12 * um, "boundary displacement", n, d);
			if (fr && (what & V_DISPL)) x.near(pl ? "vtu-displ-plastic" : "vtu-displ", got, want, utol, "interior displacement", n, d);
		}
	if (what & V_RESID) {
		double q = 0, bd = 0;
		for (int n = 0; n < nn; n++)
			for (int d = 0; d < 3; d++) {
				double b = (*B)[n * 3 + d];
				q += b * b;
				if (d < c.dim && M.fdof[n * c.dim + d] < 0) bd = std::max(bd, std::fabs(b));
			}
		x.expect("vtu-residual", std::sqrt(q) < 1.001e-5, "residual written is %.3g", std::sqrt(q));
		x.expect("vtu-residual", bd == 0, "residual on the boundary %.3g", bd);
	}
	double em = vnorm(g.eps, nv), sm = 0, lm = 0;
	for (double q : f.esig) sm = std::max(sm, std::fabs(q));
	for (double q : f.eeps) lm = std::max(lm, std::fabs(q));
	double h2 = c.dim == 3 ? hm * hm : hm;
	double stol = 1.2e-5 * sm + 1e-4 / h2 * M.nfree * 1e-1, etol = 1.2e-5 * lm + stol / Emin;
	if (pl) { etol = 5e-3 * lm; stol = 1e-4 * sm; }
	if (what & V_FIELD)
		for (int e = 0; e < ne; e++)
			for (int i = 0; i < nv; i++) {
				x.near(pl ? "vtu-strain-plastic" : "vtu-strain", (*ST)[e * nv + i], f.eeps[e * nv + i], etol, "element strain", e, i);
				x.near(pl ? "vtu-stress-plastic" : "vtu-stress", (*SS)[e * nv + i], f.esig[e * nv + i], stol, "element stress", e, i);
			}
	if (what & V_AVG)
		for (int i = 0; i < nv; i++) {
			double a = 0;
			for (int e = 0; e < ne; e++) a += (*ST)[e * nv + i] / ne;
			x.near("vtu-avg-strain", a, g.eps[i], 1.2e-5 * lm + 1e-15, "average strain vs imposed", i);
		}
	if (what & V_MACRO) {
		double sg[6];
		s.d->stress(g.id, sg);
		for (int i = 0; i < nv; i++) {
			double a = 0;
			for (int e = 0; e < ne; e++) a += (*SS)[e * nv + i] / ne;
			x.near("vtu-avg-stress", a, sg[i], 1.2e-5 * sm + 2 * g.tolS[i], "average stress vs returned macro stress", i);
		}
	}
	if (what & V_PHASE)
		for (int e = 0; e < ne; e++)
			x.expect("vtu-phase", (*T)[e] == M.ph[e], "cell %d is in phase %g, expected %d", e, (*T)[e], M.ph[e]);
	if (what & V_LAW)
		for (int e = 0; e < ne; e++) {
			const ref::Mat &m = c.mat[M.ph[e]];
			double C[6][6] = {{0}};
			if (c.dim == 2) {
				double c2[3][3];
				ref::elast2(m, c2);
				for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C[i][j] = c2[i][j];
			} else {
				double z[6] = {0}, sg[6];
				ref::GpState o{}, w;
				ref::Mat me = m;
				me.type = 0;
				ref::stress3(me, z, o, w, sg, C, nullptr);
			}
			if (m.type == 1 && c.dim == 3 && (f.nplastic > 0 || g.nl)) continue; // not an elastic element
			for (int i = 0; i < nv; i++) {
				double t = 0, mag = 0;
				for (int j = 0; j < nv; j++) { t += C[i][j] * (*ST)[e * nv + j]; mag += std::fabs(C[i][j] * (*ST)[e * nv + j]); }
				x.near("vtu-law", (*SS)[e * nv + i], t, 2e-5 * mag + 1e-12 * sm, "element stress vs stiffness of its phase", e, i);
			}
			x.cnt["cells_law"]++;
		}
	if (what & V_HIST) {
		double pm = 0, ham = 0;
		std::vector<double> wp(ne, 0), wh(ne, 0);
		if (c.dim == 3)
			for (int e = 0; e < ne; e++)
				for (int q = 0; q < 8; q++) {
					const ref::GpState &z = g.com[(size_t) e * 8 + q];
					double n2 = 0;
					for (int i = 0; i < 6; i++) n2 += (i < 3 ? 1 : 2) * z[i] * z[i];
					wp[e] += std::sqrt(n2) / 8;
					wh[e] += z[6] / 8;
				}
		for (int e = 0; e < ne; e++) { pm = std::max(pm, wp[e]); ham = std::max(ham, wh[e]); }
		double rt = M.nfree ? 1e-3 : 1.2e-5;
		for (int e = 0; e < ne; e++) {
			x.near("vtu-plasticity", (*PL)[e], wp[e], 1.2e-5 * wp[e] + (M.nfree ? rt * pm : 0) + 1e-300, "plastic strain norm of cell", e);
			x.near("vtu-hardening", (*HA)[e], wh[e], 1.2e-5 * wh[e] + (M.nfree ? rt * ham : 0) + 1e-300, "hardening of cell", e);
		}
		if (pm > 0) x.cnt["field_files_with_history"]++;
	}
	(void) em;
}
static std::vector<std::string> list_vtu();
static std::string vtu_name(int id, int t)
{
	char b[80];
	snprintf(b, sizeof b, "micropp_%d_%d.vtu", id, t);
	return b;
}
static ref::Cfg field_cfg(Ctx &x, bool &plastic, bool big = false)
{
	Rng &r = x.rng;
	GenOpt o;
	plastic = r.ch(0.4);
	if (plastic) { o.dim = 3; o.plastic = 1; o.maxn3 = 4; o.shape = r.ch(0.6) ? 1 : -1; o.syLo = 2e-3; }
	else { o.plastic = 0; o.maxn3 = big ? 7 : 5; o.maxn2 = 10; o.maxel = 150; }
	if (r.ch(0.02)) { o.maxn3 = plastic ? 5 : 9; o.maxn2 = 30; o.maxel = plastic ? 100 : 900; o.longn3 = 25; o.longn2 = 90; }
	if (r.ch(0.6)) o.phases = 2;
	return gen_cfg(x, o);
}
static void field_session(Ctx &x, Session &s, bool plastic, int what, int nstep, int ngp, bool wander)
{
	Rng &r = x.rng;
	double ey = yield_strain(s.cfg);
	std::vector<Path> P;
	std::vector<int> ids;
	for (int g = 0; g < ngp; g++) {
		P.emplace_back(r, s.nv(), plastic ? ey * r.uni(0.8, 4) : std::min(0.02, max_amp(s.cfg)));
		int id;
		do id = wander && r.ch(0.3) ? weird_id(r) : r.ir(0, 150); while (std::find(ids.begin(), ids.end(), id) != ids.end());
		ids.push_back(id);
	}
	for (int k = 0; k < nstep; k++) {
		for (int g = 0; g < ngp; g++) {
			double e[6];
			P[g].next(r, e);
			s.set(ids[g], e);
		}
		bool evaluated = true;
		if (!wander || r.ch(0.8)) { s.quiet = true; s.homogenize(); s.quiet = false; }
		else evaluated = false;
		if (r.ch(0.7)) {
			GpM &g = s.gps[r.ir(0, ngp - 1)];
			int t = r.ch(0.7) ? k : r.ch(0.5) ? r.ir(-3, 100000) : weird_id(r);
			std::string fn = vtu_name(g.id, t);
			unlink(fn.c_str());
			double before[6];
			memcpy(before, g.eps, sizeof before);
			ref::Sol f = field_solution(s, g);
			bool same = memcmp(before, g.eps, sizeof before) == 0;
			s.d->output(t, g.id);
			if (what & V_MESH) { auto all = list_vtu(); x.expect("vtu-name", all.size() == 1 && all[0] == fn, "%zu field files after one request, expected %s only", all.size(), fn.c_str()); }
			int w = what;
			if (!evaluated || !same || !g.full) w &= ~V_MACRO;
			check_vtu(x, s, g, f, read_vtu(fn), w);
			unlink(fn.c_str());
			x.sig("%s %s%s", cfgsig(s.cfg).c_str(), f.nplastic ? "plastic " : "", g.nl ? "history" : "");
		}
		if (evaluated && r.ch(0.7)) s.update();
	}
	s.account();
}
static void p_C03(Ctx &x)
{
	bool pl;
	ref::Cfg c = field_cfg(x, pl, true);
	Session s(x, c);
	field_session(x, s, pl, V_BOUNDARY | V_DISPL | V_AVG | V_MACRO | V_RESID, pl ? 5 : 3, x.rng.ir(1, 2), false);
}
static std::vector<std::string> list_vtu()
{
	std::vector<std::string> v;
	if (DIR *p = opendir(".")) {
		while (dirent *e = readdir(p)) if (strstr(e->d_name, ".vtu")) v.push_back(e->d_name);
		closedir(p);
	}
	return v;
}
static void p_C14(Ctx &x)
{
	Rng &r = x.rng;
	bool pl;
	ref::Cfg c = field_cfg(x, pl);
	Session s(x, c);
	field_session(x, s, pl, V_MESH | V_BOUNDARY | V_DISPL | V_FIELD | V_PHASE | V_HIST | V_AVG, pl ? 6 : 3, x.rng.ir(1, 3), true);
	// unknown points write nothing
	int id = 0;
	do id = r.ch(0.4) ? weird_id(r) : r.ch(0.5) ? s.gps[0].id + (s.gps[0].id < 1000 ? 1 : -1) : 987654; while (s.find(id));
	s.d->output(3, id);
	x.expect("vtu-unknown", list_vtu().empty(), "a field file appeared for a point that does not exist");
}

// ---------------------------------------------------------------- C04
static void jacobi_eig(int n, std::vector<double> A, std::vector<double> &w)
{
	for (int sweep = 0; sweep < 60; sweep++) {
		double off = 0;
		for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += A[i * n + j] * A[i * n + j];
		if (off < 1e-300) break;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
			double apq = A[p * n + q];
			if (apq == 0) continue;
			double th = (A[q * n + q] - A[p * n + p]) / (2 * apq), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
			double cc = 1 / std::sqrt(t * t + 1), ss = t * cc;
			for (int k = 0; k < n; k++) { double a = A[k * n + p], b = A[k * n + q]; A[k * n + p] = cc * a - ss * b; A[k * n + q] = ss * a + cc * b; }
			for (int k = 0; k < n; k++) { double a = A[p * n + k], b = A[q * n + k]; A[p * n + k] = cc * a - ss * b; A[q * n + k] = ss * a + cc * b; }
		}
	}
	w.resize(n);
	for (int i = 0; i < n; i++) w[i] = A[i * n + i];
}
static bool inverse(int n, const std::vector<double> &A, std::vector<double> &I)
{
	std::vector<double> a = A;
	I.assign(n * n, 0);
	for (int i = 0; i < n; i++) I[i * n + i] = 1;
	for (int c = 0; c < n; c++) {
		int p = c;
		for (int i = c; i < n; i++) if (std::fabs(a[i * n + c]) > std::fabs(a[p * n + c])) p = i;
		if (a[p * n + c] == 0) return false;
		for (int j = 0; j < n; j++) { std::swap(a[p * n + j], a[c * n + j]); std::swap(I[p * n + j], I[c * n + j]); }
		double d = a[c * n + c];
		for (int j = 0; j < n; j++) { a[c * n + j] /= d; I[c * n + j] /= d; }
		for (int i = 0; i < n; i++) if (i != c) { double f = a[i * n + c]; for (int j = 0; j < n; j++) { a[i * n + j] -= f * a[c * n + j]; I[i * n + j] -= f * I[c * n + j]; } }
	}
	return true;
}
static std::vector<double> phase_stiffness(const ref::Cfg &c, int m)
{
	int nv = c.nvoi();
	std::vector<double> C(nv * nv, 0);
	if (c.dim == 2) { double c2[3][3]; ref::elast2(c.mat[m], c2); for (int i = 0; i < 9; i++) C[i] = c2[i / 3][i % 3]; }
	else {
		double z[6] = {0}, sg[6], c6[6][6];
		ref::GpState o{}, w;
		ref::Mat me = c.mat[m];
		me.type = 0;
		ref::stress3(me, z, o, w, sg, c6, nullptr);
		for (int i = 0; i < 36; i++) C[i] = c6[i / 6][i % 6];
	}
	return C;
}
static void p_C04(Ctx &x)
{
	Rng &r = x.rng;
	GenOpt o;
	o.plastic = 0; o.Elo = 1e9; o.Ehi = 1e10; o.contrast = r.ch(0.3) ? 200 : 10;
	o.maxn3 = 6; o.maxn2 = 14; o.maxel = 170;
	if (r.ch(0.75)) o.phases = 2;
	ref::Cfg c = gen_cfg(x, o);
	if (r.ch(0.4)) c.inv_tol = 1e300;
	int nv = c.nvoi();
	ClassDrv d(c);
	double e[6];
	rand_strain(r, nv, std::min(1e-3, max_amp(c)), e);
	d.set(0, e);
	d.homog();
	std::vector<double> C(nv * nv);
	d.ctan(0, C.data());
	long pc[2];
	count_phases(c, pc);
	double f1 = pc[1] / (double) (pc[0] + pc[1]), f0 = 1 - f1;
	std::vector<double> C0 = phase_stiffness(c, 0), C1 = phase_stiffness(c, 1), V(nv * nv), R, S0, S1, SS(nv * nv);
	inverse(nv, C0, S0); inverse(nv, C1, S1);
	double cs = 0;
	for (int i = 0; i < nv * nv; i++) { V[i] = f0 * C0[i] + f1 * C1[i]; SS[i] = f0 * S0[i] + f1 * S1[i]; cs = std::max(cs, std::fabs(C[i])); }
	inverse(nv, SS, R);
	double csv = 0;
	for (double q : V) csv = std::max(csv, std::fabs(q));
	ref::Model M(c);
	ref::Sol s = M.solve(e, M.zero());
	double wn = 0;
	for (int v = 0; v < nv; v++) wn = std::max(wn, s.wnorm[v]);
	double tol = 5e-6 * csv + 20e3 * wn;
	for (int i = 0; i < nv; i++) for (int j = 0; j < i; j++)
		x.near("asymmetric", C[i * nv + j], C[j * nv + i], tol, "tangent symmetry", i, j);
	std::vector<double> w, U(nv * nv), Lw(nv * nv), Cs(nv * nv);
	for (int i = 0; i < nv; i++) for (int j = 0; j < nv; j++) Cs[i * nv + j] = 0.5 * (C[i * nv + j] + C[j * nv + i]);
	for (int i = 0; i < nv * nv; i++) { U[i] = V[i] - Cs[i]; Lw[i] = Cs[i] - R[i]; }
	jacobi_eig(nv, Cs, w);
	for (double q : w) x.expect("not-positive", q > 0, "tangent has the eigenvalue %.6g", q);
	jacobi_eig(nv, U, w);
	for (double q : w) x.expect("above-voigt", q > -tol * nv, "stiffer than the Voigt bound by %.6g (scale %.3g)", -q, csv);
	jacobi_eig(nv, Lw, w);
	for (double q : w) x.expect("below-reuss", q > -tol * nv, "softer than the Reuss bound by %.6g (scale %.3g)", -q, csv);
	if (!pc[0] || !pc[1]) {
		x.cnt["single_phase"]++;
		for (int i = 0; i < nv * nv; i++) x.near("single-phase", C[i], V[i], tol, "single-phase stiffness", i / nv, i % nv);
	}
	x.cnt["tensors"]++;
	x.sig("%s", cfgsig(c).c_str());
}

// ---------------------------------------------------------------- internal variables file
// committed internal variables of every point, from the last record of the file
static bool read_int_vars(Ctx &x, Session &s, std::vector<std::vector<double>> &out)
{
	std::vector<std::string> l = lines(slurp("micropp_int_vars_n.dat"));
	if (!x.expect("intvars-file", !l.empty(), "internal variable file is empty")) return false;
	bool ok;
	out = groups(l.back(), &ok);
	if (!x.expect("intvars-file", ok && out.size() == s.gps.size(), "record has %zu groups for %zu points", out.size(), s.gps.size())) return false;
	for (auto &g : out)
		if (!x.expect("intvars-file", g.size() == (size_t) s.M.ne * 56, "group has %zu values, expected %d", g.size(), s.M.ne * 56)) return false;
	return true;
}
static void compare_int_vars(Ctx &x, Session &s)
{
	s.d->info();
	std::vector<std::vector<double>> v;
	if (!read_int_vars(x, s, v)) return;
	for (size_t k = 0; k < s.gps.size(); k++) {
		const GpM &g = s.gps[k];
		double m = 0;
		if (s.cfg.dim == 3) for (auto &z : g.com) for (double q : z) m = std::max(m, std::fabs(q));
		bool bad = false;
		for (int e = 0; e < s.M.ne && !bad; e++)
			for (int q = 0; q < 8 && !bad; q++)
				for (int i = 0; i < 7 && !bad; i++) {
					double want = s.cfg.dim == 3 ? g.com[(size_t) e * 8 + q][i] : 0.0;
					double tol = 1.2e-5 * std::fabs(want) + (s.M.nfree ? 2e-3 : 1e-9) * m;
					bad = !x.near(s.M.nfree ? "intvars" : "intvars-taylor", v[k][(e * 8 + q) * 7 + i], want, tol, "internal variable (elem*8+gp, component)", e * 8 + q, i);
				}
		x.cnt["intvar_records"]++;
		if (m > 0) x.cnt["intvar_records_plastic"]++;
	}
}

// ---------------------------------------------------------------- C05
static void p_C05(Ctx &x)
{
	Rng &r = x.rng;
	GenOpt o;
	o.dim = 3; o.plastic = 1; o.shape = 0; o.maxn3 = 5; o.maxel = 24;
	o.Elo = 1; o.Ehi = 1e12; o.contrast = 1e3; o.syLo = 1e-4; o.syHi = 5e-2; o.stiffnu = 0.1;
	ref::Cfg c = gen_cfg(x, o);
	if (r.ch(0.5)) { c.n[0] = c.n[1] = c.n[2] = 2; }
	ref::Model M(c);
	if (M.tiemargin < 1e-6) throw Skip{"tie"};
	if (!M.has_plastic()) throw Skip{"elastic"};
	Session s(x, c);
	s.mask = CMP_STRESS | CMP_FLAG;
	double ey = yield_strain(c);
	int np = r.ir(1, 3), nst = x.thorough() ? r.ir(20, 120) : r.ir(10, 40);
	if (r.ch(0.02)) { nst = r.ir(500, 1200); x.cnt["long_histories"]++; }
	auto path = [&] { if (r.ch(0.15)) { x.cnt["creep_legs"]++; return Path(r, 6, ey * r.logu(1.2, 10), 7); } return Path(r, 6, ey * r.logu(0.3, 30)); };
	Path P = path();
	for (int leg = 0; leg < np; leg++) {
		if (leg) P = path();
		for (int k = 0; k < nst; k++) {
			double e[6];
			P.next(r, e);
			s.set(7, e);
			s.homogenize();
			if (!r.ch(0.1)) s.update();
			if (r.ch(0.15)) compare_int_vars(x, s);
			if (!x.viol.empty()) return;
		}
		x.sig("%s %s ka%d", cfgsig(c).c_str(), P.name(), c.mat[0].Ka > 0);
	}
	compare_int_vars(x, s);
	s.account();
}

// ---------------------------------------------------------------- C06
static ref::Cfg plastic_interior(Ctx &x, int maxn)
{
	GenOpt o;
	o.dim = 3; o.plastic = 1; o.shape = 1; o.maxn3 = maxn; o.maxel = 64;
	o.Elo = 1e8; o.Ehi = 2e9; o.contrast = 10; o.syLo = 1e-3; o.syHi = 2e-2;
	if (x.rng.ch(0.8)) o.phases = 2;
	return gen_cfg(x, o);
}
static void p_C06(Ctx &x)
{
	Rng &r = x.rng;
	ref::Cfg c = plastic_interior(x, x.thorough() && r.ch(0.3) ? 6 : r.ch(0.3) ? 5 : 4);
	Session s(x, c);
	double ey = yield_strain(c);
	Path P(r, 6, ey * r.uni(1, 5));
	int nst = r.ir(4, 8);
	for (int k = 0; k < nst; k++) {
		double e[6];
		P.next(r, e);
		s.set(0, e);
		s.homogenize();
		if (r.ch(0.85)) s.update();
		if (r.ch(0.3)) compare_int_vars(x, s);
		if (!x.viol.empty()) return;
	}
	compare_int_vars(x, s);
	s.account();
	x.sig("%s %s ka%d", cfgsig(c).c_str(), P.name(), c.mat[0].Ka > 0);
}

// ---------------------------------------------------------------- C07
static ref::Cfg history_cfg(Ctx &x, bool *taylor = nullptr)
{
	Rng &r = x.rng;
	bool t = r.ch(0.7);
	if (taylor) *taylor = t;
	GenOpt o;
	o.dim = 3; o.plastic = 1; o.shape = t ? 0 : 1; o.maxn3 = t ? 4 : 4; o.maxel = t ? 12 : 27;
	o.Elo = 1e8; o.Ehi = 2e9; o.contrast = 10; o.syLo = 1e-3; o.syHi = 2e-2;
	return gen_cfg(x, o);
}
static void p_C07(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor;
	ref::Cfg c = history_cfg(x, &taylor);
	double ey = yield_strain(c);
	if (r.ch(0.25)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 5);
	Session s(x, c);
	int ngp = r.ir(1, 3), nop = taylor ? r.ir(15, 50) : r.ir(6, 14);
	if (taylor && r.ch(0.02)) { nop = r.ir(300, 600); x.cnt["long_histories"]++; }
	int discarded = 0, doubled = 0, holds = 0, setonly = 0;
	std::vector<Path> P;
	for (int g = 0; g < ngp; g++) P.emplace_back(r, 6, ey * r.uni(0.8, taylor ? 8 : 4));
	std::map<int, std::vector<double>> held; // committed stress per point
	for (int k = 0; k < nop && x.viol.empty(); k++) {
		if (!s.gps.empty() && r.ch(0.08)) { // strain set but not evaluated before the commit: the last evaluated trial counts
			for (int g = 0; g < ngp; g++)
				if (s.find(g) && r.ch(0.7)) { double e[6]; rand_strain(r, 6, ey * r.uni(0.2, taylor ? 6 : 2), e); s.set(g, e); }
			if (r.ch(0.8)) s.update();
			setonly++;
			continue;
		}
		switch (r.ir(0, 9)) {
		case 0: case 1: case 2: case 3: { // new trial for some points
			for (int g = 0; g < ngp; g++)
				if (s.gps.empty() || r.ch(0.7)) { double e[6]; P[g].next(r, e); if (r.ch(0.3)) rand_strain(r, 6, ey * r.uni(0.2, taylor ? 12 : 3), e); s.set(g, e); }
			s.homogenize();
			discarded++;
			break;
		}
		case 4: case 5: case 6: if (!s.gps.empty()) { s.update(); } break;
		case 7: if (!s.gps.empty()) { s.update(); s.update(); doubled++; } break;
		case 8: if (!s.gps.empty()) { // evaluate again without change
				s.homogenize();
				if (r.ch(0.5)) s.homogenize();
			} break;
		default: // commit, then hold: the committed stress must be reproduced
			if (s.gps.empty()) break;
			s.homogenize();
			{
				std::vector<std::vector<double>> st(ngp, std::vector<double>(6));
				for (auto &g : s.gps) s.d->stress(g.id, st[g.id].data());
				s.update();
				s.homogenize();
				for (auto &g : s.gps) {
					double now[6];
					s.d->stress(g.id, now);
					for (int i = 0; i < 6; i++) x.near("hold", now[i], st[g.id][i], 3 * g.tolS[i] + (taylor ? 1e-9 : 1e-5) * vnorm(g.sig, 6), "stress after committing and holding the strain", g.id, i);
				}
				if (r.ch(0.5)) s.update();
				holds++;
			}
		}
		if (!s.gps.empty() && s.gps[0].evaluated && r.ch(0.1)) compare_int_vars(x, s);
	}
	if (!s.gps.empty() && s.gps[0].evaluated && x.viol.empty()) compare_int_vars(x, s);
	x.cnt["discarded_trials"] += discarded;
	x.cnt["repeated_commits"] += doubled;
	x.cnt["holds"] += holds;
	x.cnt["commits_of_set_strain"] += setonly;
	s.account();
	x.sig("%s gp%d d%d h%d", cfgsig(c).c_str(), ngp, discarded, holds);
}

// ---------------------------------------------------------------- C08
// an id easily confused with one already in use
static int twin_id(Rng &r, int id)
{
	long long v = id;
	switch (r.ir(0, 7)) {
	case 0: v = -v; break;
	case 1: v += 256LL * r.ir(-3, 3); break;
	case 2: v += 65536LL * r.ir(-3, 3); break;
	case 3: v += 1000LL * r.ir(-5, 5); break;
	case 4: v ^= 1LL << r.ir(0, 30); break;
	case 5: v += r.ir(-1, 1); break;
	case 6: v = ~v; break;
	default: v += 1LL << 24;
	}
	return (int) (unsigned) v;
}
static void p_C08(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor;
	ref::Cfg c = history_cfg(x, &taylor);
	bool el = r.ch(0.2);
	if (el) { GenOpt o; o.plastic = 0; o.maxel = 40; c = gen_cfg(x, o); taylor = true; }
	bool crowd = r.ch(0.006);
	if (crowd) { GenOpt o; o.plastic = 0; o.shape = 0; o.dim = r.ch(0.8) ? 2 : 3; o.maxn2 = o.maxn3 = 2; o.elong = 0; c = gen_cfg(x, o); taylor = true; }
	double ey = yield_strain(c);
	if (r.ch(0.35)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 5);
	Session s(x, c);
	int nv = c.nvoi();
	int ngp = taylor ? r.ir(2, x.thorough() ? 60 : 14) : r.ir(2, 4), nst = taylor ? r.ir(4, 10) : r.ir(3, 5);
	std::set<int> idset;
	std::vector<int> ids;
	if (taylor && r.ch(0.02)) {
		ngp = r.ir(100, 400); nst = r.ir(3, 6);
		x.cnt["many_points"]++;
	}
	if (crowd) { ngp = r.ir(800, 2500); nst = 2; x.cnt["crowds"]++; }
	int late = r.ir(0, 2); // 0: half at first; 1: a few per step; 2: all at once
	while ((int) ids.size() < ngp) { int i = ids.empty() || r.ch(0.6) ? weird_id(r) : twin_id(r, ids[r.ir(0, (int) ids.size() - 1)]); if (idset.insert(i).second) ids.push_back(i); }
	std::vector<Path> P;
	for (int g = 0; g < ngp; g++) P.emplace_back(r, nv, ey * (r.ch(0.3) ? 0.2 : r.uni(0.8, taylor ? 8 : 3)));
	auto unknown = [&] {
		int u = r.ch(0.5) ? weird_id(r) : twin_id(r, ids[r.ir(0, ngp - 1)]);
		if (idset.count(u) && s.find(u)) return;
		double b[40];
		for (double &q : b) q = 1.25e99;
		s.d->stress(u, b);
		s.d->ctan(u, b);
		bool untouched = true;
		for (double q : b) untouched = untouched && q == 1.25e99;
		x.expect("unknown-id", untouched, "query of the unknown point %d changed the buffer", u);
		x.expect("unknown-id", s.d->nl(u) == 0, "flag of the unknown point %d is set", u);
		x.cnt["unknown_queries"]++;
	};
	if (r.ch(0.3)) { // an object without any point
		unknown();
		if (r.ch(0.3)) s.d->homog();
		if (r.ch(0.3)) s.d->update();
		if (r.ch(0.3)) unknown();
		x.cnt["queries_without_points"]++;
	}
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		// some points are created late, strains are set in changing order, some not at all
		int have = late == 2 ? ngp : late == 0 ? (k == 0 ? std::max(1, ngp / 2) : ngp) : std::min(ngp, std::max(1, ngp * (k + 1) / nst));
		std::vector<int> ord;
		for (int g = 0; g < have; g++) ord.push_back(g);
		for (int i = have - 1; i > 0; i--) std::swap(ord[i], ord[r.ir(0, i)]);
		for (int g : ord) {
			double e[6];
			P[g].next(r, e);
			if (s.find(ids[g]) && r.ch(0.25)) continue;
			if (r.ch(0.1)) { double z[6]; rand_strain(r, nv, ey * r.uni(0.1, 3), z); s.set(ids[g], z); } // overwritten before use
			s.set(ids[g], e);
		}
		if (r.ch(0.1)) unknown();
		s.homogenize();
		unknown();
		if (r.ch(0.75)) s.update();
	}
	if (x.viol.empty() && c.dim == 3) compare_int_vars(x, s);
	// the same load history with each point alone in an object of its own is what the model is;
	// replay one point alone on the real code too
	s.account();
	x.cnt["points"] += ngp;
	x.sig("%s n%d", cfgsig(c).c_str(), ngp);
}

// ---------------------------------------------------------------- recorded operation sequences
// A concrete sequence of API calls, replayable on any driver; the trace of results is bit exact.
struct Op { int kind; int id; double e[6]; int t; }; // 0 set 1 homog 2 update 3 output 4 info
struct Trace {
	std::vector<double> v;
	void add(double d) { v.push_back(d); }
	bool same(const Trace &o, size_t *where) const
	{
		size_t n = std::min(v.size(), o.v.size());
		for (size_t i = 0; i < n; i++)
			if (memcmp(&v[i], &o.v[i], sizeof(double)) != 0) { *where = i; return false; }
		*where = n;
		return v.size() == o.v.size();
	}
};
static void trace_gp(Drv &d, int nv, int id, Trace &t)
{
	// buffers of exactly the size needed (for the sanitizers); what lies behind them is traced through the unknown point
	std::vector<double> s(nv, 1.5e88), c(nv * nv, 1.5e88);
	d.stress(id, s.data());
	d.ctan(id, c.data());
	for (double q : s) t.add(q);
	for (double q : c) t.add(q);
	t.add(d.nl(id));
}
static void play_op(Drv &d, int nv, const Op &o, std::vector<int> &ids, Trace &t, bool observe = true)
{
	switch (o.kind) {
	case 0:
		d.set(o.id, o.e);
		if (std::find(ids.begin(), ids.end(), o.id) == ids.end()) ids.push_back(o.id);
		break;
	case 1:
		d.homog();
		if (observe) {
			for (int id : ids) trace_gp(d, nv, id, t);
			double w[40]; // queries of a point that does not exist, and of one with room to spare
			for (double &q : w) q = 2.5e88;
			d.stress(-123456789, w);
			d.ctan(-123456789, w);
			t.add(d.nl(-123456789));
			if (!ids.empty()) { d.stress(ids[0], w); for (int i = nv; i < 8; i++) t.add(w[i]); d.ctan(ids[0], w); }
			for (int i = nv * nv; i < 40; i++) t.add(w[i]);
		}
		break;
	case 2: d.update(); break;
	case 3: d.output(o.t, o.id); break;
	case 4: d.info(); break;
	}
}
static Trace play(Drv &d, int nv, const std::vector<Op> &ops)
{
	Trace t;
	std::vector<int> ids;
	for (auto &o : ops) play_op(d, nv, o, ids, t);
	return t;
}
static std::vector<Op> gen_ops(Ctx &x, const ref::Cfg &c, int nst, int ngp, bool files)
{
	Rng &r = x.rng;
	std::vector<Op> ops;
	double ey = yield_strain(c);
	std::vector<Path> P;
	std::vector<int> ids;
	bool inner = c.dim == 3 && c.n[0] > 2 && c.n[1] > 2 && c.n[2] > 2 && (c.mat[0].type == 1 || c.mat[1].type == 1);
	double top = !inner || r.ch(0.15) ? 3 : c.nelem() > 12 ? 1.0 : 1.4; // far beyond yield Newton rarely converges: dear
	if (SLOW_BUILD && inner) { nst = std::min(nst, 3); ngp = std::min(ngp, 2); top = std::min(top, 2.0); }
	for (int g = 0; g < ngp; g++) { P.emplace_back(r, c.nvoi(), ey * r.uni(0.3, top)); ids.push_back(r.ch(0.2) ? -1000 - g * 7 : r.ch(0.1) ? 2147483647 - g : r.ir(0, 9) + 10 * g); }
	for (int k = 0; k < nst; k++) {
		for (int g = 0; g < ngp; g++) {
			if (k && r.ch(0.1)) continue;
			Op o{0, ids[g], {0}, 0};
			P[g].next(r, o.e);
			ops.push_back(o);
			if (r.ch(0.05)) { rand_strain(r, c.nvoi(), ey * r.uni(0.1, 2), o.e); ops.push_back(o); } // set again
		}
		if (files && r.ch(0.05)) ops.push_back(Op{3, ids[r.ir(0, ngp - 1)], {0}, 2000 + k}); // field before evaluation
		if (!r.ch(0.04)) ops.push_back(Op{1, 0, {0}, 0});
		if (r.ch(0.05)) ops.push_back(Op{1, 0, {0}, 0});
		if (files && r.ch(0.5)) ops.push_back(Op{3, ids[r.ir(0, ngp - 1)], {0}, k});
		if (files && r.ch(0.5)) ops.push_back(Op{4, 0, {0}, 0});
		if (r.ch(0.7)) ops.push_back(Op{2, 0, {0}, 0});
		if (r.ch(0.05)) ops.push_back(Op{2, 0, {0}, 0});
		if (files && r.ch(0.2)) ops.push_back(Op{3, ids[r.ir(0, ngp - 1)], {0}, r.ch(0.5) ? 1000 + k : r.ir(-2000000000, 2000000000)});
		if (files && r.ch(0.05)) ops.push_back(Op{3, 987654, {0}, k}); // unknown point
	}
	return ops;
}
static ref::Cfg any_cfg(Ctx &x, int maxel = 27)
{
	Rng &r = x.rng;
	GenOpt o;
	o.maxn3 = 4; o.maxn2 = 7; o.maxel = maxel;
	if (r.ch(0.5)) { o.dim = 3; o.plastic = 1; }
	ref::Cfg c = gen_cfg(x, o);
	if (r.ch(0.3)) c.inv_tol = c.mat[0].E * yield_strain(c) * r.logu(0.05, 5);
	return c;
}
