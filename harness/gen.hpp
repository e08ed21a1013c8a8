// Workload generators.
#pragma once
#include "session.hpp"

// Under the race and address sanitizers a Newton solve costs 10 to 20 times as much: plastic cells with interior nodes stay small there.
#if defined(__SANITIZE_THREAD__)
enum { MAX_INNER_PLASTIC = 8, SLOW_BUILD = 1 };
#elif defined(__SANITIZE_ADDRESS__)
enum { MAX_INNER_PLASTIC = 18, SLOW_BUILD = 1 };
#else
enum { MAX_INNER_PLASTIC = 1000000, SLOW_BUILD = 0 };
#endif

struct GenOpt {
	int dim = 0;               // 0: any
	int shape = -1;            // 0: no interior node, 1: interior nodes required, -1 any
	int maxn3 = 5, maxn2 = 9;
	int maxel = 90;
	int plastic = -1;          // 0 elastic only, 1 at least one plastic phase in use, -1 any
	int phases = -1;           // 2: both phases present
	double Elo = 1e8, Ehi = 1e9, contrast = 30;
	bool negnu = true;
	double syLo = 5e-4, syHi = 2e-2;
	int longn3 = 12, longn2 = 30;  // longest side of elongated grids
	double elong = 0.12;           // how often a grid is elongated
	double slender = 0.04;         // how often one side is much longer or shorter than the others
	double stiffnu = 0;            // how often a phase is nearly incompressible or strongly auxetic
	double units = 0.15;           // how often the whole problem is stated in other units
};

inline void count_phases(const ref::Cfg &c, long cnt[2])
{
	cnt[0] = cnt[1] = 0;
	for (int k = 0; k < (c.dim == 3 ? c.n[2] - 1 : 1); k++)
		for (int j = 0; j < c.n[1] - 1; j++)
			for (int i = 0; i < c.n[0] - 1; i++) cnt[ref::phase(c, i, j, k)]++;
}

// The same problem in other units: lengths times f, moduli divided so that the nodal forces, and with them
// the meaning of the absolute tolerances of the solvers, stay as they are.
inline void change_units(ref::Cfg &c, double f)
{
	double m = c.dim == 3 ? 1 / (f * f) : 1 / f;
	for (double &l : c.l) l *= f;
	c.width *= f;
	for (auto &q : c.mat) { q.E *= m; q.Sy *= m; q.Ka *= m; }
	if (std::fabs(c.inv_tol) < 1e200) c.inv_tol *= m;
}
// a configuration that differs from c in one respect only
inline ref::Cfg near_twin(Rng &r, ref::Cfg c)
{
	int m = r.ir(0, 1), d = r.ir(0, c.dim - 1);
	switch (r.ir(0, 8)) {
	case 0: c.mat[m].type = c.mat[m].type == 1 ? 0 : 1; break;
	case 1: c.mat[m].E *= r.uni(0.6, 1.5); break;
	case 2: c.mat[m].nu = r.uni(0.05, 0.42); break;
	case 3: c.mat[m].Sy *= r.uni(0.5, 2); c.mat[m].Ka *= r.uni(0.5, 2); break;
	case 4: c.l[d] *= r.uni(0.7, 1.4); break;
	case 5: c.width *= r.uni(0.6, 1.6); break;
	case 6: c.inv_tol = c.inv_tol > 0 ? 0.0 : c.mat[0].E * 1e-3; break;
	case 7: if (c.n[d] > 2) c.n[d]--; else c.n[d]++; break;
	default: c.micro_type = 1 - c.micro_type;
	}
	if (ref::Model(c).tiemargin < 1e-6) throw Skip{"tie"};
	return c;
}

inline ref::Cfg gen_cfg(Ctx &x, const GenOpt &o)
{
	Rng &r = x.rng;
	for (int attempt = 0; attempt < 2000; attempt++) {
		ref::Cfg c;
		c.dim = o.dim ? o.dim : (r.ch(0.3) ? 2 : 3);
		int mx = c.dim == 2 ? o.maxn2 : o.maxn3;
		c.n[2] = 1;
		for (int d = 0; d < c.dim; d++) c.n[d] = r.ch(0.15) ? mx : r.ch(0.12) ? 2 : r.ir(2, mx);
		if (r.ch(o.elong)) { // one long side
			for (int d = 0; d < c.dim; d++) c.n[d] = r.ir(2, 4);
			c.n[r.ir(0, c.dim - 1)] = r.ir(mx, c.dim == 2 ? o.longn2 : o.longn3);
		}
		if (o.shape == 0) c.n[r.ir(0, c.dim - 1)] = 2;
		if (o.shape == 1) for (int d = 0; d < c.dim; d++) if (c.n[d] < 3) c.n[d] = r.ir(3, mx);
		if (c.nelem() > o.maxel) continue;
		int lm = r.ir(0, 3);
		double base = r.ch(0.7) ? 1.0 : r.logu(0.3, 4);
		for (int d = 0; d < 3; d++)
			c.l[d] = lm == 0 ? base : lm == 1 ? base * r.logu(0.7, 1.5) : base * r.logu(0.4, 2.5);
		bool slender = o.slender > 0 && r.ch(o.slender);
		if (slender) c.l[r.ir(0, c.dim - 1)] *= r.ch(0.5) ? r.logu(8, 128) : r.logu(1 / 128.0, 0.12);
		if (c.dim == 2) c.l[2] = r.ch(0.5) ? 1.0 : 0.0;
		c.micro_type = r.ir(0, 1);
		double ref = c.micro_type == 1 ? c.l[1] : std::min(c.l[0], c.l[1]);
		int wm = r.ir(0, 9);
		c.width = wm == 0 ? 0.0 : wm == 1 ? 10 * ref : wm <= 4 ? r.uni(0.1, 0.95) * ref : r.uni(0.25, 0.75) * ref;
		long pc[2];
		count_phases(c, pc);
		if (o.phases == 2 && (!pc[0] || !pc[1])) continue;
		double E0 = r.logu(o.Elo, o.Ehi);
		for (int m = 0; m < 2; m++) {
			c.mat[m].E = m == 0 ? E0 : std::min(o.Ehi * o.contrast, std::max(o.Elo, E0 * r.logu(1 / o.contrast, o.contrast)));
			c.mat[m].nu = r.ch(0.1) ? 0.0 : (o.negnu && r.ch(0.1)) ? r.uni(-0.3, 0) : r.uni(0.05, 0.42);
			if (o.stiffnu > 0 && r.ch(o.stiffnu)) { c.mat[m].nu = r.ch(0.75) ? r.uni(0.42, 0.492) : r.uni(-0.8, -0.3); x.cnt["extreme_poisson_ratios"]++; }
			c.mat[m].Sy = c.mat[m].E * r.logu(o.syLo, o.syHi);
			c.mat[m].Ka = r.ch(0.25) ? 0.0 : c.mat[m].E * r.logu(1e-4, 0.5);
			c.mat[m].type = o.plastic == 0 ? (r.ch(0.2) ? 2 : 0) : r.ch(0.5) ? 1 : r.ch(0.1) ? 2 : 0;
		}
		if (c.dim == 2 && r.ch(0.2)) c.mat[r.ir(0, 1)].type = 1; // 2D ignores plasticity
		if (o.plastic == 1) {
			if (c.dim == 2) continue;
			bool in = false;
			for (int m = 0; m < 2; m++) if (pc[m] && c.mat[m].type == 1) in = true;
			if (!in) continue;
		}
		if (c.nelem() > MAX_INNER_PLASTIC && c.dim == 3 && c.n[0] > 2 && c.n[1] > 2 && c.n[2] > 2 && ((pc[0] && c.mat[0].type == 1) || (pc[1] && c.mat[1].type == 1))) continue;
		c.inv_tol = 0.0;
		ref::Model M(c);
		if (M.tiemargin < 1e-6) continue;
		if (slender) {
			// thin elements are stiff: lower the moduli so that the roundoff of the residual stays where it is in other cells
			double hmin = 1e300, V = 1, L = 0;
			for (int d = 0; d < c.dim; d++) { double h = c.l[d] / (c.n[d] - 1); hmin = std::min(hmin, h); V *= h; L = std::max(L, c.l[d]); }
			double F = V / (hmin * hmin) * L * (c.dim == 2 ? 1 / base : 1 / (base * base));
			if (F > 1) for (auto &q : c.mat) { q.E /= F; q.Sy /= F; q.Ka /= F; }
			x.cnt["slender_cells"]++;
		}
		if (r.ch(o.units)) { change_units(c, std::ldexp(1.0, r.ir(-13, 13))); x.cnt["other_units"]++; }
		return c;
	}
	throw Skip{"generator"};
}

// yield strain scale of the weakest plastic phase in use
inline double yield_strain(const ref::Cfg &c)
{
	long pc[2];
	count_phases(c, pc);
	double ey = 1e300;
	for (int m = 0; m < 2; m++)
		if (pc[m] && c.mat[m].type == 1) ey = std::min(ey, c.mat[m].Sy / c.mat[m].E);
	return ey > 1e200 ? 1e-3 : ey;
}

inline void rand_dir(Rng &r, int nv, double *d)
{
	int mode = r.ir(0, 4);
	for (int i = 0; i < 6; i++) d[i] = 0;
	if (mode == 0) d[r.ir(0, nv - 1)] = r.sgn();
	else if (mode == 1) { // shear only
		for (int i = (nv == 3 ? 2 : 3); i < nv; i++) d[i] = r.normal();
	} else
		for (int i = 0; i < nv; i++) d[i] = r.normal();
	double n = 0;
	for (int i = 0; i < nv; i++) n += d[i] * d[i];
	n = std::sqrt(n);
	if (n < 1e-6) { d[0] = 1; n = 1; }
	for (int i = 0; i < nv; i++) d[i] /= n;
}

// strain paths
struct Path {
	int type, nv, k = 0;
	double a[6], b[6], amp, step, cur[6] = {0}, small;
	int period;
	Path(Rng &r, int nv_, double amp_, int type_ = -1) : nv(nv_), amp(amp_)
	{
		type = type_ >= 0 ? type_ : r.ir(0, 6);
		rand_dir(r, nv, a);
		rand_dir(r, nv, b);
		period = r.ir(4, 12);
		step = amp / r.ir(2, 6);
		small = std::pow(10.0, -r.uni(3, 9));
	}
	const char *name() const
	{
		static const char *n[] = {"monotone", "cyclic", "walk", "rotating", "partial-unload", "hydrostatic+shear", "jump", "creep"};
		return n[type];
	}
	void next(Rng &r, double *e)
	{
		k++;
		double t;
		switch (type) {
		case 0: for (int i = 0; i < nv; i++) cur[i] = a[i] * step * k; break;
		case 1:
			t = (k % (4 * period)) / (double) period; // 0..4
			t = t < 1 ? t : t < 3 ? 2 - t : t - 4;
			for (int i = 0; i < nv; i++) cur[i] = a[i] * amp * t;
			break;
		case 2: for (int i = 0; i < nv; i++) cur[i] = 0.9 * cur[i] + step * r.normal() * (r.ch(0.3) ? 0 : 1); break;
		case 3:
			t = 2 * M_PI * k / (2.0 * period);
			for (int i = 0; i < nv; i++) cur[i] = amp * (std::sin(t) * a[i] + (1 - std::cos(t)) * b[i]);
			break;
		case 4:
			t = step * (k % 3 == 2 ? k * 0.6 : k);
			for (int i = 0; i < nv; i++) cur[i] = a[i] * t;
			break;
		case 5:
			for (int i = 0; i < nv; i++) cur[i] = (i < (nv == 3 ? 2 : 3) ? 1.0 : 0.0) * 3 * step * k * (k % 2 ? 1 : -1) + step * k * a[i];
			break;
		case 7: // to a loaded state, then onwards in very small increments, now and then larger ones
			if (k <= 2) for (int i = 0; i < nv; i++) cur[i] = a[i] * amp * k / 2;
			else for (int i = 0; i < nv; i++) cur[i] += (a[i] + 0.5 * b[i]) * amp * small * (k % 8 == 7 ? -0.3 : r.u());
			if (k > 2 && r.ch(0.05)) small *= 10;
			break;
		default:
			rand_dir(r, nv, cur);
			for (int i = 0; i < nv; i++) cur[i] *= amp * r.u() * 1.5;
		}
		for (int i = 0; i < 6; i++) e[i] = i < nv ? cur[i] : 0.0;
	}
};
