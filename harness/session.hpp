// Trace monitor: steps the real library and the reference model through the same
// operations and compares everything the user can observe.
#pragma once
#include "common.hpp"
#include "ref.hpp"
#include "micro.hpp"
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

extern "C" {
void micropp_construct_(int *dim, int size[3], int *micro_type, double *micro_params, int *mat_types, double *params);
void micropp_output_(int *tstep, int *gp_id);
void micropp_get_non_linear_flag_(int *gp_id, int *non_linear);
void micropp_set_macro_strain_(int *gp_id, double *macro_strain);
void micropp_homogenize_(void);
void micropp_get_macro_stress_(int *gp_id, double *macro_stress);
void micropp_get_macro_ctan_(int *gp_id, double *macro_ctan);
void micropp_update_internal_variables_(void);
void micropp_write_convergence_file_(void);
}

#if defined(MON_COUNT_HEAP)
long mon_linear_solves();
void mon_log_start();
long mon_log_stop();
void mon_log_event(long i, int *kind, double *v);
#else
static long mon_linear_solves() { return 0; }
static void mon_log_start() {}
static long mon_log_stop() { return 0; }
static void mon_log_event(long, int *, double *) {}
#endif

// The residuals assembled and the linear solves made inside one evaluation, as seen from outside. Gives back one
// (iterations, last residual) per Newton solve, or nothing if the log does not have the form residual, solve,
// residual, solve, ... or the residual is not the norm of the right-hand side of the solve that follows.
template <class T> static auto rhs_returns_norm(T *m, int) -> typename std::is_same<decltype(m->assembly_rhs((bool *) nullptr)), double>::type;
template <class T> static std::false_type rhs_returns_norm(T *, long);
static std::vector<std::pair<int, double>> newton_log()
{
	std::vector<std::pair<int, double>> out, none;
	long n = mon_log_stop();
	if (n <= 0 || !decltype(rhs_returns_norm((micropp_t *) nullptr, 0))::value) return none;
	int last = 0;
	for (long i = 0; i < n; i++) {
		int k;
		double v;
		mon_log_event(i, &k, &v);
		if (k == 1) {
			if (last == 2 && out.back().first < 40) out.back().second = v;
			else out.push_back({0, v});
		} else {
			if (last != 1) return none;
			if (v == v && std::fabs(v - out.back().second) > 1e-9 * v) return none;
			out.back().first++;
		}
		last = k;
	}
	return out;
}

// constructor arguments in heap arrays of exactly the documented sizes, gone after construction
struct Args {
	std::unique_ptr<int[]> size{new int[3]}, types{new int[2]};
	std::unique_ptr<double[]> mp{new double[5]}, par{new double[2 * MAX_MAT_PARAM]};
	explicit Args(const ref::Cfg &c)
	{
		for (int i = 0; i < 3; i++) size[i] = c.n[i];
		for (int i = 0; i < 3; i++) mp[i] = c.l[i];
		mp[3] = c.width;
		mp[4] = c.inv_tol;
		for (int i = 0; i < 2 * MAX_MAT_PARAM; i++) par[i] = 0.0;
		for (int m = 0; m < 2; m++) {
			types[m] = c.mat[m].type;
			par[m * MAX_MAT_PARAM + 0] = c.mat[m].E;
			par[m * MAX_MAT_PARAM + 1] = c.mat[m].nu;
			par[m * MAX_MAT_PARAM + 2] = c.mat[m].Sy;
			par[m * MAX_MAT_PARAM + 3] = c.mat[m].Ka;
		}
	}
	~Args() { for (int i = 0; i < 5; i++) mp[i] = 9e99; for (int i = 0; i < 2 * MAX_MAT_PARAM; i++) par[i] = 9e99; }
};
// a strain as the caller would hold it: nvoi numbers on the heap, overwritten afterwards
struct Exact {
	int n;
	std::unique_ptr<double[]> p;
	Exact(int n_, const double *e) : n(n_), p(new double[n_]) { for (int i = 0; i < n; i++) p[i] = e[i]; }
	~Exact() { for (int i = 0; i < n; i++) p[i] = 9e99; }
};

struct Drv {
	virtual ~Drv() {}
	virtual void set(int id, const double *e) = 0;
	virtual void homog() = 0;
	virtual void stress(int id, double *s) = 0;
	virtual void ctan(int id, double *c) = 0;
	virtual void update() = 0;
	virtual int nl(int id) = 0;
	virtual void output(int t, int id) = 0;
	virtual void info() = 0;
};
struct ClassDrv : Drv {
	std::unique_ptr<micropp_t> m;
	int nv;
	explicit ClassDrv(const ref::Cfg &c) : nv(c.nvoi())
	{
		Args a(c);
		m.reset(new micropp_t(c.dim, a.size.get(), c.micro_type, a.mp.get(), a.types.get(), a.par.get()));
	}
	void set(int id, const double *e) override { Exact x(nv, e); m->set_macro_strain(id, x.p.get()); }
	void homog() override { m->homogenize(); }
	void stress(int id, double *s) override { m->get_macro_stress(id, s); }
	void ctan(int id, double *c) override { m->get_macro_ctan(id, c); }
	void update() override { m->update_vars(); }
	int nl(int id) override { int f = -77; m->get_nl_flag(id, &f); return f; }
	void output(int t, int id) override { m->output(t, id); }
	void info() override { m->write_info_files(); }
};
struct WrapDrv : Drv {
	int nv;
	explicit WrapDrv(const ref::Cfg &c) : nv(c.nvoi())
	{
		Args a(c);
		int dim = c.dim, mt = c.micro_type;
		micropp_construct_(&dim, a.size.get(), &mt, a.mp.get(), a.types.get(), a.par.get());
		dim = mt = -9; // the caller's variables may change afterwards
	}
	void set(int id, const double *e) override { Exact x(nv, e); micropp_set_macro_strain_(&id, x.p.get()); }
	void homog() override { micropp_homogenize_(); }
	void stress(int id, double *s) override { micropp_get_macro_stress_(&id, s); }
	void ctan(int id, double *c) override { micropp_get_macro_ctan_(&id, c); }
	void update() override { micropp_update_internal_variables_(); }
	int nl(int id) override { int f = -77; micropp_get_non_linear_flag_(&id, &f); return f; }
	void output(int t, int id) override { micropp_output_(&t, &id); }
	void info() override { micropp_write_convergence_file_(); }
};

enum { CMP_STRESS = 1, CMP_CTAN = 2, CMP_FLAG = 4, CMP_ALL = 7 };

struct GpM {
	int id = 0;
	double eps[6] = {0};      // strain set last
	double evalEps[6] = {0};  // strain of the last evaluation
	bool evaluated = false, full = false, nl = false, flagAmbiguous = false;
	double inv = 0;           // |trace| of the elastic stress at the last evaluation
	ref::State com, trial;
	ref::Sol sol;             // of the last full evaluation
	double sig[6] = {0}, ctan[36] = {0}, tolS[6] = {0}, tolC[6] = {0};
	bool ctanOk = false;
	double drift = 0;         // roundoff gathered in the committed plastic strains, as a stress
	int nrIts = 0;            // reference Newton iterations (largest over start fields)
};

class Session {
public:
	Ctx &x;
	ref::Cfg cfg;
	ref::Model M;
	std::unique_ptr<Drv> d;
	std::vector<GpM> gps;
	double Clin[36];
	std::vector<double> ulast;
	int mask = CMP_ALL;
	int maxNewton = 12;
	long steps = 0, plasticEvals = 0, shortcutEvals = 0, unresolved = 0, halvings = 0;
	double Emax, Cscale;
	bool quiet = false;       // do not compare (the caller does)

	Session(Ctx &x_, const ref::Cfg &c, bool wrapper = false) : x(x_), cfg(c), M(c)
	{
		if (M.tiemargin < 1e-9) throw Skip{"phase tie"};
		ref::Cfg ce = c;
		for (auto &m : ce.mat) m.type = 0;
		ref::Model Me(ce);
		double e0[6] = {1e-3, 0, 0, 0, 0, 0};
		ref::Sol s = Me.solve(e0, Me.zero());
		if (!s.ok) throw Skip{"reference failed"};
		memcpy(Clin, s.ctan, sizeof Clin);
		Emax = std::max(c.mat[0].E, c.mat[1].E);
		Cscale = 0;
		for (int i = 0; i < M.nv * M.nv; i++) Cscale = std::max(Cscale, std::fabs(Clin[i]));
		ulast.assign((size_t) M.nn * c.dim, 0.0);
		if (wrapper) d.reset(new WrapDrv(c)); else d.reset(new ClassDrv(c));
	}
	int nv() const { return M.nv; }
	GpM *find(int id)
	{
		for (auto &g : gps) if (g.id == id) return &g;
		return nullptr;
	}
	void elastic(const double *e, double *s) const
	{
		for (int i = 0; i < M.nv; i++) {
			s[i] = 0;
			for (int j = 0; j < M.nv; j++) s[i] += Clin[i * M.nv + j] * e[j];
		}
	}
	double trace(const double *s) const { return s[0] + s[1] + (cfg.dim == 3 ? s[2] : 0.0); }
	// keep the elastic trace away from the tolerance (the decision is a tie there)
	void detie(double *e) const
	{
		if (cfg.inv_tol <= 0) return;
		double s[6];
		for (int k = 0; k < 60; k++) {
			elastic(e, s);
			double t = std::fabs(trace(s));
			if (std::fabs(t - cfg.inv_tol) > 1e-3 * cfg.inv_tol) return;
			for (int i = 0; i < M.nv; i++) e[i] *= 1.003;
		}
	}
	bool young = false;       // never age the object
	// Some objects have a long life behind them before the case begins: hundreds of evaluations, commits,
	// queries and files at rest. None of it may show afterwards.
	void age(int id)
	{
		if (young || x.icase % 31 != 17 || M.ne > 60) return;
		int n = 40 + (x.icase * 53 + x.icase / 31 * 17) % 361;
		if (M.ne > 16) n = std::min(n, 40 + 16 * 360 / M.ne);
		const double z[6] = {0};
		double s[8], c[40];
		char f[64];
		snprintf(f, sizeof f, "micropp_%d_0.vtu", id);
		struct stat st;
		bool old = !stat(f, &st);
		d->set(id, z);
		for (int k = 0; k < n; k++) {
			d->homog();
			d->stress(id, s);
			d->ctan(id, c);
			d->nl(id);
			d->update();
			d->info();
			d->output(0, id);
		}
		if (!old) unlink(f);
		x.cnt["aged_objects"]++;
		x.cnt["calls_before_the_case"] += 7l * n;
	}
	void set(int id, const double *e)
	{
		if (gps.empty()) age(id);
		GpM *g = find(id);
		if (!g) {
			gps.emplace_back();
			g = &gps.back();
			g->id = id;
			g->com = M.zero();
			g->trial = g->com;
		}
		for (int i = 0; i < M.nv; i++) g->eps[i] = e[i];
		detie(g->eps);
		d->set(id, g->eps);
	}
	bool shortcut(const GpM &g, double *inv) const
	{
		double s[6];
		elastic(g.eps, s);
		*inv = std::fabs(trace(s));
		return *inv < cfg.inv_tol && !g.nl;
	}
	// is this full evaluation one that a plain Newton scheme resolves from any sensible start?
	bool resolvable(GpM &g, ref::Sol &s)
	{
		s = M.solve(g.eps, g.com);
		if (!s.ok) return false;
		g.nrIts = 0;
		if (M.nfree == 0 || !M.has_plastic()) return true;
		std::vector<double> z((size_t) M.nn * cfg.dim, 0.0), a(z);
		for (int n = 0; n < M.nn; n++) { double X[3], v[3]; M.coord(n, X); M.affine(g.eps, X, v); for (int k = 0; k < cfg.dim; k++) a[n * cfg.dim + k] = v[k]; }
		const std::vector<double> *st[3] = {&ulast, &z, &a};
		for (auto *u : st) {
			int it = M.plain_newton(g.eps, g.com, *u, maxNewton);
			if (it < 0) return false;
			g.nrIts = std::max(g.nrIts, it);
		}
		return true;
	}
	void tolerances(GpM &g, const ref::Sol &s, bool isfull)
	{
		const int nv = M.nv;
		double em = 1e-9, sm = 0; // roundoff floor
		for (int i = 0; i < nv; i++) { em = std::max(em, std::fabs(g.eps[i])); sm = std::max(sm, std::fabs(g.sig[i])); }
		for (int v = 0; v < nv; v++) {
			double w = isfull ? s.wnorm[v] : 0;
			double S = sm + 1e-6 * Cscale * em;
			g.tolS[v] = 20 * 1e-5 * w + 2e-9 * S + 1e-13 * Cscale * em;
			if (isfull && s.nplastic && M.nfree) g.tolS[v] += 2e-6 * S;
			g.tolC[v] = 20 * 1e3 * w + 3e-6 * Cscale;
			g.tolS[v] += g.drift;
			if (!isfull) { g.tolS[v] = 0; } // filled by the caller
		}
	}
	void linTol(GpM &g, const ref::Sol &s0)
	{
		// the elastic tensor of the library is itself a finite difference (strain 1e-8)
		double em = 1e-9;
		for (int i = 0; i < M.nv; i++) em = std::max(em, std::fabs(g.eps[i]));
		for (int v = 0; v < M.nv; v++) {
			double tc = 20 * 1e3 * s0.wnorm[v] + 3e-6 * Cscale;
			g.tolC[v] = tc;
			g.tolS[v] = tc * em * 3;
		}
	}
	// model half of homogenize; may shrink the strains set on the library
	void model_homogenize()
	{
		for (auto &g : gps) {
			double inv;
			bool sc = shortcut(g, &inv);
			g.inv = inv;
			if (sc) {
				elastic(g.eps, g.sig);
				memcpy(g.ctan, Clin, sizeof Clin);
				g.full = false;
				g.trial = g.com; // zero
				g.ctanOk = true;
				shortcutEvals++;
				lin();
				linTol(g, linSol);
			} else {
				ref::Sol s;
				int k = 0;
				while (!resolvable(g, s)) {
					if (++k > 9) throw Skip{"unresolvable"};
					halvings++;
					for (int i = 0; i < M.nv; i++)
						g.eps[i] = k > 8 ? g.evalEps[i] : 0.5 * (g.eps[i] + g.evalEps[i]);
					if (shortcut(g, &inv)) throw Skip{"shortcut flipped"};
					g.inv = inv;
					d->set(g.id, g.eps);
				}
				g.sol = s;
				memcpy(g.sig, s.sig, sizeof g.sig);
				memcpy(g.ctan, s.ctan, sizeof g.ctan);
				g.trial = s.st;
				g.full = true;
				tolerances(g, s, true);
				// kink: a finite difference of 1e-8 must not cross it
				double ry = 1e300;
				for (int m = 0; m < 2; m++)
					if (cfg.dim == 3 && cfg.mat[m].type == 1)
						ry = std::min(ry, cfg.mat[m].Sy / (2 * cfg.mat[m].E));
				double kink = 1e-5 + 30 * 1e-8 / ry;
				g.ctanOk = s.minfrel > kink;
				if (s.nplastic)
					for (int v = 0; v < M.nv; v++) g.tolC[v] += 10 * (1e-8 / ry) * Cscale + 1e-5 * Cscale * (M.nfree > 0);
				if (s.plastic) plasticEvals++;
				if (!g.nl) {
					bool amb = s.minfrel < 1e-6;
					if (amb && !g.flagAmbiguous) { g.flagAmbiguous = true; }
					if (s.plastic) g.nl = true;
					if (amb) throw Skip{"flag tie"};
				}
				if (M.nfree) ulast = s.u;
			}
			memcpy(g.evalEps, g.eps, sizeof g.eps);
			g.evaluated = true;
		}
		steps++;
	}
	ref::Sol linSol;
	bool linSolOk = false;
	const ref::Sol &lin() {
		if (!linSolOk) { ref::Cfg ce = cfg; for (auto &m : ce.mat) m.type = 0; ref::Model Me(ce); double e0[6] = {1e-3, 0, 0, 0, 0, 0}; linSol = Me.solve(e0, Me.zero()); linSolOk = true; }
		return linSol;
	}
	long linearSolves = 0;    // linear solves seen during the last evaluation (0: none, or not observable)
	bool watch = false;       // keep the log of the Newton iterations
	std::vector<std::pair<int, double>> newtonLog;
	bool selfInfo = true;     // may call write_info_files to learn whether Newton converged
	void homogenize()
	{
		model_homogenize();
		long n0 = mon_linear_solves();
		if (watch) mon_log_start();
		d->homog();
		linearSolves = mon_linear_solves() - n0;
		if (watch) newtonLog = newton_log();
		if (selfInfo) solver_verdict();
		if (!quiet) compare();
	}
	// Newton may cycle on increments the reference resolves (a documented limit of the plain scheme);
	// the library says so in its convergence record. Such evaluations carry no verdict of their own;
	// how often it happens is judged over the whole run (counters newton_solves, newton_unconverged).
	void solver_verdict()
	{
		if (!M.nfree || !M.has_plastic()) return;
		bool any = false;
		for (auto &g : gps) any = any || (g.full && g.evaluated);
		if (!any) return;
		d->info();
		solver_verdict_from(slurp("micropp_convergence.dat"));
	}
	void solver_verdict_from(const std::string &text)
	{
		std::vector<std::string> l = lines(text);
		bool ok;
		if (l.empty()) return;
		auto gr = groups(l.back(), &ok);
		if (!ok || gr.size() != gps.size()) return;
		bool bad = false;
		for (size_t k = 0; k < gps.size(); k++) {
			GpM &g = gps[k];
			if (!g.full || gr[k].size() != 2 + 2 * (1 + (size_t) M.nv)) continue;
			x.cnt["newton_solves"]++;
			if (gr[k][2] >= 40 && !(gr[k][3] < 1e-5)) { x.cnt["newton_unconverged"]++; bad = true; }
			bool col = false;
			for (int i = 1; i <= M.nv; i++) col = col || (gr[k][2 + 2 * i] >= 40 && !(gr[k][3 + 2 * i] < 1e-5));
			if (col) { g.ctanOk = false; if (!bad) x.cnt["newton_unconverged_column"]++; }
		}
		if (bad) throw Skip{"library reports non-convergence"};
	}
	void compareOne(const GpM &g)
	{
		const int nv = M.nv;
		if (mask & CMP_STRESS) {
			double s[8];
			for (double &v : s) v = 7.5e77;
			d->stress(g.id, s);
			for (int v = 0; v < nv; v++)
				if (!x.near(g.full ? "stress" : "stress-linear", s[v], g.sig[v], g.tolS[v], "macro stress", g.id, v)) break;
			x.expect("overrun", s[nv] == 7.5e77, "stress query wrote more than %d entries", nv);
		}
		if (mask & CMP_CTAN) {
			double c[40];
			for (double &v : c) v = 7.5e77;
			d->ctan(g.id, c);
			if (g.ctanOk)
				for (int i = 0; i < nv * nv; i++)
					if (!x.near(g.full ? (g.sol.nplastic ? "ctan-plastic" : "ctan-elastic") : "ctan-linear", c[i], g.ctan[i], g.tolC[i / nv], "tangent", i / nv, i % nv)) break;
			if (g.ctanOk) x.cnt["tangents_compared"]++;
			x.expect("overrun", c[nv * nv] == 7.5e77, "tangent query wrote more than %d entries", nv * nv);
		}
		if (mask & CMP_FLAG) {
			int f = d->nl(g.id);
			x.expect("nlflag", f == (g.nl ? 1 : 0), "nonlinear flag of point %d is %d, expected %d", g.id, f, g.nl ? 1 : 0);
		}
	}
	void debug() // with -v: what the library says about its last evaluation
	{
		d->info();
		auto l = lines(slurp("micropp_convergence.dat"));
		fprintf(stderr, "  conv: %s\n", l.empty() ? "" : l.back().c_str());
		for (auto &g : gps) fprintf(stderr, "  gp %d full %d nl %d nplastic %d minfrel %g ref its %d\n", g.id, g.full, g.nl, g.sol.nplastic, g.sol.minfrel, g.nrIts);
		fprintf(stderr, "  dim %d n %d %d %d l %g %g %g mt %d w %g tol %g\n", cfg.dim, cfg.n[0], cfg.n[1], cfg.n[2], cfg.l[0], cfg.l[1], cfg.l[2], cfg.micro_type, cfg.width, cfg.inv_tol);
		for (auto &m : cfg.mat) fprintf(stderr, "  mat t%d E %g nu %g Sy %g Ka %g\n", m.type, m.E, m.nu, m.Sy, m.Ka);
	}
	void compare()
	{
		size_t nviol = x.viol.size();
		compareAll();
		if (x.verbose && x.viol.size() > nviol) debug();
	}
	void compareAll()
	{
		for (auto &g : gps)
			if (g.evaluated) compareOne(g);
		x.cnt["evaluations_compared"] += (long) gps.size();
	}
	void update()
	{
		for (auto &g : gps) {
			g.com = g.trial;
			double em = 0;
			for (int i = 0; i < M.nv; i++) em = std::max(em, std::fabs(g.evalEps[i]));
			if (M.has_plastic()) g.drift += 2e-15 * Emax * em;
		}
		d->update();
	}
	void account()
	{
		x.cnt["homogenizations"] += steps;
		x.cnt["plastic_evaluations"] += plasticEvals;
		x.cnt["shortcut_evaluations"] += shortcutEvals;
		x.cnt["increments_halved"] += halvings;
	}
};
