// Monitors of the system-level properties: isolation, determinism, files, interface, faults.
#pragma once
#include "props_fe.hpp"
#include <dirent.h>
#include <malloc.h>
#include <signal.h>
#include <sys/resource.h>
#include <thread>

// ---------------------------------------------------------------- scratch directories
static std::string g_scratch; // absolute scratch directory of the current case
static std::vector<std::string> list_files(const std::string &d)
{
	std::vector<std::string> r;
	if (DIR *p = opendir(d.c_str())) {
		while (dirent *e = readdir(p)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name);
		closedir(p);
	}
	std::sort(r.begin(), r.end());
	return r;
}
static void enter(const std::string &sub)
{
	std::string d = g_scratch + "/" + sub;
	mkdir(d.c_str(), 0700);
	if (chdir(d.c_str())) throw Skip{"chdir"};
}
static std::map<std::string, std::string> snapshot(const std::string &sub)
{
	std::map<std::string, std::string> m;
	for (auto &f : list_files(g_scratch + "/" + sub)) m[f] = slurp(g_scratch + "/" + sub + "/" + f);
	return m;
}
static void compare_files(Ctx &x, const char *key, const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b)
{
	for (auto &p : a) {
		auto it = b.find(p.first);
		if (!x.expect(key, it != b.end(), "file %s written by one run only", p.first.c_str())) continue;
		x.expect(key, it->second == p.second, "file %s differs between the runs", p.first.c_str());
		x.cnt["files_compared"]++;
		x.cnt["bytes_compared"] += (long) p.second.size();
	}
	for (auto &p : b) x.expect(key, a.count(p.first) > 0, "file %s written by one run only", p.first.c_str());
}
static void compare_traces(Ctx &x, const char *key, const Trace &a, const Trace &b, const char *what)
{
	size_t w;
	bool same = a.same(b, &w);
	x.evals += (long) a.v.size();
	if (!same) {
		if (w < a.v.size() && w < b.v.size()) x.fail(key, "%s: result %zu of %zu is %.17g in one run and %.17g in the other", what, w, a.v.size(), a.v[w], b.v[w]);
		else x.fail(key, "%s: %zu results against %zu", what, a.v.size(), b.v.size());
	}
	x.cnt["results_compared_bitwise"] += (long) a.v.size();
}
static void scribble_stack(int pat)
{
	volatile unsigned char buf[200000];
	for (size_t i = 0; i < sizeof buf; i++) buf[i] = (unsigned char) pat;
}
static void scribble_heap(Rng &r, int pat)
{
	std::vector<void *> p;
	for (int i = 0; i < 200; i++) {
		size_t n = (size_t) r.logu(16, 60000);
		void *q = malloc(n);
		memset(q, pat, n);
		p.push_back(q);
	}
	for (void *q : p) free(q);
}

// ---------------------------------------------------------------- C09
static void p_C09(Ctx &x)
{
	Rng &r = x.rng;
	int n = r.ir(2, 4);
	bool threads = r.ch(0.5);
	std::vector<ref::Cfg> c;
	std::vector<std::vector<Op>> ops;
	std::vector<Trace> solo(n), tog(n);
	for (int i = 0; i < n; i++) {
		c.push_back(i && r.ch(0.2) ? c[0] : i && r.ch(0.25) ? near_twin(r, c[i - 1]) : any_cfg(x));
		ops.push_back(gen_ops(x, c[i], r.ir(2, 5), r.ir(1, 3), r.ch(0.3)));
	}
	enter("solo");
	for (int i = 0; i < n; i++) { ClassDrv d(c[i]); solo[i] = play(d, c[i].nvoi(), ops[i]); }
	enter("together");
	if (threads) {
		std::vector<std::thread> th;
		std::vector<unsigned> delay(n);
		for (auto &q : delay) q = (unsigned) r.ir(0, 300);
		for (int i = 0; i < n; i++)
			th.emplace_back([&, i] {
				usleep(delay[i]);
				ClassDrv d(c[i]);
				tog[i] = play(d, c[i].nvoi(), ops[i]);
			});
		for (auto &t : th) t.join();
		x.cnt["threaded_cases"]++;
	} else {
		std::vector<std::unique_ptr<Drv>> d(n);
		std::vector<size_t> pos(n, 0);
		std::vector<std::vector<int>> ids(n);
		long sw = 0;
		int last = -1;
		for (;;) {
			std::vector<int> live;
			for (int i = 0; i < n; i++) if (pos[i] < ops[i].size()) live.push_back(i);
			if (live.empty()) break;
			int i = live[r.ir(0, (int) live.size() - 1)];
			if (i != last) sw++;
			last = i;
			if (!d[i]) d[i].reset(new ClassDrv(c[i]));
			play_op(*d[i], c[i].nvoi(), ops[i][pos[i]++], ids[i], tog[i]);
			if (pos[i] == ops[i].size() && r.ch(0.5)) d[i].reset(); // destroyed while others live
		}
		x.cnt["instance_switches"] += sw;
	}
	for (int i = 0; i < n; i++) compare_traces(x, "crosstalk", solo[i], tog[i], "object alone against object among others");
	x.cnt["objects"] += n;
	std::string sg;
	for (auto &q : c) sg += cfgsig(q) + ";";
	x.sig("%s%s", threads ? "T " : "I ", sg.c_str());
}

// ---------------------------------------------------------------- C11
static uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char *c = (const unsigned char *) p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
static std::string g_digest; // printed with the result of the case
static void p_C11(Ctx &x)
{
	Rng &r = x.rng;
	ref::Cfg c = any_cfg(x, 36);
	std::vector<Op> ops = gen_ops(x, c, r.ir(2, 5), r.ir(1, 3), true);
	// final info so that every case writes all files
	ops.push_back(Op{4, 0, {0}, 0});
	static const int pats[] = {0, 0xff, 0x7f, 0x3f, 0x55, 0x01};
	Trace t0;
	std::map<std::string, std::string> f0;
	int np = getenv("MON_ONE_PATTERN") ? 1 : x.thorough() ? 6 : 4; // under valgrind one run is watched
	for (int k = 0; k < np; k++) {
		char sub[20];
		snprintf(sub, sizeof sub, "run%d", k);
		enter(sub);
		Rng rr(r.next());
		scribble_heap(rr, pats[k]);
		mallopt(M_PERTURB, pats[k]);
		scribble_stack(pats[k]);
		Trace t;
		{
			ClassDrv d(c);
			t = play(d, c.nvoi(), ops);
		}
		mallopt(M_PERTURB, 0);
		auto f = snapshot(sub);
		if (k == 0) { t0 = t; f0 = f; }
		else {
			compare_traces(x, "nondeterminism", t0, t, "same calls with other memory contents");
			compare_files(x, "nondeterminism-file", f0, f);
		}
		x.cnt["fill_patterns"]++;
	}
	uint64_t h = fnv(t0.v.data(), t0.v.size() * sizeof(double));
	for (auto &p : f0) h = fnv(p.second.data(), p.second.size(), h);
	char b[40];
	snprintf(b, sizeof b, "%016llx", (unsigned long long) h);
	g_digest = b;
	if (chdir(g_scratch.c_str())) throw Skip{"chdir"};
	x.sig("%s ops%zu", cfgsig(c).c_str(), ops.size());
}

// ---------------------------------------------------------------- monitoring files
struct ConvRec { double flag, inv; std::vector<double> its, err; };
static bool read_conv(Ctx &x, Session &s, std::vector<ConvRec> &out)
{
	std::vector<std::string> l = lines(slurp("micropp_convergence.dat"));
	if (!x.expect("conv-file", !l.empty(), "convergence file is empty")) return false;
	bool ok;
	auto g = groups(l.back(), &ok);
	if (!x.expect("conv-file", ok && g.size() == s.gps.size(), "last record has %zu groups for %zu points: %.80s", g.size(), s.gps.size(), l.back().c_str())) return false;
	out.clear();
	for (auto &v : g) {
		if (!x.expect("conv-file", v.size() == 2 + 2 * (1 + (size_t) s.M.nv), "group has %zu values", v.size())) return false;
		ConvRec c;
		c.flag = v[0];
		c.inv = v[1];
		for (int i = 0; i <= s.M.nv; i++) { c.its.push_back(v[2 + 2 * i]); c.err.push_back(v[3 + 2 * i]); }
		out.push_back(c);
	}
	return true;
}

// ---------------------------------------------------------------- C12
static void p_C12(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor = r.ch(0.7);
	GenOpt o;
	o.maxn3 = 4; o.maxn2 = 6; o.maxel = taylor ? 18 : 27;
	o.Elo = 1e9; o.Ehi = 1e10; o.contrast = 10; o.syLo = 1e-3; o.syHi = 2e-2;
	bool plastic = r.ch(0.8);
	if (plastic) { o.dim = 3; o.plastic = 1; o.shape = taylor ? 0 : 1; } else { o.plastic = 0; o.shape = 1; }
	ref::Cfg c = gen_cfg(x, o);
	double ey = yield_strain(c);
	double amp0 = plastic ? ey * 2 : std::min(1e-3, max_amp(c));
	int mode = r.ir(0, 5);
	c.inv_tol = mode == 0 ? 0.0 : mode == 1 ? 1e300 : c.mat[0].E * amp0 * r.logu(0.02, 20);
	if (mode == 2) c.inv_tol = -1.0;
	Session s(x, c);
	int nv = c.nvoi(), ngp = r.ir(1, 4), nst = taylor ? r.ir(4, 10) : r.ir(3, 5);
	long above = 0, below = 0, yielded = 0;
	long pc[2];
	count_phases(c, pc);
	bool two = pc[0] && pc[1];
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) {
			double e[6];
			rand_strain(r, nv, amp0 * r.logu(0.1, taylor ? 4 : 1.5), e);
			if (r.ch(0.3)) { // trace-free elastic stress: remove the volumetric part
				double tr = (e[0] + e[1] + (nv == 6 ? e[2] : 0)) / (nv == 6 ? 3 : 2);
				for (int i = 0; i < (nv == 6 ? 3 : 2); i++) e[i] -= tr;
			}
			if (r.ch(0.4) && c.inv_tol > 0 && c.inv_tol < 1e200) { // aim just above or just below the tolerance, either sign
				double q[6];
				s.elastic(e, q);
				double t = s.trace(q);
				if (std::fabs(t) > 1e-9 * s.Cscale * amp0) {
					double f = c.inv_tol / t * (1 + r.sgn() * r.logu(0.004, 0.2)) * r.sgn();
					bool sane = std::fabs(f) * vnorm(e, nv) < 6 * amp0 && max_amp(c) > std::fabs(f) * vnorm(e, nv);
					if (sane) for (int i = 0; i < nv; i++) e[i] *= f;
				}
			}
			if (r.ch(0.08)) for (double &q : e) q = 0; // no strain at all: below every positive tolerance, not below zero
			s.set(g, e);
		}
		s.homogenize();
		s.d->info();
		std::vector<ConvRec> cr;
		if (!read_conv(x, s, cr)) break;
		for (int g = 0; g < ngp; g++) {
			const GpM &m = s.gps[g];
			bool zero = true;
			for (int i = 0; i <= nv; i++) zero = zero && cr[g].its[i] == 0 && cr[g].err[i] == 0;
			if (!m.full) { x.expect("shortcut-missed", zero, "iterations were spent although |trace| %.6g < tolerance %.6g", m.inv, c.inv_tol); below++; }
			else {
				above++;
				if (m.nl) yielded++;
				if (vnorm(m.eps, nv) == 0) x.cnt["zero_strain_full"]++;
				if (s.M.nfree >= 24 && two) x.expect("shortcut-wrong", !zero, "no solve was made although |trace| %.6g, tolerance %.6g, flag %d", m.inv, c.inv_tol, (int) m.nl);
			}
		}
		if (r.ch(0.6)) s.update();
	}
	x.cnt["above_tolerance"] += above;
	x.cnt["below_tolerance"] += below;
	x.cnt["after_yield"] += yielded;
	s.account();
	x.sig("%s m%d a%d b%d", cfgsig(c).c_str(), mode, above > 0, below > 0);
}

// ---------------------------------------------------------------- C13
static void check_record(Ctx &x, const std::vector<std::pair<int, double>> &log, const std::vector<std::pair<int, double>> &rec)
{
	if (log.empty() || log.size() != rec.size()) { x.cnt["solves_not_observed"] += rec.size(); return; }
	std::vector<char> used(log.size(), 0);
	for (size_t i = 0; i < rec.size(); i++) {
		auto same = [&](size_t k) { return !used[k] && log[k].first == rec[i].first && (log[k].first >= 40 || log[k].second != log[k].second || std::fabs(log[k].second - rec[i].second) <= 2e-6 * std::fabs(log[k].second)); };
		size_t k = same(i) ? i : 0;
		while (k < log.size() && !same(k)) k++;
		if (!x.expect("record-not-of-a-solve", k < log.size(), "solve %zu: %d iterations and residual %g reported, %d and %g observed", i, rec[i].first, rec[i].second, log[i].first, log[i].second)) return;
		used[k] = 1;
		x.cnt["solves_observed"]++;
	}
}
static void p_C13(Ctx &x)
{
	Rng &r = x.rng;
	int kind = r.ir(0, 3); // 0 elastic, 1 resolvable plastic, 2 hostile increments, 3 mixed points
	ref::Cfg c;
	if (kind == 0) { GenOpt o; o.plastic = 0; o.shape = 1; o.phases = 2; o.maxn3 = 6; o.maxn2 = 12; o.maxel = 150; o.contrast = r.ch(0.3) ? 300 : 10; o.Elo = 1e8; if (r.ch(0.04)) { o.maxn3 = 13; o.maxn2 = 48; o.maxel = 1700; o.elong = 0; x.cnt["large_grids"]++; } c = gen_cfg(x, o); }
	else c = plastic_interior(x, kind == 2 && r.ch(0.3) ? 5 : 4);
	double ey = yield_strain(c);
	if (kind == 3 && r.ch(0.5)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 1);
	long pc[2];
	count_phases(c, pc);
	bool two = pc[0] && pc[1];
	const int nv = c.nvoi();
	if (kind == 2) {
		// hostile: single large increments from the virgin state, Newton may well fail
		ClassDrv d(c);
		ref::Model M(c);
		for (int k = 0; k < 2; k++) {
			double e[6];
			rand_strain(r, nv, ey * r.logu(2, 100), e);
			d.set(0, e);
			mon_log_start();
			d.homog();
			auto log = newton_log();
			d.info();
			std::vector<std::string> l = lines(slurp("micropp_convergence.dat"));
			bool ok;
			auto g = groups(l.back(), &ok);
			if (!x.expect("conv-file", ok && g.size() == 1 && g[0].size() == 2 + 2 * (1 + (size_t) nv), "unreadable record")) return;
			bool allconv = true;
			std::vector<std::pair<int, double>> rec;
			for (int i = 0; i <= nv; i++) rec.push_back({(int) g[0][2 + 2 * i], g[0][3 + 2 * i]});
			check_record(x, log, rec);
			for (int i = 0; i <= nv; i++) {
				double its = g[0][2 + 2 * i], err = g[0][3 + 2 * i];
				x.expect("iteration-limit", its >= 0 && its <= 40, "%g iterations reported", its);
				if (its < 40 && err == err) x.expect("gave-up-early", err < 1e-5, "stopped after %g iterations with the residual %g", its, err);
				if (!(err < 1e-5)) allconv = false;
			}
			bool conv0 = g[0][3] < 1e-5;
			ref::Sol s = M.solve(e, M.zero());
			if (!s.ok) { x.cnt["reference_failed"]++; continue; }
			x.cnt[conv0 ? "hostile_converged" : "hostile_not_converged"]++;
			double sg[6];
			d.stress(0, sg);
			double sm = vnorm(s.sig, nv), off = 0;
			for (int i = 0; i < nv; i++) {
				double tol = 20 * 1e-5 * s.wnorm[i] + 1e-5 * sm;
				off = std::max(off, std::fabs(sg[i] - s.sig[i]) / tol);
				if (conv0) x.near("false-convergence", sg[i], s.sig[i], tol, "stress of an evaluation reported as converged", 0, i);
			}
			(void) allconv;
			if (!conv0) x.cnt[off > 1 ? "reported_unconverged_and_off" : "reported_unconverged_but_close"]++;
		}
		x.sig("%s hostile", cfgsig(c).c_str());
		return;
	}
	Session s(x, c);
	s.mask = CMP_STRESS;
	int ngp = kind == 3 ? r.ir(2, 3) : 1, nst = kind == 0 ? 3 : r.ir(3, 6);
	std::vector<Path> P;
	for (int g = 0; g < ngp; g++) P.emplace_back(r, nv, kind == 0 ? std::min(0.01, max_amp(c)) : ey * r.uni(0.8, 4));
	std::vector<double> prevErr(ngp, -1);
	std::vector<std::vector<double>> prevEps(ngp, std::vector<double>(6, 0));
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) { double e[6]; P[g].next(r, e); s.set(g, e); }
		s.watch = true;
		s.homogenize();
		auto log = s.newtonLog;
		s.d->info();
		std::vector<ConvRec> cr;
		if (!read_conv(x, s, cr)) break;
		{
			std::vector<std::pair<int, double>> rec;
			for (int g = 0; g < ngp; g++) if (s.gps[g].full) for (int i = 0; i <= nv; i++) rec.push_back({(int) cr[g].its[i], cr[g].err[i]});
			if (!rec.empty()) check_record(x, log, rec);
		}
		if (s.linearSolves > 0) { // every Newton iteration makes one linear solve
			long sum = 0;
			for (auto &q : cr) for (double v : q.its) sum += (long) v;
			x.expect("iterations-miscounted", sum == s.linearSolves, "%ld iterations reported, %ld linear solves made", sum, s.linearSolves);
			x.cnt["linear_solves_counted"] += s.linearSolves;
		}
		for (int g = 0; g < ngp; g++) {
			const GpM &m = s.gps[g];
			for (int i = 0; i <= nv; i++) {
				double its = cr[g].its[i], err = cr[g].err[i];
				if (!m.full) { x.expect("shortcut-record", its == 0 && err == 0, "iterations reported for a point answered without a solve"); continue; }
				x.expect("iteration-limit", its >= 0 && its <= 40, "%g iterations reported", its);
				if (kind && s.M.has_plastic() && its >= 40 && !(err < 1e-5)) continue; // counted by the session
				x.expect("not-converged", err < 1e-5, "residual %g after %g iterations (solve %d)", err, its, i);
				if (kind == 0) x.expect("slow-elastic", its <= 5, "%g iterations for an elastic cell", its);
				double em = vnorm(m.eps, nv);
				if (two && s.M.nfree >= 24 && em > 1e-5) {
					if (i > 0) x.expect("iterations-not-counted", its >= 1, "no iteration reported for tangent column %d", i - 1);
					else {
						double de = 0;
						for (int q = 0; q < nv; q++) de = std::max(de, std::fabs(m.eps[q] - prevEps[g][q]));
						if (ngp == 1 && de > 1e-6) x.expect("iterations-not-counted", its >= 1, "no iteration reported for the stress solve");
					}
					x.expect("residual-not-recorded", err > 0, "residual reported as exactly zero (solve %d)", i);
					x.cnt["solves_recorded"]++;
					if (its > 3) x.cnt["solves_with_many_iterations"]++;
				}
			}
			if (m.full) {
				if (prevErr[g] > 0 && cr[g].err[0] > 0 && memcmp(prevEps[g].data(), m.eps, sizeof m.eps) && two && s.M.nfree >= 24)
					x.expect("stale-residual", cr[g].err[0] != prevErr[g], "the residual of the stress solve did not change between evaluations");
				prevErr[g] = cr[g].err[0];
			} else prevErr[g] = -1;
			prevEps[g].assign(m.eps, m.eps + 6);
		}
		if (r.ch(0.8)) s.update();
	}
	s.account();
	x.sig("%s k%d", cfgsig(c).c_str(), kind);
}

// ---------------------------------------------------------------- C15
static void p_C15(Ctx &x)
{
	Rng &r = x.rng;
	ref::Cfg c = any_cfg(x, 18);
	if (r.ch(0.5)) { GenOpt o; o.dim = 3; o.plastic = 1; o.shape = 0; o.maxel = 12; c = gen_cfg(x, o); }
	double ey = yield_strain(c);
	const int nv = c.nvoi();
	// leftovers of an earlier run must not survive construction
	const char *names[3] = {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"};
	for (const char *n : names) { std::ofstream f(n); f << "stale 1 2 3 |\n"; }
	Session s(x, c);
	s.quiet = true;
	s.selfInfo = false;
	s.young = true;
	for (const char *n : names) x.expect("not-fresh", slurp(n).empty(), "%s not emptied by construction", n);
	{
		std::vector<std::string> l = lines(slurp("micropp_materials.dat"));
		if (x.expect("materials", l.size() == 2, "material file has %zu lines", l.size()))
			for (int m = 0; m < 2; m++) {
				std::vector<double> v;
				bool ok = numbers(l[m], v) && v.size() == 4;
				if (!x.expect("materials", ok, "material line %d is unreadable", m)) continue;
				double w[4] = {c.mat[m].E, c.mat[m].nu, c.mat[m].Sy, c.mat[m].Ka};
				for (int i = 0; i < 4; i++) x.near("materials", v[i], w[i], 6e-6 * std::fabs(w[i]), "material constant", m, i);
			}
	}
	int ngp = r.ir(1, 5), nst = r.ir(2, 5);
	if (!s.M.nfree && r.ch(0.02)) { ngp = r.ir(5, 30); x.cnt["many_points"]++; }
	if (!s.M.nfree && r.ch(0.02)) { nst = r.ir(40, 300); x.cnt["long_histories"]++; }
	std::vector<Path> P;
	std::vector<int> ids;
	for (int g = 0; g < ngp; g++) {
		P.emplace_back(r, nv, ey * r.uni(0.3, 3));
		int id;
		do id = r.ch(0.2) ? weird_id(r) : r.ir(-3, 900); while (std::find(ids.begin(), ids.end(), id) != ids.end());
		ids.push_back(id);
	}
	for (int i = ngp - 1; i > 0; i--) std::swap(ids[i], ids[r.ir(0, i)]);
	long calls = 0;
	size_t hdr[3] = {0, 0, 0};
	bool late = r.ch(0.3);
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		int have = late ? std::min(ngp, 1 + k * ngp / nst) : ngp; // points may appear after the first record
		for (int g = 0; g < have; g++) { double e[6]; P[g].next(r, e); s.set(ids[g], e); }
		bool fresh = k == 0 && r.ch(0.1); // record written before anything was evaluated
		if (!fresh) { s.homogenize(); if (r.ch(0.5)) s.update(); } else x.cnt["records_before_evaluation"]++;
		int rep = fresh ? 1 : r.ch(0.2) ? 2 : r.ch(0.8) || (s.M.nfree && s.M.has_plastic()) ? 1 : 0;
		for (int q = 0; q < rep; q++) {
			std::string before[3];
			for (int f = 0; f < 3; f++) before[f] = slurp(names[f]);
			s.d->info();
			if (s.M.nfree && s.M.has_plastic()) s.solver_verdict_from(slurp(names[0]));
			calls++;
			for (int f = 0; f < 3; f++) {
				std::string now = slurp(names[f]);
				x.expect("not-appended", now.compare(0, before[f].size(), before[f]) == 0, "%s: earlier records changed", names[f]);
				std::vector<std::string> nl = lines(now.substr(std::min(now.size(), before[f].size())));
				x.expect("truncated-record", !now.empty() && now.back() == '\n', "%s does not end with a complete line", names[f]);
				if (calls == 1) {
					x.expect("record-count", nl.size() >= 1, "%s: no record", names[f]);
					hdr[f] = nl.empty() ? 0 : nl.size() - 1;
					if (f < 2) {
						std::string h;
						for (size_t i = 0; i + 1 < nl.size(); i++) h += nl[i] + "\n";
						size_t p = h.find("gp_id :");
						bool ok = p != std::string::npos;
						if (ok) {
							std::stringstream ss(h.substr(p + 7));
							for (auto &g : s.gps) { long id; ok = ok && (ss >> id) && id == g.id; }
						}
						x.expect("header", ok, "%s: header does not list the points in order", names[f]);
						for (size_t i = 0; i + 1 < nl.size(); i++) x.expect("header", nl[i].empty() || nl[i][0] == '#', "%s: header line is not a comment", names[f]);
					} else
						x.expect("header", nl.size() == 1, "%s: %zu lines on the first call", names[f], nl.size());
				} else
					x.expect("record-count", nl.size() == 1, "%s: %zu lines appended by one call", names[f], nl.size());
			}
			// convergence
			std::vector<ConvRec> cr;
			if (read_conv(x, s, cr))
				for (size_t g = 0; g < s.gps.size(); g++) {
					GpM &m = s.gps[g];
					x.expect("conv-flag", cr[g].flag == s.d->nl(m.id), "flag %g in the file, %d returned", cr[g].flag, s.d->nl(m.id));
					if (m.evaluated) x.near("conv-inv", cr[g].inv, m.inv, 6e-6 * m.inv + 3 * (20e3 * vnorm(s.lin().wnorm, nv) + 3e-6 * s.Cscale) * vnorm(m.evalEps, nv), "invariant in the file", g);
					for (int i = 0; i <= nv; i++) {
						x.expect("conv-its", cr[g].its[i] >= 0 && cr[g].its[i] <= 40 && cr[g].its[i] == std::floor(cr[g].its[i]), "iterations %g", cr[g].its[i]);
						if (!m.full) x.expect("conv-its", cr[g].its[i] == 0 && cr[g].err[i] == 0, "iterations for a point answered without a solve");
						else if (s.M.has_plastic() == false) x.expect("conv-err", cr[g].err[i] < 1e-5, "residual %g", cr[g].err[i]);
					}
				}
			// strain, stress, tangent
			{
				std::vector<std::string> l = lines(slurp(names[1]));
				bool ok;
				auto gr = groups(l.back(), &ok);
				if (x.expect("esc-file", ok && gr.size() == s.gps.size(), "strain/stress record has %zu groups for %zu points", gr.size(), s.gps.size()))
					for (size_t g = 0; g < s.gps.size(); g++) {
						GpM &m = s.gps[g];
						if (!x.expect("esc-file", gr[g].size() == 48, "group has %zu values", gr[g].size())) continue;
						double sg[6] = {0}, ct[36] = {0};
						s.d->stress(m.id, sg);
						s.d->ctan(m.id, ct);
						for (int i = 0; i < nv; i++) {
							x.near("esc-strain", gr[g][i], m.eps[i], 6e-6 * std::fabs(m.eps[i]), "strain in the file", g, i);
							x.near("esc-stress", gr[g][6 + i], sg[i], 6e-6 * std::fabs(sg[i]), "stress in the file", g, i);
						}
						for (int i = 0; i < nv * nv; i++) x.near("esc-ctan", gr[g][12 + i], ct[i], 6e-6 * std::fabs(ct[i]), "tangent in the file", g, i);
					}
			}
			// internal variables: committed state
			std::vector<std::vector<double>> v;
			if (read_int_vars(x, s, v))
				for (size_t g = 0; g < s.gps.size(); g++) {
					double m = 0;
					if (c.dim == 3) for (auto &z : s.gps[g].com) for (double y : z) m = std::max(m, std::fabs(y));
					for (size_t i = 0; i < v[g].size(); i++) {
						double want = c.dim == 3 ? s.gps[g].com[i / 7][i % 7] : 0.0;
						if (!x.near("intvars", v[g][i], want, 6e-6 * std::fabs(want) + (s.M.nfree ? 2e-3 : 1e-9) * m, "internal variable in the file", g, (int) i)) break;
					}
					if (m > 0) x.cnt["records_with_plastic_history"]++;
				}
			x.cnt["info_calls"]++;
		}
	}
	(void) hdr;
	s.account();
	x.sig("%s n%d c%ld", cfgsig(c).c_str(), ngp, calls);
}

// ---------------------------------------------------------------- C16
static void p_C16(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor;
	ref::Cfg c = history_cfg(x, &taylor);
	if (r.ch(0.15)) { GenOpt o; o.plastic = 0; o.maxel = 40; c = gen_cfg(x, o); taylor = true; }
	double ey = yield_strain(c);
	if (r.ch(0.25)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 5);
	Session s(x, c);
	const int nv = c.nvoi();
	int ngp = r.ir(1, taylor ? 5 : 3), nst = taylor ? r.ir(4, 10) : r.ir(3, 5);
	std::vector<Path> P;
	for (int g = 0; g < ngp; g++) P.emplace_back(r, nv, ey * r.uni(0.5, taylor ? 8 : 3));
	long obs = 0;
	auto observe = [&](int n) {
		for (int q = 0; q < n && !s.gps.empty(); q++) {
			GpM &g = s.gps[r.ir(0, (int) s.gps.size() - 1)];
			switch (r.ir(0, 4)) {
			case 0: { // what is read must be repeatable
				double a[6], b[6], ca[36], cb[36];
				s.d->stress(g.id, a); s.d->ctan(g.id, ca); int f = s.d->nl(g.id);
				s.d->stress(g.id, b); s.d->ctan(g.id, cb);
				x.expect("reading", !memcmp(a, b, sizeof(double) * nv) && !memcmp(ca, cb, sizeof(double) * nv * nv) && f == s.d->nl(g.id), "two consecutive reads differ");
				break;
			}
			case 1: s.d->info(); break;
			default: {
				std::vector<Trace> before(s.gps.size()), after(s.gps.size());
				for (size_t i = 0; i < s.gps.size(); i++) if (s.gps[i].evaluated) trace_gp(*s.d, nv, s.gps[i].id, before[i]);
				field_solution(s, g);
				s.d->output(r.ch(0.7) ? r.ir(0, 99) : weird_id(r), g.id);
				for (size_t i = 0; i < s.gps.size(); i++) if (s.gps[i].evaluated) { trace_gp(*s.d, nv, s.gps[i].id, after[i]); compare_traces(x, "field-output-changes", before[i], after[i], "stored results before and after writing a field file"); }
			}
			}
			obs++;
		}
	};
	int crowd = x.icase % 29 == 5 && s.M.ne <= 27 ? r.ir(0, nst - 1) : -1; // a very long look once in a while
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) { double e[6]; if (k && r.ch(0.2)) continue; P[g].next(r, e); s.set(g, e); if (r.ch(0.1)) observe(1); }
		observe(r.ir(0, 1));
		if (k == crowd) { for (int q = r.ir(80, 400); q-- && x.viol.empty();) { if (r.ch(0.6)) { s.d->info(); obs++; } else { GpM &g = s.gps[r.ir(0, ngp - 1)]; if (!s.M.nfree) { field_solution(s, g); s.d->output(r.ch(0.7) ? r.ir(0, 99) : weird_id(r), g.id); } else s.d->nl(g.id); obs++; } } x.cnt["long_observations"]++; }
		s.homogenize();
		observe(r.ir(0, 3));
		if (r.ch(0.3)) { s.homogenize(); observe(r.ir(0, 2)); }
		if (r.ch(0.25)) { // a strain set, looked at, and not evaluated: the commit stores the last evaluated trial
			for (int g = 0; g < ngp; g++) if (r.ch(0.7)) { double e[6]; rand_strain(r, nv, ey * r.uni(0.3, taylor ? 6 : 2), e); s.set(g, e); }
			observe(r.ir(1, 3));
		}
		if (r.ch(0.8)) s.update();
		observe(r.ir(0, 2));
	}
	if (x.viol.empty() && c.dim == 3) compare_int_vars(x, s);
	x.cnt["observations"] += obs;
	s.account();
	x.sig("%s n%d o%ld", cfgsig(c).c_str(), ngp, obs);
}

// ---------------------------------------------------------------- C17
static void p_C17(Ctx &x)
{
	Rng &r = x.rng;
	int n = r.ch(0.2) ? 1 : r.ir(2, 5); // constructions in a row
	ref::Cfg prev;
	for (int k = 0; k < n; k++) {
		bool twin = k && r.ch(0.6);
		ref::Cfg c = twin ? near_twin(r, prev) : any_cfg(x);
		prev = c;
		if (twin) x.cnt["near_twin_constructions"]++;
		bool lng = c.nelem() <= 4 && r.ch(0.2);
		std::vector<Op> ops = gen_ops(x, c, lng ? r.ir(30, 80) : r.ir(2, 5), lng ? r.ir(3, 20) : r.ir(1, 3), true);
		if (lng) x.cnt["long_histories"]++;
		ops.push_back(Op{4, 0, {0}, 0});
		Trace a, b;
		char s1[20], s2[20];
		snprintf(s1, sizeof s1, "class%d", k);
		snprintf(s2, sizeof s2, "flat%d", k);
		enter(s1);
		{ ClassDrv d(c); a = play(d, c.nvoi(), ops); }
		enter(s2);
		{ WrapDrv d(c); b = play(d, c.nvoi(), ops); }
		compare_traces(x, "interface", a, b, "class against C/Fortran interface");
		compare_files(x, "interface-file", snapshot(s1), snapshot(s2));
		x.cnt["constructions"]++;
		x.sig("%s r%d", cfgsig(c).c_str(), k);
	}
	if (chdir(g_scratch.c_str())) throw Skip{"chdir"};
}

// ---------------------------------------------------------------- C21
static void p_C21(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor = r.ch(0.5), plastic = r.ch(0.65);
	GenOpt o;
	if (plastic) { o.dim = 3; o.plastic = 1; o.shape = taylor ? 0 : 1; o.maxn3 = 4; o.maxel = 27; o.syLo = 1e-3; }
	else { o.plastic = 0; o.maxn3 = 5; o.maxel = 60; }
	o.Elo = 3e8; o.Ehi = 3e9; o.contrast = 10;
	ref::Cfg c = gen_cfg(x, o);
	double ey = yield_strain(c);
	if (r.ch(0.2)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 5);
	const int nv = c.nvoi();
	ref::Cfg c2 = c;
	double fs = 1, fe = 1;     // stress and strain factors of the second problem
	int perm[3] = {0, 1, 2};
	double sgn[3] = {1, 1, 1};
	int kind = r.ir(0, 6);
	const char *nm[] = {"moduli", "lengths", "strain+yield", "mirror", "exchange", "units", "strain/moduli"};
	if (kind == 0) { fs = r.ch(0.5) ? r.logu(0.5, 8) : 1024; for (auto &m : c2.mat) { m.E *= fs; m.Sy *= fs; m.Ka *= fs; } c2.inv_tol *= fs; }
	else if (kind == 1) { double f = r.logu(0.3, 5); for (int d = 0; d < 3; d++) c2.l[d] *= f; c2.width *= f; x.worst["len"] = 0; }
	else if (kind == 2) { fe = r.logu(0.3, 4); fs = fe; for (auto &m : c2.mat) m.Sy *= fe; c2.inv_tol *= fe; }
	else if (kind == 3) { // mirror
		do { for (int d = 0; d < c.dim; d++) sgn[d] = (c.micro_type == 1 && d == 1) ? 1 : r.sgn(); } while (sgn[0] * sgn[1] > 0 && (c.dim == 2 || sgn[1] * sgn[2] > 0) && false);
		if (sgn[0] == sgn[1] && sgn[1] == sgn[2]) sgn[0] = -sgn[0];
	} else if (kind == 5) { // lengths and moduli together: the nodal forces do not change
		double f = r.ch(0.5) ? std::ldexp(1.0, r.ir(-20, 20)) : r.logu(1e-5, 1e5);
		double E = c2.mat[0].E;
		change_units(c2, f);
		fs = c2.mat[0].E / E;
	} else if (kind == 6) { // larger strains of a softer cell: again the same nodal forces
		fe = r.logu(0.1, 30);
		for (auto &m : c2.mat) { m.E /= fe; m.Ka /= fe; }
		fs = 1;
	} else { // exchange
		if (c.micro_type == 1) { if (c.dim == 2) throw Skip{"no exchange"}; perm[0] = 2; perm[2] = 0; }
		else if (c.dim == 2) { perm[0] = 1; perm[1] = 0; }
		else { int w = r.ir(0, 4); static const int pp[5][3] = {{1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}}; for (int d = 0; d < 3; d++) perm[d] = pp[w][d]; }
		for (int d = 0; d < c.dim; d++) { c2.n[d] = c.n[perm[d]]; c2.l[d] = c.l[perm[d]]; }
	}
	// component map: second[v] = sg[v] * first[src[v]]
	int src[6];
	double sg[6];
	static const int pr3[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}}, pr2[3][2] = {{0, 0}, {1, 1}, {0, 1}};
	for (int v = 0; v < nv; v++) {
		int a = nv == 6 ? pr3[v][0] : pr2[v][0], b = nv == 6 ? pr3[v][1] : pr2[v][1];
		sg[v] = sgn[a] * sgn[b];
		int A = std::min(perm[a], perm[b]), B = std::max(perm[a], perm[b]);
		for (int w = 0; w < nv; w++) if ((nv == 6 ? pr3[w][0] : pr2[w][0]) == A && (nv == 6 ? pr3[w][1] : pr2[w][1]) == B) src[v] = w;
	}
	enter("one");
	Session s1(x, c);
	enter("two");
	Session s2(x, c2);
	s1.quiet = s2.quiet = true;
	Path P(r, nv, plastic ? ey * r.uni(0.8, taylor ? 6 : 3) : std::min(0.01, 0.1 * max_amp(c)));
	int nst = taylor ? 8 : 4;
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		double e1[6], e2[6];
		P.next(r, e1);
		s1.set(0, e1);
		s1.homogenize();
		for (int v = 0; v < nv; v++) e2[v] = fe * sg[v] * s1.gps[0].eps[src[v]];
		s2.set(0, e2);
		s2.homogenize();
		bool same = true;
		for (int v = 0; v < nv; v++) same = same && std::fabs(s2.gps[0].eps[v] - fe * sg[v] * s1.gps[0].eps[src[v]]) <= 1e-12 * std::fabs(e2[v]);
		if (!same) throw Skip{"increment differs"};
		double a[6], b[6], ca[36], cb[36];
		s1.d->stress(0, a); s2.d->stress(0, b);
		s1.d->ctan(0, ca); s2.d->ctan(0, cb);
		GpM &g1 = s1.gps[0], &g2 = s2.gps[0];
		for (int v = 0; v < nv; v++)
			x.near("scaling-stress", b[v], fs * sg[v] * a[src[v]], 2 * (g2.tolS[v] + fs * g1.tolS[src[v]]), nm[kind], k, v);
		if (g1.ctanOk && g2.ctanOk)
			for (int v = 0; v < nv; v++) for (int w = 0; w < nv; w++)
				x.near("scaling-tangent", cb[v * nv + w], fs / fe * sg[v] * sg[w] * ca[src[v] * nv + src[w]], 2 * (g2.tolC[v] + fs / fe * g1.tolC[src[v]]), nm[kind], v, w);
		x.expect("scaling-flag", s1.d->nl(0) == s2.d->nl(0), "%s: flags %d and %d", nm[kind], s1.d->nl(0), s2.d->nl(0));
		if (r.ch(0.8)) { s1.update(); s2.update(); }
	}
	s1.account();
	x.cnt[std::string("kind_") + nm[kind]]++;
	x.sig("%s %s", cfgsig(c).c_str(), nm[kind]);
	if (chdir(g_scratch.c_str())) throw Skip{"chdir"};
}

// ---------------------------------------------------------------- C22
static void p_C22(Ctx &x)
{
	Rng &r = x.rng;
	int kind = r.ir(0, 4);
	ref::Cfg c;
	bool taylor = true;
	if (kind == 0) { GenOpt o; o.plastic = 0; o.maxel = 40; c = gen_cfg(x, o); }                      // never
	else if (kind == 1) { GenOpt o; o.dim = 2; o.maxel = 40; c = gen_cfg(x, o); c.mat[0].type = c.mat[1].type = 1; c.mat[0].Sy *= 1e-3; } // never in 2D
	else if (kind == 2) { c = history_cfg(x, &taylor); if (r.ch(0.5)) c.inv_tol = c.mat[0].E * yield_strain(c) * r.logu(0.05, 5); }
	else { // yielding confined to few integration points: approach the yield load slowly
		taylor = false;
		c = plastic_interior(x, r.ch(0.3) ? 5 : 4);
	}
	Session s(x, c);
	s.mask = CMP_FLAG;
	s.quiet = true;
	const int nv = c.nvoi();
	double ey = yield_strain(c);
	int ngp = kind <= 2 ? r.ir(1, 6) : r.ir(1, 2), nst = taylor ? r.ir(5, 12) : r.ir(3, 6);
	if (taylor && r.ch(0.02)) { ngp = r.ir(20, 260); x.cnt["many_points"]++; }
	else if (taylor && r.ch(0.02)) { nst = r.ir(60, 200); x.cnt["long_histories"]++; }
	long local = 0, turned = 0;
	std::vector<Path> P;
	for (int g = 0; g < ngp; g++) P.emplace_back(r, nv, ey * r.uni(0.2, 3));
	auto flags = [&](const char *when) {
		for (auto &g : s.gps) {
			int f = s.d->nl(g.id);
			x.expect("nlflag", f == (g.nl ? 1 : 0), "%s: flag of point %d is %d, expected %d (%d plastic integration points)", when, g.id, f, g.nl, g.sol.nplastic);
		}
	};
	// load direction scaled so that only a few integration points yield
	double dir[6], scale = 0;
	if (kind >= 3) {
		rand_dir(r, 6, dir);
		double lo = 0, hi = 20 * ey;
		for (int it = 0; it < 40; it++) {
			double m = 0.5 * (lo + hi), e[6];
			for (int i = 0; i < 6; i++) e[i] = dir[i] * m;
			ref::Cfg ce = c; // onset of yield from the elastic field
			ref::Model &M = s.M;
			std::vector<double> rr;
			ref::Sol el = M.solve(e, M.zero());
			if (el.plastic) hi = m; else lo = m;
			(void) ce;
		}
		scale = hi;
	}
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) {
			double e[6];
			if (kind >= 3) { double f = k == 0 ? 0.97 : 1 + 0.01 * r.logu(0.1, 3); if (g && k < 2) f = 0.9; for (int i = 0; i < 6; i++) e[i] = dir[i] * scale * f; }
			else P[g].next(r, e);
			s.set(g * 3, e);
		}
		flags("before evaluation");
		if (r.ch(0.05)) { s.d->output(r.ch(0.8) ? 1 : weird_id(r), r.ir(0, ngp - 1) * 3); flags("after a field was written"); x.cnt["fields_before_evaluation"]++; }
		std::vector<bool> was;
		for (auto &g : s.gps) was.push_back(g.nl);
		s.homogenize();
		flags("after evaluation");
		for (size_t g = 0; g < s.gps.size(); g++) {
			if (!was[g] && s.gps[g].nl) turned++;
			if (s.gps[g].full && s.gps[g].sol.nplastic > 0 && s.gps[g].sol.nplastic <= 8) local++;
		}
		s.d->info();
		std::vector<ConvRec> cr;
		if (read_conv(x, s, cr)) for (size_t g = 0; g < cr.size(); g++) x.expect("nlflag-file", cr[g].flag == (s.gps[g].nl ? 1 : 0), "flag %g in the file for point %d", cr[g].flag, s.gps[g].id);
		if (r.ch(0.6)) { s.update(); flags("after commit"); }
	}
	x.cnt["flags_turned_on"] += turned;
	x.cnt["few_points_plastic"] += local;
	s.account();
	x.sig("%s k%d t%ld l%ld", cfgsig(c).c_str(), kind, turned, local);
}

// ---------------------------------------------------------------- C23
static void p_C23(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor;
	ref::Cfg c = history_cfg(x, &taylor);
	Session s(x, c);
	s.quiet = true;
	double ey = yield_strain(c);
	int nst = taylor ? r.ir(10, 40) : r.ir(4, 8);
	if (taylor && r.ch(0.02)) { nst = r.ir(300, 800); x.cnt["long_histories"]++; }
	Path P(r, 6, ey * r.uni(1, taylor ? 10 : 4), taylor && r.ch(0.1) ? 7 : -1);
	std::vector<double> alpha, epsp;
	double work = 0, wscale = 0, eprev[6] = {0}, emax = 0;
	const ref::Model &M = s.M;
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		if (r.ch(0.1)) P = Path(r, 6, ey * r.uni(1, taylor ? 10 : 4));
		double e[6];
		if (r.ch(0.08)) memset(e, 0, sizeof e); else P.next(r, e);
		s.set(0, e);
		s.homogenize();
		GpM &g = s.gps[0];
		emax = std::max(emax, vnorm(e, 6));
		double rnd = 1e-13 * emax * (1 + 0.01 * k); // roundoff of the strains the plastic strains come from
		double sg[6];
		s.d->stress(0, sg);
		// yield admissibility of the cell stresses, with the committed hardening of the file
		if (r.ch(taylor ? 0.2 : 0.4)) {
			ref::Sol f = field_solution(s, g);
			s.d->output(0, 0);
			Vtu v = read_vtu(vtu_name(0, 0));
			if (x.expect("vtu", v.found && v.ok && v.a["stress"].size() == (size_t) M.ne * 6 && v.a["hardening"].size() == (size_t) M.ne, "field file unusable"))
				for (int el = 0; el < M.ne; el++) {
					const ref::Mat &m = c.mat[M.ph[el]];
					if (m.type != 1) continue;
					const double *q = &v.a["stress"][el * 6];
					double p = (q[0] + q[1] + q[2]) / 3, n2 = 0, mag = 0;
					for (int i = 0; i < 6; i++) { double d = i < 3 ? q[i] - p : q[i]; n2 += (i < 3 ? 1 : 2) * d * d; mag = std::max(mag, std::fabs(q[i])); }
					double R = std::sqrt(2.0 / 3) * (m.Sy + m.Ka * v.a["hardening"][el]);
					x.expect("yield-violated", std::sqrt(n2) <= R * (1 + 1e-5) + 1e-5 * mag, "cell %d: deviator norm %.8g exceeds the yield radius %.8g", el, std::sqrt(n2), R);
					x.cnt["yield_checks"]++;
				}
		}
		bool commit = r.ch(0.85);
		if (!commit) continue;
		s.update();
		// work of the committed step (end-point rule bounds the free energy from above)
		for (int i = 0; i < 6; i++) { double d = sg[i] * (g.evalEps[i] - eprev[i]); work += d; wscale += std::fabs(d); eprev[i] = g.evalEps[i]; }
		x.expect("energy-created", work >= -(1e-7 + (M.nfree ? 1e-5 : 0)) * wscale, "the work done on the virgin cell is %.6g (scale %.3g) after %d steps", work, wscale, k);
		s.d->info();
		std::vector<std::vector<double>> v;
		if (!read_int_vars(x, s, v)) break;
		const std::vector<double> &w = v[0];
		double am = 0, pm = 0;
		for (size_t i = 0; i < w.size(); i++) (i % 7 == 6 ? am : pm) = std::max(i % 7 == 6 ? am : pm, std::fabs(w[i]));
		for (int q = 0; q < M.ne * 8; q++) {
			const double *z = &w[(size_t) q * 7];
			bool plas = c.mat[M.ph[q / 8]].type == 1;
			if (!plas) { bool zero = true; for (int i = 0; i < 7; i++) zero = zero && z[i] == 0; x.expect("elastic-phase-flows", zero, "plastic variables in the elastic cell %d", q / 8); continue; }
			x.expect("alpha-negative", z[6] >= 0, "hardening %.6g at integration point %d", z[6], q);
			if (!alpha.empty()) x.expect("alpha-decreased", z[6] >= alpha[q] * (1 - 1.2e-5), "hardening went from %.7g to %.7g at integration point %d", alpha[q], z[6], q);
			double tr = z[0] + z[1] + z[2], mg = std::fabs(z[0]) + std::fabs(z[1]) + std::fabs(z[2]);
			x.expect("not-isochoric", std::fabs(tr) <= 6e-6 * mg + 1e-11 * pm + rnd, "plastic volume strain %.3g against %.3g at integration point %d", tr, mg, q);
			// accumulated alpha is at least sqrt(2/3) times the plastic strain reached
			double n2 = 0;
			for (int i = 0; i < 6; i++) n2 += (i < 3 ? 1 : 2) * z[i] * z[i];
			x.expect("alpha-too-small", z[6] >= std::sqrt(2.0 / 3 * n2) * (1 - 1.5e-5) - 1e-9 * am - rnd, "hardening %.7g below the plastic strain %.7g at integration point %d", z[6], std::sqrt(2.0 / 3 * n2), q);
			x.cnt["integration_points_checked"]++;
		}
		alpha.resize(M.ne * 8);
		for (int q = 0; q < M.ne * 8; q++) alpha[q] = w[(size_t) q * 7 + 6];
	}
	s.account();
	x.sig("%s %s", cfgsig(c).c_str(), P.name());
}

// ---------------------------------------------------------------- C24
static void p_C24(Ctx &x)
{
	Rng &r = x.rng;
	GenOpt o;
	o.plastic = 0; o.maxn3 = 8; o.maxn2 = 16; o.maxel = x.thorough() ? 350 : 200;
	o.negnu = false;
	ref::Cfg c = gen_cfg(x, o);
	// more extreme shapes than elsewhere
	if (r.ch(0.5)) {
		for (int d = 0; d < c.dim; d++) c.l[d] *= r.logu(0.3, 3);
		double q = c.micro_type == 1 ? c.l[1] : std::min(c.l[0], c.l[1]);
		c.width = r.uni(0.05, 1.2) * q;
	}
	if (r.ch(0.15)) { // centroids exactly at the radius or height: they are not inside
		c.exact = true;
		bool layer = c.micro_type == 1;
		for (int d = 0; d < c.dim; d++) {
			double h = std::ldexp(1.0, r.ir(-3, 1));
			if (!layer && d) h = c.l[0] / (c.n[0] - 1);
			c.n[d] = layer && d == 1 ? (r.ch(0.5) ? 5 : 3) : 2 * r.ir(d == 0 ? 2 : 1, c.dim == 2 ? 4 : 3);
			c.l[d] = h * (c.n[d] - 1);
		}
		double h = c.l[0] / (c.n[0] - 1);
		if (layer) c.width = (r.ir(0, c.n[1] - 2) + 0.5) * c.l[1] / (c.n[1] - 1);
		else c.width = h * (r.ch(0.1) ? 0 : r.ir(1, c.n[0] / 2 - 1));
		x.cnt["exact_ties"]++;
	}
	c.mat[1].E = c.mat[0].E * (r.ch(0.5) ? 7 : 0.2);
	bool plate = !c.exact && r.ch(0.08) && c.nelem() <= 80; // plates and rods, layout only
	if (plate) {
		for (int d = 0; d < c.dim; d++) c.l[d] *= r.logu(1e-3, 1e3);
		double q = r.ch(0.3) ? std::max(c.l[0], c.l[1]) : std::min(c.l[0], c.l[1]);
		c.width = r.uni(0.1, 0.9) * (c.micro_type == 1 ? c.l[1] : q);
	}
	ref::Model M(c);
	if (M.tiemargin < 1e-6) throw Skip{"tie"};
	Session s(x, c);
	if (plate) {
		double z[6] = {0};
		s.set(0, z);
		s.d->output(0, 0);
		Vtu v = read_vtu(vtu_name(0, 0));
		auto &t = v.a["elem_type"];
		if (x.expect("vtu", v.found && v.ok && t.size() == (size_t) M.ne, "field file unusable"))
			for (int q = 0; q < M.ne; q++) x.expect("vtu-phase", t[q] == M.ph[q], "cell %d is in phase %g, expected %d", q, t[q], M.ph[q]);
		x.cnt["plates"]++;
		x.sig("plate %s", cfgsig(c).c_str());
		return;
	}
	s.quiet = true;
	double e[6];
	rand_strain(r, c.nvoi(), std::min(1e-3, max_amp(c)), e);
	s.set(0, e);
	s.homogenize();
	ref::Sol f = field_solution(s, s.gps[0]);
	s.d->output(0, 0);
	check_vtu(x, s, s.gps[0], f, read_vtu(vtu_name(0, 0)), V_PHASE | V_LAW);
	s.compare();
	long pc[2];
	count_phases(c, pc);
	x.cnt["cells"] += pc[0] + pc[1];
	x.cnt["inclusion_cells"] += pc[1];
	x.sig("%s f%ld", cfgsig(c).c_str(), pc[1]);
}

// ---------------------------------------------------------------- C25
template <class T> static auto inv1(T &m, const double *t, int) -> decltype((double) m.get_inv_1(t)) { return m.get_inv_1(t); }
template <class T> static double inv1(T &, const double *, long) { return NAN; }
template <class T> static auto inv2(T &m, const double *t, int) -> decltype((double) m.get_inv_2(t)) { return m.get_inv_2(t); }
template <class T> static double inv2(T &, const double *, long) { return NAN; }
template <class T> static auto has_inv(T &m, int) -> decltype(m.get_inv_1((const double *) nullptr), m.get_inv_2((const double *) nullptr), true) { return true; }
template <class T> static bool has_inv(T &, long) { return false; }

static void p_C25(Ctx &x)
{
	Rng &r = x.rng;
	GenOpt o;
	o.maxn3 = 3; o.maxn2 = 5; o.maxel = 8; o.Elo = 1e9; o.Ehi = 1e10;
	ref::Cfg c = gen_cfg(x, o);
	Session s(x, c);
	micropp_t &m = *static_cast<ClassDrv *>(s.d.get())->m;
	if (has_inv(m, 0))
		for (int k = 0; k < 40; k++) {
			double t[6];
			double sc = r.logu(1e-6, 1e9);
			for (double &q : t) q = sc * (r.ch(0.2) ? 0 : r.normal());
			if (c.dim == 2) {
				double th = r.uni(0, 2 * M_PI), cs = std::cos(th), sn = std::sin(th), q[6] = {0};
				x.near("inv1-2d", inv1(m, t, 0), t[0] + t[1], 1e-12 * sc, "first invariant in 2D");
				q[0] = cs * cs * t[0] + sn * sn * t[1] + 2 * cs * sn * t[2];
				q[1] = sn * sn * t[0] + cs * cs * t[1] - 2 * cs * sn * t[2];
				q[2] = -cs * sn * t[0] + cs * sn * t[1] + (cs * cs - sn * sn) * t[2];
				x.near("inv1-2d", inv1(m, q, 0), inv1(m, t, 0), 1e-11 * sc * 10, "first invariant after rotation");
				x.cnt["invariants"]++;
				continue;
			}
			double A[3][3] = {{t[0], t[3], t[4]}, {t[3], t[1], t[5]}, {t[4], t[5], t[2]}};
			double tr = A[0][0] + A[1][1] + A[2][2], tr2 = 0;
			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr2 += A[i][j] * A[j][i];
			double i2 = 0.5 * (tr * tr - tr2);
			x.near("inv1", inv1(m, t, 0), tr, 1e-12 * sc * 10, "first invariant");
			x.near("inv2", inv2(m, t, 0), i2, 1e-11 * sc * sc * 100, "second invariant");
			// rotation from a random quaternion
			double q[4], n = 0;
			for (double &v : q) { v = r.normal(); n += v * v; }
			n = std::sqrt(n);
			for (double &v : q) v /= n;
			double w = q[0], X = q[1], Y = q[2], Z = q[3];
			double Q[3][3] = {{1 - 2 * (Y * Y + Z * Z), 2 * (X * Y - w * Z), 2 * (X * Z + w * Y)}, {2 * (X * Y + w * Z), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z - w * X)}, {2 * (X * Z - w * Y), 2 * (Y * Z + w * X), 1 - 2 * (X * X + Y * Y)}};
			double B[3][3] = {{0}};
			for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) B[i][j] += Q[i][a] * A[a][b] * Q[j][b];
			double u[6] = {B[0][0], B[1][1], B[2][2], B[0][1], B[0][2], B[1][2]};
			x.near("inv1-rot", inv1(m, u, 0), inv1(m, t, 0), 1e-11 * sc * 10, "first invariant after rotation");
			x.near("inv2-rot", inv2(m, u, 0), inv2(m, t, 0), 1e-10 * sc * sc * 100, "second invariant after rotation");
			x.cnt["invariants"]++;
		}
	// the invariant reported for the last evaluated strain
	double ey = yield_strain(c);
	if (r.ch(0.5)) c.inv_tol = c.mat[0].E * ey * r.logu(0.1, 10);
	Session s2(x, c);
	s2.quiet = true;
	int ngp = r.ir(1, 4);
	for (int k = 0; k < 4 && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) { double e[6]; rand_strain(r, c.nvoi(), ey * r.logu(0.05, k == 0 ? 2 : 0.5), e); s2.set(g, e); }
		s2.homogenize();
		if (r.ch(0.3)) { double e[6] = {0.3, 0.3, 0.3, 0, 0, 0}; s2.d->set(0, e); } // set, not evaluated
		s2.d->info();
		std::vector<ConvRec> cr;
		if (!read_conv(x, s2, cr)) break;
		for (int g = 0; g < ngp; g++) {
			GpM &gm = s2.gps[g];
			double tol = 6e-6 * gm.inv + 3 * (20e3 * vnorm(s2.lin().wnorm, c.nvoi()) + 3e-6 * s2.Cscale) * vnorm(gm.evalEps, c.nvoi());
			x.near("reported-invariant", cr[g].inv, gm.inv, tol, "reported invariant", g);
			x.cnt["reported_invariants"]++;
		}
		s2.d->set(0, s2.gps[0].eps);
		if (r.ch(0.5)) s2.update();
	}
	x.sig("%s", cfgsig(c).c_str());
}

// ---------------------------------------------------------------- C27
struct Hand { bool nl = false; int its = -1; double err = -1, before[8], after[8], stress[8]; };
template <class T> static auto by_hand(T &m, double *e, Hand &h, int) -> decltype(m.set_displ(e), m.newton_raphson(&h.nl, &h.its, &h.err), m.calc_ave_strain(h.before), m.calc_ave_stress(h.stress), true)
{
	for (int i = 0; i < 8; i++) h.before[i] = h.after[i] = h.stress[i] = 7.5e77;
	m.set_displ(e);
	m.calc_ave_strain(h.before);
	m.newton_raphson(&h.nl, &h.its, &h.err);
	m.calc_ave_strain(h.after);
	m.calc_ave_stress(h.stress);
	return true;
}
template <class T> static bool by_hand(T &, double *, Hand &, long) { return false; }

static void p_C27(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor = true;
	ref::Cfg c;
	if (r.ch(0.5)) c = history_cfg(x, &taylor);
	else { GenOpt o; o.plastic = r.ch(0.5) ? 0 : -1; o.maxel = 60; c = gen_cfg(x, o); taylor = false; }
	double ey = yield_strain(c);
	if (r.ch(0.25)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 5);
	Session s(x, c);
	const int nv = c.nvoi();
	micropp_t &m = *static_cast<ClassDrv *>(s.d.get())->m;
	int ngp = r.ir(1, 3), nst = r.ir(2, 5);
	double last = 0; // largest strain the displacement field may still hold
	bool missing = false;
	auto hand = [&](int n) {
		for (int q = 0; q < n && x.viol.empty() && !missing; q++) {
			GpM g;
			g.com = s.M.zero();
			double e[6];
			rand_strain(r, nv, ey * r.logu(0.05, taylor ? 8 : 2.5), e);
			if (r.ch(0.05)) for (double &v : e) v = 0;
			memcpy(g.eps, e, sizeof e);
			bool virgin = true, ok = true;
			for (auto &p : s.gps) virgin = virgin && !p.nl;
			if (!virgin) { double f = r.uni(0.95, 1.02); for (int v = 0; v < nv; v++) g.eps[v] = f * s.gps.back().evalEps[v]; } // history of the last point: stay near it
			ref::Sol sol;
			if (virgin) for (int k = 0; !(ok = s.resolvable(g, sol)) && k < 6; k++) for (double &v : g.eps) v *= 0.5;
			if (!ok) { x.cnt["hand_unresolvable"]++; continue; }
			std::vector<Trace> before(s.gps.size());
			for (size_t i = 0; i < s.gps.size(); i++) if (s.gps[i].evaluated) trace_gp(*s.d, nv, s.gps[i].id, before[i]);
			Hand h;
			{
				Exact a(nv, g.eps);
				if (!by_hand(m, a.p.get(), h, 0)) { missing = true; x.cnt["stepping_calls_not_offered"]++; return; }
			}
			double em = 0;
			for (int v = 0; v < nv; v++) em = std::max(em, std::fabs(g.eps[v]));
			double scale = std::max({em, last, 1e-7}), asp = std::max({c.l[0], c.l[1], c.dim == 3 ? c.l[2] : 0.0}) / std::min({c.l[0], c.l[1], c.dim == 3 ? c.l[2] : 1e300});
			for (int v = 0; v < nv; v++) {
				x.near("average-strain-start", h.before[v], g.eps[v], 1e-10 * scale * asp, "average strain after set_displ", v);
				x.near("average-strain", h.after[v], g.eps[v], 1e-10 * scale * asp, "average strain after the iteration", v);
			}
			x.expect("overrun", h.before[nv] == 7.5e77 && h.after[nv] == 7.5e77 && h.stress[nv] == 7.5e77, "an average wrote more than %d entries", nv);
			x.expect("iterations", h.its >= 0 && h.its <= 40, "%d iterations reported", h.its);
			x.cnt["hand_averages"]++;
			last = std::max(last, em);
			for (size_t i = 0; i < s.gps.size(); i++) if (s.gps[i].evaluated) { Trace t; trace_gp(*s.d, nv, s.gps[i].id, t); compare_traces(x, "stepping-changes", before[i], t, "stored results before and after stepping by hand"); }
			if (!virgin) { x.cnt["hand_after_yield"]++; if (!(h.err < 1e-5)) last = std::max(last, 1.0); continue; }
			if (s.M.nfree) s.ulast = sol.u;
			if (h.its >= 40 && !(h.err < 1e-5)) { x.cnt["hand_unconverged"]++; last = std::max(last, 1.0); continue; }
			x.expect("residual", h.err >= 0 && h.err < 1e-5, "iteration stopped after %d steps with residual %g", h.its, h.err);
			memcpy(g.sig, sol.sig, sizeof g.sig);
			s.tolerances(g, sol, true);
			for (int v = 0; v < nv; v++) if (!x.near("average-stress", h.stress[v], sol.sig[v], g.tolS[v], "average stress of the field iterated by hand", v)) break;
			if (sol.minfrel > 1e-6 || !s.M.has_plastic()) x.expect("flow", h.nl == (sol.plastic && c.dim == 3), "plastic flow reported %d, expected %d", (int) h.nl, (int) sol.plastic);
			x.cnt["hand_solutions"]++;
			if (sol.plastic) x.cnt["hand_plastic"]++;
		}
	};
	hand(r.ir(0, 3)); // before any point exists
	std::vector<Path> P;
	double amp = r.ch(0.5) ? r.uni(0.05, 0.3) : r.uni(0.5, taylor ? 6 : 2);
	for (int g = 0; g < ngp; g++) P.emplace_back(r, nv, ey * amp);
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) { double e[6]; if (k && r.ch(0.2)) continue; P[g].next(r, e); s.set(g, e); if (r.ch(0.2)) hand(1); }
		s.homogenize();
		for (auto &g : s.gps) for (int v = 0; v < nv; v++) last = std::max(last, std::fabs(g.evalEps[v]));
		hand(r.ir(0, 2));
		if (r.ch(0.7)) s.update();
		if (r.ch(0.3)) hand(1);
	}
	if (x.viol.empty() && c.dim == 3) compare_int_vars(x, s);
	s.account();
	x.sig("%s n%d %s", cfgsig(c).c_str(), ngp, s.plasticEvals ? "plastic" : "virgin");
}

// ---------------------------------------------------------------- C28
// element and integration point calls; each group degrades to "not offered" if the class has no such calls
template <class T> static auto gp_strain(T &m, int dim, const int *e, int gp, double *s, int) -> decltype(m.get_strain3D(0, 0, 0, 0, s), m.get_strain2D(0, 0, 0, s), true)
{
	if (dim == 2) m.get_strain2D(e[0], e[1], gp, s); else m.get_strain3D(e[0], e[1], e[2], gp, s);
	return true;
}
template <class T> static bool gp_strain(T &, int, const int *, int, double *, long) { return false; }
template <class T> static auto gp_stress(T &m, int dim, const int *e, int gp, double *s, bool *nl, double *t, int) -> decltype(m.get_stress3D(0, 0, 0, 0, s, nl, t), m.get_stress2D(0, 0, 0, s, nl, t), true)
{
	if (dim == 2) m.get_stress2D(e[0], e[1], gp, s, nl, t); else m.get_stress3D(e[0], e[1], e[2], gp, s, nl, t);
	return true;
}
template <class T> static bool gp_stress(T &, int, const int *, int, double *, bool *, double *, long) { return false; }
struct Elem { double f2[8], f3[24], k2[64], k3[576]; };
template <class T> static auto elem_force(T &m, int dim, const int *e, bool *nl, Elem &q, int) -> decltype(m.get_elem_rhs3D(0, 0, 0, nl, q.f3), m.get_elem_rhs2D(0, 0, nl, q.f2), true)
{
	if (dim == 2) m.get_elem_rhs2D(e[0], e[1], nl, q.f2); else m.get_elem_rhs3D(e[0], e[1], e[2], nl, q.f3);
	return true;
}
template <class T> static bool elem_force(T &, int, const int *, bool *, Elem &, long) { return false; }
template <class T> static auto elem_stiff(T &m, int dim, const int *e, Elem &q, int) -> decltype(m.get_elem_mat3D(0, 0, 0, q.k3), m.get_elem_mat2D(0, 0, q.k2), true)
{
	if (dim == 2) m.get_elem_mat2D(e[0], e[1], q.k2); else m.get_elem_mat3D(e[0], e[1], e[2], q.k3);
	return true;
}
template <class T> static bool elem_stiff(T &, int, const int *, Elem &, long) { return false; }
template <class T, class L> static auto law(T &m, L *mat, const ref::Mat &r, double *eps, double *p, double a, double *pn, double *an, bool *nl, double *s, int) -> decltype(m.plastic_step(mat, eps, p, a, pn, an, nl, s), mat->lambda, mat->mu, mat->k, mat->E, mat->nu, mat->Sy, mat->Ka, mat->plasticity, true)
{
	mat->E = r.E; mat->nu = r.nu; mat->Sy = r.Sy; mat->Ka = r.Ka; mat->plasticity = true;
	mat->mu = r.E / (2 * (1 + r.nu));
	mat->lambda = r.E * r.nu / ((1 + r.nu) * (1 - 2 * r.nu));
	mat->k = r.E / (3 * (1 - 2 * r.nu));
	m.plastic_step(mat, eps, p, a, pn, an, nl, s);
	return true;
}
template <class T, class L> static bool law(T &, L *, const ref::Mat &, double *, double *, double, double *, double *, bool *, double *, long) { return false; }
template <class T> static auto deviator(T &m, double *t, double *d, int) -> decltype(m.get_dev_tensor(t, d), true) { m.get_dev_tensor(t, d); return true; }
template <class T> static bool deviator(T &, double *, double *, long) { return false; }

// the law alone, from any history
static bool check_law(Ctx &x, micropp_t &m, int n)
{
	Rng &r = x.rng;
	for (int q = 0; q < n && x.viol.empty(); q++) {
		ref::Mat mt;
		mt.type = 1;
		mt.E = r.logu(1e-3, 1e12); mt.nu = r.uni(-0.5, 0.49); mt.Sy = mt.E * r.logu(1e-5, 1e-1); mt.Ka = r.ch(0.3) ? 0 : mt.E * r.logu(1e-4, 1);
		double ey = mt.Sy / mt.E;
		ref::GpState o, w;
		o.fill(0);
		if (r.ch(0.7)) { // traceless plastic strain, hardening at least as large
			double n2 = 0;
			for (int i = 0; i < 6; i++) o[i] = ey * r.logu(0.01, 30) * r.normal() * !r.ch(0.2);
			double t = (o[0] + o[1] + o[2]) / 3;
			for (int i = 0; i < 3; i++) o[i] -= t;
			for (int i = 0; i < 6; i++) n2 += (i < 3 ? 1 : 2) * o[i] * o[i];
			o[6] = std::sqrt(2.0 / 3 * n2) * r.uni(1, 3);
		}
		double e[6], p[6], pn[7], an = 7.5e77, s[7], S[6], f;
		double amp = ey * r.logu(1e-3, 100);
		for (int i = 0; i < 6; i++) e[i] = (r.ch(0.5) ? (i < 3 ? 1 : 2) * o[i] : 0) + amp * r.normal() * !r.ch(0.2);
		if (r.ch(0.05)) for (double &v : e) v = 0;
		bool pl = ref::stress3(mt, e, o, w, S, nullptr, &f);
		if (f < 1e-9) continue;
		if (r.ch(0.1)) { // a volumetric part of the plastic strain takes no part in flow or stress, and stays
			double t = ey * r.logu(0.01, 10) * r.normal();
			for (int i = 0; i < 3; i++) { o[i] += t; w[i] += t; }
			x.cnt["law_volumetric_history"]++;
		}
		for (double &v : pn) v = 7.5e77;
		for (double &v : s) v = 7.5e77;
		bool nl = false;
		material_t M = material_t();
		double ec[6];
		memcpy(p, o.data(), sizeof p);
		memcpy(ec, e, sizeof ec);
		if (!law(m, &M, mt, ec, p, o[6], pn, &an, &nl, s, 0)) { x.cnt["law_not_offered"]++; return false; }
		double em = vnorm(e, 6), pm = vnorm(o.data(), 6), sc = mt.E / std::min(1.0, 1 - 2 * mt.nu) * (em + pm) * 4;
		x.expect("law-flow", nl == pl, "plastic flow %d, expected %d (distance from yield %.3g)", (int) nl, (int) pl, f);
		x.expect("law-input", !memcmp(p, o.data(), sizeof p) && !memcmp(ec, e, sizeof e), "the law changed its input");
		for (int i = 0; i < 6; i++) {
			x.near("law-stress", s[i], S[i], 1e-13 * sc, "stress of the law", q, i);
			x.near("law-plastic-strain", pn[i], w[i], 1e-13 * (em + pm) * 10, "plastic strain of the law", q, i);
		}
		x.near("law-alpha", an, w[6], 1e-13 * (em + pm + w[6]) * 10, "hardening variable of the law", q);
		x.expect("overrun", pn[6] == 7.5e77 && s[6] == 7.5e77, "the law wrote beyond its six components");
		double d[7] = {0, 0, 0, 0, 0, 0, 7.5e77};
		if (deviator(m, ec, d, 0)) {
			double t = (e[0] + e[1] + e[2]) / 3;
			for (int i = 0; i < 6; i++) x.near("deviator", d[i], e[i] - (i < 3 ? t : 0), 1e-14 * em, "deviator", i);
		}
		x.cnt["law_calls"]++;
		if (pl) x.cnt["law_plastic"]++;
	}
	return true;
}
static void p_C28(Ctx &x)
{
	Rng &r = x.rng;
	ref::Cfg c;
	bool taylor = true;
	if (r.ch(0.5)) c = history_cfg(x, &taylor);
	else { GenOpt o; o.plastic = r.ch(0.6) ? 0 : -1; o.maxel = 80; c = gen_cfg(x, o); taylor = false; }
	double ey = yield_strain(c);
	Session s(x, c);
	const int nv = c.nvoi(), nd = s.M.npe * c.dim, ng = s.M.ngp;
	micropp_t &m = *static_cast<ClassDrv *>(s.d.get())->m;
	check_law(x, m, 20);
	double hmin = 1e300, hmax = 0, Emin = 1e300;
	for (int d = 0; d < c.dim; d++) { double h = c.l[d] / (c.n[d] - 1); hmin = std::min(hmin, h); hmax = std::max(hmax, h); }
	for (auto &q : c.mat) Emin = std::min(Emin, q.E);
	double ry = 1e300;
	for (auto &q : c.mat) if (c.dim == 3 && q.type == 1) ry = std::min(ry, q.Sy / (2 * q.E));
	double held = 1e-7; // largest strain the field may hold
	int rounds = r.ir(2, 5);
	for (int k = 0; k < rounds && x.viol.empty(); k++) {
		GpM g;
		g.com = s.M.zero();
		double e[6];
		bool pl = k && r.ch(0.6);
		rand_strain(r, nv, std::min(max_amp(c), ey * r.logu(pl ? 0.8 : 0.05, pl ? (taylor ? 8 : 2.5) : 0.5)), e);
		if (r.ch(0.1)) for (double &v : e) v = 0;
		memcpy(g.eps, e, sizeof e);
		ref::Sol sol;
		bool ok = false;
		for (int t = 0; !(ok = s.resolvable(g, sol)) && t < 6; t++) for (double &v : g.eps) v *= 0.5;
		if (!ok) { x.cnt["hand_unresolvable"]++; continue; }
		if (r.ch(0.2) && s.gps.empty() && !s.M.has_plastic()) { s.set(3, g.eps); s.homogenize(); } // a point beside
		Hand h;
		{
			Exact a(nv, g.eps);
			if (!by_hand(m, a.p.get(), h, 0)) { x.cnt["stepping_calls_not_offered"]++; return; }
		}
		bool conv = h.err < 1e-5;
		if (s.M.nfree && conv) s.ulast = sol.u;
		double em = vnorm(g.eps, nv);
		held = std::max(held, em);
		double tolU = 1e-7 * held + 50 * 1e-5 / (Emin * std::pow(hmin, c.dim - 1)) + (sol.nplastic && s.M.nfree ? 1e-3 * em : 0);
		if (!s.M.nfree) tolU = 1e-11 * em * hmax / hmin;
		for (int q = r.ir(1, 6); q-- && x.viol.empty();) {
			int el = r.ir(0, s.M.ne - 1), nds[8];
			int ix[3] = {el % (c.n[0] - 1), el / (c.n[0] - 1) % (c.n[1] - 1), el / ((c.n[0] - 1) * (c.n[1] - 1))};
			const ref::Mat &mt = c.mat[s.M.ph[el]];
			s.M.nodes(el, nds);
			double F[24] = {0}, K[24][24] = {{0}}, fs = 0, minf = 1e300;
			bool flow = false;
			for (int gp = 0; gp < ng; gp++) {
				double st[8], sg[8], S[6] = {0}, C[6][6];
				for (double &v : st) v = 7.5e77;
				for (double &v : sg) v = 7.5e77;
				if (!gp_strain(m, c.dim, ix, gp, st, 0)) { x.cnt["strain_not_offered"]++; return; }
				x.expect("overrun", st[nv] == 7.5e77, "strain wrote more than %d entries", nv);
				if (conv)
					for (int v = 0; v < nv; v++) {
						double w = 0;
						for (int a = 0; a < nd; a++) w += s.M.B[gp][v][a] * sol.u[nds[a / c.dim] * c.dim + a % c.dim];
						x.near(s.M.nfree ? "gp-strain" : "gp-strain-affine", st[v], w, tolU, "strain at an integration point", gp, v);
					}
				bool p = false, np = true;
				double fr = 1e300, in[6];
				memcpy(in, st, sizeof in);
				if (c.dim == 2) { double C2[3][3]; ref::elast2(mt, C2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { C[i][j] = C2[i][j]; S[i] += C2[i][j] * st[j]; } }
				else { ref::GpState o, w; o.fill(0); p = ref::stress3(mt, st, o, w, S, C, &fr); }
				minf = std::min(minf, fr);
				flow = flow || p;
				double ss = mt.E / (1 - 2 * std::max(mt.nu, 0.0)) * vnorm(st, nv);
				if (!gp_stress(m, c.dim, ix, gp, in, &np, sg, 0)) x.cnt["stress_not_offered"]++;
				else {
					for (int v = 0; v < nv; v++) x.near("gp-stress", sg[v], S[v], 1e-12 * ss, "stress at an integration point", gp, v);
					if (fr > 1e-9) x.expect("gp-flow", np == p, "flow %d at an integration point, expected %d", (int) np, (int) p);
					x.expect("overrun", sg[nv] == 7.5e77, "stress wrote more than %d entries", nv);
					x.cnt["gp_stresses"]++;
				}
				for (int a = 0; a < nd; a++)
					for (int v = 0; v < nv; v++) {
						F[a] += s.M.B[gp][v][a] * S[v] * s.M.wg;
						fs += std::fabs(s.M.B[gp][v][a]) * ss * s.M.wg;
						for (int b = 0; b < nd; b++) for (int w = 0; w < nv; w++) K[a][b] += s.M.B[gp][v][a] * C[v][w] * s.M.B[gp][w][b] * s.M.wg;
					}
			}
			Elem E;
			bool nl = true;
			if (!elem_force(m, c.dim, ix, &nl, E, 0)) x.cnt["force_not_offered"]++;
			else {
				const double *f = c.dim == 2 ? E.f2 : E.f3;
				double sum[3] = {0};
				for (int a = 0; a < nd; a++) { x.near("element-force", f[a], F[a], 1e-12 * fs, "element force", el, a); sum[a % c.dim] += f[a]; }
				for (int d = 0; d < c.dim; d++) x.near("force-balance", sum[d], 0, 1e-12 * fs, "sum of the element forces", el, d);
				if (minf > 1e-9) x.expect("element-flow", nl == flow, "flow %d in element %d, expected %d", (int) nl, el, (int) flow);
				x.cnt["element_forces"]++;
				if (flow) x.cnt["element_forces_plastic"]++;
			}
			if (!elem_stiff(m, c.dim, ix, E, 0)) x.cnt["stiffness_not_offered"]++;
			else if (minf > 1e-5 + 30 * 1e-8 / ry) {
				const double *A = c.dim == 2 ? E.k2 : E.k3;
				double ks = 0;
				for (int a = 0; a < nd; a++) ks = std::max(ks, K[a][a]);
				bool fd = c.dim == 3 && mt.type == 1; // the tangent of the law may be a difference quotient
				double tol = fd ? ks * (1e-7 + 1e-7 * em / 1e-2 + (flow ? 10 * 1e-8 / ry : 0)) * (mt.nu > 0.4 ? 0.2 / (0.5 - mt.nu) * 2 : 1) : 1e-12 * ks * hmax / hmin;
				for (int a = 0; a < nd; a++)
					for (int b = 0; b < nd; b++)
						x.near(flow ? "element-stiffness-plastic" : fd ? "element-stiffness-fd" : "element-stiffness", A[a * nd + b], K[a][b], tol, "element stiffness", a, b);
				x.cnt["element_matrices"]++;
				if (flow) x.cnt["element_matrices_plastic"]++;
			}
		}
	}
	s.account();
	x.sig("%s %s", cfgsig(c).c_str(), taylor ? "t" : "");
}

// ---------------------------------------------------------------- C29
template <class T> static auto elem_phase(T &m, int dim, const int *e, int *t, int) -> decltype(m.get_elem_type2D(0, 0), m.get_elem_type3D(0, 0, 0), true)
{
	*t = dim == 2 ? m.get_elem_type2D(e[0], e[1]) : m.get_elem_type3D(e[0], e[1], e[2]);
	return true;
}
template <class T> static bool elem_phase(T &, int, const int *, int *, long) { return false; }
struct MatVals { double E, nu, Sy, Ka, k, mu, lambda; bool plastic; };
template <class T, class L> static auto elem_mat(T &m, int el, L *q, MatVals &v, int) -> decltype(m.get_material(el, *q), q->E, q->nu, q->Sy, q->Ka, q->k, q->mu, q->lambda, q->plasticity, true)
{
	L t;
	memset((void *) &t, 0x5a, sizeof t);
	m.get_material(el, t);
	v = MatVals{t.E, t.nu, t.Sy, t.Ka, t.k, t.mu, t.lambda, (bool) t.plasticity};
	return true;
}
template <class T, class L> static bool elem_mat(T &, int, L *, MatVals &, long) { return false; }
template <class T> static auto elem_disp(T &m, int dim, const int *e, double *u, int) -> decltype(m.getElemDisp(0, 0, u), m.getElemDisp(0, 0, 0, u), true)
{
	if (dim == 2) m.getElemDisp(e[0], e[1], u); else m.getElemDisp(e[0], e[1], e[2], u);
	return true;
}
template <class T> static bool elem_disp(T &, int, const int *, double *, long) { return false; }
template <class T> static auto asks_linear(T &m, const double *e, bool *ans, int) -> decltype((bool) m.is_linear(e), true) { *ans = m.is_linear(e); return true; }
template <class T> static bool asks_linear(T &, const double *, bool *, long) { return false; }
template <class T> static auto impose(T &m, double *e, int) -> decltype(m.set_displ(e), true) { m.set_displ(e); return true; }
template <class T> static bool impose(T &, double *, long) { return false; }
template <class T> static auto residual(T &m, bool *nl, double *v, int) -> typename std::enable_if<std::is_same<decltype(m.assembly_rhs(nl)), double>::value, bool>::type { *v = m.assembly_rhs(nl); return true; }
template <class T> static bool residual(T &, bool *, double *, long) { return false; }
template <class T> static auto elastic_again(T &m, int) -> decltype(m.calc_ctan_lin(), true) { m.calc_ctan_lin(); return true; }
template <class T> static bool elastic_again(T &, long) { return false; }

static void p_C29(Ctx &x)
{
	Rng &r = x.rng;
	bool taylor = true;
	ref::Cfg c;
	if (r.ch(0.4)) c = history_cfg(x, &taylor);
	else { GenOpt o; o.plastic = r.ch(0.5) ? 0 : -1; o.maxel = 80; o.stiffnu = 0.05; c = gen_cfg(x, o); taylor = false; }
	double ey = yield_strain(c);
	if (r.ch(0.5)) c.inv_tol = c.mat[0].E * ey * r.logu(0.05, 5);
	Session s(x, c);
	const int nv = c.nvoi(), dim = c.dim, npe = s.M.npe;
	micropp_t &m = *static_cast<ClassDrv *>(s.d.get())->m;
	auto at = [&](int el, int *ix) { ix[0] = el % (c.n[0] - 1); ix[1] = el / (c.n[0] - 1) % (c.n[1] - 1); ix[2] = el / ((c.n[0] - 1) * (c.n[1] - 1)); };
	auto queries = [&](int n) {
		for (int q = 0; q < n && x.viol.empty(); q++) {
			std::vector<Trace> before(s.gps.size());
			for (size_t i = 0; i < s.gps.size(); i++) if (s.gps[i].evaluated) trace_gp(*s.d, nv, s.gps[i].id, before[i]);
			bool virgin = true;
			for (auto &p : s.gps) virgin = virgin && !p.nl;
			int what = r.ir(0, 4);
			if (what == 0) for (int k = r.ir(1, 12); k--;) { // phases and materials
				int el = r.ir(0, s.M.ne - 1), ix[3], t = -99;
				at(el, ix);
				if (elem_phase(m, dim, ix, &t, 0)) { x.expect("phase", t == s.M.ph[el], "element %d is said to be in phase %d, expected %d", el, t, (int) s.M.ph[el]); x.cnt["phase_queries"]++; }
				else x.cnt["phase_not_offered"]++;
				MatVals v;
				if (!elem_mat(m, el, (material_t *) nullptr, v, 0)) { x.cnt["material_not_offered"]++; continue; }
				const ref::Mat &a = c.mat[s.M.ph[el]];
				x.expect("material", v.E == a.E && v.nu == a.nu && v.Sy == a.Sy && v.Ka == a.Ka, "material of element %d: E %g nu %g Sy %g Ka %g, expected %g %g %g %g", el, v.E, v.nu, v.Sy, v.Ka, a.E, a.nu, a.Sy, a.Ka);
				double K = a.E / (3 * (1 - 2 * a.nu)), G = a.E / (2 * (1 + a.nu)), L = K - 2 * G / 3;
				x.near("bulk", v.k, K, 1e-13 * K, "bulk modulus", el);
				x.near("shear", v.mu, G, 1e-13 * G, "shear modulus", el);
				x.near("lame", v.lambda, L, 1e-12 * (K + G), "first Lame modulus", el);
				x.expect("material", v.plastic == (a.type == 1), "plasticity of element %d is %d for a material of type %d", el, (int) v.plastic, a.type);
				x.cnt["material_queries"]++;
			} else if (what == 1) for (int k = r.ir(1, 6); k--;) { // linearity
				double e[6];
				rand_strain(r, nv, ey * r.logu(0.01, 10), e);
				if (r.ch(0.1)) for (double &v : e) v = 0;
				double sg[6] = {0}, tr = 0;
				s.elastic(e, sg);
				tr = std::fabs(s.trace(sg));
				double sn = vnorm(sg, nv);
				if (c.inv_tol > 0 && r.ch(0.5) && tr > 1e-2 * sn) { double f = c.inv_tol / tr * (r.ch(0.5) ? 1 + r.logu(1e-4, 1) : 1 - r.logu(1e-4, 0.9)); for (double &v : e) v *= f; tr *= f; sn *= f; }
				bool a = false;
				Exact b(nv, e);
				if (!asks_linear(m, b.p.get(), &a, 0)) { x.cnt["linearity_not_offered"]++; break; }
				double margin = std::fabs(tr - c.inv_tol);
				if (c.inv_tol == 0 || margin > 1e-5 * c.inv_tol + 1e-5 * sn) { x.expect("linearity", a == (tr < c.inv_tol), "linearity query answers %d for a trace of %g and the tolerance %g", (int) a, tr, c.inv_tol); x.cnt["linearity_queries"]++; if (a) x.cnt["linearity_yes"]++; }
			} else if (what == 4) {
				if (!virgin || s.M.has_plastic()) continue; // from the field of a plastic solution the Newton scheme may not find back
				if (!elastic_again(m, 0)) { x.cnt["elastic_not_offered"]++; continue; }
				x.cnt["elastic_tensor_again"]++;
				std::fill(s.ulast.begin(), s.ulast.end(), 0.0);
			} else { // displacement field and residual
				double e[6];
				if (r.ch(0.3) && !s.gps.empty()) { double f = r.ch(0.5) ? 1 : r.uni(0.9, 1.02); for (int v = 0; v < 6; v++) e[v] = v < nv ? f * s.gps.back().evalEps[v] : 0; }
				else rand_strain(r, nv, ey * r.logu(0.05, 8), e);
				{ Exact b(nv, e); if (!impose(m, b.p.get(), 0)) { x.cnt["field_not_offered"]++; continue; } }
				double em = vnorm(e, nv), L = std::max({c.l[0], c.l[1], dim == 3 ? c.l[2] : 0.0});
				std::vector<double> U((size_t) s.M.nn * dim, 0.0), B((size_t) s.M.nn * dim, 0.0);
				std::vector<char> seen(s.M.nn, 0);
				bool offered = true, forces = true, flow = false;
				double fs = 0;
				for (int el = 0; el < s.M.ne && offered && x.viol.empty(); el++) {
					int ix[3], nds[8];
					double u[26];
					for (double &v : u) v = 7.5e77;
					at(el, ix);
					s.M.nodes(el, nds);
					offered = elem_disp(m, dim, ix, u, 0);
					if (!offered) break;
					x.expect("overrun", u[npe * dim] == 7.5e77, "element displacements wrote beyond their %d entries", npe * dim);
					for (int a = 0; a < npe; a++) {
						int n = nds[a], i[3] = {n % c.n[0], n / c.n[0] % c.n[1], n / (c.n[0] * c.n[1])};
						bool bd = false;
						for (int d = 0; d < dim; d++) bd = bd || i[d] == 0 || i[d] == c.n[d] - 1;
						double p[3];
						for (int d = 0; d < 3; d++) p[d] = d < dim ? c.l[d] * i[d] / (c.n[d] - 1) : 0;
						double w[3];
						if (dim == 2) { w[0] = e[0] * p[0] + 0.5 * e[2] * p[1]; w[1] = 0.5 * e[2] * p[0] + e[1] * p[1]; }
						else { w[0] = e[0] * p[0] + 0.5 * (e[3] * p[1] + e[4] * p[2]); w[1] = e[1] * p[1] + 0.5 * (e[3] * p[0] + e[5] * p[2]); w[2] = e[2] * p[2] + 0.5 * (e[4] * p[0] + e[5] * p[1]); }
						for (int d = 0; d < dim; d++) {
							if (bd) x.near("boundary-displacement", u[a * dim + d], w[d], 1e-14 * em * L, "displacement of a boundary node", el, a);
							if (seen[n]) x.expect("shared-node", u[a * dim + d] == U[n * dim + d], "two elements give node %d the displacements %.17g and %.17g", n, u[a * dim + d], U[n * dim + d]);
							U[n * dim + d] = u[a * dim + d];
						}
						seen[n] = 1;
					}
					Elem E;
					bool nl = false;
					forces = forces && elem_force(m, dim, ix, &nl, E, 0);
					if (forces) {
						flow = flow || nl;
						const double *f = dim == 2 ? E.f2 : E.f3;
						for (int a = 0; a < npe * dim; a++) { B[nds[a / dim] * dim + a % dim] += f[a]; fs = std::max(fs, std::fabs(f[a])); }
					}
				}
				if (!offered) x.cnt["displacement_not_offered"]++; else x.cnt["fields_queried"]++;
				bool nl = false;
				double v = -1;
				if (!offered || !forces || !residual(m, &nl, &v, 0)) x.cnt["residual_not_offered"]++;
				else {
					double n2 = 0;
					for (size_t q = 0; q < B.size(); q++) if (s.M.fdof[q] >= 0) n2 += B[q] * B[q];
					n2 = std::sqrt(n2);
					x.near("assembled-residual", v, n2, 1e-12 * n2 + 1e-13 * fs * std::sqrt((double) s.M.nfree), "norm of the assembled residual", (int) s.M.nfree);
					x.expect("assembled-flow", nl == flow, "plastic flow reported %d by the assembly, %d by its elements", (int) nl, (int) flow);
					x.cnt["residuals"]++;
					if (flow) x.cnt["residuals_plastic"]++;
				}
			}
			for (size_t i = 0; i < s.gps.size(); i++) if (s.gps[i].evaluated) { Trace t; trace_gp(*s.d, nv, s.gps[i].id, t); compare_traces(x, "query-changes", before[i], t, "stored results before and after queries about the cell"); }
		}
	};
	int ngp = r.ir(1, 3), nst = r.ir(2, 5);
	queries(r.ir(0, 4)); // before any point exists
	std::vector<Path> P;
	for (int g = 0; g < ngp; g++) P.emplace_back(r, nv, ey * (r.ch(0.4) ? r.uni(0.05, 0.3) : r.uni(0.5, taylor ? 6 : 2)));
	for (int k = 0; k < nst && x.viol.empty(); k++) {
		for (int g = 0; g < ngp; g++) { double e[6]; if (k && r.ch(0.2)) continue; P[g].next(r, e); s.set(g, e); if (r.ch(0.2)) queries(1); }
		s.homogenize();
		queries(r.ir(0, 3));
		if (r.ch(0.7)) s.update();
		if (r.ch(0.3)) queries(1);
	}
	if (x.viol.empty() && dim == 3) compare_int_vars(x, s);
	s.account();
	x.sig("%s n%d %s", cfgsig(c).c_str(), ngp, s.plasticEvals ? "plastic" : "virgin");
}

// ---------------------------------------------------------------- C26
struct Fault {
	int mode = 0;
	rlimit old;
	std::string dir;
	std::vector<std::string> hit;     // files replaced by an obstacle
	unsigned mask = ~0u;              // which of them
	void block(const std::string &vtu)
	{
		int k = 0;
		for (std::string f : {std::string("micropp_convergence.dat"), std::string("micropp_eps_sig_ctan.dat"), std::string("micropp_int_vars_n.dat"), std::string("micropp_materials.dat"), vtu}) {
			if (!((mask >> k++) & 1) || f.empty()) continue;
			rename(f.c_str(), (f + ".aside").c_str());
			if (mode == 5 ? mkdir(f.c_str(), 0700) : symlink("/dev/full", f.c_str())) throw Skip{"fault"};
			hit.push_back(f);
		}
	}
	void unblock()
	{
		for (auto &f : hit) {
			if (mode == 5) rmdir(f.c_str()); else unlink(f.c_str());
			rename((f + ".aside").c_str(), f.c_str());
		}
		hit.clear();
	}
	void on(int m, const std::string &vtu = "")
	{
		mode = m;
		if (m == 1) { getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = 0; setrlimit(RLIMIT_FSIZE, &n); }
		else if (m == 2) { getrlimit(RLIMIT_NOFILE, &old); rlimit n = old; n.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &n); }
		else if (m == 3) { // the working directory has been removed
			char b[4096];
			if (getcwd(b, sizeof b)) dir = b;
			std::string g = g_scratch + "/gone";
			mkdir(g.c_str(), 0700);
			if (chdir(g.c_str()) || rmdir(g.c_str())) throw Skip{"fault"};
		} else if (m == 4) { getrlimit(RLIMIT_FSIZE, &old); rlimit n = old; n.rlim_cur = 700; setrlimit(RLIMIT_FSIZE, &n); }
		else if (m == 5 || m == 6) block(vtu); // a directory of that name; a full device
	}
	void off()
	{
		if (mode == 1 || mode == 4) setrlimit(RLIMIT_FSIZE, &old);
		else if (mode == 2) setrlimit(RLIMIT_NOFILE, &old);
		else if (mode == 3) { if (chdir(dir.c_str())) throw Skip{"fault"}; }
		else if (mode == 5 || mode == 6) unblock();
		mode = 0;
	}
	~Fault() { try { off(); } catch (...) {} }
};
static void p_C26(Ctx &x)
{
	Rng &r = x.rng;
	signal(SIGXFSZ, SIG_IGN);
	ref::Cfg c = any_cfg(x, 18);
	std::vector<Op> ops = gen_ops(x, c, r.ir(2, 5), r.ir(1, 3), true);
	if (x.icase % 41 == 7 && c.nelem() <= 12) { // a long run: hundreds of records and fields
		std::vector<Op> tail(ops.end() - std::min<size_t>(ops.size(), 6), ops.end());
		for (int k = r.ir(60, 250); k--;) { ops.push_back(Op{4, 0, {0}, 0}); if (r.ch(0.2)) for (auto &o : tail) ops.push_back(o); }
		x.cnt["long_runs"]++;
	}
	// sanity half: the run without faults, files kept per call
	enter("clean");
	Trace a, b;
	std::vector<std::string> fa(ops.size()), fb(ops.size());
	auto lastline = [](const char *f) { auto l = lines(slurp(f)); return l.empty() ? std::string() : l.back(); };
	auto after = [&](const Op &o) {
		if (o.kind == 3) return slurp(vtu_name(o.id, o.t));
		if (o.kind == 4) return lastline("micropp_convergence.dat") + "\n" + lastline("micropp_eps_sig_ctan.dat") + "\n" + lastline("micropp_int_vars_n.dat");
		return std::string();
	};
	auto nlines = [] {
		std::array<long, 3> n;
		int k = 0;
		for (const char *f : {"micropp_convergence.dat", "micropp_eps_sig_ctan.dat", "micropp_int_vars_n.dat"}) { std::string t = slurp(f); n[k++] = std::count(t.begin(), t.end(), '\n'); }
		return n;
	};
	std::vector<std::array<long, 3>> la(ops.size()); // lines each call appends
	{
		ClassDrv d(c);
		std::vector<int> ids;
		for (size_t i = 0; i < ops.size(); i++) {
			auto n0 = nlines();
			play_op(d, c.nvoi(), ops[i], ids, a);
			la[i] = nlines();
			for (int q = 0; q < 3; q++) la[i][q] -= n0[q];
			fa[i] = after(ops[i]);
		}
	}
	enter("faulty");
	long faults = 0, okfiles = 0;
	std::set<int> modes;
	{
		Fault f;
		if (r.ch(0.5)) { int m = r.ir(1, 6); if (r.ch(0.5)) f.mask = r.ir(1, 15); f.on(m); faults++; modes.insert(m); }
		ClassDrv d(c);
		f.off();
		std::vector<int> ids;
		bool clean = true;
		for (size_t i = 0; i < ops.size(); i++) {
			bool file = ops[i].kind >= 3;
			std::array<long, 3> n0{};
			if (ops[i].kind == 4) n0 = nlines(); // before the obstacles are there: one of them never ends
			bool inj = r.ch(file ? 0.5 : 0.15), some = false;
			if (inj) { int m = r.ir(1, 6); f.mask = ~0u; if (m >= 5 && r.ch(0.7)) { f.mask = r.ch(0.5) ? 1u << r.ir(0, 4) : (unsigned) r.ir(1, 31); some = ops[i].kind == 4; } f.on(m, ops[i].kind == 3 ? vtu_name(ops[i].id, ops[i].t) : ""); faults++; modes.insert(m); if (m == 4 || m == 1) clean = false; }
			unsigned blocked = f.mask;
			play_op(d, c.nvoi(), ops[i], ids, b);
			f.off();
			if (some) { // one file that cannot be written does not keep the others from being written
				auto n1 = nlines();
				auto split = [](const std::string &t) { std::vector<std::string> o(1); for (char ch : t) { if (ch == '\n') o.emplace_back(); else o.back() += ch; } o.resize(3); return o; };
				auto u = split(fa[i]), v = split(after(ops[i]));
				for (size_t q = 0; q < 3; q++) {
					if ((blocked >> q) & 1) continue;
					x.expect("lines-beside-fault", n1[q] - n0[q] == la[i][q], "a record call that could not write another file appended %ld lines to file %d, undisturbed %ld", n1[q] - n0[q], (int) q, la[i][q]);
					x.expect("record-beside-fault", v[q].size() >= u[q].size() && v[q].compare(v[q].size() - u[q].size(), std::string::npos, u[q]) == 0, "record in file %d, written while another file could not be, differs from the undisturbed one", (int) q);
					x.cnt["records_beside_faults"]++;
				}
			}
			if (ops[i].kind == 4 && !inj) {
				auto n1 = nlines();
				for (int q = 0; q < 3; q++) x.expect("lines-after-fault", n1[q] - n0[q] == la[i][q], "a record call after earlier faults appended %ld lines to file %d, undisturbed %ld", n1[q] - n0[q], q, la[i][q]);
			}
			if (file && !inj) {
				fb[i] = after(ops[i]);
				// a torn line left by an earlier fault may prefix the next record of the appended files
				bool same = fa[i] == fb[i];
				if (ops[i].kind == 4 && !clean && !same) {
					auto la = lines(fa[i]), lb = lines(fb[i]);
					same = la.size() == lb.size();
					for (size_t q = 0; same && q < la.size(); q++) same = lb[q].size() >= la[q].size() && lb[q].compare(lb[q].size() - la[q].size(), std::string::npos, la[q]) == 0;
				}
				x.expect("file-after-fault", same, "%s written after earlier faults differs from the undisturbed one", ops[i].kind == 3 ? "field file" : "monitoring record");
				if (ops[i].kind == 4) clean = true;
				okfiles++;
			}
		}
	}
	compare_traces(x, "fault-changes-results", a, b, "undisturbed run against run with failing files");
	x.cnt["faults_injected"] += faults;
	x.cnt["files_after_faults"] += okfiles;
	std::string ms;
	for (int m : modes) ms += char('0' + m);
	x.sig("%s m%s", cfgsig(c).c_str(), ms.c_str());
	if (chdir(g_scratch.c_str())) throw Skip{"chdir"};
}
