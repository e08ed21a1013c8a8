// Driver: runs cases of one property and writes one JSON line per case.
#include "props_sys.hpp"
#include "props_ell.hpp"
#include <fcntl.h>
#include <sys/time.h>
#include <filesystem>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif

typedef void (*Fn)(Ctx &);
static const std::map<std::string, Fn> &table()
{
	static const std::map<std::string, Fn> t = {
		{"C01", p_C01}, {"C02", p_C02}, {"C03", p_C03}, {"C04", p_C04}, {"C05", p_C05}, {"C06", p_C06}, {"C07", p_C07}, {"C08", p_C08},
		{"C09", p_C09}, {"C11", p_C11}, {"C12", p_C12}, {"C13", p_C13}, {"C14", p_C14}, {"C15", p_C15}, {"C16", p_C16}, {"C17", p_C17},
		{"C18", p_C18}, {"C19", p_C19}, {"C20", p_C20}, {"C21", p_C21}, {"C22", p_C22}, {"C23", p_C23}, {"C24", p_C24}, {"C25", p_C25}, {"C26", p_C26}, {"C27", p_C27}, {"C28", p_C28}, {"C29", p_C29}};
	return t;
}
#if defined(MON_COUNT_HEAP)
long mon_live_bytes();
long mon_live_blocks();
#endif

// C10: any workload; the verdict is the sanitizers' (and, uninstrumented, the heap balance)
static void p_C10(Ctx &x)
{
	Rng &r = x.rng;
	std::vector<std::string> names;
	for (auto &p : table()) if (p.first != "C11") names.push_back(p.first);
	std::string n = names[x.icase % names.size()];
	Ctx y(r.next());
	y.prop = n;
	y.tier = "quick";
	if (x.icase % 11 == 7) { // a large grid, briefly
		GenOpt o;
		o.maxn3 = 13; o.maxn2 = 45; o.maxel = 1700; o.longn3 = 60; o.longn2 = 300; o.elong = 0.4; o.Elo = 1e6; o.Ehi = 1e7;
		ref::Cfg c;
		do c = gen_cfg(x, o); while (c.nelem() < 150);
		if (c.nelem() > 500) { c.mat[0].type = c.mat[1].type = 0; if (r.ch(0.5)) c.inv_tol = 1e30; }
		std::vector<Op> ops;
		Op e{0, 3, {0}, 0};
		for (int v = 0; v < c.nvoi(); v++) e.e[v] = r.uni(-1e-4, 1e-4);
		ops.push_back(e);
		for (int k : {1, 2, 4}) ops.push_back(Op{k, 3, {0}, 0});
		ops.push_back(Op{3, 3, {0}, 5});
		{ ClassDrv d(c); Trace t = play(d, c.nvoi(), ops); x.evals += (long) t.v.size(); }
		x.cnt["large_grids"]++;
		n = "large";
		x.sig("large %s", cfgsig(c).c_str());
	} else
	try { table().at(n)(y); x.cnt["workloads"]++; } catch (Skip &) { x.cnt["workloads_cut_short"]++; }
	if (chdir(g_scratch.c_str())) throw Skip{"chdir"};
	x.evals += y.evals;
	for (auto &s : y.sigs) x.sigs.insert(n + " " + s);
	x.cnt["calls_from_" + n]++;
#if defined(__SANITIZE_ADDRESS__)
	if (getenv("MON_LSAN")) { x.cnt["leak_scans"]++; if (__lsan_do_recoverable_leak_check()) x.fail("leak", "LeakSanitizer found memory that is no longer reachable after the workload %s", n.c_str()); }
#endif
#if defined(MON_COUNT_HEAP)
	// lifetimes of one object: the heap must return to where it was
	ref::Cfg c = any_cfg(x);
	std::vector<Op> ops = gen_ops(x, c, 3, 2, true);
	ops.push_back(Op{4, 0, {0}, 0});
	Grid g = gen_grid(x, 6, 4, 200);
	long u[4], nb[4];
	for (int k = 0; k < 4; k++) {
		{ ClassDrv d(c); Trace t = play(d, c.nvoi(), ops); }
		{ WrapDrv d(c); Trace t = play(d, c.nvoi(), ops); } // one instance stays alive by design
		{
			Ell E(g);
			std::vector<double> D, b(g.nr(), 1.0), X(g.nr(), 0.0);
			ell_set_zero_mat(&E.m);
			Rng q(5);
			each_elem(g, [&](int i, int j, int l) { int ne = g.npe() * g.nf; std::vector<double> A((size_t) ne * ne, 0.01); for (int a = 0; a < ne; a++) A[a * ne + a] = 3; E.add(i, j, l, A.data()); });
			E.bc();
			ell_solver s;
			s.max_its = 200; s.min_tol = 1e-6; s.its = 0; s.err = 0;
			ell_solve_cgpd_struct(&s, &E.m, g.nf, g.dim, g.nn(), b.data(), X.data());
			if (g.dim == 2) { ell_solve_cgpd_2D(&s, &E.m, g.nf, g.n[0], g.n[1], b.data(), X.data()); ell_solve_jacobi_2D(&s, &E.m, g.nf, g.n[0], g.n[1], b.data(), X.data()); }
		}
		u[k] = mon_live_bytes();
		nb[k] = mon_live_blocks();
	}
	x.expect("leak", u[3] <= u[2] || u[2] <= u[1], "heap in use grows with every lifetime: %ld, %ld, %ld, %ld bytes (%ld, %ld blocks)", u[0], u[1], u[2], u[3], nb[2], nb[3]);
	x.cnt["heap_balances"]++;
#endif
}

static int g_out = -1;
static void emit(const std::string &s)
{
	std::string t = s + "\n";
	size_t o = 0;
	while (o < t.size()) { ssize_t k = write(g_out, t.data() + o, t.size() - o); if (k <= 0) _exit(9); o += (size_t) k; }
}
static std::string esc(const std::string &s)
{
	std::string r;
	for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) r += ' '; else r += c; }
	return r;
}
static char g_hang[64];
static void on_cpu(int) { if (write(g_out, g_hang, strlen(g_hang)) < 0) {} _exit(98); }

int main(int argc, char **argv)
{
	std::string prop, tier = "quick", work, outf;
	uint64_t seed = 1;
	int from = 0, to = 1, step = 1, cpu = 120;
	bool verbose = false;
#if defined(__SANITIZE_ADDRESS__)
	if (argc > 1 && !strcmp(argv[1], "--lsan-probe")) { // is LeakSanitizer usable in this sandbox?
		void *volatile *q = (void *volatile *) malloc(64 * sizeof(void *));
		for (int i = 0; i < 64; i++) q[i] = malloc(100);
		for (int i = 0; i < 64; i++) q[i] = nullptr;
		return __lsan_do_recoverable_leak_check() ? 42 : 43;
	}
#endif
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = nx();
		else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--from") from = atoi(nx().c_str());
		else if (a == "--to") to = atoi(nx().c_str());
		else if (a == "--step") step = atoi(nx().c_str());
		else if (a == "--tier") tier = nx();
		else if (a == "--work") work = nx();
		else if (a == "--out") outf = nx();
		else if (a == "--cpu") cpu = atoi(nx().c_str());
		else if (a == "-v") verbose = true;
	}
	Fn fn = nullptr;
	if (prop == "C10") fn = p_C10; else if (prop == "K02") fn = k_C02; else { auto it = table().find(prop); if (it != table().end()) fn = it->second; }
	if (!fn || work.empty()) { fprintf(stderr, "usage: mon --prop Cxx --work DIR ...\n"); return 2; }
	if (outf.empty()) g_out = dup(1); else g_out = open(outf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (g_out < 0) return 2;
	g_out = fcntl(g_out, F_DUPFD, 20);
	signal(SIGVTALRM, on_cpu);
	for (int k = from; k < to; k += step) {
		uint64_t h = seed * 1000003ull + (uint64_t) k * 7919ull;
		for (char ch : prop) h = h * 131 + (unsigned char) ch;
		if (tier == "thorough") h ^= 0x5bd1e995ull;
		Ctx x(h);
		x.prop = prop; x.tier = tier; x.icase = k; x.verbose = verbose;
		char b[64];
		snprintf(b, sizeof b, "{\"begin\":%d}", k);
		emit(b);
		snprintf(g_hang, sizeof g_hang, "{\"hang\":%d}\n", k);
		snprintf(b, sizeof b, "/c%d", k);
		g_scratch = work + b;
		std::error_code ec;
		std::filesystem::create_directories(g_scratch, ec);
		if (chdir(g_scratch.c_str())) { fprintf(stderr, "cannot enter %s\n", g_scratch.c_str()); return 2; }
		itimerval tv = {{0, 0}, {cpu, 0}};
		setitimer(ITIMER_VIRTUAL, &tv, 0);
		g_digest.clear();
		std::string skip;
		clock_t t0 = clock();
		try { fn(x); } catch (Skip &s) { skip = s.why; }
		itimerval z = {{0, 0}, {0, 0}};
		setitimer(ITIMER_VIRTUAL, &z, 0);
		std::ostringstream j;
		j << "{\"case\":" << k << ",\"cpu\":" << (double) (clock() - t0) / CLOCKS_PER_SEC << ",\"evals\":" << x.evals << ",\"skip\":\"" << esc(skip) << "\",\"digest\":\"" << g_digest << "\",\"cnt\":{";
		bool f = true;
		for (auto &p : x.cnt) { j << (f ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; f = false; }
		j << "},\"worst\":{";
		f = true;
		for (auto &p : x.worst) { double w = p.second; if (!(w < 1e300)) w = 1e300; j << (f ? "" : ",") << "\"" << esc(p.first) << "\":" << w; f = false; }
		j << "},\"sigs\":[";
		f = true;
		for (auto &p : x.sigs) { j << (f ? "" : ",") << "\"" << esc(p) << "\""; f = false; }
		j << "],\"viol\":[";
		f = true;
		for (auto &p : x.viol) { j << (f ? "" : ",") << "[\"" << esc(p.first) << "\",\"" << esc(p.second) << "\"]"; f = false; }
		j << "]}";
		emit(j.str());
		if (chdir("/")) return 2;
		std::filesystem::remove_all(g_scratch, ec);
	}
	return 0;
}
