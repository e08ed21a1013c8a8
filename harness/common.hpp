// Shared pieces of the monitors: random numbers, verdict collection, file parsing.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
	uint64_t next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * u(); }
	double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
	int ir(int a, int b) { return (int) ((long long) a + (long long) (next() % (uint64_t) ((long long) b - a + 1))); } // inclusive
	bool ch(double p) { return u() < p; }
	double sgn() { return ch(0.5) ? 1.0 : -1.0; }
	double normal()
	{
		double a = u(), b = u();
		if (a < 1e-300) a = 1e-300;
		return std::sqrt(-2 * std::log(a)) * std::cos(2 * M_PI * b);
	}
};

struct Skip { std::string why; };        // the case cannot be decided (never a verdict)

struct Ctx {
	Rng rng;
	std::string prop, tier;
	int icase = 0;
	bool verbose = false;
	long evals = 0;                          // oracle comparisons made
	std::map<std::string, long> cnt;         // what was observed
	std::map<std::string, double> worst;     // largest error / tolerance per kind
	std::set<std::string> sigs;              // distinct non-trivial situations
	std::vector<std::pair<std::string, std::string>> viol;
	bool thorough() const { return tier == "thorough"; }
	explicit Ctx(uint64_t seed) : rng(seed) {}

	void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
	{
		char buf[600];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		if (viol.size() < 20) viol.push_back({key, buf});
		if (verbose) fprintf(stderr, "FAIL %s: %s\n", key, buf);
	}
	// |got - want| <= tol, NaN fails
	bool near(const char *key, double got, double want, double tol, const char *what, int a = -1, int b = -1)
	{
		evals++;
		double err = std::fabs(got - want);
		double &w = worst[key];
		double q = tol > 0 ? err / tol : (err > 0 ? 1e300 : 0);
		if (!(q <= w)) w = q;
		if (err <= tol) return true;
		fail(key, "%s [%d,%d]: got %.12g, expected %.12g, |diff| %.3g > tolerance %.3g", what, a, b, got, want, err, tol);
		return false;
	}
	bool expect(const char *key, bool ok, const char *fmt, ...) __attribute__((format(printf, 4, 5)))
	{
		evals++;
		if (ok) return true;
		char buf[500];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		fail(key, "%s", buf);
		return false;
	}
	void sig(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char buf[300];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		sigs.insert(buf);
	}
};

inline std::string slurp(const std::string &f)
{
	std::ifstream i(f.c_str(), std::ios::binary);
	std::stringstream s;
	s << i.rdbuf();
	return s.str();
}
inline bool exists(const std::string &f) { std::ifstream i(f.c_str()); return (bool) i; }
inline std::vector<std::string> lines(const std::string &t)
{
	std::vector<std::string> r;
	std::stringstream s(t);
	std::string l;
	while (std::getline(s, l)) r.push_back(l);
	return r;
}
// numbers of a text; false on a token which is not a number
inline bool numbers(const std::string &t, std::vector<double> &v)
{
	const char *p = t.c_str();
	for (;;) {
		while (*p && isspace((unsigned char) *p)) p++;
		if (!*p) return true;
		char *e;
		double d = strtod(p, &e);
		if (e == p || (*e && !isspace((unsigned char) *e))) return false;
		v.push_back(d);
		p = e;
	}
}
// groups of a record: separated by '|', the trailing empty one dropped
inline std::vector<std::vector<double>> groups(const std::string &l, bool *ok)
{
	std::vector<std::vector<double>> r;
	std::string cur;
	*ok = true;
	for (char ch : l) {
		if (ch == '|') {
			std::vector<double> v;
			if (!numbers(cur, v)) *ok = false;
			r.push_back(v);
			cur.clear();
		} else
			cur += ch;
	}
	std::vector<double> v;
	if (!numbers(cur, v) || !v.empty()) *ok = false;
	return r;
}

struct Vtu {
	std::string raw;
	bool found = false, ok = true;
	std::string why;
	long npoints = -1, ncells = -1;
	std::map<std::string, std::vector<double>> a;
	std::map<std::string, int> ncomp;
	void bad(const std::string &s) { if (ok) why = s; ok = false; }
};
inline std::string attr(const std::string &tag, const char *name)
{
	std::string k = std::string(" ") + name + "=\"";
	size_t p = tag.find(k);
	if (p == std::string::npos) return "";
	p += k.size();
	size_t q = tag.find('"', p);
	return tag.substr(p, q - p);
}
inline Vtu read_vtu(const std::string &f)
{
	Vtu v;
	if (!exists(f)) return v;
	v.found = true;
	v.raw = slurp(f);
	const std::string &t = v.raw;
	// tags balanced
	std::vector<std::string> st;
	size_t p = 0;
	while (v.ok && (p = t.find('<', p)) != std::string::npos) {
		size_t q = t.find('>', p);
		if (q == std::string::npos) { v.bad("unterminated tag"); break; }
		std::string tag = t.substr(p, q - p + 1);
		if (tag[1] == '?') { p = q; continue; }
		size_t e = 1;
		if (tag[1] == '/') e = 2;
		size_t z = e;
		while (z < tag.size() && isalnum((unsigned char) tag[z])) z++;
		std::string name = tag.substr(e, z - e);
		if (e == 2) {
			if (st.empty() || st.back() != name) { v.bad("unbalanced </" + name + ">"); break; }
			st.pop_back();
		} else if (tag[tag.size() - 2] != '/') {
			st.push_back(name);
			if (name == "Piece") {
				v.npoints = atol(attr(tag, "NumberOfPoints").c_str());
				v.ncells = atol(attr(tag, "NumberOfCells").c_str());
			}
			if (name == "DataArray") {
				size_t c = t.find("</DataArray", q);
				if (c == std::string::npos) { v.bad("unterminated DataArray"); break; }
				std::string an = attr(tag, "Name");
				std::vector<double> d;
				if (!numbers(t.substr(q + 1, c - q - 1), d)) v.bad("array " + an + " holds a non-number");
				if (v.a.count(an)) v.bad("array " + an + " appears twice");
				v.a[an] = d;
				v.ncomp[an] = atoi(attr(tag, "NumberOfComponents").c_str());
			}
		}
		p = q;
	}
	if (v.ok && !st.empty()) v.bad("unclosed <" + st.back() + ">");
	return v;
}
