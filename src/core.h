// Core of the verification harness: choice sequences, result type, checked
// arithmetic.  All randomness of a case comes from a Src, so that a case is a
// pure function of its choice sequence (replay + shrinking work on it).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>

typedef __int128 Z;

struct Overflow : std::runtime_error { Overflow(const char *w) : std::runtime_error(w) {} };
// An execution that is abandoned without verdict (too big, ...).
struct Inconclusive : std::runtime_error { Inconclusive(const std::string &w) : std::runtime_error(w) {} };
// The property does not hold for this case.
struct Violation : std::runtime_error {
	std::string kind;
	Violation(const std::string &k, const std::string &w) : std::runtime_error(w), kind(k) {}
};

static inline Z zadd(Z a, Z b) { Z r; if (__builtin_add_overflow(a, b, &r)) throw Overflow("add"); return r; }
static inline Z zsub(Z a, Z b) { Z r; if (__builtin_sub_overflow(a, b, &r)) throw Overflow("sub"); return r; }
static inline Z zmul(Z a, Z b) { Z r; if (__builtin_mul_overflow(a, b, &r)) throw Overflow("mul"); return r; }
static inline Z zfdiv(Z a, Z b) { Z q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q -= 1; return q; }
static inline Z zcdiv(Z a, Z b) { Z q = a / b; if (a % b != 0 && ((a < 0) == (b < 0))) q += 1; return q; }
static inline Z zmod(Z a, Z b) { Z r = a % b; if (r < 0) r += b < 0 ? -b : b; return r; }
std::string zstr(Z v);
bool zparse(const char *s, Z &out);

static inline uint64_t splitmix(uint64_t &s)
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
	return h;
}
static inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

// Choice source.  pick(n) returns a value in [0,n).  Smaller is simpler.
struct Src {
	std::vector<uint32_t> in;   // replayed prefix
	bool replay = false;        // true: past the end every choice is 0
	uint64_t rng = 0;
	std::vector<uint32_t> out;  // choices actually made
	explicit Src(uint64_t seed) : rng(seed) {}
	explicit Src(const std::vector<uint32_t> &v) : in(v), replay(true) {}
	uint32_t pick(uint32_t n)
	{
		uint32_t v;
		if (n <= 1) return 0;
		if (out.size() > 200000) throw Inconclusive("too many choices");
		if (replay) v = out.size() < in.size() ? in[out.size()] % n : 0;
		else v = (uint32_t)((splitmix(rng) >> 16) % n);
		out.push_back(v);
		if (mirror && mirror[0] < mirror_max) { mirror[1 + mirror[0]] = v; mirror[0]++; }
		return v;
	}
	static uint32_t *mirror;    // shared copy of the choices, survives a crash
	static const uint32_t mirror_max = 400000;
	// in [lo,hi], simplest value lo
	int range(int lo, int hi) { return lo + (int)pick((uint32_t)(hi - lo + 1)); }
	// in [-m,m]; 0 simplest, then 1,-1,2,-2
	int sgn(int m) { int v = (int)pick(2 * m + 1); return (v & 1) ? (v + 1) / 2 : -(v / 2); }
	// true with probability num/den; false simplest
	bool chance(uint32_t num, uint32_t den) { return pick(den) >= den - num; }
	// weighted index, index 0 simplest
	int weighted(const std::vector<int> &w)
	{
		int t = 0;
		for (int x : w) t += x;
		int v = (int)pick(t);
		for (size_t i = 0; i < w.size(); i++) { if (v < w[i]) return (int)i; v -= w[i]; }
		return 0;
	}
};

enum Status { ST_OK = 0, ST_TRIVIAL, ST_INCONCLUSIVE, ST_FAIL };
struct Result {
	Status st = ST_OK;
	std::string kind, msg;
	uint64_t hash = 0;              // identity of the case (rendered text)
	std::set<std::string> labels;   // classification of the case
	std::string render;             // human readable rendering of the case
	std::string known;              // id of a known finding that explains the failure
	void show(const std::string &s); // sets render, also kept when the case crashes
	long units = 0;                 // property specific amount of work (points compared, ...)
};

// A property: a function that generates a case from the source and decides it.
struct Prop {
	const char *id;
	const char *rule;               // what makes a case non-trivial
	std::function<void(Src &, Result &)> run;   // throws Violation on failure
	double timeout;                 // seconds per case (inconclusive, unless hang_fails)
	bool hang_fails;
	int quick, thorough;            // number of cases
};
extern std::vector<Prop> &props();
struct RegProp { RegProp(const Prop &p) { props().push_back(p); } };

// Known findings: specific inputs; the function returns true while they still fail.
extern std::map<std::string, std::function<bool()>> &knowns();
struct RegKnown { RegKnown(const char *id_key, std::function<bool()> f) { knowns()[id_key] = f; } };

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string scratch_dir();          // per process scratch directory
