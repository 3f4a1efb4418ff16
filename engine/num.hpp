// Exact arithmetic domain for symbolic floating point values: multivariate
// polynomials with rational coefficients over symbolic inputs and "atoms"
// (solver-defined quantities), together with a sound bound E on the accumulated
// rounding error, an enclosure [lo,hi] and the granularity of the value.
#pragma once
#include <gmpxx.h>
#include <z3.h>

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef mpq_class Q;

struct Unsupported {
	std::string what;
};

static inline double upd(double x) { return x == 0 ? 0 : (x > 0 ? x * (1 + 1e-12) : x * (1 - 1e-12)); }
static inline double upb(double x) { return std::nextafter(x, INFINITY); }
static inline double dnb(double x) { return std::nextafter(x, -INFINITY); }

// lowest set bit exponent of a finite double (granularity); 0 -> large
static inline int granOf(double d) {
	if (d == 0) return 100000;
	int e;
	double m = std::frexp(std::fabs(d), &e);
	uint64_t mi = (uint64_t)std::ldexp(m, 53);
	int tz = __builtin_ctzll(mi);
	return e - 53 + tz;
}
static const int GRAN_NONE = -100000000;

struct VarInfo {
	std::string name;
	double lo = -INFINITY, hi = INFINITY;
	bool isInt = false;	  // integer valued
	bool isInput = false;
	Z3_ast z3 = nullptr;  // Real constant
	std::vector<Z3_ast> defs;
	std::vector<int> deps;
};

struct PolyT {
	std::vector<std::pair<int, Q>> t;  // sorted by monomial id; id 0 is the constant monomial
	bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
	Q constant() const { return t.empty() ? Q(0) : (t[0].first == 0 ? t[0].second : Q(0)); }
};

struct MonoTable {
	std::vector<std::vector<std::pair<int, int>>> monos{ {} };
	std::map<std::vector<std::pair<int, int>>, int> ids{ { {}, 0 } };
	std::unordered_map<uint64_t, int> mulCache;
	std::vector<Z3_ast> z3{ nullptr };
	int intern(const std::vector<std::pair<int, int>>& m) {
		auto it = ids.find(m);
		if (it != ids.end()) return it->second;
		int id = (int)monos.size();
		monos.push_back(m);
		z3.push_back(nullptr);
		ids.emplace(m, id);
		return id;
	}
	int ofVar(int v) { return intern({ { v, 1 } }); }
	int mul(int a, int b) {
		if (a == 0) return b;
		if (b == 0) return a;
		if (a > b) std::swap(a, b);
		uint64_t key = ((uint64_t)a << 32) | (uint32_t)b;
		auto it = mulCache.find(key);
		if (it != mulCache.end()) return it->second;
		std::vector<std::pair<int, int>> r;
		const auto &x = monos[a], &y = monos[b];
		size_t i = 0, j = 0;
		while (i < x.size() || j < y.size()) {
			if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
			else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
			else {
				r.push_back({ x[i].first, x[i].second + y[j].second });
				++i, ++j;
			}
		}
		int id = intern(r);
		mulCache[key] = id;
		return id;
	}
};

struct FNode {
	PolyT p;
	double E = 0;			 // |value - p| <= E
	double lo = 0, hi = 0;	 // enclosure of p
	int gran = GRAN_NONE;	 // p is a multiple of 2^gran (only meaningful if E == 0)
	int repr = 53;			 // the value is known to be representable with this many bits
	int delta = -1;			 // error variable, created when a relation on the value is needed
	uint64_t id = 0;
	Z3_ast z3 = nullptr;
	double mag() const { return std::max(std::fabs(lo), std::fabs(hi)); }
	double tlo() const { return E == 0 ? lo : dnb(lo - E); }
	double thi() const { return E == 0 ? hi : upb(hi + E); }
};
