// Native implementation of dsym.h: inputs come from a file, assertions are
// evaluated on the spot. Exit codes: 0 held, 77 assertion violated, 78 assumption
// not met by the inputs, anything else: crash (sanitizer, exception, signal).
#include "dsym.h"

#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <string>
#include <unistd.h>

static std::map<std::string, std::string> in;
static std::map<std::string, int> occ;
static bool rejecting = false;
static std::string rejectId;
static bool verbose = false;
static int nObs = 0;
static bool keepGoing = false;
static int failures = 0;

static std::string uniq(std::string n) {
	for (auto& c : n)
		if (c == ' ') c = '_';
	return n + "#" + std::to_string(occ[n]++);
}
static double num(const std::string& u, double dflt) {
	auto it = in.find(u);
	if (it == in.end()) return dflt;
	const std::string& s = it->second;
	if (s[0] == 'I') return (double)std::stoll(s.substr(2));
	if (s[0] == 'D') {
		uint64_t x = std::stoull(s.substr(2, 16), nullptr, 16);
		double d;
		memcpy(&d, &x, 8);
		return d;
	}
	uint32_t x = std::stoul(s.substr(2, 8), nullptr, 16);
	float f;
	memcpy(&f, &x, 4);
	return f;
}
static int64_t inum(const std::string& u, int64_t dflt) {
	auto it = in.find(u);
	if (it == in.end()) return dflt;
	if (it->second[0] == 'I') return std::stoll(it->second.substr(2));
	return (int64_t)num(u, (double)dflt);
}
static void fail(const char* id, const std::string& what) {
	printf("ASSERTION %s: %s\n", id, what.c_str());
	fflush(stdout);
	++failures;
	if (!keepGoing) _exit(77);
}
extern "C" {
int64_t dsym_choose(const char* n, int64_t lo, int64_t) { return inum(uniq(n), lo); }
int64_t dsym_i64(const char* n, int64_t lo, int64_t) { return inum(uniq(n), lo); }
double dsym_i0(double x) { return std::cyl_bessel_i(0.0, x); }
float dsym_i0f(float x) { return std::cyl_bessel_i(0.0f, x); }
int64_t dsym_gcd_i64(int64_t a, int64_t b) {
	while (b) {
		int64_t t = a % b;
		a = b, b = t;
	}
	return a;
}
static double dflt(double lo, double hi) { return std::fmax(lo, std::fmin(0.0, hi)); }
float dsym_f32(const char* n, double lo, double hi) { return (float)num(uniq(n), dflt(lo, hi)); }
double dsym_f64(const char* n, double lo, double hi) { return num(uniq(n), dflt(lo, hi)); }
float dsym_if32(const char* n, double lo, double hi) { return (float)num(uniq(n), dflt(lo, hi)); }
double dsym_if64(const char* n, double lo, double hi) { return num(uniq(n), dflt(lo, hi)); }
float dsym_anyf32(const char* n) { return (float)num(uniq(n), 0); }
double dsym_anyf64(const char* n) { return num(uniq(n), 0); }
void dsym_assume(bool c) {
	if (!c) {
		printf("ASSUMPTION not met\n");
		fflush(stdout);
		_exit(78);
	}
}
void dsym_assert(bool c, const char* id) {
	if (!c) fail(id, "false");
}
void dsym_observe_f64(double v, const char* id) {
	if (nObs++ < 24 && verbose) {
		uint64_t u;
		memcpy(&u, &v, 8);
		printf("OBS %s %016llx\n", id, (unsigned long long)u);
	}
}
void dsym_observe_f32(float v, const char* id) { dsym_observe_f64(v, id); }
static std::string fmt(double a, double b) {
	char s[128];
	snprintf(s, sizeof s, "actual %.17g expected %.17g", a, b);
	return s;
}
void dsym_same_f64(double a, double e, const char* id) {
	dsym_observe_f64(a, id);
	bool ok = (a == e) || (std::isnan(a) && std::isnan(e));
	if (!ok) fail(id, fmt(a, e));
}
static bool anyMode() {
	for (auto& [k, v] : in)
		if (v[0] == 'F') return true;
	return false;
}
void dsym_same_f32(float a, float e, const char* id) {
	dsym_observe_f64(a, id);
	bool ok = (a == e) || (std::isnan(a) && std::isnan(e));
	if (ok && a == 0 && e == 0 && anyMode()) ok = std::signbit(a) == std::signbit(e);
	if (!ok) fail(id, fmt(a, e));
}
void dsym_close_f64(double a, double e, double tol, const char* id) {
	dsym_observe_f64(a, id);
	if (!(std::fabs(a - e) <= tol)) fail(id, fmt(a, e));
}
void dsym_close_f32(float a, float e, double tol, const char* id) {
	dsym_observe_f64(a, id);
	if (!(std::fabs((double)a - (double)e) <= tol)) fail(id, fmt(a, e));
}
void dsym_alike_f64(double a, double e, double, const char* id) {
	dsym_observe_f64(a, id);
	if (!(std::fabs(a - e) <= 1e-3 * std::fmax(1, std::fabs(e)))) fail(id, fmt(a, e));
}
void dsym_alike_f32(float a, float e, double rel, const char* id) { dsym_alike_f64(a, e, rel, id); }
void dsym_reject_begin(const char* id) {
	rejecting = true;
	rejectId = id;
}
void dsym_reject_end() {
	rejecting = false;
	fail(rejectId.c_str(), "accepted");
}
void dsym_may_reject_begin(const char* id) { dsym_reject_begin(id); }
void dsym_may_reject_end() { rejecting = false; }
void dsym_real_mode(int) {}
void dsym_done() {
	printf("DONE\n");
	fflush(stdout);
	_exit(failures ? 77 : 0);
}
int dsym_is_engine() { return 0; }
void dsym_trace_i64(const char* id, int64_t v) { printf("trace %s = %lld\n", id, (long long)v); }
void dsym_trace_f64(const char* id, double v) { printf("trace %s = %.17g\n", id, v); }
}
static void onAbort(int) {
	if (rejecting) {
		printf("REJECTED\n");
		fflush(stdout);
		_exit(failures ? 77 : 0);
	}
	printf("ABORTED\n");
	fflush(stdout);
	_exit(79);
}
int main(int argc, char** argv) {
	// args: entry inputs-file [-v] [-k]
	for (int i = 3; i < argc; ++i) {
		if (!strcmp(argv[i], "-v")) verbose = true;
		if (!strcmp(argv[i], "-k")) keepGoing = true;
	}
	FILE* f = fopen(argv[2], "r");
	if (!f) return 3;
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		std::string l = line;
		while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
		auto p = l.find(' ');
		if (p != std::string::npos) in[l.substr(0, p)] = l.substr(p + 1);
	}
	fclose(f);
	signal(SIGABRT, onAbort);
	void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if (!h) {
		fprintf(stderr, "no entry %s\n", argv[1]);
		return 3;
	}
	h();
	printf("END\n");
	return failures ? 77 : 0;
}
