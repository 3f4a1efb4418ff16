// dsym: a symbolic executor for LLVM IR (LLVM 18) with an SMT back end (Z3).
//
// usage: dsym module.bc --entry h_name --out result.json [--timeout S] [--qtimeout MS] [--nlsat]
//             [--maxpaths N] [--steps N] [--validate K] [--concrete FILE]
#include "num.hpp"

#include <complex>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <chrono>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <unordered_set>

#include <unistd.h>

using namespace llvm;
typedef __int128 i128;

static double now() {
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ values
enum VK : uint8_t { V_UNDEF, V_INT, V_F32, V_F64, V_F80, V_SINT, V_SBOOL, V_SF, V_FPA, V_BYTES, V_AGG };

struct INode {
	Z3_ast bv;
	int64_t lo, hi;	 // signed enclosure
};
struct FpaNode {
	Z3_ast fp;
	Z3_ast bv;	// may be null
};
struct Val;
struct AggT;
struct BytesT;

struct Val {
	VK k = V_UNDEF;
	uint16_t w = 0;
	union {
		uint64_t i;
		float f;
		double d;
		INode* in;
		Z3_ast b;
		FNode* sf;
		FpaNode* fpa;
		AggT* agg;
		BytesT* by;
		long double* ld;
	};
	Val() : i(0) {}
	Val(const Val& o);
	Val(Val&& o) noexcept : k(o.k), w(o.w), i(o.i) { o.k = V_UNDEF; }
	Val& operator=(const Val& o);
	Val& operator=(Val&& o) noexcept {
		if (this != &o) {
			std::swap(k, o.k);
			std::swap(w, o.w);
			std::swap(i, o.i);
		}
		return *this;
	}
	~Val();
	bool isConcInt() const { return k == V_INT; }
	bool symbolic() const { return k >= V_SINT && k <= V_BYTES; }
};
struct AggT {
	int rc = 1;
	std::vector<Val> v;
};
struct Cell {
	Val v;	// V_INT w=8 (concrete byte), V_UNDEF, or a symbolic scalar
	uint8_t idx = 0;
};
struct BytesT {
	int rc = 1;
	std::vector<Cell> c;
};
inline void retain(Val& v) {
	if (v.k == V_AGG) v.agg->rc++;
	else if (v.k == V_BYTES) v.by->rc++;
}
inline Val::Val(const Val& o) : k(o.k), w(o.w), i(o.i) { retain(*this); }
inline Val::~Val() {
	if (k == V_AGG) {
		if (--agg->rc == 0) delete agg;
	}
	else if (k == V_BYTES) {
		if (--by->rc == 0) delete by;
	}
}
inline Val& Val::operator=(const Val& o) {
	if (this != &o) {
		Val t(o);
		std::swap(k, t.k);
		std::swap(w, t.w);
		std::swap(i, t.i);
	}
	return *this;
}
static inline uint64_t maskw(uint64_t x, unsigned w) { return w >= 64 ? x : (x & ((1ull << w) - 1)); }
static inline int64_t sxt(uint64_t x, unsigned w) {
	if (w >= 64) return (int64_t)x;
	return (int64_t)(x << (64 - w)) >> (64 - w);
}
static inline Val mkInt(uint64_t x, unsigned w) {
	Val v;
	v.k = V_INT;
	v.w = w;
	v.i = maskw(x, w);
	return v;
}
static inline Val mkF32(float x) {
	Val v;
	v.k = V_F32;
	v.w = 32;
	v.i = 0;
	v.f = x;
	return v;
}
static inline Val mkF64(double x) {
	Val v;
	v.k = V_F64;
	v.w = 64;
	v.d = x;
	return v;
}
static inline Val mkF80(long double x) {
	Val v;
	v.k = V_F80;
	v.w = 80;
	v.ld = new long double(x);
	return v;
}
static inline Val mkFP(double x, unsigned w) { return w == 32 ? mkF32((float)x) : mkF64(x); }
static inline Val mkAgg(std::vector<Val>&& e) {
	Val v;
	v.k = V_AGG;
	v.agg = new AggT;
	v.agg->v = std::move(e);
	return v;
}
static inline Val mkBytes(std::vector<Cell>&& c) {
	Val v;
	v.k = V_BYTES;
	v.w = c.size() * 8;
	v.by = new BytesT;
	v.by->c = std::move(c);
	return v;
}
static inline bool isF(const Val& v) { return v.k == V_F32 || v.k == V_F64; }
static inline double fval(const Val& v) { return v.k == V_F32 ? (double)v.f : v.d; }

// ------------------------------------------------------------------ path ends
enum EndKind { E_RETURN, E_REJECT, E_THROW, E_MEM, E_UNREACH, E_UNINIT, E_UNSUP, E_BUDGET, E_ASSUME, E_VIOL, E_TRAP };
struct EndPath {
	EndKind k;
	std::string msg;
};

// ------------------------------------------------------------------ memory
struct Obj {
	uint64_t size = 0;
	bool conc = true;	  // every byte concrete and initialised
	bool ro = false;
	uint8_t kind = 0;	  // 0 stack, 1 heap, 2 global
	std::vector<uint8_t> data;
	std::vector<uint8_t> st;  // 0 uninit, 1 concrete, 2 symbolic (empty if conc)
	std::vector<Cell> cells;  // empty unless some byte is symbolic
	void needSt() {
		if (conc) {
			conc = false;
			st.assign(size, 1);
		}
	}
};
typedef std::shared_ptr<Obj> ObjRef;

// ------------------------------------------------------------------ decoded code
struct Opnd {
	int idx;  // >= 0 register, < 0 constant (~idx)
};
enum TK : uint8_t { T_INT, T_F32, T_F64, T_F80, T_PTR, T_VEC, T_STRUCT, T_ARRAY, T_VOID };
struct TypeD {
	TK k;
	unsigned w = 0;	 // bits for scalars
	unsigned n = 0;	 // elements
	uint64_t size = 0;
	TypeD* el = nullptr;
	std::vector<TypeD*> fields;
	std::vector<uint64_t> offs;
	uint64_t stride = 0;
};
struct FnD;
struct DInst {
	Instruction* I = nullptr;
	unsigned op = 0;
	int dst = -1;
	TypeD* ty = nullptr;
	std::vector<Opnd> ops;
	// gep
	int64_t gepOff = 0;
	std::vector<std::pair<Opnd, int64_t>> gepIdx;
	std::vector<unsigned> idx;	// extractvalue, insertvalue, shuffle mask
	Function* callee = nullptr;
	std::function<void(DInst&)>* native = nullptr;
	unsigned intr = 0;
	int b0 = -1, b1 = -1;  // successor blocks
	TypeD* ty2 = nullptr;
	uint64_t hits = 0;
	unsigned align = 0;
};
struct BBD {
	int first = 0, nphi = 0;
	std::vector<BasicBlock*> preds;
};
struct FnD {
	Function* F;
	std::vector<DInst> code;
	std::vector<BBD> bbs;
	std::map<BasicBlock*, int> bbIdx;
	int nregs = 0;
};
struct Frame {
	FnD* f;
	int pc = 0;
	int bb = 0;
	int prevbb = -1;
	std::vector<Val> r;
	std::vector<uint64_t> allocas;
	int retDst = -1;
	std::vector<Val> varargs;
};
struct InputRec {
	std::string name;
	char kind;	// 'I' int, 'f' float32, 'd' float64
	int var = -1;	 // poly variable
	Z3_ast bv = nullptr;	 // bit-vector input (int, or any-float)
	int64_t conc = 0;	 // chosen concrete integer
	bool isConc = false;
	unsigned w = 64;
	bool sgn = true;
	double lo = 0, hi = 0;
	bool isInt = false;
};
struct ObsRec {
	std::string id;
	Val a;
};
struct State {
	std::vector<Frame> st;
	std::map<uint64_t, ObjRef> globals;
	std::vector<std::pair<uint64_t, ObjRef>> heap;	// sorted by address
	size_t dead = 0;
	uint64_t next = 0x1000000000ull;
	std::vector<Z3_ast> path;
	Z3_model model = nullptr;
	std::unordered_map<Z3_ast, bool> decided;
	std::unordered_set<int> ensured;
	std::unordered_map<uint64_t, int64_t> intDecided;
	std::vector<InputRec> inputs;
	std::map<std::string, int> occ;
	std::vector<ObsRec> obs;
	bool reject = false;
	std::string rejectId;
	bool throwing = false;
	bool realMode = false, nearInverse = false, generic = false, usedLibm = false;
	uint64_t steps = 0;
	unsigned asserts = 0;
	bool uncertain = false;
	std::string throwType;
};

// ------------------------------------------------------------------ engine globals
static Z3_context Z;
static Z3_solver SOLVER;
static std::vector<Z3_ast> solverStack;
static LLVMContext LCTX;
static std::unique_ptr<Module> MOD;
static const DataLayout* DL;
static State* S = nullptr;
static std::vector<State*> work;
static std::vector<Val> consts;
static std::unordered_map<Constant*, int> constIdx;
static std::unordered_map<Function*, FnD*> fnds;
static std::unordered_map<uint64_t, Function*> fnByAddr;
static std::unordered_map<const GlobalValue*, uint64_t> gAddr;
static std::map<uint64_t, GlobalVariable*> gByAddr;
static std::unordered_map<Type*, TypeD*> typeCache;
static MonoTable MT;
static std::vector<VarInfo> VARS;
static uint64_t nodeCounter = 0;
static std::map<std::pair<std::string, std::vector<uint64_t>>, FNode*> opMemo;

// options
static double T_LIMIT = 600, T_START;
static double V_LIMIT = 1e9;  // seconds spent on after the first violation
static unsigned Q_TIMEOUT = 20000;
static bool NLSAT = false;	// ask the procedure for polynomials first
static uint64_t MAXPATHS = 100000000, MAXSTEPS = 40000000;
static int VALIDATE = 8;
static uint64_t SEED = 1;
static std::map<std::string, std::string> concreteInputs;
static bool CONCRETE = false;
static bool TRACE = false;
static std::string SMTDUMP;
static int smtDumped = 0;

// statistics
static uint64_t nPaths = 0, nForks = 0, nQueries = 0, nQueryUnknown = 0, nInstr = 0, nAssumeEnds = 0, nRejects = 0, nAssertFinal = 0;
static double tSolver = 0;
struct AssertStat {
	uint64_t evaluated = 0, discharged = 0, trivially = 0, queries = 0, unknown = 0;
};
static std::map<std::string, AssertStat> asserts;
struct Report {
	std::string kind, id, msg, where;
	std::vector<std::string> inputs;
	bool confirmedModel = true;
};
static std::vector<Report> violations, inconclusive;
static std::map<std::string, int> inconcCount;
struct Sample {
	std::vector<std::string> inputs;
	std::vector<std::string> obs;
	bool reject;
};
static std::vector<Sample> samples;

[[noreturn]] static void unsup(const std::string& s) { throw EndPath{ E_UNSUP, s }; }

// ------------------------------------------------------------------ z3 helpers
static Z3_sort BVS(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_ast bvc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(Z, maskw(v, w), BVS(w)); }
static Z3_ast mkAnd(Z3_ast a, Z3_ast b) {
	Z3_ast x[2] = { a, b };
	return Z3_mk_and(Z, 2, x);
}
static Z3_ast mkOr(Z3_ast a, Z3_ast b) {
	Z3_ast x[2] = { a, b };
	return Z3_mk_or(Z, 2, x);
}
static Z3_ast mkNot(Z3_ast a) { return Z3_mk_not(Z, a); }
static Z3_ast realQ(const Q& q) {
	std::string s = q.get_str();
	return Z3_mk_numeral(Z, s.c_str(), Z3_mk_real_sort(Z));
}
static Z3_ast realD(double d) { return realQ(Q(d)); }
static Z3_ast add2(Z3_ast a, Z3_ast b) {
	Z3_ast x[2] = { a, b };
	return Z3_mk_add(Z, 2, x);
}
static Z3_ast sub2(Z3_ast a, Z3_ast b) {
	Z3_ast x[2] = { a, b };
	return Z3_mk_sub(Z, 2, x);
}
static Z3_ast mul2(Z3_ast a, Z3_ast b) {
	Z3_ast x[2] = { a, b };
	return Z3_mk_mul(Z, 2, x);
}
static void z3err(Z3_context c, Z3_error_code e) {
	std::string m = Z3_get_error_msg(c, e);
	throw EndPath{ E_UNSUP, "z3: " + m };
}

static int boolValue(Z3_ast a) {  // 1, 0, -1 (unknown)
	Z3_lbool b = Z3_get_bool_value(Z, a);
	return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static int evalBool(Z3_model m, Z3_ast a) {
	if (!m) return -1;
	Z3_ast r;
	if (!Z3_model_eval(Z, m, a, true, &r)) return -1;
	int v = boolValue(r);
	if (v < 0) v = boolValue(Z3_simplify(Z, r));
	return v;
}
static void syncSolver() {
	size_t c = 0;
	while (c < solverStack.size() && c < S->path.size() && solverStack[c] == S->path[c]) ++c;
	if (c < solverStack.size()) {
		Z3_solver_pop(Z, SOLVER, solverStack.size() - c);
		solverStack.resize(c);
	}
	for (; c < S->path.size(); ++c) {
		Z3_solver_push(Z, SOLVER);
		Z3_solver_assert(Z, SOLVER, S->path[c]);
		solverStack.push_back(S->path[c]);
	}
}
static void checkTime() {
	if (now() - T_START > T_LIMIT) throw EndPath{ E_BUDGET, "time limit" };
}
// satisfiability of path and extra
// satisfiability on its own, without the path condition
static Z3_lbool freshCheck(Z3_ast f) {
	checkTime();
	double t0 = now();
	++nQueries;
	Z3_solver s = Z3_mk_solver(Z);
	Z3_solver_inc_ref(Z, s);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 5000);
	Z3_solver_set_params(Z, s, p);
	Z3_solver_assert(Z, s, f);
	Z3_lbool r = Z3_solver_check(Z, s);
	Z3_solver_dec_ref(Z, s);
	Z3_params_dec_ref(Z, p);
	tSolver += now() - t0;
	return r;
}
static Z3_lbool check(Z3_ast extra, Z3_model* m, unsigned timeout = 0, bool fresh = false, bool nlsat = false) {
	checkTime();
	double t0 = now();
	Z3_lbool r;
	++nQueries;
	unsigned to = timeout ? timeout : Q_TIMEOUT;
	double left = (T_LIMIT - (now() - T_START)) * 1000;
	if (left < to) to = left < 100 ? 100 : (unsigned)left;
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), to);
	if (!fresh) {
		syncSolver();
		Z3_solver_set_params(Z, SOLVER, p);
		Z3_solver_push(Z, SOLVER);
		if (extra) Z3_solver_assert(Z, SOLVER, extra);
		r = Z3_solver_check(Z, SOLVER);
		if (r == Z3_L_TRUE && m) {
			*m = Z3_solver_get_model(Z, SOLVER);
			Z3_model_inc_ref(Z, *m);
		}
		Z3_solver_pop(Z, SOLVER, 1);
	}
	else {
		Z3_solver s = nlsat ? Z3_mk_solver_from_tactic(Z, Z3_mk_tactic(Z, "qfnra-nlsat")) : Z3_mk_solver(Z);
		Z3_solver_inc_ref(Z, s);
		Z3_solver_set_params(Z, s, p);
		for (auto c : S->path) Z3_solver_assert(Z, s, c);
		if (extra) Z3_solver_assert(Z, s, extra);
		if (!SMTDUMP.empty() && smtDumped < 400) {
			std::string fn = SMTDUMP + "/q" + std::to_string(smtDumped++) + ".smt2";
			if (FILE* f = fopen(fn.c_str(), "w")) {
				fputs(Z3_solver_to_string(Z, s), f);
				fputs("(check-sat)\n", f);
				fclose(f);
			}
		}
		r = Z3_solver_check(Z, s);
		if (r == Z3_L_TRUE && m) {
			*m = Z3_solver_get_model(Z, s);
			Z3_model_inc_ref(Z, *m);
		}
		if (!SMTDUMP.empty() && smtDumped <= 400) {
			std::string fn = SMTDUMP + "/q" + std::to_string(smtDumped - 1) + ".res";
			if (FILE* f = fopen(fn.c_str(), "w")) {
				fputs(r == Z3_L_TRUE ? "sat\n" : r == Z3_L_FALSE ? "unsat\n" : "unknown\n", f);
				fclose(f);
			}
		}
		Z3_solver_dec_ref(Z, s);
	}
	Z3_params_dec_ref(Z, p);
	if (r == Z3_L_UNDEF) ++nQueryUnknown;
	tSolver += now() - t0;
	return r;
}
static void setModel(State* s, Z3_model m) { s->model = m; }
static void addConstraint(Z3_ast c) {
	if (boolValue(c) == 1) return;
	S->path.push_back(c);
}

static State* cloneState() {
	checkTime();
	State* n = new State(*S);
	++nForks;
	return n;
}

// Decide a boolean on the current path, forking if both outcomes are feasible.
// Must be called before the current instruction has had any effect.
static bool decide(Z3_ast c) {
	int bv = boolValue(c);
	if (bv >= 0) return bv;
	auto it = S->decided.find(c);
	if (it != S->decided.end()) return it->second;
	Z3_ast cs = Z3_simplify(Z, c);
	bv = boolValue(cs);
	if (bv >= 0) {
		S->decided[c] = bv;
		return bv;
	}
	int mv = evalBool(S->model, c);
	Z3_ast nc = mkNot(c);
	Z3_model m1 = nullptr, m0 = nullptr;
	Z3_lbool r1, r0;
	if (mv == 1) {
		r1 = Z3_L_TRUE;
		m1 = S->model;
	}
	else r1 = check(c, &m1);
	if (mv == 0) {
		r0 = Z3_L_TRUE;
		m0 = S->model;
	}
	else r0 = check(nc, &m0);
	if (r1 == Z3_L_FALSE && r0 == Z3_L_FALSE) throw EndPath{ E_ASSUME, "infeasible path" };
	if (r1 == Z3_L_FALSE) {
		S->decided[c] = false;
		if (m0) setModel(S, m0);
		return false;
	}
	if (r0 == Z3_L_FALSE) {
		S->decided[c] = true;
		if (m1) setModel(S, m1);
		return true;
	}
	State* o = cloneState();
	if (r1 == Z3_L_UNDEF || r0 == Z3_L_UNDEF) {
		S->uncertain = true;
		o->uncertain = true;
	}
	o->decided[c] = false;
	o->path.push_back(nc);
	setModel(o, m0);
	work.push_back(o);
	S->decided[c] = true;
	S->path.push_back(c);
	setModel(S, m1);
	return true;
}
static void needModel() {
	if (S->model) return;
	Z3_model m = nullptr;
	Z3_lbool r = check(nullptr, &m);
	if (r == Z3_L_FALSE) throw EndPath{ E_ASSUME, "infeasible path" };
	if (r == Z3_L_UNDEF) unsup("no model for path (solver gave up)");
	setModel(S, m);
}

// ------------------------------------------------------------------ integers
static Val mkSInt(Z3_ast bv, unsigned w, i128 lo, i128 hi) {
	i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
	if (lo < mn || hi > mx || lo > hi) lo = mn, hi = mx;
	Val v;
	if (lo == hi) return mkInt((uint64_t)(int64_t)lo, w);
	v.k = V_SINT;
	v.w = w;
	v.in = new INode{ bv, (int64_t)lo, (int64_t)hi };
	return v;
}
static Val mkSIntFull(Z3_ast bv, unsigned w) {
	Z3_ast s = Z3_simplify(Z, bv);
	uint64_t u;
	if (Z3_get_ast_kind(Z, s) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, s, &u)) return mkInt(u, w);
	if (w > 64) unsup("wide symbolic integer");
	return mkSInt(s, w, -((i128)1 << (w - 1)), ((i128)1 << (w - 1)) - 1);
}
static Val mkBool(Z3_ast b) {
	int v = boolValue(b);
	if (v >= 0) return mkInt(v, 1);
	Val r;
	r.k = V_SBOOL;
	r.w = 1;
	r.b = b;
	return r;
}
static Z3_ast fpaBits(FpaNode* n) {
	if (!n->bv) n->bv = Z3_mk_fpa_to_ieee_bv(Z, n->fp);
	return n->bv;
}
static Z3_ast cellBV(const Cell& c) {
	if (c.v.k == V_INT) return bvc(c.v.i, 8);
	if (c.v.k == V_SINT) return Z3_mk_extract(Z, c.idx * 8 + 7, c.idx * 8, c.v.in->bv);
	if (c.v.k == V_SBOOL) return Z3_mk_ite(Z, c.v.b, bvc(1, 8), bvc(0, 8));
	if (c.v.k == V_FPA) return Z3_mk_extract(Z, c.idx * 8 + 7, c.idx * 8, fpaBits(c.v.fpa));
	if (c.v.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised bytes used" };
	unsup("bit-level access to a symbolic real");
}
static Z3_ast toBV(const Val& v) {
	switch (v.k) {
		case V_INT: return bvc(v.i, v.w);
		case V_SINT: return v.in->bv;
		case V_SBOOL: return Z3_mk_ite(Z, v.b, bvc(1, 1), bvc(0, 1));
		case V_FPA: return fpaBits(v.fpa);
		case V_F32: {
			uint32_t u;
			memcpy(&u, &v.f, 4);
			return bvc(u, 32);
		}
		case V_F64: {
			uint64_t u;
			memcpy(&u, &v.d, 8);
			return bvc(u, 64);
		}
		case V_BYTES: {
			Z3_ast r = nullptr;
			for (auto& c : v.by->c) {
				Z3_ast b = cellBV(c);
				r = r ? Z3_mk_concat(Z, b, r) : b;
			}
			return r;
		}
		case V_UNDEF: throw EndPath{ E_UNINIT, "uninitialised value used" };
		default: unsup("toBV of this value kind");
	}
}
static Z3_ast toBool(const Val& v) {
	if (v.k == V_SBOOL) return v.b;
	if (v.k == V_INT) return v.i & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z);
	if (v.k == V_SINT && v.w == 1) return Z3_mk_eq(Z, v.in->bv, bvc(1, 1));
	if (v.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value used in a decision" };
	unsup("toBool");
}
static bool decideVal(const Val& v) {
	if (v.k == V_INT) return v.i & 1;
	return decide(toBool(v));
}
static uint64_t concretize(const Val& v);

static void rangeOf(const Val& v, i128& lo, i128& hi) {
	if (v.k == V_INT) lo = hi = sxt(v.i, v.w);
	else if (v.k == V_SINT) lo = v.in->lo, hi = v.in->hi;
	else {
		lo = -((i128)1 << (v.w - 1));
		hi = ((i128)1 << (v.w - 1)) - 1;
	}
}
static unsigned bitsFor(i128 lo, i128 hi) {	 // signed bits
	unsigned b = 1;
	while (lo < -((i128)1 << (b - 1)) || hi > ((i128)1 << (b - 1)) - 1) ++b;
	return b;
}
static Z3_ast narrow(Z3_ast x, unsigned from, unsigned to) { return to < from ? Z3_mk_extract(Z, to - 1, 0, x) : x; }
static Z3_ast sext(Z3_ast x, unsigned from, unsigned to) { return to > from ? Z3_mk_sign_ext(Z, to - from, x) : x; }

static uint64_t concretize(const Val& v0) {
	if (v0.k == V_INT) return v0.i;
	if (v0.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value used" };
	if (v0.k == V_SBOOL) return decide(v0.b);
	Z3_ast x = toBV(v0);
	unsigned w = v0.w;
	auto it = S->intDecided.find((uint64_t)x);
	if (it != S->intDecided.end()) return maskw(it->second, w);
	for (;;) {
		needModel();
		Z3_ast r;
		if (!Z3_model_eval(Z, S->model, x, true, &r)) unsup("model evaluation failed");
		uint64_t u;
		if (!Z3_get_numeral_uint64(Z, Z3_simplify(Z, r), &u)) unsup("model evaluation gave no numeral");
		if (decide(Z3_mk_eq(Z, x, bvc(u, w)))) {
			S->intDecided[(uint64_t)x] = (int64_t)u;
			return maskw(u, w);
		}
	}
}

// ------------------------------------------------------------------ polynomial floats
static FNode* newNode() {
	FNode* n = new FNode;
	n->id = ++nodeCounter;
	return n;
}
static void polyBounds(const PolyT& p, double& lo, double& hi) {
	double l = 0, h = 0;
	for (auto& [m, c] : p.t) {
		double cd = c.get_d();
		if (m == 0) {
			l += cd, h += cd;
			continue;
		}
		double a = 1, b = 1;
		for (auto& [v, e] : MT.monos[m]) {
			double vl = VARS[v].lo, vh = VARS[v].hi;
			for (int k = 0; k < (e % 2 == 0 ? e / 2 : e); ++k) {
				double xl = vl, xh = vh;
				if (e % 2 == 0) {
					double s0 = vl * vl, s1 = vh * vh;
					xl = (vl <= 0 && vh >= 0) ? 0 : std::min(s0, s1);
					xh = std::max(s0, s1);
				}
				double q[4] = { a * xl, a * xh, b * xl, b * xh };
				for (double& z : q)
					if (std::isnan(z)) z = 0;
				a = *std::min_element(q, q + 4);
				b = *std::max_element(q, q + 4);
			}
		}
		double x = cd * a, y = cd * b;
		if (std::isnan(x)) x = 0;
		if (std::isnan(y)) y = 0;
		l += std::min(x, y);
		h += std::max(x, y);
		if (std::isnan(l)) l = -INFINITY;
		if (std::isnan(h)) h = INFINITY;
	}
	double slack = 1e-12 * (std::fabs(l) + std::fabs(h)) + 1e-300;
	bool exact = true;	// small multiples of a power of two stay exact in double
	int digits = 0;
	for (auto& [m, c] : p.t) {
		if (c.get_den() != 1) exact = false;
		int bits = 0;
		for (auto& [v, e] : MT.monos[m]) {
			double x = VARS[v].lo, y = VARS[v].hi;
			if (std::floor(x) == x && std::floor(y) == y) continue;
			bits += 6 * e;
			if (std::floor(x * 64) != x * 64 || std::floor(y * 64) != y * 64) exact = false;
		}
		digits = std::max(digits, bits);
	}
	if (exact && digits < 40 && std::fabs(l) < 1e15 * std::ldexp(1, -digits) && std::fabs(h) < 1e15 * std::ldexp(1, -digits)) slack = 0;
	lo = l - slack;
	hi = h + slack;
}
// range of a monomial over the ranges of its variables
static void monoBounds(int m, double& lo, double& hi) {
	PolyT p;
	p.t.push_back({ m, Q(1) });
	polyBounds(p, lo, hi);
}
static PolyT polyAdd(const PolyT& a, const PolyT& b, int sgn) {
	PolyT r;
	r.t.reserve(a.t.size() + b.t.size());
	size_t i = 0, j = 0;
	while (i < a.t.size() || j < b.t.size()) {
		if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
		else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
			r.t.push_back(b.t[j++]);
			if (sgn < 0) r.t.back().second = -r.t.back().second;
		}
		else {
			Q c = sgn < 0 ? Q(a.t[i].second - b.t[j].second) : Q(a.t[i].second + b.t[j].second);
			if (c != 0) r.t.push_back({ a.t[i].first, c });
			++i, ++j;
		}
	}
	return r;
}
static PolyT polyScale(const PolyT& a, const Q& c) {
	PolyT r;
	if (c == 0) return r;
	r.t.reserve(a.t.size());
	for (auto& [m, x] : a.t) r.t.push_back({ m, Q(x * c) });
	return r;
}
static bool decide(Z3_ast cond);
// rewrite rules L -> R on monomials, valid by the definition of the atom they
// are triggered by (inverse: w*m0 -> ..., square root: s^2 -> radicand).
// Every rule decreases the lexicographic order in which newer variables are
// greater, so rewriting terminates.
struct Rule {
	std::vector<std::pair<int, int>> L;
	PolyT R;
};
static std::vector<Rule> ruleList;
static std::unordered_map<int, std::vector<int>> rules;	 // by trigger variable
static std::unordered_map<int, int> reducible;			 // monomial -> rule, -1: none
static size_t reducibleAt = 0;
static void addRule(int v, Rule r) {
	rules[v].push_back((int)ruleList.size());
	ruleList.push_back(std::move(r));
}
static int exponentOf(const std::vector<std::pair<int, int>>& m, int v) {
	for (auto& [x, e] : m)
		if (x == v) return e;
	return 0;
}
static int findRule(int m) {
	if (rules.empty()) return -1;
	if (reducibleAt != ruleList.size()) reducible.clear(), reducibleAt = ruleList.size();
	auto it = reducible.find(m);
	if (it != reducible.end()) return it->second;
	int r = -1;
	const auto& mono = MT.monos[m];
	for (auto& [v, e] : mono) {
		auto k = rules.find(v);
		if (k == rules.end()) continue;
		for (int i : k->second) {
			bool div = true;
			for (auto& [x, f] : ruleList[i].L) div = div && exponentOf(mono, x) >= f;
			if (div) {
				r = i;
				break;
			}
		}
		if (r >= 0) break;
	}
	reducible[m] = r;
	return r;
}
static PolyT polyMul(const PolyT& a, const PolyT& b) {
	if (a.isConst()) return polyScale(b, a.constant());
	if (b.isConst()) return polyScale(a, b.constant());
	std::map<int, Q> acc;
	if (a.t.size() * b.t.size() > 400000) unsup("polynomial too large");
	for (auto& [m, x] : a.t)
		for (auto& [n, y] : b.t) acc[MT.mul(m, n)] += x * y;
	if (!rules.empty()) {
		std::vector<std::pair<int, Q>> todo;
		for (auto& [m, c] : acc)
			if (c != 0 && findRule(m) >= 0) todo.push_back({ m, c });
		for (auto& [m, c] : todo) acc.erase(m);
		size_t steps = 0;
		while (!todo.empty()) {
			if (++steps > 200000) unsup("polynomial reduction too long");
			auto [m, c] = todo.back();
			todo.pop_back();
			int v = findRule(m);
			if (v < 0) {
				acc[m] += c;
				continue;
			}
			const Rule r = ruleList[v];
			std::vector<std::pair<int, int>> rest;
			for (auto [x, e] : MT.monos[m]) {
				int f = e - exponentOf(r.L, x);
				if (f > 0) rest.push_back({ x, f });
			}
			int rid = MT.intern(rest);
			for (auto& [n, y] : r.R.t) todo.push_back({ MT.mul(rid, n), Q(y * c) });
		}
	}
	PolyT r;
	for (auto& [m, c] : acc)
		if (c != 0) r.t.push_back({ m, c });
	return r;
}
static bool monoLess(int a, int b) {
	const auto &x = MT.monos[a], &y = MT.monos[b];
	size_t i = x.size(), j = y.size();
	while (i && j) {
		if (x[i - 1] != y[j - 1]) return x[i - 1] < y[j - 1];
		--i, --j;
	}
	return i < j;
}
static PolyT polyConst(double d) {
	PolyT p;
	if (d != 0) p.t.push_back({ 0, Q(d) });
	return p;
}
static PolyT polyVar(int v) {
	PolyT p;
	p.t.push_back({ MT.ofVar(v), Q(1) });
	return p;
}
static std::string polyKey(const PolyT& p) {
	std::string s;
	for (auto& [m, c] : p.t) {
		s += std::to_string(m);
		s += ':';
		s += c.get_str(62);
		s += ';';
	}
	return s;
}
static std::unordered_map<std::string, FNode*> exactMemo;

static void ensureVar(int v) {
	if (!S->ensured.insert(v).second) return;
	for (int d : std::vector<int>(VARS[v].deps)) ensureVar(d);
	VarInfo& vi = VARS[v];
	std::vector<Z3_ast> cs;
	if (vi.lo > -DBL_MAX) cs.push_back(Z3_mk_ge(Z, vi.z3, realD(vi.lo)));
	if (vi.hi < DBL_MAX) cs.push_back(Z3_mk_le(Z, vi.z3, realD(vi.hi)));
	for (auto d : vi.defs) cs.push_back(d);
	for (auto c : cs) {
		S->path.push_back(c);
		if (S->model && evalBool(S->model, c) != 1) S->model = nullptr;
	}
}
static int newVar(const std::string& name, double lo, double hi, bool isInt, bool isInput) {
	VarInfo v;
	v.name = name;
	v.lo = lo;
	v.hi = hi;
	v.isInt = isInt;
	v.isInput = isInput;
	v.z3 = Z3_mk_const(Z, Z3_mk_string_symbol(Z, (name + "!" + std::to_string(VARS.size())).c_str()), Z3_mk_real_sort(Z));
	VARS.push_back(v);
	return (int)VARS.size() - 1;
}
static void polyVars(const PolyT& p, std::set<int>& out) {
	for (auto& [m, c] : p.t)
		for (auto& [v, e] : MT.monos[m]) out.insert(v);
}
static Z3_ast polyZ3(const PolyT& p) {
	if (p.t.empty()) return realD(0);
	std::vector<Z3_ast> s;
	for (auto& [m, c] : p.t) {
		if (m == 0) {
			s.push_back(realQ(c));
			continue;
		}
		if (!MT.z3[m]) {
			std::vector<Z3_ast> f;
			for (auto& [v, e] : MT.monos[m])
				for (int k = 0; k < e; ++k) f.push_back(VARS[v].z3);
			MT.z3[m] = f.size() == 1 ? f[0] : Z3_mk_mul(Z, f.size(), f.data());
		}
		s.push_back(c == 1 ? MT.z3[m] : mul2(realQ(c), MT.z3[m]));
	}
	return s.size() == 1 ? s[0] : Z3_mk_add(Z, s.size(), s.data());
}
static void ensurePoly(const PolyT& p) {
	std::set<int> vs;
	polyVars(p, vs);
	for (int v : vs) ensureVar(v);
}
static FNode* finish(FNode* n) {
	return n;
}
// full value of a node as a Z3 real, including its rounding error
static Z3_ast nodeZ3(FNode* n) {
	ensurePoly(n->p);
	if (n->E > 0 && n->delta < 0) {
		if (!(n->E < DBL_MAX)) unsup("relation on a value with unbounded rounding error");
		n->delta = newVar("err", -n->E, n->E, false, false);
	}
	if (n->delta >= 0) ensureVar(n->delta);
	if (!n->z3) {
		n->z3 = polyZ3(n->p);
		if (n->delta >= 0) n->z3 = add2(n->z3, VARS[n->delta].z3);
	}
	return n->z3;
}
static FNode* constNode(double d) {
	static std::unordered_map<uint64_t, FNode*> memo;
	uint64_t b;
	if (d == 0) d = 0;
	memcpy(&b, &d, 8);
	FNode*& n = memo[b];
	if (!n) {
		if (!std::isfinite(d)) unsup("non-finite constant meets symbolic real");
		n = newNode();
		n->p = polyConst(d);
		n->lo = n->hi = d;
		n->gran = granOf(d);
		n->repr = 53;
		for (int bts = 1; bts <= 53; ++bts) {
			if (d == 0 || std::fabs(d) <= std::ldexp(1.0, std::min(1000, bts + n->gran))) {
				n->repr = bts;
				break;
			}
		}
	}
	return n;
}
static FNode* toNode(const Val& v) {
	if (v.k == V_SF) return v.sf;
	if (isF(v)) return constNode(fval(v));
	if (v.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value in floating point operation" };
	unsup("mixing floating point domains");
}
static Val mkSF(FNode* n, unsigned w) {
	if (n->E == 0 && n->p.isConst()) {
		Q c = n->p.constant();
		double d = c.get_d();
		if (Q(d) == c && (w == 64 || (double)(float)d == d)) return mkFP(d, w);
	}
	Val v;
	v.k = V_SF;
	v.w = w;
	v.sf = n;
	return v;
}
static FNode* exactNode(PolyT&& p, double lo, double hi, int gran, int repr) {
	std::string key = polyKey(p);
	auto it = exactMemo.find(key);
	if (it != exactMemo.end()) {
		it->second->repr = std::min(it->second->repr, repr);
		return it->second;
	}
	FNode* n = newNode();
	n->p = std::move(p);
	double pl, ph;
	polyBounds(n->p, pl, ph);
	n->lo = std::max(lo, pl);
	n->hi = std::min(hi, ph);
	n->gran = gran;
	n->repr = repr;
	exactMemo.emplace(std::move(key), n);
	return n;
}
static bool fitsExact(double mag, int gran, int prec) {
	if (gran <= GRAN_NONE || gran < -1070) return false;
	if (gran > 900) return true;
	return mag <= std::ldexp(1.0, std::min(1000, prec + gran));
}
static void checkOverflow(double mag, int prec) {
	double mx = prec == 24 ? (double)FLT_MAX : DBL_MAX / 4;
	if (!(mag < mx)) {
		if (S->realMode) return;
		unsup("possible overflow of a symbolic real");
	}
}
// result of an operation with exact polynomial p, inherited error Ein and enclosure [lo,hi] of p
static FNode* rounded(const char* op, FNode* a, FNode* b, PolyT&& p, double Ein, double lo, double hi, int gran, int prec, bool noRound = false) {
	if (S->realMode) return exactNode(std::move(p), lo, hi, GRAN_NONE, 1);
	if (Ein == 0) {
		double pl, ph;
		polyBounds(p, pl, ph);
		lo = std::max(lo, pl);
		hi = std::min(hi, ph);
		double mag = std::max(std::fabs(lo), std::fabs(hi));
		if (noRound || fitsExact(mag, gran, prec)) {
			int repr = prec;
			while (repr > 1 && fitsExact(mag, gran, repr - 1)) --repr;
			checkOverflow(mag, prec);
			return exactNode(std::move(p), lo, hi, gran, noRound ? std::max(a->repr, b ? b->repr : 0) : repr);
		}
	}
	auto key = std::make_pair(std::string(op) + (prec == 24 ? "f" : "d"), std::vector<uint64_t>{ a->id, b ? b->id : 0 });
	auto it = opMemo.find(key);
	if (it != opMemo.end()) return it->second;
	FNode* n = newNode();
	n->p = std::move(p);
	double pl, ph;
	polyBounds(n->p, pl, ph);
	n->lo = std::max(lo, pl);
	n->hi = std::min(hi, ph);
	double u = prec == 24 ? 0x1p-24 : 0x1p-53;
	double mag = n->mag();
	n->E = noRound ? Ein : upd(Ein + upd(u * (mag + Ein)) + (prec == 24 ? 0x1p-149 : 0));
	n->E = upb(n->E);
	checkOverflow(mag + n->E, prec);
	n->repr = prec;
	opMemo[key] = n;
	return n;
}
static double mulLo(double a, double b, double c, double d) {
	double q[4] = { a * c, a * d, b * c, b * d };
	for (double& z : q)
		if (std::isnan(z)) z = 0;
	return dnb(*std::min_element(q, q + 4));
}
static double mulHi(double a, double b, double c, double d) {
	double q[4] = { a * c, a * d, b * c, b * d };
	for (double& z : q)
		if (std::isnan(z)) z = 0;
	return upb(*std::max_element(q, q + 4));
}
static FNode* nNeg(FNode* a);
static FNode* nAdd(FNode* a, FNode* b, int prec, int sgn) {
	if (a->id > b->id && sgn > 0) std::swap(a, b);
	int gran = std::min(a->gran, b->gran);
	double lo = sgn > 0 ? dnb(a->lo + b->lo) : dnb(a->lo - b->hi);
	double hi = sgn > 0 ? upb(a->hi + b->hi) : upb(a->hi - b->lo);
	if (std::isnan(lo)) lo = -INFINITY;
	if (std::isnan(hi)) hi = INFINITY;
	bool z = (b->E == 0 && b->p.t.empty()) || (sgn > 0 && a->E == 0 && a->p.t.empty());
	if (sgn < 0 && a->E == 0 && a->p.t.empty() && b->repr <= prec) return nNeg(b);
	if (sgn < 0 && a == b) return constNode(0);	 // finite values: x - x is exactly 0
	if (z && !S->realMode) {
		FNode* k = (b->E == 0 && b->p.t.empty()) ? a : b;
		if (k->repr <= prec) return k;
	}
	return rounded(sgn > 0 ? "add" : "sub", a, b, polyAdd(a->p, b->p, sgn), upd(a->E + b->E), lo, hi, gran, prec);
}
static FNode* nNeg(FNode* a) {
	FNode* z = constNode(0);
	if (a->E == 0) return exactNode(polyScale(a->p, Q(-1)), -a->hi, -a->lo, a->gran, a->repr);
	auto key = std::make_pair(std::string("neg"), std::vector<uint64_t>{ a->id });
	auto it = opMemo.find(key);
	if (it != opMemo.end()) return it->second;
	FNode* n = newNode();
	*n = *a;
	n->id = ++nodeCounter;
	n->p = polyScale(a->p, Q(-1));
	n->lo = -a->hi;
	n->hi = -a->lo;
	n->delta = -1;
	n->z3 = nullptr;
	(void)z;
	opMemo[key] = n;
	opMemo[std::make_pair(std::string("neg"), std::vector<uint64_t>{ n->id })] = a;
	return n;
}
static bool isPow2(double d) {
	int e;
	return d != 0 && std::fabs(std::frexp(d, &e)) == 0.5;
}
static FNode* nMul(FNode* a, FNode* b, int prec) {
	if (a->id > b->id) std::swap(a, b);
	for (int k = 0; k < 2; ++k) {
		FNode *c = k ? b : a, *o = k ? a : b;
		if (c->E == 0 && c->p.isConst()) {
			double d = c->lo;
			if (d == 0) return constNode(0);
			if (d == 1 && o->repr <= prec) return o;
			if (d == -1 && o->repr <= prec) return nNeg(o);
		}
	}
	int gran = (a->gran <= GRAN_NONE || b->gran <= GRAN_NONE) ? GRAN_NONE : a->gran + b->gran;
	double ma = a->mag(), mb = b->mag();
	double Ein = (a->E == 0 && b->E == 0) ? 0 : upd(upd(ma * b->E) + upd(mb * a->E) + upd(a->E * b->E));
	if (std::isnan(Ein)) Ein = INFINITY;
	double lo = mulLo(a->lo, a->hi, b->lo, b->hi), hi = mulHi(a->lo, a->hi, b->lo, b->hi);
	if (a == b) lo = std::max(lo, 0.0);
	bool p2 = false;
	if ((a->E == 0 && a->p.isConst() && isPow2(a->lo)) || (b->E == 0 && b->p.isConst() && isPow2(b->lo))) {
		FNode* c = a->p.isConst() ? a : b;
		FNode* o = c == a ? b : a;
		p2 = std::fabs(c->lo) >= 1 && o->repr <= prec;	 // (scaling down may underflow)
		if (!p2 && o->repr <= prec && o->gran > -400 && c->gran > -400) p2 = true;
	}
	if (p2 && Ein == 0 && gran <= GRAN_NONE) {
		// exact scaling of a representable, granularity-free value
		return rounded("mul", a, b, polyMul(a->p, b->p), 0, lo, hi, gran, prec, true);
	}
	return rounded("mul", a, b, polyMul(a->p, b->p), Ein, lo, hi, gran, prec, p2);
}
static int newAtom(const std::string& name, double lo, double hi, const std::vector<FNode*>& args) {
	int v = newVar(name, lo, hi, false, false);
	for (auto a : args) {
		std::set<int> vs;
		polyVars(a->p, vs);
		if (a->delta >= 0) vs.insert(a->delta);
		for (int x : vs) VARS[v].deps.push_back(x);
	}
	return v;
}
static FNode* atomNode(int v, double E, int repr) {
	FNode* n = newNode();
	n->p = polyVar(v);
	n->lo = VARS[v].lo;
	n->hi = VARS[v].hi;
	n->E = E;
	n->repr = repr;
	return n;
}
static FNode* nDiv(FNode* a, FNode* b, int prec) {
	if (b->E == 0 && b->p.isConst()) {
		Q c = b->p.constant();
		if (c == 0) unsup("division of a symbolic real by zero");
		if (c == 1 && a->repr <= prec) return a;
		Q ic = 1 / c;
		double icd = ic.get_d();
		bool p2 = isPow2(b->lo);
		int gran = p2 && a->gran > GRAN_NONE ? a->gran + granOf(icd) : GRAN_NONE;
		double lo = mulLo(a->lo, a->hi, dnb(icd), upb(icd)), hi = mulHi(a->lo, a->hi, dnb(icd), upb(icd));
		if (p2 && a->repr <= prec) {
			return rounded("div", a, b, polyScale(a->p, ic), upd(a->E * std::fabs(icd)), lo, hi, gran, prec, true);
		}
		return rounded("div", a, b, polyScale(a->p, ic), upd(a->E * std::fabs(icd) * (1 + 1e-12)), lo, hi, gran, prec);
	}
	if (a == b) {
		if (!S->realMode && !decide(mkNot(Z3_mk_eq(Z, nodeZ3(b), realD(0))))) unsup("0/0 of symbolic reals");
		return constNode(1);
	}
	if (a->E == 0 && a->p.t.empty()) {
		if (!S->realMode && !decide(mkNot(Z3_mk_eq(Z, nodeZ3(b), realD(0))))) unsup("0/0 of symbolic reals");
		return constNode(0);
	}
	// symbolic divisor
	if (b->tlo() <= 0 && b->thi() >= 0 && !S->realMode) {  // in exact arithmetic the quotient is only defined for other divisors
		if (!decide(mkNot(Z3_mk_eq(Z, nodeZ3(b), realD(0))))) unsup("division by a symbolic real that can be zero");
	}
	auto key = std::make_pair(std::string("divq") + (S->realMode ? "r" : prec == 24 ? "f" : "d"), std::vector<uint64_t>{ a->id, b->id });
	auto it = opMemo.find(key);
	if (it != opMemo.end()) return it->second;
	// a/b = a*inv(B)/c with B the polynomial of b scaled to a leading coefficient of 1
	int lead = 0;
	for (size_t i = 1; i < b->p.t.size(); ++i)
		if (monoLess(b->p.t[lead].first, b->p.t[i].first)) lead = (int)i;
	Q c = b->p.t[lead].second;
	int m0 = b->p.t[lead].first;
	PolyT B = polyScale(b->p, 1 / c);
	double bl = -INFINITY, bh = INFINITY;  // enclosure of 1/(polynomial of b)
	bool away = b->tlo() > 0 || b->thi() < 0;
	double lo = -INFINITY, hi = INFINITY, Ein = 0;
	if (away) {
		bl = dnb(1 / b->hi), bh = upb(1 / b->lo);
		lo = mulLo(a->lo, a->hi, bl, bh);
		hi = mulHi(a->lo, a->hi, bl, bh);
		if (!S->realMode) {
			double m = std::min(std::fabs(b->tlo()), std::fabs(b->thi()));
			if (a->E > 0 || b->E > 0) Ein = upb((a->E + upb(std::max(std::fabs(lo), std::fabs(hi)) * b->E)) / m);
		}
	}
	if (!S->realMode && !(away && lo > -DBL_MAX && hi < DBL_MAX && Ein < DBL_MAX)) unsup("division by a symbolic real near zero");
	static std::unordered_map<std::string, int> invMemo;
	PolyT inv;
	if (B.t.size() == 1) {	// a monomial: the product of the inverses of its variables
		inv = polyConst(1);
		for (auto [x, e] : std::vector<std::pair<int, int>>(MT.monos[m0])) {
			int& w = invMemo["v" + std::to_string(x)];
			if (!w) {
				double l = -INFINITY, h = INFINITY;
				if (VARS[x].lo > 0 || VARS[x].hi < 0) l = dnb(1 / VARS[x].hi), h = upb(1 / VARS[x].lo);
				w = newVar("inv", l, h, false, false);
				VARS[w].deps.push_back(x);
				VARS[w].defs.push_back(Z3_mk_eq(Z, mul2(VARS[w].z3, VARS[x].z3), realD(1)));
				Rule r;
				r.L = { { x, 1 }, { w, 1 } };
				r.R = polyConst(1);
				addRule(w, r);
			}
			for (int k = 0; k < e; ++k) inv = polyMul(inv, polyVar(w));
		}
	}
	else {
		// real mode: a divisor that differs from a known one by rounded constants only
		// gives the known inverse times 1+e
		struct Known {
			PolyT B, inv;
		};
		static std::unordered_map<int, std::vector<Known>> known;
		static std::unordered_map<std::string, PolyT> nearMemo;
		std::string bkey = polyKey(B);
		if (S->realMode && S->nearInverse) {
			auto nm = nearMemo.find(bkey);
			double l, h;
			polyBounds(B, l, h);
			if (nm == nearMemo.end() && !invMemo.count(bkey) && (l > 0 || h < 0))
				for (auto& k : known[m0]) {
					double dl, dh;
					polyBounds(polyAdd(B, k.B, -1), dl, dh);
					double d = upb(std::max(std::fabs(dl), std::fabs(dh)) / std::min(std::fabs(l), std::fabs(h)));
					if (!(d <= 1e-4)) continue;
					int e = newVar("dif", -d, d, false, false);
					std::set<int> vs;
					polyVars(B, vs);
					polyVars(k.inv, vs);
					for (int x : vs) VARS[e].deps.push_back(x);
					nm = nearMemo.emplace(bkey, polyAdd(k.inv, polyMul(k.inv, polyVar(e)), 1)).first;
					break;
				}
			if (nm != nearMemo.end()) {
				FNode* n = rounded("divi", a, b, polyScale(polyMul(a->p, nm->second), 1 / c), Ein, lo, hi, GRAN_NONE, prec);
				opMemo[key] = n;
				return n;
			}
		}
		int& w = invMemo[bkey];
		if (!w && S->realMode) known[m0].push_back({ B, PolyT() });
		bool fresh = !w;
		if (!w) {
			double l = -INFINITY, h = INFINITY;
			if (away) {
				double cd = c.get_d();
				l = mulLo(bl, bh, dnb(cd), upb(cd)), h = mulHi(bl, bh, dnb(cd), upb(cd));
			}
			w = newVar("inv", l, h, false, false);
			std::set<int> vs;
			polyVars(B, vs);
			for (int x : vs) VARS[w].deps.push_back(x);
			VARS[w].defs.push_back(Z3_mk_eq(Z, mul2(VARS[w].z3, polyZ3(B)), realD(1)));
			Rule r;
			r.L = MT.monos[m0];
			r.L.push_back({ w, 1 });
			PolyT rest;
			for (auto& t : B.t)
				if (t.first != m0) rest.t.push_back(t);
			int wm = MT.ofVar(w);
			PolyT R = polyConst(1);
			PolyT rw;
			for (auto& [m, x] : rest.t) rw.t.push_back({ MT.mul(m, wm), Q(-x) });
			std::sort(rw.t.begin(), rw.t.end(), [](auto& p, auto& q) { return p.first < q.first; });
			r.R = polyAdd(R, rw, 1);
			addRule(w, r);
		}
		inv = polyVar(w);
		if (fresh && S->realMode) known[m0].back().inv = inv;
	}
	FNode* n = rounded("divi", a, b, polyScale(polyMul(a->p, inv), 1 / c), Ein, lo, hi, GRAN_NONE, prec);
	opMemo[key] = n;
	return n;
}
static FNode* nIte(Z3_ast c, FNode* a, FNode* b) {
	if (a == b) return a;
	auto key = std::make_pair(std::string("ite"), std::vector<uint64_t>{ (uint64_t)c, a->id, b->id });
	auto it = opMemo.find(key);
	if (it != opMemo.end()) {
		nodeZ3(a);
		nodeZ3(b);
		return it->second;
	}
	Z3_ast za = nodeZ3(a), zb = nodeZ3(b);
	int v = newAtom("ite", std::min(a->tlo(), b->tlo()), std::max(a->thi(), b->thi()), { a, b });
	VARS[v].defs.push_back(Z3_mk_eq(Z, VARS[v].z3, Z3_mk_ite(Z, c, za, zb)));
	FNode* n = atomNode(v, 0, std::max(a->repr, b->repr));
	n->gran = (a->E == 0 && b->E == 0) ? std::min(a->gran, b->gran) : GRAN_NONE;
	opMemo[key] = n;
	return n;
}
static FNode* nTrunc32(FNode* a) {
	if (S->realMode || a->repr <= 24) return a;
	return rounded("tof", a, nullptr, PolyT(a->p), a->E, a->lo, a->hi, a->gran, 24);
}
// relation between nodes, k: 0 eq, 1 lt, 2 le
static Val nCmp(FNode* a, FNode* b, int k) {
	if (a == b) return mkInt(k != 1, 1);
	double lo = a->tlo(), hi = a->thi(), l2 = b->tlo(), h2 = b->thi();
	if (k == 0 && (hi < l2 || h2 < lo)) return mkInt(0, 1);
	if (k == 1) {
		if (hi < l2) return mkInt(1, 1);
		if (lo >= h2) return mkInt(0, 1);
	}
	if (k == 2) {
		if (hi <= l2) return mkInt(1, 1);
		if (lo > h2) return mkInt(0, 1);
	}
	if (a->E == 0 && b->E == 0) {
		PolyT d = polyAdd(a->p, b->p, -1);
		if (d.isConst()) {
			int s = sgn(d.constant());
			return mkInt(k == 0 ? s == 0 : k == 1 ? s < 0 : s <= 0, 1);
		}
		ensurePoly(d);
		Z3_ast z = polyZ3(d), o = realD(0);
		return mkBool(k == 0 ? Z3_mk_eq(Z, z, o) : k == 1 ? Z3_mk_lt(Z, z, o) : Z3_mk_le(Z, z, o));
	}
	Z3_ast za = nodeZ3(a), zb = nodeZ3(b);
	return mkBool(k == 0 ? Z3_mk_eq(Z, za, zb) : k == 1 ? Z3_mk_lt(Z, za, zb) : Z3_mk_le(Z, za, zb));
}
static Val negBool(const Val& v) {
	if (v.k == V_INT) return mkInt(!(v.i & 1), 1);
	return mkBool(mkNot(toBool(v)));
}
// integer part by case split; returns k with k <= |x| side semantic of mode: 0 floor, 1 trunc, 2 ceil
static int64_t splitInteger(FNode* a, int mode) {
	double lo = a->tlo(), hi = a->thi();
	if (!(std::fabs(lo) < 1e9 && std::fabs(hi) < 1e9)) unsup("integer part of an unbounded symbolic real");
	Z3_ast z = nodeZ3(a);
	auto rnd = [&](double x) { return mode == 0 ? std::floor(x) : mode == 1 ? std::trunc(x) : std::ceil(x); };
	if (rnd(lo) == rnd(hi)) return (int64_t)rnd(lo);
	for (int guard = 0; guard < 100000; ++guard) {
		needModel();
		Z3_ast r;
		if (!Z3_model_eval(Z, S->model, z, true, &r)) unsup("model evaluation failed");
		r = Z3_simplify(Z, r);
		Q q;
		if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) q = Q(Z3_get_numeral_string(Z, r));
		else if (Z3_is_algebraic_number(Z, r)) q = Q(Z3_get_numeral_string(Z, Z3_get_algebraic_number_lower(Z, r, 30)));
		else unsup("model evaluation gave no numeral");
		q.canonicalize();
		mpz_class k;
		if (mode == 0 || (mode == 1 && q >= 0)) mpz_fdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
		else mpz_cdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
		int64_t ki = k.get_si();
		Z3_ast c;
		if (mode == 0) c = mkAnd(Z3_mk_ge(Z, z, realD(ki)), Z3_mk_lt(Z, z, realD(ki + 1)));
		else if (mode == 2) c = mkAnd(Z3_mk_gt(Z, z, realD(ki - 1)), Z3_mk_le(Z, z, realD(ki)));
		else if (ki > 0) c = mkAnd(Z3_mk_ge(Z, z, realD(ki)), Z3_mk_lt(Z, z, realD(ki + 1)));
		else if (ki < 0) c = mkAnd(Z3_mk_gt(Z, z, realD(ki - 1)), Z3_mk_le(Z, z, realD(ki)));
		else c = mkAnd(Z3_mk_gt(Z, z, realD(-1)), Z3_mk_lt(Z, z, realD(1)));
		if (decide(c)) return ki;
	}
	unsup("integer part: too many cases");
}
struct FnAtom {	 // value = fn(arg) of a library function the solver only knows the range of
	std::string name;
	PolyT arg, value;
	std::vector<int> vars;
};
static std::vector<FnAtom> fnAtoms;
static FNode* nSqrt(FNode* a, int prec);
static std::unordered_map<std::string, PolyT> knownValues;  // of functions of exact arguments, by function and argument
// real mode: a function of exact arguments, equal arguments give the same atom
static FNode* realUnary(const std::string& name, FNode* a, double lo, double hi, int parity, bool lipschitz) {
	PolyT p = a->p;
	int sign = 1;
	if (parity && !p.t.empty()) {
		int lead = 0;
		for (size_t i = 1; i < p.t.size(); ++i)
			if (monoLess(p.t[lead].first, p.t[i].first)) lead = (int)i;
		if (p.t[lead].second < 0) {
			p = polyScale(p, Q(-1));
			sign = parity;
		}
	}
	static std::unordered_map<int, PolyT> inverses;  // arguments of the unknowns that are arccosines
	if ((name == "cos" || name == "cosh") && p.t.size() == 1 && MT.monos[p.t[0].first].size() == 1) {
		// cos(m acos x) and cosh(m acosh x) are the Chebyshev polynomial of degree m
		auto [v, e] = MT.monos[p.t[0].first][0];
		const Q m = p.t[0].second;
		auto it = inverses.find(v);
		if (it != inverses.end() && e == 1 && VARS[v].name.compare(0, 5, name == "cos" ? "acos" : "acosh") == 0 && m.get_den() == 1 && m <= 32) {
			const PolyT x = it->second;
			Z3_ast z = nodeZ3(exactNode(PolyT(x), -INFINITY, INFINITY, GRAN_NONE, 53));
			Z3_ast domain = name == "cos" ? mkAnd(Z3_mk_ge(Z, z, realD(-1)), Z3_mk_le(Z, z, realD(1))) : Z3_mk_ge(Z, z, realD(1));
			auto known = S->decided.find(domain);
			if (known != S->decided.end() ? known->second : check(mkNot(domain), nullptr, 2000) == Z3_L_FALSE) {
				S->decided[domain] = true;
				PolyT last = polyConst(1), t = x;
				for (int i = 1; i < m; ++i) {
					PolyT next = polyAdd(polyScale(polyMul(x, t), Q(2)), last, -1);
					last = std::move(t);
					t = std::move(next);
				}
				double l, h;
				polyBounds(t, l, h);
				return exactNode(std::move(t), l, h, GRAN_NONE, 53);
			}
		}
	}
	struct Known {
		PolyT arg, value;
	};
	static std::unordered_map<std::string, std::vector<Known>> all;
	auto& exact = knownValues;
	std::string key = name + "|" + polyKey(p);
	auto it = exact.find(key);
	if (it == exact.end()) {
		PolyT val;
		bool found = false;
		if (lipschitz)
			for (auto& k : all[name]) {
				// nearly the same argument (rounded constants): the values differ by no more than the arguments
				double l, h;
				polyBounds(polyAdd(p, k.arg, -1), l, h);
				double d = std::max(std::fabs(l), std::fabs(h));
				if (!(d <= 1e-4)) continue;
				bool ex = name == "exp" || name == "cosh" || name == "dsym_i0";
				if (ex) d *= 2;	 // f(x+d) = f(x)(1+e), |e| <= 2|d|: |f'| <= f
				int e = newVar("dif", -d, d, false, false);
				std::set<int> vs;
				polyVars(p, vs);
				for (int x : vs) VARS[e].deps.push_back(x);
				val = ex ? polyAdd(k.value, polyMul(k.value, polyVar(e)), 1) : polyAdd(k.value, polyVar(e), 1);
				found = true;
				break;
			}
		if (!found) {
			double l, h;
			polyBounds(p, l, h);
			using F1 = double (*)(double);
			static const std::unordered_map<std::string, F1> rising{ { "exp", std::exp }, { "cosh", std::cosh }, { "acosh", std::acosh }, { "asinh", std::asinh }, { "atan", std::atan }, { "tanh", std::tanh }, { "sinh", std::sinh } };
			if (auto f = rising.find(name); f != rising.end()) {
				if (name == "cosh") h = std::max(std::fabs(l), std::fabs(h)), l = std::max(0.0, l);
				if (name == "acosh") l = std::max(1.0, l), h = std::max(1.0, h);
				const double a = f->second(l), b = f->second(h);
				if (std::isfinite(a)) lo = std::max(lo, a - 1e-12 * (1 + std::fabs(a)));
				if (std::isfinite(b)) hi = std::min(hi, b + 1e-12 * (1 + std::fabs(b)));
			}
			int v = newVar(name, lo, hi, false, false);
			std::set<int> vs;
			polyVars(p, vs);
			for (int x : vs) VARS[v].deps.push_back(x);
			val = polyVar(v);
			if (name == "acos" || name == "acosh") inverses[v] = p;
			all[name].push_back({ p, val });
		}
		it = exact.emplace(key, val).first;
		FnAtom fa{ name, p, val, {} };
		std::set<int> vs;
		polyVars(p, vs);
		polyVars(val, vs);
		fa.vars.assign(vs.begin(), vs.end());
		fnAtoms.push_back(fa);
	}
	PolyT r = it->second;
	if (sign < 0) r = polyScale(r, Q(-1));
	double l, h;
	polyBounds(r, l, h);
	return exactNode(std::move(r), l, h, GRAN_NONE, 53);
}
// exact arithmetic: the angle of (x, y), of which the cosine is x/r and the sine y/r
static FNode* nAngle(FNode* y, FNode* x) {
	if (x->E > 0 || y->E > 0) unsup("angle of inexact values");
	static std::unordered_map<std::string, int> angles;
	auto [it, fresh] = angles.try_emplace(polyKey(y->p) + "/" + polyKey(x->p), 0);
	if (fresh) {
		FNode* r = nSqrt(nAdd(nMul(x, x, 53), nMul(y, y, 53), 53, 1), 53);
		FNode *c = nDiv(x, r, 53), *s = nDiv(y, r, 53);
		const int v = it->second = newVar("angle", -M_PI, M_PI, false, false);
		std::set<int> vs;
		polyVars(x->p, vs);
		polyVars(y->p, vs);
		for (int d : vs) VARS[v].deps.push_back(d);
		knownValues["cos|" + polyKey(polyVar(v))] = c->p;
		knownValues["sin|" + polyKey(polyVar(v))] = s->p;
	}
	return exactNode(polyVar(it->second), -M_PI, M_PI, GRAN_NONE, 53);
}
static FNode* nUnary(const char* name, FNode* a, double lo, double hi, int prec) {
	if (S->realMode && a->E == 0) {
		std::string n = name;
		bool sc = n == "sin" || n == "cos" || n == "exp" || n == "cosh" || n == "dsym_i0" || n == "asinh" || n == "atan" || n == "tanh";
		return realUnary(n, a, lo, hi, n == "cos" || n == "cosh" || n == "dsym_i0" ? 1 : n == "sin" || n == "tan" || n == "sinh" || n == "tanh" || n == "atan" || n == "asin" || n == "asinh" || n == "atanh" || n == "erf" ? -1 : 0, sc);
	}
	auto key = std::make_pair(std::string(name) + (prec == 24 ? "f" : "d"), std::vector<uint64_t>{ a->id });
	auto it = opMemo.find(key);
	if (it != opMemo.end()) return it->second;
	nodeZ3(a);
	int v = newAtom(name, lo, hi, { a });
	FNode* n = atomNode(v, 0, prec);
	opMemo[key] = n;
	return n;
}
static FNode* nAbs(FNode* a) {
	if (a->tlo() >= 0) return a;
	if (a->thi() <= 0) return nNeg(a);
	if (a->E == 0 && a->p.t.size() <= 16) {	// an unknown with the square of a
		PolyT P = a->p;
		int lead = 0;
		for (size_t i = 1; i < P.t.size(); ++i)
			if (monoLess(P.t[lead].first, P.t[i].first)) lead = (int)i;
		if (sgn(P.t[lead].second) < 0) P = polyScale(P, Q(-1));
		static std::unordered_map<std::string, int> memo;
		int& v = memo[polyKey(P)];
		double m = std::max(std::fabs(a->lo), std::fabs(a->hi));
		if (!v) {
			v = newAtom("abs", 0, m, { a });
			Z3_ast z = polyZ3(P);
			VARS[v].defs.push_back(Z3_mk_eq(Z, VARS[v].z3, Z3_mk_ite(Z, Z3_mk_ge(Z, z, realD(0)), z, Z3_mk_unary_minus(Z, z))));
			Rule r;
			r.L = { { v, 2 } };
			r.R = polyMul(P, P);
			addRule(v, r);
		}
		FNode* n = atomNode(v, 0, 53);
		n->gran = a->gran;
		n->repr = a->repr;
		return n;
	}
	return nIte(Z3_mk_ge(Z, nodeZ3(a), realD(0)), a, nNeg(a));
}
static FNode* nSqrt(FNode* a, int prec) {
	if (a->tlo() < 0) {
		Z3_ast c = Z3_mk_ge(Z, nodeZ3(a), realD(0));
		if (!S->realMode || S->decided.count(c) || check(mkNot(c), nullptr, 2000) == Z3_L_TRUE) {
			if (!decide(c)) unsup("square root of a negative symbolic real");
		}
		else S->decided[c] = true;	// not negative, or undecided: only defined for others
	}
	auto key = std::make_pair(std::string("sqrt") + (S->realMode ? "r" : prec == 24 ? "f" : "d"), std::vector<uint64_t>{ a->id });
	auto it = opMemo.find(key);
	if (it != opMemo.end()) return it->second;
	Z3_ast z = nodeZ3(a);
	int v = newAtom("sqrt", 0, upb(std::sqrt(std::max(0.0, a->thi()))), { a });
	VARS[v].defs.push_back(Z3_mk_eq(Z, mul2(VARS[v].z3, VARS[v].z3), z));
	if (a->E == 0) {
		Rule r;
		r.L = { { v, 2 } };
		r.R = a->p;
		addRule(v, r);
	}
	double u = prec == 24 ? 0x1p-24 : 0x1p-53;
	FNode* n = atomNode(v, S->realMode ? 0 : upb(u * VARS[v].hi), prec);
	opMemo[key] = n;
	return n;
}

// square root u + iv of a + ib in exact arithmetic: u*u - v*v = a, 2*u*v = b, u >= 0
// (the sign of v on the negative real axis is left open)
static std::pair<FNode*, FNode*> nSqrtC(FNode* a, FNode* b) {
	auto ku = std::make_pair(std::string("csqrtu"), std::vector<uint64_t>{ a->id, b->id });
	auto kv = std::make_pair(std::string("csqrtv"), std::vector<uint64_t>{ a->id, b->id });
	if (opMemo.count(ku)) return { opMemo[ku], opMemo[kv] };
	if (a->E > 0 || b->E > 0) unsup("square root of an inexact complex value");
	Z3_ast za = nodeZ3(a), zb = nodeZ3(b);
	double m = upb(std::sqrt(upb(std::max(std::fabs(a->lo), std::fabs(a->hi)) + std::max(std::fabs(b->lo), std::fabs(b->hi)))));
	int v = newAtom("csqrti", -m, m, { a, b });
	int u = newAtom("csqrtr", 0, m, { a, b });
	Z3_ast zu = VARS[u].z3, zv = VARS[v].z3;
	for (int x : { u, v }) {
		VARS[x].defs.push_back(Z3_mk_eq(Z, sub2(mul2(zu, zu), mul2(zv, zv)), za));
		VARS[x].defs.push_back(Z3_mk_eq(Z, mul2(realD(2), mul2(zu, zv)), zb));
		VARS[x].defs.push_back(Z3_mk_ge(Z, zu, realD(0)));
	}
	VARS[v].deps.push_back(u);
	VARS[u].deps.push_back(v);
	PolyT pu = polyVar(u), pv = polyVar(v);
	PolyT hb = polyScale(b->p, Q(1, 2));
	Rule r1, r2, r3;
	r1.L = { { u, 2 } };
	r1.R = polyAdd(a->p, polyMul(pv, pv), 1);
	r2.L = { { v, 1 }, { u, 1 } };
	r2.R = hb;
	r3.L = { { v, 3 } };
	r3.R = polyAdd(polyMul(hb, pu), polyMul(a->p, pv), -1);
	addRule(u, r1);
	addRule(u, r2);
	addRule(v, r3);
	FNode* nu = atomNode(u, 0, 53);
	FNode* nv = atomNode(v, 0, 53);
	opMemo[ku] = nu;
	opMemo[kv] = nv;
	return { nu, nv };
}

// ------------------------------------------------------------------ FPA floats
static Z3_ast fpaNeg(Z3_ast x) {
	if (Z3_get_ast_kind(Z, x) == Z3_APP_AST) {
		Z3_app ap = Z3_to_app(Z, x);
		if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_FPA_NEG) return Z3_get_app_arg(Z, ap, 0);
	}
	return Z3_mk_fpa_neg(Z, x);
}
static Z3_sort fpaSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast RNE() {
	static Z3_ast r = Z3_mk_fpa_rne(Z);
	return r;
}
static Val mkFpa(Z3_ast fp, unsigned w, Z3_ast bv = nullptr) {
	Val v;
	v.k = V_FPA;
	v.w = w;
	v.fpa = new FpaNode{ fp, bv };
	return v;
}
static Z3_ast toFpa(const Val& v) {
	if (v.k == V_FPA) return v.fpa->fp;
	if (v.k == V_F32) return Z3_mk_fpa_numeral_float(Z, v.f, fpaSort(32));
	if (v.k == V_F64) return Z3_mk_fpa_numeral_double(Z, v.d, fpaSort(64));
	if (v.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value in floating point operation" };
	unsup("mixing floating point domains");
}

// ------------------------------------------------------------------ float operations on values
static Val fneg(const Val& a);
static Val fbin(unsigned op, const Val& a, const Val& b, unsigned w) {
	if (isF(a) && isF(b)) {
		if (w == 32) {
			float x = a.f, y = b.f;
			switch (op) {
				case Instruction::FAdd: return mkF32(x + y);
				case Instruction::FSub: return mkF32(x - y);
				case Instruction::FMul: return mkF32(x * y);
				case Instruction::FDiv: return mkF32(x / y);
				case Instruction::FRem: return mkF32(std::fmod(x, y));
			}
		}
		else {
			double x = a.d, y = b.d;
			switch (op) {
				case Instruction::FAdd: return mkF64(x + y);
				case Instruction::FSub: return mkF64(x - y);
				case Instruction::FMul: return mkF64(x * y);
				case Instruction::FDiv: return mkF64(x / y);
				case Instruction::FRem: return mkF64(std::fmod(x, y));
			}
		}
	}
	if (a.k == V_F80 || b.k == V_F80) {
		long double x = *a.ld, y = *b.ld;
		switch (op) {
			case Instruction::FAdd: return mkF80(x + y);
			case Instruction::FSub: return mkF80(x - y);
			case Instruction::FMul: return mkF80(x * y);
			case Instruction::FDiv: return mkF80(x / y);
		}
	}
	if (a.k == V_UNDEF || b.k == V_UNDEF) return Val();
	int prec = w == 32 ? 24 : 53;
	if (a.k == V_FPA || b.k == V_FPA) {
		// a factor or divisor of one is the identity, of minus one the negation
		if ((op == Instruction::FMul || op == Instruction::FDiv) && isF(b) && std::fabs(fval(b)) == 1) return fval(b) > 0 ? a : fneg(a);
		if (op == Instruction::FMul && isF(a) && std::fabs(fval(a)) == 1) return fval(a) > 0 ? b : fneg(b);
		Z3_ast x = toFpa(a), y = toFpa(b);
		// x-y is x+(-y); commutative operands in a canonical order (NaN payloads
		// are not distinguished by the theory)
		switch (op) {
			case Instruction::FSub:
				y = fpaNeg(y);
			case Instruction::FAdd:
				if (Z3_get_ast_id(Z, x) > Z3_get_ast_id(Z, y)) std::swap(x, y);
				return mkFpa(Z3_mk_fpa_add(Z, RNE(), x, y), w);
			case Instruction::FMul:
				if (Z3_get_ast_id(Z, x) > Z3_get_ast_id(Z, y)) std::swap(x, y);
				return mkFpa(Z3_mk_fpa_mul(Z, RNE(), x, y), w);
			case Instruction::FDiv: return mkFpa(Z3_mk_fpa_div(Z, RNE(), x, y), w);
		}
		unsup("frem on bit-precise floats");
	}
	if (a.k == V_SF || b.k == V_SF) {
		// a non-finite constant operand: only the cases with an evident result
		for (int s = 0; s < 2; ++s) {
			const Val& c = s ? b : a;
			if (isF(c) && !std::isfinite(fval(c))) {
				double d = fval(c);
				if (std::isnan(d)) return mkFP(NAN, w);
				if (op == Instruction::FAdd) return mkFP(d, w);
				if (op == Instruction::FSub) return mkFP(s ? -d : d, w);
				if (op == Instruction::FDiv && s) return mkFP(0, w);
				unsup("infinite constant times symbolic real");
			}
		}
		FNode *x = toNode(a), *y = toNode(b);
		switch (op) {
			case Instruction::FAdd: return mkSF(nAdd(x, y, prec, 1), w);
			case Instruction::FSub: return mkSF(nAdd(x, y, prec, -1), w);
			case Instruction::FMul: return mkSF(nMul(x, y, prec), w);
			case Instruction::FDiv: return mkSF(nDiv(x, y, prec), w);
			case Instruction::FRem: {
				if (!isF(b)) unsup("frem with symbolic divisor");
				FNode* q = nDiv(x, y, 53);
				int64_t k = splitInteger(q, 1);
				return mkSF(nAdd(x, nMul(constNode((double)k), y, 53), prec, -1), w);
			}
		}
	}
	unsup("floating point operation");
}
static Val fneg(const Val& a) {
	switch (a.k) {
		case V_F32: return mkF32(-a.f);
		case V_F64: return mkF64(-a.d);
		case V_F80: return mkF80(-*a.ld);
		case V_SF: return mkSF(nNeg(a.sf), a.w);
		case V_FPA: return mkFpa(fpaNeg(a.fpa->fp), a.w);
		case V_UNDEF: return Val();
		default: unsup("fneg");
	}
}
static Val fabsV(const Val& a) {
	switch (a.k) {
		case V_F32: return mkF32(std::fabs(a.f));
		case V_F64: return mkF64(std::fabs(a.d));
		case V_F80: return mkF80(fabsl(*a.ld));
		case V_SF: return mkSF(nAbs(a.sf), a.w);
		case V_FPA: return mkFpa(Z3_mk_fpa_abs(Z, a.fpa->fp), a.w);
		case V_UNDEF: return Val();
		default: unsup("fabs");
	}
}
static Val fcmp(unsigned pred, const Val& a, const Val& b) {
	if (a.k == V_UNDEF || b.k == V_UNDEF) return Val();
	if (pred == CmpInst::FCMP_FALSE) return mkInt(0, 1);
	if (pred == CmpInst::FCMP_TRUE) return mkInt(1, 1);
	bool conc = (isF(a) || a.k == V_F80) && (isF(b) || b.k == V_F80);
	if (conc) {
		long double x = a.k == V_F80 ? *a.ld : fval(a), y = b.k == V_F80 ? *b.ld : fval(b);
		bool uno = std::isnan(x) || std::isnan(y);
		bool r = (uno && (pred & 8)) || (!uno && (((pred & 1) && x == y) || ((pred & 2) && x > y) || ((pred & 4) && x < y)));
		return mkInt(r, 1);
	}
	if (a.k == V_FPA || b.k == V_FPA) {
		Z3_ast x = toFpa(a), y = toFpa(b);
		Z3_ast uno = mkOr(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y));
		Z3_ast r;
		switch (pred & 7) {
			case 0: r = Z3_mk_false(Z); break;
			case 1: r = Z3_mk_fpa_eq(Z, x, y); break;
			case 2: r = Z3_mk_fpa_gt(Z, x, y); break;
			case 3: r = Z3_mk_fpa_geq(Z, x, y); break;
			case 4: r = Z3_mk_fpa_lt(Z, x, y); break;
			case 5: r = Z3_mk_fpa_leq(Z, x, y); break;
			case 6: r = mkAnd(mkNot(uno), mkNot(Z3_mk_fpa_eq(Z, x, y))); break;
			default: r = mkNot(uno); break;
		}
		if (pred & 8) r = (pred & 7) == 0 ? uno : (pred & 7) == 6 ? mkNot(Z3_mk_fpa_eq(Z, x, y)) : mkOr(uno, r);
		return mkBool(r);
	}
	// real domain: all symbolic values are finite
	for (int s = 0; s < 2; ++s) {
		const Val& c = s ? b : a;
		if (isF(c) && !std::isfinite(fval(c))) {
			double d = fval(c);
			if (std::isnan(d)) return mkInt((pred & 8) != 0, 1);
			bool less = s ? d > 0 : d < 0;	// a < b
			return mkInt(less ? (pred & 4) != 0 : (pred & 2) != 0, 1);
		}
	}
	FNode *x = toNode(a), *y = toNode(b);
	if (S->generic) {
		// a computed value is not exactly zero (unless always)
		for (auto* c : { &a, &b })
			if (isF(*c) && fval(*c) == 0 && !(c == &a ? y : x)->p.isConst()) {
				if ((pred & 7) == 1) return mkInt(0, 1);
				if ((pred & 7) == 6) return mkInt(1, 1);
			}
	}
	switch (pred & 7) {
		case 0: return mkInt(0, 1);
		case 7: return mkInt(1, 1);
		case 1: return nCmp(x, y, 0);
		case 6: return negBool(nCmp(x, y, 0));
		case 4: return nCmp(x, y, 1);
		case 5: return nCmp(x, y, 2);
		case 2: return nCmp(y, x, 1);
		case 3: return nCmp(y, x, 2);
	}
	unsup("fcmp");
}

// ------------------------------------------------------------------ types
static TypeD* typeOf(Type* t) {
	TypeD*& d = typeCache[t];
	if (d) return d;
	TypeD* n = new TypeD;
	d = n;
	if (t->isVoidTy()) {
		n->k = T_VOID;
		return n;
	}
	if (t->isSized()) n->size = DL->getTypeStoreSize(t).getFixedValue();
	if (auto it = dyn_cast<IntegerType>(t)) {
		n->k = T_INT;
		n->w = it->getBitWidth();
	}
	else if (t->isFloatTy()) n->k = T_F32, n->w = 32;
	else if (t->isDoubleTy()) n->k = T_F64, n->w = 64;
	else if (t->isX86_FP80Ty()) n->k = T_F80, n->w = 80;
	else if (t->isPointerTy()) n->k = T_PTR, n->w = 64;
	else if (auto vt = dyn_cast<FixedVectorType>(t)) {
		n->k = T_VEC;
		n->n = vt->getNumElements();
		n->el = typeOf(vt->getElementType());
		n->stride = (n->el->w + 7) / 8;
		n->w = n->n * n->el->w;
	}
	else if (auto st = dyn_cast<StructType>(t)) {
		n->k = T_STRUCT;
		n->n = st->getNumElements();
		if (st->isSized()) {
			auto* sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < n->n; ++i) {
				n->fields.push_back(typeOf(st->getElementType(i)));
				n->offs.push_back(sl->getElementOffset(i).getFixedValue());
			}
		}
	}
	else if (auto at = dyn_cast<ArrayType>(t)) {
		n->k = T_ARRAY;
		n->n = at->getNumElements();
		n->el = typeOf(at->getElementType());
		n->stride = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
	}
	else {
		n->k = T_VOID;
	}
	return n;
}

// ------------------------------------------------------------------ memory access
static ObjRef materializeGlobal(uint64_t base, GlobalVariable* g);

static ObjRef* findObj(uint64_t addr, uint64_t& base) {
	if (addr >= 0x1000000000ull) {
		auto& h = S->heap;
		size_t lo = 0, hi = h.size();
		while (lo < hi) {
			size_t m = (lo + hi) / 2;
			if (h[m].first <= addr) lo = m + 1;
			else hi = m;
		}
		if (lo == 0) return nullptr;
		auto& e = h[lo - 1];
		base = e.first;
		return &e.second;
	}
	auto it = S->globals.upper_bound(addr);
	if (it != S->globals.begin()) {
		--it;
		if (addr < it->first + std::max<uint64_t>(1, it->second->size)) {
			base = it->first;
			return &it->second;
		}
	}
	auto g = gByAddr.upper_bound(addr);
	if (g == gByAddr.begin()) return nullptr;
	--g;
	ObjRef o = materializeGlobal(g->first, g->second);
	base = g->first;
	return &(S->globals[g->first] = o);
}
static std::string hex(uint64_t x) {
	char b[32];
	snprintf(b, sizeof b, "0x%llx", (unsigned long long)x);
	return b;
}
static Obj* access(uint64_t addr, uint64_t n, bool write, uint64_t& off) {
	uint64_t base = 0;
	ObjRef* r = findObj(addr, base);
	if (!r) throw EndPath{ E_MEM, std::string(write ? "write to" : "read from") + " invalid address " + hex(addr) };
	if (!*r) throw EndPath{ E_MEM, std::string(write ? "write to" : "read from") + " freed memory" };
	off = addr - base;
	Obj* o = r->get();
	if (off + n > o->size)
		throw EndPath{ E_MEM, std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of an object of " + std::to_string(o->size) + " bytes" };
	if (write) {
		if (o->ro) throw EndPath{ E_MEM, "write to constant memory" };
		if (r->use_count() > 1) {
			*r = std::make_shared<Obj>(*o);
			o = r->get();
		}
	}
	return o;
}
static uint64_t allocate(uint64_t size, uint64_t align, uint8_t kind, bool zero) {
	if (size > (1ull << 30)) throw EndPath{ E_MEM, "allocation of " + std::to_string(size) + " bytes" };
	if (align < 16) align = 16;
	uint64_t a = (S->next + align - 1) / align * align;
	if (align == 16 && (a & 31) == 0) a += 16;	// never better aligned than promised
	S->next = a + size + 192;
	auto o = std::make_shared<Obj>();
	o->size = size;
	o->kind = kind;
	o->data.assign(size, 0);
	if (!zero) {
		o->conc = size == 0;
		o->st.assign(size, 0);
	}
	S->heap.push_back({ a, o });
	return a;
}
static void release(uint64_t a, uint8_t kind) {
	uint64_t base = 0;
	ObjRef* r = findObj(a, base);
	if (!r || base != a || !*r) throw EndPath{ E_MEM, "free of an invalid pointer" };
	if ((*r)->kind != kind) throw EndPath{ E_MEM, "free of non-heap memory" };
	r->reset();
	S->dead++;
	if (S->dead > 256 && S->dead * 2 > S->heap.size()) {
		auto& h = S->heap;
		// keep heap tombstones out: later accesses are reported as invalid addresses
		h.erase(std::remove_if(h.begin(), h.end(), [](auto& e) { return !e.second; }), h.end());
		S->dead = 0;
	}
}
static void writeConc(Obj* o, uint64_t off, const void* src, uint64_t n) {
	memcpy(&o->data[off], src, n);
	if (!o->conc) memset(&o->st[off], 1, n);
}
static void writeCell(Obj* o, uint64_t off, const Cell& c) {
	o->needSt();
	if (c.v.k == V_INT) {
		o->data[off] = (uint8_t)c.v.i;
		o->st[off] = 1;
	}
	else if (c.v.k == V_UNDEF) o->st[off] = 0;
	else {
		if (o->cells.empty()) o->cells.resize(o->size);
		o->cells[off] = c;
		o->st[off] = 2;
	}
}
static Cell readCell(Obj* o, uint64_t off) {
	Cell c;
	if (o->conc || o->st[off] == 1) c.v = mkInt(o->data[off], 8);
	else if (o->st[off] == 2) c = o->cells[off];
	return c;
}
static void concBytes(const Val& v, uint8_t* out, unsigned n) {
	if (v.k == V_INT) memcpy(out, &v.i, n);
	else if (v.k == V_F32) memcpy(out, &v.f, 4);
	else if (v.k == V_F64) memcpy(out, &v.d, 8);
	else if (v.k == V_F80) memcpy(out, v.ld, 10);
}
static std::vector<Cell> cellsOf(const Val& v, unsigned n) {
	std::vector<Cell> c(n);
	if (v.k == V_BYTES) {
		for (unsigned i = 0; i < n; ++i) {
			if (i < v.by->c.size()) c[i] = v.by->c[i];
			else c[i].v = mkInt(0, 8);
		}
		return c;
	}
	if (v.k == V_UNDEF) return c;
	if (v.symbolic()) {
		for (unsigned i = 0; i < n; ++i) c[i].v = v, c[i].idx = i;
		return c;
	}
	uint8_t b[16] = { 0 };
	concBytes(v, b, n);
	for (unsigned i = 0; i < n; ++i) c[i].v = mkInt(b[i], 8);
	return c;
}
static Val assemble(const std::vector<Cell>& c, TypeD* t) {
	unsigned n = c.size();
	bool allc = true, und = false;
	for (auto& x : c) {
		if (x.v.k == V_UNDEF) und = true;
		if (x.v.k != V_INT) allc = false;
	}
	if (allc) {
		uint8_t b[16] = { 0 };
		if (n > 16) unsup("wide integer");
		for (unsigned i = 0; i < n; ++i) b[i] = (uint8_t)c[i].v.i;
		switch (t->k) {
			case T_F32: {
				float f;
				memcpy(&f, b, 4);
				return mkF32(f);
			}
			case T_F64: {
				double f;
				memcpy(&f, b, 8);
				return mkF64(f);
			}
			case T_F80: {
				long double f = 0;
				memcpy(&f, b, 10);
				return mkF80(f);
			}
			default: {
				if (n > 8) {
					std::vector<Cell> cc(c);
					return mkBytes(std::move(cc));
				}
				uint64_t u = 0;
				memcpy(&u, b, n);
				return mkInt(u, t->w);
			}
		}
	}
	if (und) {
		if (n <= 8 && (t->k == T_F32 || t->k == T_F64 || t->k == T_PTR)) return Val();
		bool allu = true;
		for (auto& x : c)
			if (x.v.k != V_UNDEF) allu = false;
		if (allu) return Val();
		std::vector<Cell> cc(c);
		return mkBytes(std::move(cc));
	}
	// a whole symbolic scalar?
	const Val& v0 = c[0].v;
	bool whole = v0.symbolic() && c[0].idx == 0 && (v0.w + 7) / 8 == n;
	for (unsigned i = 1; whole && i < n; ++i)
		if (c[i].v.k != v0.k || c[i].v.i != v0.i || c[i].idx != i) whole = false;
	if (t->k == T_F32 || t->k == T_F64) {
		if (whole && (v0.k == V_SF || v0.k == V_FPA)) return v0;
		Val tmp = mkBytes(std::vector<Cell>(c));
		Z3_ast bv = toBV(tmp);
		return mkFpa(Z3_mk_fpa_to_fp_bv(Z, bv, fpaSort(t->w)), t->w, bv);
	}
	if (whole && (v0.k == V_SINT)) return v0;
	if (whole && v0.k == V_SBOOL && t->w == 1) return v0;
	if (t->w % 8 != 0) {
		Val tmp = mkBytes(std::vector<Cell>(c));
		return mkSIntFull(Z3_mk_extract(Z, t->w - 1, 0, toBV(tmp)), t->w);
	}
	return mkBytes(std::vector<Cell>(c));
}
static Val loadT(uint64_t addr, TypeD* t);
static Val loadScalar(uint64_t addr, TypeD* t) {
	uint64_t off;
	unsigned n = t->k == T_F80 ? 10 : (t->w + 7) / 8;
	Obj* o = access(addr, n, false, off);
	if (o->conc && n <= 8) {
		uint64_t u = 0;
		memcpy(&u, &o->data[off], n);
		if (t->k == T_F32) {
			float f;
			memcpy(&f, &u, 4);
			return mkF32(f);
		}
		if (t->k == T_F64) {
			double f;
			memcpy(&f, &u, 8);
			return mkF64(f);
		}
		return mkInt(u, t->w);
	}
	if (n == 4 && t->k == T_F32 && o->st.size() && o->st[off] == 2) {
		const Cell& c0 = o->cells[off];
		if (c0.v.k == V_SF && c0.v.w == 32 && c0.idx == 0 && o->st[off + 3] == 2 && o->cells[off + 3].v.i == c0.v.i && o->cells[off + 3].v.k == V_SF && o->cells[off + 3].idx == 3 && o->st[off + 1] == 2 && o->st[off + 2] == 2 && o->cells[off + 1].v.i == c0.v.i && o->cells[off + 2].v.i == c0.v.i) return c0.v;
	}
	std::vector<Cell> c(n);
	for (unsigned i = 0; i < n; ++i) c[i] = readCell(o, off + i);
	return assemble(c, t);
}
static Val loadT(uint64_t addr, TypeD* t) {
	switch (t->k) {
		case T_VEC: {
			if (t->el->w % 8) {
				// packed bits
				uint64_t off;
				Obj* o = access(addr, t->size, false, off);
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) {
					if (t->el->w != 1) unsup("packed vector load");
					Cell c = readCell(o, off + i / 8);
					if (c.v.k != V_INT) unsup("symbolic packed vector load");
					r[i] = mkInt((c.v.i >> (i % 8)) & 1, 1);
				}
				return mkAgg(std::move(r));
			}
			std::vector<Val> r(t->n);
			uint64_t off;
			access(addr, t->size, false, off);
			for (unsigned i = 0; i < t->n; ++i) r[i] = loadScalar(addr + i * t->stride, t->el);
			return mkAgg(std::move(r));
		}
		case T_STRUCT: {
			std::vector<Val> r(t->n);
			for (unsigned i = 0; i < t->n; ++i) r[i] = loadT(addr + t->offs[i], t->fields[i]);
			return mkAgg(std::move(r));
		}
		case T_ARRAY: {
			std::vector<Val> r(t->n);
			for (unsigned i = 0; i < t->n; ++i) r[i] = loadT(addr + i * t->stride, t->el);
			return mkAgg(std::move(r));
		}
		case T_VOID: unsup("load of odd type");
		default: return loadScalar(addr, t);
	}
}
static void storeScalar(uint64_t addr, const Val& v, TypeD* t) {
	uint64_t off;
	unsigned n = t->k == T_F80 ? 10 : (t->w + 7) / 8;
	Obj* o = access(addr, n, true, off);
	if (v.k == V_INT || v.k == V_F32 || v.k == V_F64 || v.k == V_F80) {
		if (n > 8 && v.k == V_INT) {
			uint8_t b[16] = { 0 };
			memcpy(b, &v.i, 8);
			writeConc(o, off, b, n);
			return;
		}
		uint8_t b[16];
		concBytes(v, b, n);
		writeConc(o, off, b, n);
		return;
	}
	Val x = v;
	if (x.k == V_SBOOL) {
		x = mkSIntFull(Z3_mk_ite(Z, v.b, bvc(1, 8), bvc(0, 8)), 8);
		if (x.k == V_INT) {
			uint8_t b = x.i;
			writeConc(o, off, &b, 1);
			return;
		}
	}
	else if (x.k == V_SINT && x.w % 8) x = mkSIntFull(Z3_mk_zero_ext(Z, n * 8 - x.w, x.in->bv), n * 8);
	auto c = cellsOf(x, n);
	for (unsigned i = 0; i < n; ++i) writeCell(o, off + i, c[i]);
}
static void storeT(uint64_t addr, const Val& v, TypeD* t) {
	if (t->k == T_VEC || t->k == T_STRUCT || t->k == T_ARRAY) {
		uint64_t off;
		if (t->size) access(addr, t->size, true, off);
		if (t->k == T_VEC && t->el->w % 8) {
			std::vector<uint8_t> b(t->size, 0);
			for (unsigned i = 0; i < t->n; ++i) {
				uint64_t bit = v.k == V_AGG ? concretize(v.agg->v[i]) : 0;
				b[i / 8] |= (bit & 1) << (i % 8);
			}
			uint64_t o2;
			Obj* o = access(addr, t->size, true, o2);
			writeConc(o, o2, b.data(), b.size());
			return;
		}
		for (unsigned i = 0; i < t->n; ++i) {
			uint64_t a = addr + (t->k == T_STRUCT ? t->offs[i] : i * t->stride);
			storeT(a, v.k == V_AGG ? v.agg->v[i] : Val(), t->k == T_STRUCT ? t->fields[i] : t->el);
		}
		return;
	}
	storeScalar(addr, v, t);
}
static void copyMem(uint64_t dst, uint64_t src, uint64_t n) {
	if (n == 0) return;
	uint64_t so, dof;
	Obj* s = access(src, n, false, so);
	if (s->conc) {
		std::vector<uint8_t> tmp(s->data.begin() + so, s->data.begin() + so + n);
		Obj* d = access(dst, n, true, dof);
		writeConc(d, dof, tmp.data(), n);
		return;
	}
	std::vector<Cell> tmp(n);
	for (uint64_t i = 0; i < n; ++i) tmp[i] = readCell(s, so + i);
	Obj* d = access(dst, n, true, dof);
	for (uint64_t i = 0; i < n; ++i) writeCell(d, dof + i, tmp[i]);
}
static std::string readStr(uint64_t a) {
	std::string s;
	for (;;) {
		uint64_t off;
		Obj* o = access(a++, 1, false, off);
		Cell c = readCell(o, off);
		if (c.v.k != V_INT) unsup("symbolic string");
		if (c.v.i == 0) return s;
		s += (char)c.v.i;
	}
}

// ------------------------------------------------------------------ constants
static Val evalConst(Constant* c);
static uint64_t addrOf(const GlobalValue* g) {
	auto it = gAddr.find(g);
	if (it != gAddr.end()) return it->second;
	if (auto* ga = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(ga->getAliaseeObject()));
	unsup("address of unknown global " + g->getName().str());
}
static Val undefOf(TypeD* t) {
	if (t->k == T_VEC || t->k == T_STRUCT || t->k == T_ARRAY) {
		std::vector<Val> r(t->n);
		for (unsigned i = 0; i < t->n; ++i) r[i] = undefOf(t->k == T_STRUCT ? t->fields[i] : t->el);
		return mkAgg(std::move(r));
	}
	return Val();
}
static Val zeroOf(TypeD* t) {
	switch (t->k) {
		case T_INT:
		case T_PTR:
			if (t->w > 64) {
				std::vector<Cell> c(t->w / 8);
				for (auto& x : c) x.v = mkInt(0, 8);
				return mkBytes(std::move(c));
			}
			return mkInt(0, t->w);
		case T_F32: return mkF32(0);
		case T_F64: return mkF64(0);
		case T_F80: return mkF80(0);
		case T_VOID: return Val();
		default: {
			std::vector<Val> r(t->n);
			for (unsigned i = 0; i < t->n; ++i) r[i] = zeroOf(t->k == T_STRUCT ? t->fields[i] : t->el);
			return mkAgg(std::move(r));
		}
	}
}
static Val evalConst(Constant* c) {
	TypeD* t = typeOf(c->getType());
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		if (t->w > 64) {
			std::vector<Cell> cc((t->w + 7) / 8);
			APInt v = ci->getValue();
			for (size_t i = 0; i < cc.size(); ++i) cc[i].v = mkInt(v.extractBitsAsZExtValue(std::min<unsigned>(8, t->w - i * 8), i * 8), 8);
			return mkBytes(std::move(cc));
		}
		return mkInt(ci->getZExtValue(), t->w);
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		if (t->k == T_F32) return mkF32(cf->getValueAPF().convertToFloat());
		if (t->k == T_F64) return mkF64(cf->getValueAPF().convertToDouble());
		if (t->k == T_F80) {
			APInt b = cf->getValueAPF().bitcastToAPInt();
			long double ld = 0;
			uint64_t lo = b.extractBitsAsZExtValue(64, 0), hi = b.extractBitsAsZExtValue(16, 64);
			memcpy(&ld, &lo, 8);
			memcpy((char*)&ld + 8, &hi, 2);
			return mkF80(ld);
		}
		unsup("float constant");
	}
	if (isa<UndefValue>(c)) return undefOf(t);
	if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
	if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
		std::vector<Val> r(cds->getNumElements());
		for (unsigned i = 0; i < r.size(); ++i) r[i] = evalConst(cds->getElementAsConstant(i));
		return mkAgg(std::move(r));
	}
	if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
		std::vector<Val> r(ca->getNumOperands());
		for (unsigned i = 0; i < r.size(); ++i) r[i] = evalConst(ca->getOperand(i));
		return mkAgg(std::move(r));
	}
	if (auto* g = dyn_cast<GlobalValue>(c)) return mkInt(addrOf(g), 64);
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: {
				APInt off(64, 0);
				if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsup("constant gep");
				Val b = evalConst(ce->getOperand(0));
				return mkInt(b.i + off.getSExtValue(), 64);
			}
			case Instruction::PtrToInt:
			case Instruction::IntToPtr:
			case Instruction::BitCast:
			case Instruction::AddrSpaceCast: {
				Val b = evalConst(ce->getOperand(0));
				if (b.k == V_INT && (t->k == T_INT || t->k == T_PTR)) return mkInt(b.i, t->w);
				return b;
			}
			case Instruction::Add: return mkInt(evalConst(ce->getOperand(0)).i + evalConst(ce->getOperand(1)).i, t->w);
			case Instruction::Sub: return mkInt(evalConst(ce->getOperand(0)).i - evalConst(ce->getOperand(1)).i, t->w);
			case Instruction::Trunc: return mkInt(evalConst(ce->getOperand(0)).i, t->w);
			default: break;
		}
		std::string s;
		raw_string_ostream os(s);
		ce->print(os);
		unsup("constant expression " + s);
	}
	unsup("constant");
}
static ObjRef materializeGlobal(uint64_t, GlobalVariable* g) {
	auto o = std::make_shared<Obj>();
	o->size = DL->getTypeAllocSize(g->getValueType()).getFixedValue();
	o->kind = 2;
	o->data.assign(o->size, 0);
	if (g->hasInitializer() && !g->getInitializer()->isNullValue()) {
		// store through a temporary location
		std::function<void(Constant*, uint64_t)> put = [&](Constant* c, uint64_t off) {
			Type* t = c->getType();
			TypeD* td = typeOf(t);
			if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
			if (td->k == T_STRUCT || td->k == T_ARRAY || td->k == T_VEC) {
				for (unsigned i = 0; i < td->n; ++i) {
					Constant* e = c->getAggregateElement(i);
					put(e, off + (td->k == T_STRUCT ? td->offs[i] : i * td->stride));
				}
				return;
			}
			Val v;
			try {
				v = evalConst(c);
			}
			catch (EndPath&) {
				v = mkInt(0, 64);
			}
			uint8_t b[16] = { 0 };
			if (v.k == V_BYTES) {
				for (size_t i = 0; i < v.by->c.size(); ++i) o->data[off + i] = v.by->c[i].v.i;
				return;
			}
			unsigned n = td->k == T_F80 ? 10 : (td->w + 7) / 8;
			concBytes(v, b, n);
			memcpy(&o->data[off], b, n);
		};
		put(g->getInitializer(), 0);
	}
	o->ro = g->isConstant();
	return o;
}
static Opnd opnd(Value* v, std::unordered_map<Value*, int>& regs) {
	if (auto* c = dyn_cast<Constant>(v)) {
		auto it = constIdx.find(c);
		if (it != constIdx.end()) return Opnd{ ~it->second };
		Val cv;
		try {
			cv = evalConst(c);
		}
		catch (EndPath&) {
		}
		consts.push_back(cv);
		constIdx[c] = (int)consts.size() - 1;
		return Opnd{ ~((int)consts.size() - 1) };
	}
	auto it = regs.find(v);
	if (it == regs.end()) return Opnd{ ~0x3fffffff };
	return Opnd{ it->second };
}
static FnD* decode(Function* F) {
	FnD*& d = fnds[F];
	if (d) return d;
	FnD* f = new FnD;
	f->F = F;
	std::unordered_map<Value*, int> regs;
	for (auto& a : F->args()) regs[&a] = f->nregs++;
	int bi = 0;
	for (auto& bb : *F) {
		f->bbIdx[&bb] = bi++;
		for (auto& i : bb)
			if (!i.getType()->isVoidTy()) regs[&i] = f->nregs++;
	}
	for (auto& bb : *F) {
		BBD b;
		b.first = (int)f->code.size();
		for (auto& i : bb) {
			DInst di;
			di.I = &i;
			di.op = i.getOpcode();
			if (!i.getType()->isVoidTy()) di.dst = regs[&i];
			di.ty = typeOf(i.getType());
			if (auto* phi = dyn_cast<PHINode>(&i)) {
				b.nphi++;
				for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) {
					di.ops.push_back(opnd(phi->getIncomingValue(k), regs));
					di.idx.push_back(f->bbIdx[phi->getIncomingBlock(k)]);
				}
			}
			else if (auto* gep = dyn_cast<GetElementPtrInst>(&i)) {
				di.ops.push_back(opnd(gep->getPointerOperand(), regs));
				for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
					Value* op = it.getOperand();
					if (auto* st = it.getStructTypeOrNull()) {
						di.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()).getFixedValue();
						continue;
					}
					int64_t sz = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
					if (auto* ci = dyn_cast<ConstantInt>(op)) di.gepOff += sz * ci->getSExtValue();
					else di.gepIdx.push_back({ opnd(op, regs), sz });
				}
				if (i.getType()->isVectorTy()) di.op = 10000;
			}
			else if (auto* cb = dyn_cast<CallBase>(&i)) {
				for (auto& a : cb->args()) di.ops.push_back(isa<MetadataAsValue>(a.get()) ? Opnd{ ~0x3fffffff } : opnd(a.get(), regs));
				di.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				if (!di.callee) {
					if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) di.callee = dyn_cast<Function>(ga->getAliaseeObject());
				}
				if (!di.callee && !cb->isInlineAsm()) di.ops.push_back(opnd(cb->getCalledOperand(), regs));
				if (di.callee) di.intr = di.callee->getIntrinsicID();
				if (auto* inv = dyn_cast<InvokeInst>(&i)) di.b0 = f->bbIdx[inv->getNormalDest()];
			}
			else if (auto* br = dyn_cast<BranchInst>(&i)) {
				if (br->isConditional()) {
					di.ops.push_back(opnd(br->getCondition(), regs));
					di.b0 = f->bbIdx[br->getSuccessor(0)];
					di.b1 = f->bbIdx[br->getSuccessor(1)];
				}
				else di.b0 = f->bbIdx[br->getSuccessor(0)];
			}
			else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
				di.ops.push_back(opnd(sw->getCondition(), regs));
				di.b0 = f->bbIdx[sw->getDefaultDest()];
				for (auto& cs : sw->cases()) {
					di.gepIdx.push_back({ Opnd{ (int)f->bbIdx[cs.getCaseSuccessor()] }, (int64_t)cs.getCaseValue()->getZExtValue() });
				}
			}
			else {
				for (auto& o : i.operands()) {
					if (isa<BasicBlock>(o.get())) continue;
					di.ops.push_back(opnd(o.get(), regs));
				}
				if (auto* ev = dyn_cast<ExtractValueInst>(&i)) di.idx.assign(ev->idx_begin(), ev->idx_end());
				if (auto* iv = dyn_cast<InsertValueInst>(&i)) di.idx.assign(iv->idx_begin(), iv->idx_end());
				if (auto* sv = dyn_cast<ShuffleVectorInst>(&i))
					for (int m : sv->getShuffleMask()) di.idx.push_back((unsigned)m);
				if (auto* st = dyn_cast<StoreInst>(&i)) {
					di.ty2 = typeOf(st->getValueOperand()->getType());
					di.align = st->getAlign().value();
				}
				if (auto* ld = dyn_cast<LoadInst>(&i)) di.align = ld->getAlign().value();
				if (auto* al = dyn_cast<AllocaInst>(&i)) {
					di.gepOff = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
					di.align = al->getAlign().value();
				}
				if (auto* cmp = dyn_cast<CmpInst>(&i)) di.intr = cmp->getPredicate();
				if (i.getNumOperands()) di.ty2 = di.ty2 ? di.ty2 : typeOf(i.getOperand(0)->getType());
			}
			f->code.push_back(std::move(di));
		}
		f->bbs.push_back(b);
	}
	d = f;
	return f;
}
#include "exec.inc"
