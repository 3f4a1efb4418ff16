// ------------------------------------------------------------------ integer operations
static Val ibin(unsigned op, const Val& a, const Val& b, unsigned w);

static bool bytesLike(const Val& v) { return v.k == V_BYTES; }
static bool allZero(const Val& v) { return v.k == V_INT && v.i == 0; }
static Val bytesNorm(Val v, TypeD* t) {	 // re-assemble, so that concrete bytes become an integer
	if (v.k != V_BYTES) return v;
	return assemble(v.by->c, t);
}
static const Val* wholeFloat(const Val& v) {
	if (v.k != V_BYTES) return nullptr;
	auto& c = v.by->c;
	const Val& f = c[0].v;
	if (f.k != V_SF && f.k != V_FPA) return nullptr;
	if (f.w != c.size() * 8) return nullptr;
	for (size_t i = 0; i < c.size(); ++i)
		if (c[i].v.k != f.k || c[i].v.i != f.i || c[i].idx != i) return nullptr;
	return &f;
}
static Val floatBits(const Val& f) { return mkBytes(cellsOf(f, f.w / 8)); }
static TypeD* intT(unsigned w) {
	static std::map<unsigned, TypeD*> m;
	TypeD*& t = m[w];
	if (!t) {
		t = new TypeD;
		t->k = T_INT;
		t->w = w;
		t->size = (w + 7) / 8;
	}
	return t;
}
static Val bytesBit(unsigned op, Val a, Val b, unsigned w) {
	if (a.k != V_BYTES) std::swap(a, b);
	if (b.k == V_SINT || b.k == V_SBOOL) {
		// masks: decide them
		bool mask = b.k == V_SBOOL || true;
		(void)mask;
		if (wholeFloat(a) && wholeFloat(a)->k == V_SF) {
			uint64_t m = concretize(b);
			b = mkInt(m, w);
		}
		else b = mkBytes(cellsOf(b, w / 8));
	}
	if (b.k == V_INT) {
		const Val* f = wholeFloat(a);
		uint64_t sign = 1ull << (w - 1), ones = maskw(~0ull, w);
		if (op == Instruction::And) {
			if (b.i == 0) return mkInt(0, w);
			if (b.i == ones) return a;
			if (f && b.i == (ones ^ sign)) return isF(fabsV(*f)) ? ibin(op, a, b, w) : floatBits(fabsV(*f));
			if (f && f->k == V_SF && b.i == sign) {
				Val neg = nCmp(f->sf, constNode(0), 1);
				return mkInt(decideVal(neg) ? sign : 0, w);
			}
		}
		if (op == Instruction::Xor) {
			if (b.i == 0) return a;
			if (f && b.i == sign) {
				Val n = fneg(*f);
				if (!isF(n)) return floatBits(n);
			}
		}
		if (op == Instruction::Or) {
			if (b.i == 0) return a;
			if (f && b.i == sign && f->k == V_SF) {
				Val n = fneg(fabsV(*f));
				if (!isF(n)) return floatBits(n);
			}
		}
		b = mkBytes(cellsOf(b, w / 8));
	}
	if (b.k != V_BYTES) unsup("bit operation on bytes");
	// byte-wise with constants on one side
	std::vector<Cell> r(w / 8);
	bool ok = true;
	for (size_t i = 0; i < r.size() && ok; ++i) {
		Cell x = a.by->c[i], y = b.by->c[i];
		if (x.v.k == V_INT) std::swap(x, y);
		if (x.v.k == V_INT) {
			uint64_t q = op == Instruction::And ? x.v.i & y.v.i : op == Instruction::Or ? x.v.i | y.v.i : x.v.i ^ y.v.i;
			r[i].v = mkInt(q, 8);
		}
		else if (y.v.k == V_INT && op == Instruction::And && y.v.i == 0) r[i].v = mkInt(0, 8);
		else if (y.v.k == V_INT && op == Instruction::And && y.v.i == 0xff) r[i] = x;
		else if (y.v.k == V_INT && op != Instruction::And && y.v.i == 0) r[i] = x;
		else if (x.v.k == V_UNDEF || y.v.k == V_UNDEF) r[i] = Cell();
		else ok = false;
	}
	if (ok) return assemble(r, intT(w));
	Z3_ast x = toBV(a), y = toBV(b);
	return mkSIntFull(op == Instruction::And ? Z3_mk_bvand(Z, x, y) : op == Instruction::Or ? Z3_mk_bvor(Z, x, y) : Z3_mk_bvxor(Z, x, y), w);
}
static Val ibin(unsigned op, const Val& a0, const Val& b0, unsigned w) {
	if (a0.k == V_INT && b0.k == V_INT && w <= 64) {
		uint64_t a = a0.i, b = b0.i;
		int64_t sa = sxt(a, w), sb = sxt(b, w);
		switch (op) {
			case Instruction::Add: return mkInt(a + b, w);
			case Instruction::Sub: return mkInt(a - b, w);
			case Instruction::Mul: return mkInt(a * b, w);
			case Instruction::UDiv:
				if (!b) throw EndPath{ E_TRAP, "integer division by zero" };
				return mkInt(a / b, w);
			case Instruction::URem:
				if (!b) throw EndPath{ E_TRAP, "integer division by zero" };
				return mkInt(a % b, w);
			case Instruction::SDiv:
				if (!b) throw EndPath{ E_TRAP, "integer division by zero" };
				if (sb == -1) return mkInt(-(uint64_t)sa, w);
				return mkInt(sa / sb, w);
			case Instruction::SRem:
				if (!b) throw EndPath{ E_TRAP, "integer division by zero" };
				if (sb == -1) return mkInt(0, w);
				return mkInt(sa % sb, w);
			case Instruction::And: return mkInt(a & b, w);
			case Instruction::Or: return mkInt(a | b, w);
			case Instruction::Xor: return mkInt(a ^ b, w);
			case Instruction::Shl: return mkInt(b >= w ? 0 : a << b, w);
			case Instruction::LShr: return mkInt(b >= w ? 0 : a >> b, w);
			case Instruction::AShr: return mkInt(sa >> (b >= w ? w - 1 : b), w);
		}
	}
	if (a0.k == V_UNDEF || b0.k == V_UNDEF) {
		if (op == Instruction::And && (allZero(a0) || allZero(b0))) return mkInt(0, w);
		return Val();
	}
	bool bit = op == Instruction::And || op == Instruction::Or || op == Instruction::Xor;
	if (w == 1 && bit) {
		if (a0.k == V_INT || b0.k == V_INT) {
			const Val& c = a0.k == V_INT ? a0 : b0;
			const Val& x = a0.k == V_INT ? b0 : a0;
			if (op == Instruction::And) return c.i ? x : mkInt(0, 1);
			if (op == Instruction::Or) return c.i ? mkInt(1, 1) : x;
			return c.i ? negBool(x) : x;
		}
		Z3_ast x = toBool(a0), y = toBool(b0);
		return mkBool(op == Instruction::And ? mkAnd(x, y) : op == Instruction::Or ? mkOr(x, y) : Z3_mk_xor(Z, x, y));
	}
	if (bytesLike(a0) || bytesLike(b0)) {
		if (bit) return bytesBit(op, a0, b0, w);
		if ((op == Instruction::Shl || op == Instruction::LShr) && a0.k == V_BYTES && b0.k != V_SINT) {
			uint64_t sh = b0.k == V_INT ? b0.i : maskw(concretize(bytesNorm(b0, intT(64))), 64);
			if (b0.k == V_BYTES) {
				sh = 0;
				for (size_t i = 0; i < 8 && i < b0.by->c.size(); ++i) sh |= b0.by->c[i].v.i << (8 * i);
			}
			if (sh % 8 == 0) {
				std::vector<Cell> r(w / 8);
				for (size_t i = 0; i < r.size(); ++i) {
					int64_t src = op == Instruction::Shl ? (int64_t)i - (int64_t)sh / 8 : (int64_t)i + (int64_t)sh / 8;
					if (src >= 0 && src < (int64_t)r.size()) r[i] = a0.by->c[src];
					else r[i].v = mkInt(0, 8);
				}
				return assemble(r, intT(w));
			}
		}
		if (w > 64) {
			// wide concrete arithmetic
			unsigned __int128 x = 0, y = 0;
			auto wide = [&](const Val& v) {
				unsigned __int128 q = 0;
				if (v.k == V_INT) return (unsigned __int128)v.i;
				for (size_t i = 0; i < v.by->c.size(); ++i) {
					if (v.by->c[i].v.k != V_INT) unsup("wide symbolic arithmetic");
					q |= (unsigned __int128)v.by->c[i].v.i << (8 * i);
				}
				return q;
			};
			x = wide(a0), y = wide(b0);
			unsigned __int128 r;
			switch (op) {
				case Instruction::Add: r = x + y; break;
				case Instruction::Sub: r = x - y; break;
				case Instruction::Mul: r = x * y; break;
				case Instruction::Shl: r = x << (unsigned)y; break;
				case Instruction::LShr: r = x >> (unsigned)y; break;
				case Instruction::UDiv: r = x / y; break;
				case Instruction::URem: r = x % y; break;
				default: unsup("wide arithmetic");
			}
			std::vector<Cell> c(w / 8);
			for (size_t i = 0; i < c.size(); ++i) c[i].v = mkInt((uint64_t)(r >> (8 * i)) & 255, 8);
			return mkBytes(std::move(c));
		}
	}
	if (w > 64) unsup("wide symbolic integer");
	Val A = a0, B = b0;
	if (A.k == V_BYTES) A = mkSIntFull(toBV(A), w);
	if (B.k == V_BYTES) B = mkSIntFull(toBV(B), w);
	if (A.k == V_INT && B.k == V_INT) return ibin(op, A, B, w);
	i128 al, ah, bl, bh;
	rangeOf(A, al, ah);
	rangeOf(B, bl, bh);
	Z3_ast x = toBV(A), y = toBV(B);
	auto nar = [&](auto f, i128 lo, i128 hi) {	// compute f in the smallest width that is exact
		unsigned nb = std::max(bitsFor(al, ah), std::max(bitsFor(bl, bh), bitsFor(lo, hi)));
		if (nb >= w) return mkSInt(f(x, y), w, lo, hi);
		return mkSInt(sext(f(narrow(x, w, nb), narrow(y, w, nb)), nb, w), w, lo, hi);
	};
	i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
	switch (op) {
		case Instruction::Add:
			if (B.k == V_INT && B.i == 0) return A;
			if (A.k == V_INT && A.i == 0) return B;
			if (al + bl < mn || ah + bh > mx) return mkSInt(Z3_mk_bvadd(Z, x, y), w, mn, mx);
			return nar([](Z3_ast p, Z3_ast q) { return Z3_mk_bvadd(Z, p, q); }, al + bl, ah + bh);
		case Instruction::Sub:
			if (B.k == V_INT && B.i == 0) return A;
			if (x == y) return mkInt(0, w);
			if (al - bh < mn || ah - bl > mx) return mkSInt(Z3_mk_bvsub(Z, x, y), w, mn, mx);
			return nar([](Z3_ast p, Z3_ast q) { return Z3_mk_bvsub(Z, p, q); }, al - bh, ah - bl);
		case Instruction::Mul: {
			if (A.k == V_INT && A.i == 1) return B;
			if (B.k == V_INT && B.i == 1) return A;
			if (allZero(A) || allZero(B)) return mkInt(0, w);
			bool big = bitsFor(al, ah) + bitsFor(bl, bh) > 120;
			i128 lo = mn - 1, hi = mx + 1;
			if (!big) {
				i128 q[4] = { al * bl, al * bh, ah * bl, ah * bh };
				lo = *std::min_element(q, q + 4);
				hi = *std::max_element(q, q + 4);
			}
			if (lo < mn || hi > mx) return mkSInt(Z3_mk_bvmul(Z, x, y), w, mn, mx);
			return nar([](Z3_ast p, Z3_ast q) { return Z3_mk_bvmul(Z, p, q); }, lo, hi);
		}
		case Instruction::SDiv:
		case Instruction::SRem:
		case Instruction::UDiv:
		case Instruction::URem: {
			bool sg = op == Instruction::SDiv || op == Instruction::SRem;
			if (B.k != V_INT || B.i == 0) {
				if (!(bl > 0 || bh < 0) || B.k == V_INT)
					if (decide(Z3_mk_eq(Z, y, bvc(0, w)))) throw EndPath{ E_TRAP, "integer division by zero" };
			}
			if (!sg && (al < 0 || bl < 0)) {
				Z3_ast r = op == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : Z3_mk_bvurem(Z, x, y);
				return mkSIntFull(r, w);
			}
			if (B.k == V_INT && sxt(B.i, w) == 1) return op == Instruction::SDiv || op == Instruction::UDiv ? A : mkInt(0, w);
			bool dv = op == Instruction::SDiv || op == Instruction::UDiv;
			i128 m = std::max(al < 0 ? -al : al, ah < 0 ? -ah : ah);
			i128 bm = std::max(bl < 0 ? -bl : bl, bh < 0 ? -bh : bh);
			i128 lo, hi;
			if (dv) {
				bool neg = (al < 0) || (bl < 0);
				hi = m;
				lo = neg ? -m : 0;
			}
			else {
				hi = ah > 0 ? std::min(m, bm) : 0;
				lo = al < 0 ? -std::min(m, bm) : 0;
			}
			if (lo < mn) lo = mn;
			if (hi > mx) hi = mx;
			auto f = [&](Z3_ast p, Z3_ast q) { return dv ? Z3_mk_bvsdiv(Z, p, q) : Z3_mk_bvsrem(Z, p, q); };
			unsigned nb = std::max(bitsFor(al, ah), bitsFor(bl, bh)) + 1;
			if (nb >= w) return mkSInt(sg ? f(x, y) : (dv ? Z3_mk_bvudiv(Z, x, y) : Z3_mk_bvurem(Z, x, y)), w, lo, hi);
			return mkSInt(sext(f(narrow(x, w, nb), narrow(y, w, nb)), nb, w), w, lo, hi);
		}
		case Instruction::And: {
			if (allZero(A) || allZero(B)) return mkInt(0, w);
			i128 lo = mn, hi = mx;
			if (al >= 0 && bl >= 0) lo = 0, hi = std::min(ah, bh);
			else if (al >= 0) lo = 0, hi = ah;
			else if (bl >= 0) lo = 0, hi = bh;
			return mkSInt(Z3_mk_bvand(Z, x, y), w, lo, hi);
		}
		case Instruction::Or: {
			if (allZero(A)) return B;
			if (allZero(B)) return A;
			if (al >= 0 && bl >= 0) {
				unsigned nb = std::max(bitsFor(0, ah), bitsFor(0, bh));
				return mkSInt(Z3_mk_bvor(Z, x, y), w, 0, ((i128)1 << (nb - 1)) - 1);
			}
			return mkSInt(Z3_mk_bvor(Z, x, y), w, mn, mx);
		}
		case Instruction::Xor: {
			if (x == y) return mkInt(0, w);
			if (B.k == V_INT && sxt(B.i, w) == -1) return mkSInt(Z3_mk_bvnot(Z, x), w, -ah - 1, -al - 1);
			unsigned nb = std::max(bitsFor(al, ah), bitsFor(bl, bh));
			i128 h = ((i128)1 << (nb - 1)) - 1;
			return mkSInt(Z3_mk_bvxor(Z, x, y), w, al >= 0 && bl >= 0 ? 0 : -h - 1, h);
		}
		case Instruction::Shl: {
			if (B.k == V_INT) {
				if (B.i == 0) return A;
				if (B.i >= w) return Val();
				i128 f = (i128)1 << B.i;
				if (bitsFor(al, ah) + B.i <= w) return mkSInt(Z3_mk_bvshl(Z, x, y), w, al * f, ah * f);
			}
			return mkSInt(Z3_mk_bvshl(Z, x, y), w, mn, mx);
		}
		case Instruction::LShr: {
			if (B.k == V_INT && B.i == 0) return A;
			if (al >= 0 && B.k == V_INT && B.i < w) return mkSInt(Z3_mk_bvlshr(Z, x, y), w, al >> B.i, ah >> B.i);
			if (al >= 0) return mkSInt(Z3_mk_bvlshr(Z, x, y), w, 0, ah);
			if (B.k == V_INT && B.i < w) {
				i128 h = ((i128)1 << (w - B.i)) - 1;
				return mkSInt(Z3_mk_bvlshr(Z, x, y), w, 0, h);
			}
			return mkSInt(Z3_mk_bvlshr(Z, x, y), w, mn, mx);
		}
		case Instruction::AShr:
			if (B.k == V_INT && B.i < w) return mkSInt(Z3_mk_bvashr(Z, x, y), w, al >> B.i, ah >> B.i);
			return mkSInt(Z3_mk_bvashr(Z, x, y), w, std::min(al, (i128)0), std::max(ah, (i128)0));
	}
	unsup("integer operation");
}
static Val icmp(unsigned p, const Val& a0, const Val& b0, unsigned w) {
	if (a0.k == V_INT && b0.k == V_INT) {
		uint64_t a = a0.i, b = b0.i;
		int64_t sa = sxt(a, w), sb = sxt(b, w);
		switch (p) {
			case CmpInst::ICMP_EQ: return mkInt(a == b, 1);
			case CmpInst::ICMP_NE: return mkInt(a != b, 1);
			case CmpInst::ICMP_UGT: return mkInt(a > b, 1);
			case CmpInst::ICMP_UGE: return mkInt(a >= b, 1);
			case CmpInst::ICMP_ULT: return mkInt(a < b, 1);
			case CmpInst::ICMP_ULE: return mkInt(a <= b, 1);
			case CmpInst::ICMP_SGT: return mkInt(sa > sb, 1);
			case CmpInst::ICMP_SGE: return mkInt(sa >= sb, 1);
			case CmpInst::ICMP_SLT: return mkInt(sa < sb, 1);
			case CmpInst::ICMP_SLE: return mkInt(sa <= sb, 1);
		}
	}
	if (a0.k == V_UNDEF || b0.k == V_UNDEF) return Val();
	Val A = a0, B = b0;
	if (w == 1) {
		if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
			Z3_ast e = Z3_mk_iff(Z, toBool(A), toBool(B));
			return mkBool(p == CmpInst::ICMP_EQ ? e : mkNot(e));
		}
	}
	// sign tests on a symbolic real's bits
	const Val* f = wholeFloat(A);
	if (f && f->k == V_SF && B.k == V_INT) {
		if (p == CmpInst::ICMP_SLT && B.i == 0) return nCmp(f->sf, constNode(0), 1);
		if (p == CmpInst::ICMP_SGT && sxt(B.i, w) == -1) return negBool(nCmp(f->sf, constNode(0), 1));
		if (p == CmpInst::ICMP_SGE && B.i == 0) return negBool(nCmp(f->sf, constNode(0), 1));
	}
	if (A.k == V_BYTES) A = bytesNorm(A, intT(w));
	if (B.k == V_BYTES) B = bytesNorm(B, intT(w));
	if (A.k == V_INT && B.k == V_INT) return icmp(p, A, B, w);
	if (A.k == V_BYTES) A = mkSIntFull(toBV(A), w);
	if (B.k == V_BYTES) B = mkSIntFull(toBV(B), w);
	if (A.k == V_INT && B.k == V_INT) return icmp(p, A, B, w);
	i128 al, ah, bl, bh;
	rangeOf(A, al, ah);
	rangeOf(B, bl, bh);
	Z3_ast x = toBV(A), y = toBV(B);
	bool nonneg = al >= 0 && bl >= 0;
	// narrow when everything fits
	unsigned nb = std::max(bitsFor(al, ah), bitsFor(bl, bh));
	bool uns = p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE;
	if (uns && nonneg) {
		p = p == CmpInst::ICMP_UGT ? CmpInst::ICMP_SGT : p == CmpInst::ICMP_UGE ? CmpInst::ICMP_SGE : p == CmpInst::ICMP_ULT ? CmpInst::ICMP_SLT : CmpInst::ICMP_SLE;
		uns = false;
	}
	if (!uns) {
		switch (p) {
			case CmpInst::ICMP_EQ:
			case CmpInst::ICMP_NE:
				if (ah < bl || bh < al) return mkInt(p == CmpInst::ICMP_NE, 1);
				break;
			case CmpInst::ICMP_SGT:
				if (al > bh) return mkInt(1, 1);
				if (ah <= bl) return mkInt(0, 1);
				break;
			case CmpInst::ICMP_SGE:
				if (al >= bh) return mkInt(1, 1);
				if (ah < bl) return mkInt(0, 1);
				break;
			case CmpInst::ICMP_SLT:
				if (ah < bl) return mkInt(1, 1);
				if (al >= bh) return mkInt(0, 1);
				break;
			case CmpInst::ICMP_SLE:
				if (ah <= bl) return mkInt(1, 1);
				if (al > bh) return mkInt(0, 1);
				break;
		}
		if (nb < w) x = narrow(x, w, nb), y = narrow(y, w, nb);
	}
	switch (p) {
		case CmpInst::ICMP_EQ: return mkBool(Z3_simplify(Z, Z3_mk_eq(Z, x, y)));
		case CmpInst::ICMP_NE: return mkBool(Z3_simplify(Z, mkNot(Z3_mk_eq(Z, x, y))));
		case CmpInst::ICMP_UGT: return mkBool(Z3_mk_bvugt(Z, x, y));
		case CmpInst::ICMP_UGE: return mkBool(Z3_mk_bvuge(Z, x, y));
		case CmpInst::ICMP_ULT: return mkBool(Z3_mk_bvult(Z, x, y));
		case CmpInst::ICMP_ULE: return mkBool(Z3_mk_bvule(Z, x, y));
		case CmpInst::ICMP_SGT: return mkBool(Z3_mk_bvsgt(Z, x, y));
		case CmpInst::ICMP_SGE: return mkBool(Z3_mk_bvsge(Z, x, y));
		case CmpInst::ICMP_SLT: return mkBool(Z3_mk_bvslt(Z, x, y));
		case CmpInst::ICMP_SLE: return mkBool(Z3_mk_bvsle(Z, x, y));
	}
	unsup("icmp");
}
static Val selectV(const Val& c, const Val& a, const Val& b, TypeD* t) {
	if (c.k == V_INT) return c.i & 1 ? a : b;
	if (c.k == V_UNDEF) return Val();
	if (a.k == b.k && a.i == b.i && a.k != V_AGG && a.k != V_BYTES && a.w == b.w) return a;
	if (a.k == V_UNDEF) return b;
	if (b.k == V_UNDEF) return a;
	auto itd = S->decided.find(toBool(c));
	if (itd != S->decided.end()) return itd->second ? a : b;
	bool fa = isF(a) || a.k == V_SF || a.k == V_FPA, fb = isF(b) || b.k == V_SF || b.k == V_FPA;
	if (fa && fb) {
		if (a.k == V_FPA || b.k == V_FPA) return mkFpa(Z3_mk_ite(Z, toBool(c), toFpa(a), toFpa(b)), t->w);
		if ((a.k == V_SF || std::isfinite(fval(a))) && (b.k == V_SF || std::isfinite(fval(b))) && (a.k == V_SF || b.k == V_SF)) {
			if (S->generic) return decide(toBool(c)) ? a : b;
			return mkSF(nIte(toBool(c), toNode(a), toNode(b)), t->w);
		}
		return decideVal(c) ? a : b;
	}
	if (t->k == T_INT && t->w <= 64 && a.k != V_BYTES && b.k != V_BYTES && a.k != V_AGG) {
		if (t->w == 1) return mkBool(Z3_simplify(Z, Z3_mk_ite(Z, toBool(c), toBool(a), toBool(b))));
		i128 al, ah, bl, bh;
		rangeOf(a, al, ah);
		rangeOf(b, bl, bh);
		return mkSInt(Z3_mk_ite(Z, toBool(c), toBV(a), toBV(b)), t->w, std::min(al, bl), std::max(ah, bh));
	}
	return decideVal(c) ? a : b;
}
static Val fpToInt(const Val& a, unsigned w, bool sg) {
	if (isF(a) || a.k == V_F80) {
		long double d = a.k == V_F80 ? *a.ld : fval(a);
		if (std::isnan(d) || d <= -9.3e18L || d >= 1.9e19L) return mkInt(0x8000000000000000ull, w);
		return sg ? mkInt((uint64_t)(int64_t)d, w) : mkInt(d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d, w);
	}
	if (a.k == V_UNDEF) return Val();
	if (a.k == V_SF) return mkInt((uint64_t)splitInteger(a.sf, 1), w);
	if (a.k == V_FPA) {
		static Z3_ast rtz = Z3_mk_fpa_rtz(Z);
		return mkSIntFull(sg ? Z3_mk_fpa_to_sbv(Z, rtz, a.fpa->fp, w) : Z3_mk_fpa_to_ubv(Z, rtz, a.fpa->fp, w), w);
	}
	unsup("fptosi");
}
static Val castV(unsigned op, const Val& a, TypeD* from, TypeD* to) {
	if (from->k == T_VEC || to->k == T_VEC) {
		if (op == Instruction::BitCast) {
			// through bytes
			std::vector<Cell> c;
			if (from->k == T_VEC && from->el->w == 1) {
				uint64_t m = 0;
				Z3_ast sy = nullptr;
				for (unsigned i = 0; i < from->n; ++i) {
					const Val& l = a.agg->v[i];
					if (l.k == V_INT) m |= (l.i & 1) << i;
					else {
						Z3_ast b = Z3_mk_ite(Z, toBool(l), bvc(1ull << i, from->n), bvc(0, from->n));
						sy = sy ? Z3_mk_bvor(Z, sy, b) : b;
					}
				}
				if (!sy) return mkInt(m, from->n);
				return mkSIntFull(Z3_mk_bvor(Z, sy, bvc(m, from->n)), from->n);
			}
			if (to->k == T_VEC && to->el->w == 1) {
				std::vector<Val> r(to->n);
				uint64_t m = concretize(a);
				for (unsigned i = 0; i < to->n; ++i) r[i] = mkInt((m >> i) & 1, 1);
				return mkAgg(std::move(r));
			}
			if (from->k == T_VEC) {
				for (unsigned i = 0; i < from->n; ++i) {
					auto x = cellsOf(a.k == V_AGG ? a.agg->v[i] : Val(), from->stride);
					c.insert(c.end(), x.begin(), x.end());
				}
			}
			else c = cellsOf(a, from->w / 8);
			if (to->k == T_VEC) {
				std::vector<Val> r(to->n);
				for (unsigned i = 0; i < to->n; ++i) {
					std::vector<Cell> p(c.begin() + i * to->stride, c.begin() + (i + 1) * to->stride);
					r[i] = assemble(p, to->el);
				}
				return mkAgg(std::move(r));
			}
			return assemble(c, to);
		}
		std::vector<Val> r(to->n);
		for (unsigned i = 0; i < to->n; ++i) r[i] = castV(op, a.k == V_AGG ? a.agg->v[i] : Val(), from->el, to->el);
		return mkAgg(std::move(r));
	}
	unsigned w = to->w;
	switch (op) {
		case Instruction::BitCast:
		case Instruction::PtrToInt:
		case Instruction::IntToPtr:
		case Instruction::AddrSpaceCast: {
			bool ff = from->k == T_F32 || from->k == T_F64 || from->k == T_F80, tf = to->k == T_F32 || to->k == T_F64;
			if (ff && tf) return a;
			if (!ff && !tf) {
				if (a.k == V_INT) return mkInt(a.i, w);
				return a;
			}
			if (a.k == V_UNDEF) return Val();
			if (a.k == V_SINT && tf) return mkFpa(Z3_mk_fpa_to_fp_bv(Z, a.in->bv, fpaSort(w)), w, a.in->bv);
			return assemble(cellsOf(a, from->w / 8), to);
		}
		case Instruction::Trunc: {
			if (a.k == V_INT) return mkInt(a.i, w);
			if (a.k == V_UNDEF) return Val();
			if (a.k == V_BYTES) {
				if (w % 8 == 0) {
					std::vector<Cell> c(a.by->c.begin(), a.by->c.begin() + w / 8);
					return assemble(c, to);
				}
				return mkSIntFull(Z3_mk_extract(Z, w - 1, 0, toBV(a)), w);
			}
			if (w == 1) return mkBool(Z3_simplify(Z, Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, toBV(a)), bvc(1, 1))));
			i128 lo, hi;
			rangeOf(a, lo, hi);
			return mkSInt(Z3_mk_extract(Z, w - 1, 0, toBV(a)), w, lo, hi);
		}
		case Instruction::ZExt: {
			if (a.k == V_UNDEF) return Val();
			if (w > 64 || a.k == V_BYTES) {
				if (a.k == V_SBOOL || (a.k == V_SINT && from->w % 8)) unsup("wide zext");
				return assemble(cellsOf(a, w / 8), to);
			}
			if (a.k == V_INT) return mkInt(a.i, w);
			if (a.k == V_SBOOL) return mkSInt(Z3_mk_ite(Z, a.b, bvc(1, w), bvc(0, w)), w, 0, 1);
			i128 lo, hi;
			rangeOf(a, lo, hi);
			if (lo < 0) lo = 0, hi = ((i128)1 << from->w) - 1;
			return mkSInt(Z3_mk_zero_ext(Z, w - from->w, toBV(a)), w, lo, hi);
		}
		case Instruction::SExt: {
			if (a.k == V_UNDEF) return Val();
			if (w > 64) {
				if (a.k != V_INT) unsup("wide sext");
				std::vector<Cell> c(w / 8);
				int64_t x = sxt(a.i, from->w);
				for (size_t i = 0; i < c.size(); ++i) c[i].v = mkInt(i < 8 ? (x >> (8 * i)) & 255 : x < 0 ? 255 : 0, 8);
				return mkBytes(std::move(c));
			}
			if (a.k == V_INT) return mkInt((uint64_t)sxt(a.i, from->w), w);
			if (a.k == V_SBOOL) return mkSInt(Z3_mk_ite(Z, a.b, bvc(~0ull, w), bvc(0, w)), w, -1, 0);
			i128 lo, hi;
			rangeOf(a, lo, hi);
			return mkSInt(Z3_mk_sign_ext(Z, w - from->w, toBV(a)), w, lo, hi);
		}
		case Instruction::FPExt:
			if (a.k == V_F32) return to->k == T_F80 ? mkF80(a.f) : mkF64(a.f);
			if (a.k == V_F64) return to->k == T_F80 ? mkF80(a.d) : mkF64(a.d);
			if (a.k == V_SF) {
				if (w > 64) unsup("symbolic long double");
				Val v = a;
				v.w = w;
				return v;
			}
			if (a.k == V_FPA) return mkFpa(Z3_mk_fpa_to_fp_float(Z, RNE(), a.fpa->fp, fpaSort(w)), w);
			return Val();
		case Instruction::FPTrunc:
			if (a.k == V_F64) return mkF32((float)a.d);
			if (a.k == V_F80) return w == 32 ? mkF32((float)*a.ld) : mkF64((double)*a.ld);
			if (a.k == V_SF) return mkSF(w == 32 ? nTrunc32(a.sf) : a.sf, w);
			if (a.k == V_FPA) return mkFpa(Z3_mk_fpa_to_fp_float(Z, RNE(), a.fpa->fp, fpaSort(w)), w);
			return Val();
		case Instruction::FPToSI: return fpToInt(a, w, true);
		case Instruction::FPToUI: return fpToInt(a, w, false);
		case Instruction::SIToFP:
		case Instruction::UIToFP: {
			bool sg = op == Instruction::SIToFP;
			if (a.k == V_UNDEF) return Val();
			uint64_t u = concretize(a.k == V_BYTES ? mkSIntFull(toBV(a), from->w) : a);
			if (w == 80) return mkF80(sg ? (long double)sxt(u, from->w) : (long double)u);
			if (w == 32) return mkF32(sg ? (float)sxt(u, from->w) : (float)u);
			return mkF64(sg ? (double)sxt(u, from->w) : (double)u);
		}
	}
	unsup("cast");
}

// ------------------------------------------------------------------ inputs and reports
static Frame& top() { return S->st.back(); }
static std::string hexD(double d) {
	char b[64];
	uint64_t u;
	memcpy(&u, &d, 8);
	snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
	return b;
}
static std::string uniq(std::string n) {
	std::replace(n.begin(), n.end(), ' ', '_');
	int k = S->occ[n]++;
	return n + "#" + std::to_string(k);
}
static double qToDouble(Z3_ast r, bool& exact) {
	exact = true;
	r = Z3_simplify(Z, r);
	if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) {
		Q q(Z3_get_numeral_string(Z, r));
		q.canonicalize();
		double d = q.get_d();
		if (Q(d) != q) {
			exact = false;
			// round to nearest of truncation and its neighbour
			double e = q > Q(d) ? upb(d) : dnb(d);
			if (abs(Q(e) - q) < abs(Q(d) - q)) d = e;
		}
		return d;
	}
	exact = false;
	if (Z3_is_algebraic_number(Z, r)) {
		Q q(Z3_get_numeral_string(Z, Z3_get_algebraic_number_lower(Z, r, 60)));
		q.canonicalize();
		return q.get_d();
	}
	return 0;
}
struct Assign {
	std::vector<std::string> lines;
	std::vector<Z3_ast> eqs;
	bool exact = true;
};
static double clampIn(double d, const InputRec& in) { return std::min(std::max(d, in.lo), in.hi); }
static Assign extract(Z3_model m) {
	Assign a;
	for (auto& in : S->inputs) {
		if (in.isConc) {
			a.lines.push_back(in.name + " I " + std::to_string(in.conc));
			continue;
		}
		Z3_ast r;
		if (in.kind == 'I' || in.bv) {
			if (!m || !Z3_model_eval(Z, m, in.bv, true, &r)) {
				a.lines.push_back(in.name + " I 0");
				continue;
			}
			uint64_t u = 0;
			Z3_get_numeral_uint64(Z, Z3_simplify(Z, r), &u);
			if (in.kind == 'I') a.lines.push_back(in.name + " I " + std::to_string(sxt(u, in.w)));
			else if (in.kind == 'f') {
				uint32_t x = (uint32_t)u;
				float f;
				memcpy(&f, &x, 4);
				char b[64];
				snprintf(b, sizeof b, "%08x", x);
				a.lines.push_back(in.name + " F " + b + " " + std::to_string(f));
			}
			else {
				double d;
				memcpy(&d, &u, 8);
				a.lines.push_back(in.name + " D " + hexD(d) + " " + std::to_string(d));
			}
			a.eqs.push_back(Z3_mk_eq(Z, in.bv, bvc(u, in.w)));
			continue;
		}
		double d = 0;
		bool ex = true;
		if (S->ensured.count(in.var) && m && Z3_model_eval(Z, m, VARS[in.var].z3, true, &r)) d = qToDouble(r, ex);
		d = clampIn(d, in);
		double d0 = d;
		if (in.isInt) d = std::nearbyint(d);
		if (in.kind == 'f') d = (double)(float)d;
		if (d != d0 || !ex) a.exact = false;
		d = clampIn(d, in);
		if (in.kind == 'f') a.lines.push_back(in.name + " D " + hexD(d) + " " + std::to_string(d));
		else a.lines.push_back(in.name + " D " + hexD(d) + " " + std::to_string(d));
		if (S->ensured.count(in.var)) a.eqs.push_back(Z3_mk_eq(Z, VARS[in.var].z3, realD(d)));
	}
	return a;
}
static uint64_t rng64(uint64_t& s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
// arbitrary values for all inputs (for the validation of the encoding); the
// caller checks that they follow the current path
static Assign randomAssign(uint64_t seed) {
	Assign a;
	for (auto& in : S->inputs) {
		if (in.isConc) {
			a.lines.push_back(in.name + " I " + std::to_string(in.conc));
			continue;
		}
		uint64_t u = rng64(seed);
		if (in.kind == 'I') {
			int64_t n = (int64_t)in.lo;
			double width = in.hi - in.lo;
			n += width < 1e15 ? (int64_t)(u % ((uint64_t)width + 1)) : (int64_t)(u % 1000);
			a.lines.push_back(in.name + " I " + std::to_string(n));
			a.eqs.push_back(Z3_mk_eq(Z, in.bv, bvc(maskw((uint64_t)n, in.w), in.w)));
			continue;
		}
		if (in.bv) {
			double d = (double)((int64_t)(u % 2001) - 1000) / 16;
			if (in.kind == 'f') {
				float f = (float)d;
				uint32_t x;
				memcpy(&x, &f, 4);
				char b[64];
				snprintf(b, sizeof b, "%08x", x);
				a.lines.push_back(in.name + " F " + b + " " + std::to_string(f));
				a.eqs.push_back(Z3_mk_eq(Z, in.bv, bvc(x, 32)));
			}
			else {
				uint64_t x;
				memcpy(&x, &d, 8);
				a.lines.push_back(in.name + " D " + hexD(d) + " " + std::to_string(d));
				a.eqs.push_back(Z3_mk_eq(Z, in.bv, bvc(x, 64)));
			}
			continue;
		}
		double lo = std::max(in.lo, -1e6), hi = std::min(in.hi, 1e6);
		double d = lo + (hi - lo) * ((double)(u % 1025) / 1024);
		if (in.isInt) d = std::nearbyint(d);
		if (in.kind == 'f') d = (double)(float)d;
		d = clampIn(d, in);
		ensureVar(in.var);
		a.lines.push_back(in.name + " D " + hexD(d) + " " + std::to_string(d));
		a.eqs.push_back(Z3_mk_eq(Z, VARS[in.var].z3, realD(d)));
	}
	return a;
}
static Z3_ast conj(const std::vector<Z3_ast>& v, Z3_ast extra) {
	std::vector<Z3_ast> a(v);
	if (extra) a.push_back(extra);
	if (a.empty()) return Z3_mk_true(Z);
	if (a.size() == 1) return a[0];
	return Z3_mk_and(Z, a.size(), a.data());
}
static std::map<std::string, std::function<double(double)>> fnEval;
// the actual values of library functions for the input values of a
static void pinAtoms(Assign& a) {
	std::vector<FnAtom*> fs;
	for (auto& f : fnAtoms) {
		bool in = true;
		for (int v : f.vars) in = in && S->ensured.count(v);
		if (in) fs.push_back(&f);
	}
	std::vector<Z3_ast> base = a.eqs;
	for (int round = 0; round < 3 && !fs.empty(); ++round) {
		Z3_model m = nullptr;
		if (check(conj(a.eqs, nullptr), &m, 3000) != Z3_L_TRUE || !m) return;
		std::vector<Z3_ast> eqs = base;
		bool nested = false;
		for (auto f : fs) {
			Z3_ast r;
			bool ex;
			if (!Z3_model_eval(Z, m, polyZ3(f->arg), true, &r)) continue;
			Z3_ast q = Z3_simplify(Z, r);
			if (Z3_get_ast_kind(Z, q) != Z3_NUMERAL_AST && !Z3_is_algebraic_number(Z, q)) continue;
			auto it = fnEval.find(f->name);
			if (it == fnEval.end()) continue;
			double x = it->second(qToDouble(r, ex));
			if (!std::isfinite(x)) continue;
			eqs.push_back(Z3_mk_eq(Z, polyZ3(f->value), realD(x)));
			for (int v : f->vars) nested = nested || !VARS[v].isInput;
		}
		a.eqs = eqs;
		if (round == 0 && !nested) break;
	}
}
static Assign concretizeModel1(Z3_model m, Z3_ast cond, bool& ok);
static Assign concretizeModel(Z3_model m, Z3_ast cond, bool& ok) {
	Assign a = concretizeModel1(m, cond, ok);
	if (fnAtoms.empty() || !S->realMode) return a;
	// prefer inputs for which the actual function values make the difference
	Assign p = a;
	pinAtoms(p);
	if (check(conj(p.eqs, cond), nullptr, 4000) == Z3_L_TRUE) return a;
	for (int k = 0; k < 24; ++k) {
		Assign r = randomAssign(SEED * 7919 + nPaths * 31 + k);
		Assign q = r;
		pinAtoms(q);
		if (check(conj(q.eqs, cond), nullptr, 4000) == Z3_L_TRUE) {
			ok = true;
			return r;
		}
	}
	return a;
}
// a concrete assignment of machine numbers satisfying path and cond, starting from model m
static Assign concretizeModel1(Z3_model m, Z3_ast cond, bool& ok) {
	Assign a = extract(m);
	ok = a.exact;
	if (ok) return a;
	if (check(conj(a.eqs, cond), nullptr, 4000) == Z3_L_TRUE) {
		ok = true;
		return a;
	}
	// integer / dyadic values for the real inputs
	for (int sc : { 1, 16, 1024 }) {
		std::vector<Z3_ast> cs;
		for (auto& in : S->inputs) {
			if (in.isConc || in.var < 0 || !S->ensured.count(in.var)) continue;
			Z3_ast x = VARS[in.var].z3;
			if (!in.isInt) x = mul2(realD(sc), x);
			cs.push_back(Z3_mk_is_int(Z, x));
		}
		Z3_model m2 = nullptr;
		if (check(conj(cs, cond), &m2, cond ? 5000 : 300) == Z3_L_TRUE && m2) {
			Assign b = extract(m2);
			if (b.exact || check(conj(b.eqs, cond), nullptr, 4000) == Z3_L_TRUE) {
				ok = true;
				return b;
			}
		}
	}
	return a;
}
static std::string whereAmI() {
	std::string r;
	if (!S) return r;
	for (int i = (int)S->st.size() - 1, k = 0; i >= 0 && k < 3; --i) {
		auto& fr = S->st[i];
		if (fr.pc >= (int)fr.f->code.size()) continue;
		Instruction* I = fr.f->code[fr.pc].I;
		const DILocation* dl = I->getDebugLoc().get();
		for (; dl && k < 6; dl = dl->getInlinedAt(), ++k) r += (r.empty() ? "" : " < ") + dl->getFilename().str() + ":" + std::to_string(dl->getLine());
	}
	return r;
}
static void addInconclusive(const std::string& kind, const std::string& id, const std::string& msg) {
	std::string key = kind + "|" + id + "|" + msg;
	if (inconcCount[key]++) return;
	Report r;
	r.kind = kind;
	r.id = id;
	r.msg = msg;
	try {
		r.where = whereAmI();
	}
	catch (...) {
	}
	inconclusive.push_back(r);
}
static void addViolation(const std::string& kind, const std::string& id, const std::string& msg, const Assign& a, bool ok) {
	T_LIMIT = std::min(T_LIMIT, now() - T_START + V_LIMIT);
	Report r;
	r.kind = kind;
	r.id = id;
	r.msg = msg;
	r.where = whereAmI();
	r.inputs = a.lines;
	r.confirmedModel = ok;
	violations.push_back(r);
}
static Z3_lbool finalCheck(Z3_ast c, Z3_model* m) { 
	++nAssertFinal;
	Z3_lbool r = Z3_L_UNDEF;
	if (NLSAT) r = check(c, m, 0, true, true);
	if (r == Z3_L_UNDEF) r = check(c, m, 0, false);
	if (r == Z3_L_UNDEF) r = check(c, m, Q_TIMEOUT, true);
	else if (!SMTDUMP.empty()) check(c, nullptr, 0, true);
	return r;
}
// obligation: bad is unsatisfiable on this path. sure: a definite violation
static void obligation(const std::string& id, Z3_ast bad, Z3_ast sure) {
	auto& st = asserts[id];
	st.evaluated++;
	S->asserts++;
	int bv = boolValue(Z3_simplify(Z, bad));
	if (bv == 0) {
		st.discharged++;
		// syntactically closed by the solver's simplifier
		st.trivially++;
		return;
	}
	Z3_model m = nullptr;
	st.queries++;
	Z3_lbool r = finalCheck(bad, &m);
	if (r == Z3_L_FALSE) {
		st.discharged++;
		return;
	}
	if (r == Z3_L_UNDEF) {
		st.unknown++;
		addInconclusive("unknown", id, "solver gave up");
		return;
	}
	if (sure != bad) {
		m = nullptr;
		st.queries++;
		r = finalCheck(sure, &m);
		if (r != Z3_L_TRUE) {
			st.unknown++;
			addInconclusive("tolerance", id, "the rounding error bound exceeds the tolerance");
			return;
		}
	}
	bool ok;
	Assign a = concretizeModel(m, sure, ok);
	addViolation("assert", id, "assertion can fail", a, ok);
	throw EndPath{ E_VIOL, id };
}
static void assertBool(const Val& c, const std::string& id) {
	if (c.k == V_INT) {
		auto& st = asserts[id];
		st.evaluated++;
		S->asserts++;
		if (c.i & 1) {
			st.discharged++;
			st.trivially++;
			return;
		}
		needModel();
		bool ok;
		Assign a = concretizeModel(S->model, nullptr, ok);
		addViolation("assert", id, "assertion fails", a, ok);
		throw EndPath{ E_VIOL, id };
	}
	Z3_ast b = mkNot(toBool(c));
	obligation(id, b, b);
	addConstraint(toBool(c));
	S->decided[toBool(c)] = true;
	if (S->model && evalBool(S->model, toBool(c)) != 1) S->model = nullptr;
}
static void observe(const std::string& id, const Val& a) {
	if (S->obs.size() < 24) S->obs.push_back({ id, a });
}
// |a-b| <= tol (tol < 0: same value)
static void assertClose(const Val& a, const Val& b, const Val& tolv, const std::string& id, unsigned w) {
	if (a.k == V_UNDEF || b.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value in result " + id };
	bool same = tolv.k == V_UNDEF;
	observe(id, a);
	if (a.k == V_FPA || b.k == V_FPA) {
		Z3_ast x = toFpa(a), y = toFpa(b);
		if (!same) unsup("tolerance on bit-precise floats");
		Z3_ast good = mkOr(Z3_mk_eq(Z, x, y), mkAnd(Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)));
		Z3_ast bad = mkNot(good);
		obligation(id, bad, bad);
		return;
	}
	if (isF(a) && isF(b)) {
		double x = fval(a), y = fval(b);
		bool ok;
		if (same) ok = x == y || (std::isnan(x) && std::isnan(y));
		else if (isF(tolv)) ok = std::fabs(x - y) <= fval(tolv) || x == y;
		else ok = decideVal(fcmp(CmpInst::FCMP_OLE, mkF64(std::fabs(x - y)), tolv));
		assertBool(mkInt(ok, 1), id);
		return;
	}
	for (auto* v : { &a, &b })
		if (isF(*v) && !std::isfinite(fval(*v))) {
			assertBool(mkInt(0, 1), id);
			return;
		}
	FNode *x = toNode(a), *y = toNode(b);
	if (x == y) {
		auto& st = asserts[id];
		st.evaluated++;
		st.discharged++;
		st.trivially++;
		S->asserts++;
		return;
	}
	PolyT d = polyAdd(x->p, y->p, -1);
	double E = upb(x->E + y->E);
	if (x->E == 0 && y->E == 0) E = 0;
	ensurePoly(d);
	Z3_ast dz = polyZ3(d);
	FNode* tn = same ? constNode(0) : toNode(tolv);
	if (!std::isfinite(E)) {
		addInconclusive("tolerance", id, "unbounded rounding error");
		return;
	}
	if (tn->E > 0) unsup("inexact tolerance");
	ensurePoly(tn->p);
	Z3_ast tz = polyZ3(tn->p);
	Z3_ast lim = sub2(tz, realD(E)), lim2 = add2(tz, realD(E));
	Z3_ast bad = mkOr(Z3_mk_gt(Z, dz, lim), Z3_mk_lt(Z, dz, Z3_mk_unary_minus(Z, lim)));
	Z3_ast sure = mkOr(Z3_mk_gt(Z, dz, lim2), Z3_mk_lt(Z, dz, Z3_mk_unary_minus(Z, lim2)));
	if (E == 0) sure = bad;
	// prefer a gross counterexample: it survives rounding of the inputs
	if (boolValue(Z3_simplify(Z, bad)) != 0) {
		double g = tn->p.isConst() ? tn->lo : 0;
		Z3_ast gross = mkOr(Z3_mk_gt(Z, dz, realD(1000 * (g + E) + 0.01)), Z3_mk_lt(Z, dz, realD(-1000 * (g + E) - 0.01)));
		auto& st = asserts[id];
		Z3_model m = nullptr;
		bool nonlinear = false;
		for (auto& [mo, c] : d.t) {
			int deg = 0;
			for (auto& [v, e] : MT.monos[mo]) deg += e;
			nonlinear = nonlinear || deg > 1;
		}
		if ((nonlinear || d.t.size() > 4) && tn->p.isConst() && d.t.size() <= 60000) {
			// weaker linear question first: every term is any number in its range
			// (in units of 2^-60, and neighbouring terms of long sums taken together)
			std::vector<Z3_ast> sum{ realD(0) }, boxes;
			bool finite = true;
			size_t group = std::max<size_t>(1, d.t.size() / 200), n = 0;
			Q gl(0), gh(0);
			auto flush = [&] {
				Z3_ast y = Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("term." + std::to_string(sum.size())).c_str()), Z3_mk_real_sort(Z));
				boxes.push_back(Z3_mk_ge(Z, y, realQ(gl)));
				boxes.push_back(Z3_mk_le(Z, y, realQ(gh)));
				sum.push_back(y);
				gl = gh = Q(0);
				n = 0;
			};
			for (auto& [mo, c] : d.t) {
				if (mo == 0) {
					sum.push_back(realQ(Q(c * Q(0x1p60))));
					continue;
				}
				double l, h;
				monoBounds(mo, l, h);
				if (!(std::isfinite(l) && std::isfinite(h))) {
					finite = false;
					break;
				}
				double cd = c.get_d(), tl = std::floor(mulLo(l, h, dnb(cd), upb(cd)) * 0x1p60), th = std::ceil(mulHi(l, h, dnb(cd), upb(cd)) * 0x1p60);
				if (!(std::isfinite(tl) && std::isfinite(th))) {
					finite = false;
					break;
				}
				gl += Q(tl);
				gh += Q(th);
				if (++n >= group) flush();
			}
			flush();
			if (finite) {
				Z3_ast z = Z3_mk_add(Z, (unsigned)sum.size(), sum.data());
				Z3_ast out = mkAnd(Z3_mk_and(Z, (unsigned)boxes.size(), boxes.data()), mkOr(Z3_mk_gt(Z, z, mul2(realD(0x1p60), lim)), Z3_mk_lt(Z, z, mul2(realD(-0x1p60), lim))));
				st.queries++;
				if (freshCheck(out) == Z3_L_FALSE) {
					st.evaluated++;
					st.discharged++;
					S->asserts++;
					return;
				}
			}
		}
		st.queries++;
		Z3_lbool r = finalCheck(bad, &m);
		st.evaluated++;
		S->asserts++;
		if (r == Z3_L_FALSE) {
			st.discharged++;
			return;
		}
		if (r == Z3_L_UNDEF) {
			m = nullptr;
			r = check(sure, &m, Q_TIMEOUT, true);
			if (r != Z3_L_TRUE) {
				st.unknown++;
				double l, h;
				polyBounds(d, l, h);
				std::string in;
				for (auto& i : S->inputs)
					if (i.kind == 'I' && in.size() < 200) in += " " + i.name + "=" + std::to_string(i.conc);
				addInconclusive("unknown", id, "solver gave up, " + std::to_string(d.t.size()) + " terms in [" + std::to_string(l) + ", " + std::to_string(h) + "]" + in);
				return;
			}
		}
		Z3_model mg = nullptr;
		if (check(gross, &mg, 5000) == Z3_L_TRUE && mg) {
			bool ok;
			Assign as = concretizeModel(mg, gross, ok);
			addViolation("assert", id, "values can differ grossly", as, ok);
			throw EndPath{ E_VIOL, id };
		}
		if (sure != bad) {
			m = nullptr;
			r = finalCheck(sure, &m);
			if (r != Z3_L_TRUE) {
				st.unknown++;
				addInconclusive("tolerance", id, "the rounding error bound exceeds the tolerance: " + std::to_string(std::log10(E)) + " > " + std::to_string(std::log10(tn->hi)) + " (log10)");
				return;
			}
		}
		bool ok;
		Assign as = concretizeModel(m, sure, ok);
		addViolation("assert", id, "values can differ", as, ok);
		throw EndPath{ E_VIOL, id };
	}
	auto& st = asserts[id];
	st.evaluated++;
	st.discharged++;
	st.trivially++;
	S->asserts++;
}

// ------------------------------------------------------------------ native models
typedef std::function<void(DInst&, std::vector<Val>&, Val&)> NativeFn;
static std::unordered_map<std::string, NativeFn> natives;
static double fc(const Val& v) {
	if (!isF(v)) {
		if (v.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value passed to a mathematical function" };
		unsup("symbolic argument of a library function");
	}
	return fval(v);
}
static Val floorLike(const Val& a, int mode, unsigned w) {
	if (a.k == V_F32) return mkF32(mode == 0 ? std::floor(a.f) : mode == 1 ? std::trunc(a.f) : std::ceil(a.f));
	if (a.k == V_F64) return mkF64(mode == 0 ? std::floor(a.d) : mode == 1 ? std::trunc(a.d) : std::ceil(a.d));
	if (a.k == V_SF) {
		if (a.sf->E == 0 && a.sf->gran >= 0 && a.sf->gran < 100000) return a;  // integer valued
		return mkFP((double)splitInteger(a.sf, mode), w);
	}
	if (a.k == V_FPA) {
		Z3_ast rm = mode == 0 ? Z3_mk_fpa_rtn(Z) : mode == 1 ? Z3_mk_fpa_rtz(Z) : Z3_mk_fpa_rtp(Z);
		return mkFpa(Z3_mk_fpa_round_to_integral(Z, rm, a.fpa->fp), w);
	}
	return Val();
}
static Val sqrtV(const Val& a, unsigned w) {
	if (a.k == V_F32) return mkF32(std::sqrt(a.f));
	if (a.k == V_F64) return mkF64(std::sqrt(a.d));
	if (a.k == V_F80) return mkF80(sqrtl(*a.ld));
	if (a.k == V_SF) return mkSF(nSqrt(a.sf, w == 32 ? 24 : 53), w);
	if (a.k == V_FPA) return mkFpa(Z3_mk_fpa_sqrt(Z, RNE(), a.fpa->fp), w);
	return Val();
}
static Val minmaxV(const Val& a, const Val& b, bool mx, bool x86) {
	// x86: a op b ? a : b
	Val c = fcmp(mx ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a, b);
	if (!x86) {
		if (isF(a) && std::isnan(fval(a))) return b;
		if (isF(b) && std::isnan(fval(b))) return a;
		if (a.k == V_FPA || b.k == V_FPA) {
			Z3_ast x = toFpa(a), y = toFpa(b);
			return mkFpa(Z3_mk_ite(Z, Z3_mk_fpa_is_nan(Z, x), y, Z3_mk_ite(Z, Z3_mk_fpa_is_nan(Z, y), x, Z3_mk_ite(Z, toBool(c), x, y))), a.k == V_FPA ? a.w : b.w);
		}
	}
	TypeD t;
	t.k = a.w == 32 ? T_F32 : T_F64;
	t.w = a.w ? a.w : b.w;
	return selectV(c, a, b, &t);
}
typedef double (*D1)(double);
typedef float (*F1)(float);
typedef double (*D2)(double, double);
typedef float (*F2)(float, float);
typedef long double (*L1)(long double);

// any bits: the function is an uninterpreted symbol
static Val uninterpreted(const std::string& n, std::vector<Val> a, unsigned w) {
	std::vector<Z3_ast> x;
	std::vector<Z3_sort> srt;
	for (auto& v : a) {
		x.push_back(toFpa(v));
		srt.push_back(Z3_get_sort(Z, x.back()));
	}
	Z3_func_decl f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, ("libm." + n + std::to_string(w)).c_str()), (unsigned)srt.size(), srt.data(), fpaSort(w));
	S->usedLibm = true;
	return mkFpa(Z3_mk_app(Z, f, (unsigned)x.size(), x.data()), w);
}
static bool anyFpa(const std::vector<Val>& a) {
	for (auto& v : a)
		if (v.k == V_FPA) return true;
	return false;
}
typedef std::complex<double> CD;
typedef std::complex<float> CF;
static Val pairAgg(const Val& x, const Val& y) {
	return mkAgg({ x, y });
}
// complex functions of libm; nargs complex arguments, complex or real result
static void regC(const std::string& n, int nargs, bool realResult, CD (*d)(CD, CD), CF (*f)(CF, CF)) {
	for (unsigned w : { 32u, 64u }) {
		natives[n + (w == 32 ? "f" : "")] = [=](DInst&, std::vector<Val>& a, Val& r) {
			std::vector<Val> x;
			for (auto& v : a) {
				if (v.k == V_AGG) x.insert(x.end(), { v.agg->v[0], v.agg->v[1] });
				else x.push_back(v);
			}
			if ((int)x.size() != 2 * nargs) unsup("arguments of " + n);
			for (auto& v : x)
				if (v.k == V_SF) {
					if (n == "cabs" && natives.count("hypot")) {
						DInst di;
						natives[w == 32 ? "hypotf" : "hypot"](di, x, r);
						return;
					}
					if (n == "carg" && S->realMode) {
						DInst di;
						std::vector<Val> yx{ x[1], x[0] };
						natives[w == 32 ? "atan2f" : "atan2"](di, yx, r);
						return;
					}
					if (n == "csqrt" && isF(x[1]) && fval(x[1]) == 0) {
						// on the real axis
						bool neg = decideVal(nCmp(toNode(x[0]), constNode(0), 1));
						Val s = sqrtV(neg ? fneg(x[0]) : x[0], w);
						r = neg ? pairAgg(mkFP(0, w), std::signbit(fval(x[1])) ? fneg(s) : s) : pairAgg(s, x[1]);
						return;
					}
					if (n == "csqrt" && S->realMode) {
						auto [u, v] = nSqrtC(toNode(x[0]), toNode(x[1]));
						r = pairAgg(mkSF(u, w), mkSF(v, w));
						return;
					}
					if (n == "cexp" && S->realMode) {
						Val e, c, s;
						std::vector<Val> re{ x[0] }, im{ x[1] };
						DInst di;
						std::string f = w == 32 ? "f" : "";
						natives["exp" + f](di, re, e);
						natives["cos" + f](di, im, c);
						natives["sin" + f](di, im, s);
						r = pairAgg(fbin(Instruction::FMul, e, c, w), fbin(Instruction::FMul, e, s, w));
						return;
					}
					unsup("symbolic argument of " + n);
				}
			if (anyFpa(x)) {
				if (realResult) r = uninterpreted(n, x, w);
				else r = pairAgg(uninterpreted(n + ".re", x, w), uninterpreted(n + ".im", x, w));
				return;
			}
			if (nargs == 1) x.insert(x.end(), { x[0], x[1] });
			if (w == 32) {
				CF c = f(CF(fc(x[0]), fc(x[1])), CF(fc(x[2]), fc(x[3])));
				r = realResult ? mkF32(c.real()) : pairAgg(mkF32(c.real()), mkF32(c.imag()));
			}
			else {
				CD c = d(CD(fc(x[0]), fc(x[1])), CD(fc(x[2]), fc(x[3])));
				r = realResult ? mkF64(c.real()) : pairAgg(mkF64(c.real()), mkF64(c.imag()));
			}
		};
	}
}
static void reg1(const std::string& n, D1 d, F1 f, L1 l, double lo = NAN, double hi = NAN) {
	fnEval[n] = d;
	bool whole = n == "round" || n == "rint" || n == "nearbyint" || n == "logb";
	natives[n] = [=](DInst&, std::vector<Val>& a, Val& r) {
		if (a[0].k == V_SF) {
			if (std::isnan(lo) && !(S->realMode && !whole)) unsup("symbolic argument of " + n);
			r = mkSF(nUnary(n.c_str(), a[0].sf, std::isnan(lo) ? n == "exp" || n == "exp2" ? 0 : n == "cosh" ? 1 : -INFINITY : lo, std::isnan(hi) ? INFINITY : hi, 53), 64);
			return;
		}
		if (a[0].k == V_FPA) {
			r = uninterpreted(n, a, 64);
			return;
		}
		r = mkF64(d(fc(a[0])));
	};
	natives[n + "f"] = [=](DInst&, std::vector<Val>& a, Val& r) {
		if (a[0].k == V_SF) {
			if (std::isnan(lo) && !(S->realMode && !whole)) unsup("symbolic argument of " + n);
			r = mkSF(nUnary(n.c_str(), a[0].sf, std::isnan(lo) ? n == "exp" || n == "exp2" ? 0 : n == "cosh" ? 1 : -INFINITY : lo, std::isnan(hi) ? INFINITY : hi, 24), 32);
			return;
		}
		if (a[0].k == V_FPA) {
			r = uninterpreted(n, a, 32);
			return;
		}
		r = mkF32(f((float)fc(a[0])));
	};
	natives[n + "l"] = [=](DInst&, std::vector<Val>& a, Val& r) {
		if (a[0].k != V_F80) unsup("long double function");
		r = mkF80(l(*a[0].ld));
	};
}
static void reg2(const std::string& n, D2 d, F2 f) {
	natives[n] = [=](DInst&, std::vector<Val>& a, Val& r) { 
		if (a[0].k == V_SF || a[1].k == V_SF) unsup("symbolic argument of " + n);
		if (anyFpa(a)) {
			r = uninterpreted(n, a, 64);
			return;
		}
		r = mkF64(d(fc(a[0]), fc(a[1])));
	};
	natives[n + "f"] = [=](DInst&, std::vector<Val>& a, Val& r) {
		if (a[0].k == V_SF || a[1].k == V_SF) unsup("symbolic argument of " + n);
		if (anyFpa(a)) {
			r = uninterpreted(n, a, 32);
			return;
		}
		r = mkF32(f((float)fc(a[0]), (float)fc(a[1])));
	};
}
static const char* strArg(const Val& v, std::string& out) {
	out = readStr(concretize(v));
	return out.c_str();
}
static void doThrow(const std::string& type) {
	if (S->reject) throw EndPath{ E_REJECT, type };
	throw EndPath{ E_THROW, type };
}
static Val findConcrete(const std::string& u, bool& found, double* out, int64_t* iout) {
	auto it = concreteInputs.find(u);
	found = it != concreteInputs.end();
	if (!found) return Val();
	const std::string& s = it->second;
	if (s[0] == 'I') *iout = std::stoll(s.substr(2));
	else if (s[0] == 'D') {
		uint64_t x = std::stoull(s.substr(2, 16), nullptr, 16);
		memcpy(out, &x, 8);
	}
	else {
		uint32_t x = std::stoul(s.substr(2, 8), nullptr, 16);
		float f;
		memcpy(&f, &x, 4);
		*out = f;
	}
	return Val();
}
static void regInput(const std::string& fn, char kind, bool isInt) {
	natives[fn] = [=](DInst&, std::vector<Val>& a, Val& r) {
		std::string n;
		strArg(a[0], n);
		unsigned w = kind == 'f' ? 32 : 64;
		double lo = fc(a[1]), hi = fc(a[2]);
		std::string u = uniq(n);
		if (CONCRETE) {
			bool f;
			double d = lo;
			int64_t i;
			findConcrete(u, f, &d, &i);
			r = mkFP(f ? d : std::max(lo, std::min(0.0, hi)), w);
			return;
		}
		static std::map<std::string, int> memo;
		std::string key = u + fn + hexD(lo) + hexD(hi);
		auto it = memo.find(key);
		int v;
		if (it != memo.end()) v = it->second;
		else {
			v = newVar(u, lo, hi, isInt, true);
			memo[key] = v;
		}
		InputRec in;
		in.name = u;
		in.kind = kind;
		in.var = v;
		in.w = w;
		in.lo = lo;
		in.hi = hi;
		in.isInt = isInt;
		S->inputs.push_back(in);
		FNode* nd = exactNode(polyVar(v), lo, hi, isInt ? 0 : GRAN_NONE, w == 32 ? 24 : 53);
		nd->lo = lo, nd->hi = hi;
		r = mkSF(nd, w);
	};
}
static void regAny(const std::string& fn, char kind) {
	natives[fn] = [=](DInst&, std::vector<Val>& a, Val& r) {
		std::string n;
		strArg(a[0], n);
		unsigned w = kind == 'f' ? 32 : 64;
		std::string u = uniq(n);
		if (CONCRETE) {
			bool f;
			double d = 0;
			int64_t i;
			findConcrete(u, f, &d, &i);
			r = mkFP(f ? d : 0, w);
			return;
		}
		Z3_ast bv = Z3_mk_const(Z, Z3_mk_string_symbol(Z, u.c_str()), BVS(w));
		InputRec in;
		in.name = u;
		in.kind = kind;
		in.bv = bv;
		in.w = w;
		S->inputs.push_back(in);
		r = mkFpa(Z3_mk_fpa_to_fp_bv(Z, bv, fpaSort(w)), w, bv);
	};
}
static void setupNatives() {
#define R1(n) reg1(#n, (D1)std::n, (F1)std::n, (L1)std::n)
#define R1B(n, lo, hi) reg1(#n, (D1)std::n, (F1)std::n, (L1)std::n, lo, hi)
	R1B(sin, -1, 1);
	R1B(cos, -1, 1);
	R1(tan);
	R1(asin);
	R1B(acos, 0, M_PI);
	R1(atan);
	R1(sinh);
	R1B(cosh, 1, INFINITY);
	R1(tanh);
	R1(asinh);
	R1B(acosh, 0, INFINITY);
	R1(atanh);
	R1(exp);
	reg1("dsym_i0", [](double x) { return std::cyl_bessel_i(0.0, x); }, [](float x) { return std::cyl_bessel_i(0.0f, x); }, (L1)std::exp, 1, INFINITY);
	R1(exp2);
	R1(expm1);
	R1(log);
	R1(log2);
	R1(log10);
	R1(log1p);
	R1(cbrt);
	R1(erf);
	R1(erfc);
	R1(tgamma);
	R1(lgamma);
	R1(round);
	R1(rint);
	R1(nearbyint);
	R1(logb);
#define R2(n) reg2(#n, (D2)std::n, (F2)std::n)
	R2(pow);
	R2(atan2);
	R2(hypot);
	R2(remainder);
	R2(copysign);
	R2(nextafter);
#define RC(n) regC("c" #n, 1, false, [](CD a, CD) { return std::n(a); }, [](CF a, CF) { return std::n(a); })
	RC(sin);
	RC(cos);
	RC(tan);
	RC(asin);
	RC(acos);
	RC(atan);
	RC(sinh);
	RC(cosh);
	RC(tanh);
	RC(asinh);
	RC(acosh);
	RC(atanh);
	RC(exp);
	RC(log);
	RC(sqrt);
	regC("cpow", 2, false, [](CD a, CD b) { return std::pow(a, b); }, [](CF a, CF b) { return std::pow(a, b); });
	regC("cabs", 1, true, [](CD a, CD) { return CD(std::abs(a)); }, [](CF a, CF) { return CF(std::abs(a)); });
	regC("carg", 1, true, [](CD a, CD) { return CD(std::arg(a)); }, [](CF a, CF) { return CF(std::arg(a)); });
	// x^(k/2) of a symbolic real: k/2 factors; the error of libm is below 1 ulp
	for (unsigned w : { 32u, 64u }) {
		natives[w == 32 ? "powf" : "pow"] = [w](DInst&, std::vector<Val>& a, Val& r) {
			if (anyFpa(a)) {
				r = uninterpreted("pow", a, w);
				return;
			}
			if (a[1].k == V_SF && isF(a[0]) && S->realMode && fval(a[0]) > 0) {
				// b^x = exp(x log(b))
				FNode* x = nMul(a[1].sf, constNode(w == 32 ? (double)std::log((float)fval(a[0])) : std::log(fval(a[0]))), 53);
				r = mkSF(nUnary("exp", x, 0, INFINITY, 53), w);
				return;
			}
			if (a[0].k == V_SF && isF(a[1]) && S->realMode && fval(a[1]) < 0 && fval(a[1]) >= -16 && fval(a[1]) == std::floor(fval(a[1]))) {
				FNode* x = toNode(a[0]);
				FNode* n = x;
				for (int i = 1; i < (int)-fval(a[1]); ++i) n = nMul(n, x, 53);
				r = mkSF(nDiv(constNode(1), n, 53), w);
				return;
			}
			if (a[0].k == V_SF && isF(a[1]) && fval(a[1]) >= 0 && fval(a[1]) <= 16 && 2 * fval(a[1]) == std::floor(2 * fval(a[1]))) {
				int k = (int)(2 * fval(a[1]));
				if (k == 0 || k == 2) {
					r = k == 0 ? mkFP(1, w) : a[0];
					return;
				}
				bool rm = S->realMode;
				FNode* x = toNode(a[0]);
				if (!rm && x->E > 0) unsup("power of an inexact value");
				S->realMode = true;
				FNode* n = nullptr;
				try {
					if (k & 1) x = nSqrt(x, 53);
					else k /= 2;
					n = x;
					for (int i = 1; i < k; ++i) n = nMul(n, x, 53);
				}
				catch (...) {
					S->realMode = rm;
					throw;
				}
				S->realMode = rm;
				if (!rm) {
					FNode* m = newNode();
					*m = *n;
					m->id = ++nodeCounter;
					m->E = upb(std::max(std::fabs(n->lo), std::fabs(n->hi)) * (w == 32 ? 0x1p-23 : 0x1p-52) + 0x1p-149);
					m->repr = w == 32 ? 24 : 53;
					m->z3 = nullptr;
					m->delta = -1;
					auto key = std::make_pair(std::string(w == 32 ? "powf" : "powd"), std::vector<uint64_t>{ n->id });
					auto it = opMemo.find(key);
					if (it != opMemo.end()) m = it->second;
					else opMemo[key] = m;
					n = m;
				}
				r = mkSF(n, w);
				return;
			}
			r = w == 32 ? mkF32(std::pow((float)fc(a[0]), (float)fc(a[1]))) : mkF64(std::pow(fc(a[0]), fc(a[1])));
		};
	}
	for (int w : { 32, 64 }) {
		std::string sfx = w == 32 ? "f" : "";
		natives["fmod" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) { r = fbin(Instruction::FRem, a[0], a[1], w); };
		natives["floor" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) { r = floorLike(a[0], 0, w); };
		natives["trunc" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) { r = floorLike(a[0], 1, w); };
		natives["ceil" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) { r = floorLike(a[0], 2, w); };
		natives["sqrt" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) { r = sqrtV(a[0], w); };
		natives["fabs" + sfx] = [](DInst&, std::vector<Val>& a, Val& r) { r = fabsV(a[0]); };
		natives["fmax" + sfx] = [](DInst&, std::vector<Val>& a, Val& r) { r = minmaxV(a[0], a[1], true, false); };
		natives["fmin" + sfx] = [](DInst&, std::vector<Val>& a, Val& r) { r = minmaxV(a[0], a[1], false, false); };
		auto atan2Concrete = natives["atan2" + sfx];
		natives["atan2" + sfx] = [w, atan2Concrete](DInst& di, std::vector<Val>& a, Val& r) {
			if (S->realMode && (a[0].k == V_SF || a[1].k == V_SF)) r = mkSF(nAngle(toNode(a[0]), toNode(a[1])), w);
			else atan2Concrete(di, a, r);
		};
		natives["hypot" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) {
			if (anyFpa(a)) {
				r = uninterpreted("hypot", a, w);
				return;
			}
			if (a[0].k == V_SF || a[1].k == V_SF) {
				// |x + iy|: defined by r >= 0 and r^2 = x^2 + y^2, error below 2 ulp
				FNode *x = toNode(a[0]), *y = toNode(a[1]);
				bool rm = S->realMode;
				S->realMode = true;
				Val s;
				try {
					FNode* q = nAdd(nMul(x, x, 53), nMul(y, y, 53), 53, 1);
					if (x->E > 0 || y->E > 0) unsup("hypot of inexact values");
					FNode* h = nSqrt(q, 53);
					S->realMode = rm;
					if (!rm) {
						FNode* n = newNode();
						*n = *h;
						n->id = ++nodeCounter;
						n->E = upb(n->hi * (w == 32 ? 0x1p-23 : 0x1p-52) + 0x1p-149);
						n->repr = w == 32 ? 24 : 53;
						n->z3 = nullptr;
						n->delta = -1;
						auto key = std::make_pair(std::string(w == 32 ? "hypf" : "hypd"), std::vector<uint64_t>{ h->id });
						auto it = opMemo.find(key);
						if (it != opMemo.end()) n = it->second;
						else opMemo[key] = n;
						s = mkSF(n, w);
					}
					else s = mkSF(h, w);
				}
				catch (...) {
					S->realMode = rm;
					throw;
				}
				r = s;
				return;
			}
			r = w == 32 ? mkF32(hypotf(fc(a[0]), fc(a[1]))) : mkF64(hypot(fc(a[0]), fc(a[1])));
		};
		natives["modf" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) {
			Val ip = floorLike(a[0], 1, w);
			Val fr = fbin(Instruction::FSub, a[0], ip, w);
			TypeD t;
			t.k = w == 32 ? T_F32 : T_F64;
			t.w = w;
			storeT(concretize(a[1]), ip, &t);
			r = fr;
		};
		natives["frexp" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) {
			int e;
			double m = std::frexp(fc(a[0]), &e);
			storeT(concretize(a[1]), mkInt(e, 32), intT(32));
			r = mkFP(m, w);
		};
		natives["remquo" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) {
			int q;
			r = w == 32 ? mkF32(std::remquo((float)fc(a[0]), (float)fc(a[1]), &q)) : mkF64(std::remquo(fc(a[0]), fc(a[1]), &q));
			storeT(concretize(a[2]), mkInt((unsigned)q, 32), intT(32));
		};
		natives["ldexp" + sfx] = natives["scalbn" + sfx] = [w](DInst&, std::vector<Val>& a, Val& r) { r = mkFP(std::ldexp(fc(a[0]), (int)sxt(concretize(a[1]), 32)), w); };
		natives["lround" + sfx] = natives["llround" + sfx] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(std::llround(fc(a[0])), 64); };
		natives["lrint" + sfx] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(std::llrint(fc(a[0])), 64); };
	}
	auto sincos = [](unsigned w) {
		return [w](DInst&, std::vector<Val>& a, Val&) {
			TypeD t;
			t.k = w == 32 ? T_F32 : T_F64;
			t.w = w;
			Val s, c;
			DInst d;
			std::vector<Val> x{ a[0] };
			natives[w == 32 ? "sinf" : "sin"](d, x, s);
			natives[w == 32 ? "cosf" : "cos"](d, x, c);
			storeT(concretize(a[1]), s, &t);
			storeT(concretize(a[2]), c, &t);
		};
	};
	natives["sincos"] = sincos(64);
	natives["sincosf"] = sincos(32);
	// memory
	auto mal = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(allocate(concretize(a[0]), 16, 1, false), 64); };
	natives["malloc"] = natives["_Znwm"] = natives["_Znam"] = mal;
	natives["_ZnwmRKSt9nothrow_t"] = natives["_ZnamRKSt9nothrow_t"] = mal;
	natives["_ZnwmSt11align_val_t"] = natives["_ZnamSt11align_val_t"] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(allocate(concretize(a[0]), concretize(a[1]), 1, false), 64); };
	natives["aligned_alloc"] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(allocate(concretize(a[1]), concretize(a[0]), 1, false), 64); };
	natives["calloc"] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(allocate(concretize(a[0]) * concretize(a[1]), 16, 1, true), 64); };
	natives["posix_memalign"] = [](DInst&, std::vector<Val>& a, Val& r) {
		uint64_t p = allocate(concretize(a[2]), concretize(a[1]), 1, false);
		storeT(concretize(a[0]), mkInt(p, 64), intT(64));
		r = mkInt(0, 32);
	};
	auto fre = [](DInst&, std::vector<Val>& a, Val&) {
		uint64_t p = concretize(a[0]);
		if (p) release(p, 1);
	};
	for (const char* n : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t" }) natives[n] = fre;
	natives["memcpy"] = natives["memmove"] = [](DInst&, std::vector<Val>& a, Val& r) {
		copyMem(concretize(a[0]), concretize(a[1]), concretize(a[2]));
		r = a[0];
	};
	natives["memset"] = [](DInst&, std::vector<Val>& a, Val& r) {
		uint64_t p = concretize(a[0]), v = concretize(a[1]), n = concretize(a[2]);
		if (n) {
			uint64_t off;
			Obj* o = access(p, n, true, off);
			std::vector<uint8_t> b(n, (uint8_t)v);
			writeConc(o, off, b.data(), n);
		}
		r = a[0];
	};
	natives["memcmp"] = natives["bcmp"] = [](DInst&, std::vector<Val>& a, Val& r) {
		uint64_t p = concretize(a[0]), q = concretize(a[1]), n = concretize(a[2]);
		for (uint64_t i = 0; i < n; ++i) {
			uint64_t x = concretize(loadT(p + i, intT(8))), y = concretize(loadT(q + i, intT(8)));
			if (x != y) {
				r = mkInt(x < y ? -1 : 1, 32);
				return;
			}
		}
		r = mkInt(0, 32);
	};
	natives["strlen"] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(readStr(concretize(a[0])).size(), 64); };
	natives["strcmp"] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(readStr(concretize(a[0])).compare(readStr(concretize(a[1]))), 32); };
	// control
	natives["__assert_fail"] = [](DInst&, std::vector<Val>& a, Val&) {
		std::string s;
		strArg(a[0], s);
		doThrow("assertion: " + s);
	};
	natives["abort"] = natives["_ZSt9terminatev"] = natives["__clang_call_terminate"] = [](DInst&, std::vector<Val>&, Val&) { doThrow("abort"); };
	natives["__cxa_allocate_exception"] = [](DInst&, std::vector<Val>& a, Val& r) {
		S->throwing = true;
		r = mkInt(allocate(concretize(a[0]) + 64, 16, 1, true), 64);
	};
	natives["__cxa_throw"] = [](DInst& d, std::vector<Val>& a, Val&) {
		(void)d;
		std::string n = "exception";
		for (auto& [g, ad] : gAddr)
			if (a[1].k == V_INT && ad == a[1].i) n = g->getName().str();
		doThrow(n);
	};
	natives["__cxa_guard_acquire"] = [](DInst&, std::vector<Val>& a, Val& r) { r = mkInt(concretize(loadT(concretize(a[0]), intT(8))) == 0, 32); };
	natives["__cxa_guard_release"] = [](DInst&, std::vector<Val>& a, Val&) { storeT(concretize(a[0]), mkInt(1, 8), intT(8)); };
	natives["__cxa_guard_abort"] = [](DInst&, std::vector<Val>&, Val&) {};
	for (const char* n : { "__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock", "pthread_once", "pthread_cond_destroy", "__pthread_key_create" })
		natives[n] = [](DInst&, std::vector<Val>&, Val& r) { r = mkInt(0, 32); };
	for (const char* n : { "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev" }) natives[n] = [](DInst&, std::vector<Val>&, Val&) {};
	natives["_ZNSt6thread20hardware_concurrencyEv"] = [](DInst&, std::vector<Val>&, Val& r) { r = mkInt(1, 32); };
	natives["__errno_location"] = [](DInst&, std::vector<Val>&, Val& r) { r = mkInt(allocate(4, 16, 1, true), 64); };

	// texts of error messages: formatted as empty strings
	for (const char* n : { "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev", "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev", "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev", "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev", "llvm.va_start.p0", "llvm.va_end.p0", "llvm.va_start", "llvm.va_end" }) natives[n] = [](DInst&, std::vector<Val>&, Val&) {};
	for (const char* n : { "_ZNSo9_M_insertIdEERSoT_", "_ZNSo9_M_insertIeEERSoT_", "_ZNSo9_M_insertIlEERSoT_", "_ZNSo9_M_insertImEERSoT_", "_ZNSo9_M_insertIbEERSoT_", "_ZNSolsEi", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l" }) natives[n] = [](DInst&, std::vector<Val>& a, Val& r) { r = a[0]; };
	for (const char* n : { "_ZNKRSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv", "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv", "_ZNKRSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", "_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv" })
		natives[n] = [](DInst&, std::vector<Val>& a, Val&) {
			uint64_t p = concretize(a[0]);
			storeT(p, mkInt(p + 16, 64), intT(64));
			storeT(p + 8, mkInt(0, 64), intT(64));
			storeT(p + 16, mkInt(0, 8), intT(8));
		};
	natives["vsnprintf"] = natives["snprintf"] = [](DInst&, std::vector<Val>& a, Val& r) {
		if (concretize(a[1]) > 0) storeT(concretize(a[0]), mkInt(0, 8), intT(8));
		r = mkInt(0, 32);
	};

	// harness interface
	regInput("dsym_f32", 'f', false);
	regInput("dsym_f64", 'd', false);
	regInput("dsym_if32", 'f', true);
	regInput("dsym_if64", 'd', true);
	regAny("dsym_anyf32", 'f');
	regAny("dsym_anyf64", 'd');
	natives["dsym_i64"] = [](DInst&, std::vector<Val>& a, Val& r) {
		std::string n;
		strArg(a[0], n);
		int64_t lo = (int64_t)concretize(a[1]), hi = (int64_t)concretize(a[2]);
		std::string u = uniq(n);
		if (CONCRETE) {
			bool f;
			double d;
			int64_t i = lo;
			findConcrete(u, f, &d, &i);
			r = mkInt((uint64_t)(f ? i : lo), 64);
			return;
		}
		unsigned nb = bitsFor(lo, hi);
		Z3_ast v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, u.c_str()), BVS(nb));
		InputRec in;
		in.name = u;
		in.kind = 'I';
		in.bv = v;
		in.w = nb;
		in.lo = (double)lo;
		in.hi = (double)hi;
		S->inputs.push_back(in);
		Z3_ast c = mkAnd(Z3_mk_bvsge(Z, v, bvc((uint64_t)lo, nb)), Z3_mk_bvsle(Z, v, bvc((uint64_t)hi, nb)));
		c = Z3_simplify(Z, c);
		if (boolValue(c) != 1) {
			S->path.push_back(c);
			if (S->model && evalBool(S->model, c) != 1) S->model = nullptr;
		}
		r = mkSInt(sext(v, nb, 64), 64, lo, hi);
	};
	// greatest common divisor of two non-negative integers up to a bound, as a
	// term: Euclid's algorithm unrolled as often as the bound requires
	natives["dsym_gcd_i64"] = [](DInst&, std::vector<Val>& a, Val& r) {
		if (a[0].k == V_INT && a[1].k == V_INT) {
			uint64_t x = a[0].i, y = a[1].i;
			while (y) {
				uint64_t t = x % y;
				x = y, y = t;
			}
			r = mkInt(x, 64);
			return;
		}
		for (int k = 0; k < 2; ++k) {
			if (a[k].k != V_INT || a[k].i == 0 || a[k].i > (uint64_t(1) << 38)) continue;
			// one operand is known: split by its divisors
			Z3_ast x = toBV(a[1 - k]);
			unsigned nb = 64;
			if (a[1 - k].k == V_SINT && a[1 - k].in->lo >= 0) {
				nb = std::max(bitsFor(0, a[1 - k].in->hi), bitsFor(0, (int64_t)a[k].i));
				x = Z3_simplify(Z, Z3_mk_extract(Z, nb - 1, 0, x));
			}
			std::vector<uint64_t> divisors;
			for (uint64_t d = 1; d * d <= a[k].i; ++d)
				if (a[k].i % d == 0) {
					divisors.push_back(d);
					if (d * d != a[k].i) divisors.push_back(a[k].i / d);
				}
			std::sort(divisors.rbegin(), divisors.rend());
			for (uint64_t d : divisors) {
				if (d == 1 || decide(Z3_mk_eq(Z, Z3_mk_bvurem(Z, x, bvc(d, nb)), bvc(0, nb)))) {
					r = mkInt(d, 64);
					return;
				}
			}
		}
		int64_t mx = 1;
		for (int k = 0; k < 2; ++k) {
			if (a[k].k == V_INT) mx = std::max(mx, (int64_t)a[k].i);
			else if (a[k].k == V_SINT && a[k].in->lo >= 0) mx = std::max(mx, a[k].in->hi);
			else unsup("gcd of an integer without a known range");
		}
		if (mx > 1000000) unsup("gcd of large symbolic integers");
		unsigned nb = bitsFor(0, mx);
		Z3_ast x = Z3_mk_extract(Z, nb - 1, 0, toBV(a[0])), y = Z3_mk_extract(Z, nb - 1, 0, toBV(a[1])), zero = bvc(0, nb);
		// after n steps the divisor is 0 if it was below the (n+1)-th Fibonacci number
		int64_t f0 = 1, f1 = 1;
		int steps = 2;
		while (f1 <= mx) {
			int64_t t = f0 + f1;
			f0 = f1, f1 = t, ++steps;
		}
		for (int k = 0; k < steps; ++k) {
			Z3_ast z = Z3_mk_eq(Z, y, zero);
			Z3_ast nx = Z3_mk_ite(Z, z, x, y), ny = Z3_mk_ite(Z, z, zero, Z3_mk_bvurem(Z, x, y));
			x = Z3_simplify(Z, nx), y = Z3_simplify(Z, ny);
		}
		r = mkSInt(Z3_mk_zero_ext(Z, 64 - nb, x), 64, 0, mx);
	};
	natives["dsym_choose"] = [](DInst&, std::vector<Val>& a, Val& r) {
		std::string n;
		int64_t lo = (int64_t)concretize(a[1]), hi = (int64_t)concretize(a[2]);
		strArg(a[0], n);
		if (lo > hi) throw EndPath{ E_ASSUME, "empty choice" };
		InputRec in;
		if (CONCRETE) {
			std::string u = uniq(n);
			bool f;
			double d;
			int64_t i = lo;
			findConcrete(u, f, &d, &i);
			r = mkInt((uint64_t)(f ? i : lo), 64);
			return;
		}
		in.name = uniq(n);
		in.kind = 'I';
		in.isConc = true;
		// fork one state per value; the instruction is completed in each of them
		for (int64_t v = hi; v > lo; --v) {
			State* o = cloneState();
			in.conc = v;
			o->inputs.push_back(in);
			Frame& f = o->st.back();
			DInst& di = f.f->code[f.pc];
			if (di.dst >= 0) f.r[di.dst] = mkInt((uint64_t)v, 64);
			f.pc++;
			if (isa<InvokeInst>(di.I)) {
				f.prevbb = f.bb;
				f.bb = di.b0;
				f.pc = f.f->bbs[di.b0].first;
				if (f.f->bbs[di.b0].nphi) unsup("phi after invoke of dsym_choose");
			}
			work.push_back(o);
		}
		in.conc = lo;
		S->inputs.push_back(in);
		r = mkInt((uint64_t)lo, 64);
	};
	natives["dsym_assume"] = [](DInst&, std::vector<Val>& a, Val&) {
		Val c = a[0];
		if (c.k == V_SINT) c = mkBool(mkNot(Z3_mk_eq(Z, c.in->bv, bvc(0, c.w))));
		if (c.k == V_INT) {
			if (!(c.i & 1)) throw EndPath{ E_ASSUME, "assumption" };
			return;
		}
		Z3_ast z = toBool(c);
		auto it = S->decided.find(z);
		if (it != S->decided.end()) {
			if (!it->second) throw EndPath{ E_ASSUME, "assumption" };
			return;
		}
		if (evalBool(S->model, z) != 1) {
			Z3_model m = nullptr;
			Z3_lbool r = check(z, &m);
			if (r == Z3_L_FALSE) throw EndPath{ E_ASSUME, "assumption" };
			S->model = r == Z3_L_TRUE ? m : nullptr;
		}
		S->path.push_back(z);
		S->decided[z] = true;
	};
	natives["dsym_assert"] = [](DInst&, std::vector<Val>& a, Val&) {
		std::string id;
		strArg(a[1], id);
		Val c = a[0];
		if (c.k == V_SINT) c = mkBool(Z3_simplify(Z, mkNot(Z3_mk_eq(Z, c.in->bv, bvc(0, c.w)))));
		if (c.k == V_UNDEF) throw EndPath{ E_UNINIT, "uninitialised value in assertion " + id };
		assertBool(c, id);
	};
	for (int w : { 32, 64 }) {
		natives["dsym_same_f" + std::to_string(w)] = [w](DInst&, std::vector<Val>& a, Val&) {
			std::string id;
			strArg(a[2], id);
			assertClose(a[0], a[1], Val(), id, w);
		};
		natives["dsym_close_f" + std::to_string(w)] = [w](DInst&, std::vector<Val>& a, Val&) {
			std::string id;
			strArg(a[3], id);
			assertClose(a[0], a[1], a[2], id, w);
		};
		natives["dsym_alike_f" + std::to_string(w)] = [w](DInst&, std::vector<Val>& a, Val&) {
			std::string id;
			strArg(a[3], id);
			if (S->realMode && (a[0].k == V_SF || a[1].k == V_SF) && isF(a[2])) {
				// the same formula up to the rounding of its constants
				for (int k = 0; k < 2; ++k)
					if (isF(a[k]) && !std::isfinite(fval(a[k]))) {
						assertBool(mkInt(0, 1), id);
						return;
					}
				FNode *x = toNode(a[0]), *y = toNode(a[1]);
				double m = 0, diff = 0;
				for (auto* n : { x, y })
					for (auto& [mo, c] : n->p.t) m = std::max(m, std::fabs(c.get_d()));
				for (auto& [mo, c] : polyAdd(x->p, y->p, -1).t) {
					double f = std::fabs(c.get_d());
					for (auto& [v, e] : MT.monos[mo])
						if (VARS[v].name.compare(0, 3, "dif") == 0) f *= std::max(std::fabs(VARS[v].lo), std::fabs(VARS[v].hi));
					diff = std::max(diff, f);
				}
				if (x->E == 0 && y->E == 0 && diff <= fval(a[2]) * m) {
					observe(id, a[0]);
					auto& st = asserts[id];
					st.evaluated++;
					st.discharged++;
					S->asserts++;
					return;
				}
			}
			assertClose(a[0], a[1], mkF64(1e-3), id, w);
		};
		natives["dsym_observe_f" + std::to_string(w)] = [](DInst&, std::vector<Val>& a, Val&) {
			std::string id;
			strArg(a[1], id);
			observe(id, a[0]);
		};
	}
	natives["dsym_reject_begin"] = [](DInst&, std::vector<Val>& a, Val&) {
		strArg(a[0], S->rejectId);
		S->reject = true;
	};
	natives["dsym_reject_end"] = [](DInst&, std::vector<Val>&, Val&) {
		S->reject = false;
		assertBool(mkInt(0, 1), S->rejectId);
	};
	natives["dsym_may_reject_begin"] = [](DInst&, std::vector<Val>& a, Val&) {
		strArg(a[0], S->rejectId);
		S->reject = true;
	};
	natives["dsym_may_reject_end"] = [](DInst&, std::vector<Val>&, Val&) { S->reject = false; };
	natives["dsym_real_mode"] = [](DInst&, std::vector<Val>& a, Val&) {
		auto m = concretize(a[0]);
		S->realMode = m != 0, S->nearInverse = (m & 3) == 2, S->generic = (m & 4) != 0;
	};
	natives["dsym_done"] = [](DInst&, std::vector<Val>&, Val&) { throw EndPath{ E_RETURN, "" }; };
	natives["dsym_is_engine"] = [](DInst&, std::vector<Val>&, Val& r) { r = mkInt(1, 32); };
	natives["dsym_trace_i64"] = [](DInst&, std::vector<Val>& a, Val&) {
		std::string id;
		strArg(a[0], id);
		fprintf(stderr, "trace %s = ", id.c_str());
		if (a[1].k == V_INT) fprintf(stderr, "%lld\n", (long long)a[1].i);
		else fprintf(stderr, "%s\n", Z3_ast_to_string(Z, toBV(a[1])));
	};
	natives["dsym_trace_f64"] = [](DInst&, std::vector<Val>& a, Val&) {
		std::string id;
		strArg(a[0], id);
		fprintf(stderr, "trace %s = ", id.c_str());
		if (isF(a[1])) fprintf(stderr, "%.17g\n", fval(a[1]));
		else if (a[1].k == V_SF) fprintf(stderr, "%s (+- %g) in [%g,%g] gran %d\n", Z3_ast_to_string(Z, polyZ3(a[1].sf->p)), a[1].sf->E, a[1].sf->lo, a[1].sf->hi, a[1].sf->gran);
		else fprintf(stderr, "kind %d\n", a[1].k);
	};
}

// ------------------------------------------------------------------ intrinsics
static Val lane(const Val& v, unsigned i) { return v.k == V_AGG ? v.agg->v[i] : Val(); }
static bool intrinsic(DInst& d, std::vector<Val>& a, Val& r) {
	unsigned w = d.ty->w;
	TypeD* t = d.ty;
	auto map1 = [&](std::function<Val(const Val&, TypeD*)> f) {
		if (t->k == T_VEC) {
			std::vector<Val> o(t->n);
			for (unsigned i = 0; i < t->n; ++i) o[i] = f(lane(a[0], i), t->el);
			r = mkAgg(std::move(o));
		}
		else r = f(a[0], t);
	};
	auto map2 = [&](std::function<Val(const Val&, const Val&, TypeD*)> f) {
		if (t->k == T_VEC) {
			std::vector<Val> o(t->n);
			for (unsigned i = 0; i < t->n; ++i) o[i] = f(lane(a[0], i), lane(a[1], i), t->el);
			r = mkAgg(std::move(o));
		}
		else r = f(a[0], a[1], t);
	};
	switch (d.intr) {
		case Intrinsic::dbg_declare:
		case Intrinsic::dbg_value:
		case Intrinsic::dbg_label:
		case Intrinsic::vastart:
		case Intrinsic::vaend:
		case Intrinsic::lifetime_start:
		case Intrinsic::lifetime_end:
		case Intrinsic::assume:
		case Intrinsic::experimental_noalias_scope_decl:
		case Intrinsic::prefetch:
		case Intrinsic::stackrestore:
		case Intrinsic::var_annotation:
			return true;
		case Intrinsic::stacksave: r = mkInt(0, 64); return true;
		case Intrinsic::expect:
		case Intrinsic::launder_invariant_group:
		case Intrinsic::strip_invariant_group:
		case Intrinsic::threadlocal_address:
			r = a[0];
			return true;
		case Intrinsic::invariant_start: r = mkInt(0, 64); return true;
		case Intrinsic::invariant_end: return true;
		case Intrinsic::is_constant: r = mkInt(0, 1); return true;
		case Intrinsic::objectsize: r = mkInt(~0ull, w); return true;
		case Intrinsic::trap:
		case Intrinsic::ubsantrap: throw EndPath{ E_TRAP, "trap" };
		case Intrinsic::memcpy:
		case Intrinsic::memcpy_inline:
		case Intrinsic::memmove: {
			uint64_t n = concretize(a[2]);
			if (n) copyMem(concretize(a[0]), concretize(a[1]), n);
			return true;
		}
		case Intrinsic::memset: {
			uint64_t n = concretize(a[2]);
			if (!n) return true;
			uint64_t p = concretize(a[0]);
			uint64_t off;
			if (a[1].k == V_UNDEF) {
				Obj* o = access(p, n, true, off);
				for (uint64_t i = 0; i < n; ++i) writeCell(o, off + i, Cell());
				return true;
			}
			uint64_t v = concretize(a[1]);
			Obj* o = access(p, n, true, off);
			std::vector<uint8_t> b(n, (uint8_t)v);
			writeConc(o, off, b.data(), n);
			return true;
		}
		case Intrinsic::fabs: map1([](const Val& x, TypeD*) { return fabsV(x); }); return true;
		case Intrinsic::sqrt: map1([](const Val& x, TypeD* t) { return sqrtV(x, t->w); }); return true;
		case Intrinsic::floor: map1([](const Val& x, TypeD* t) { return floorLike(x, 0, t->w); }); return true;
		case Intrinsic::trunc: map1([](const Val& x, TypeD* t) { return floorLike(x, 1, t->w); }); return true;
		case Intrinsic::ceil: map1([](const Val& x, TypeD* t) { return floorLike(x, 2, t->w); }); return true;
		case Intrinsic::sin:
		case Intrinsic::cos:
		case Intrinsic::exp:
		case Intrinsic::exp2:
		case Intrinsic::log:
		case Intrinsic::log2:
		case Intrinsic::log10:
		case Intrinsic::round:
		case Intrinsic::rint:
		case Intrinsic::nearbyint:
		case Intrinsic::pow: {
			std::string base;
			switch (d.intr) {
				case Intrinsic::sin: base = "sin"; break;
				case Intrinsic::cos: base = "cos"; break;
				case Intrinsic::exp: base = "exp"; break;
				case Intrinsic::exp2: base = "exp2"; break;
				case Intrinsic::log: base = "log"; break;
				case Intrinsic::log2: base = "log2"; break;
				case Intrinsic::log10: base = "log10"; break;
				case Intrinsic::round: base = "round"; break;
				case Intrinsic::rint: base = "rint"; break;
				case Intrinsic::nearbyint: base = "nearbyint"; break;
				default: base = "pow"; break;
			}
			if (t->k == T_VEC) unsup("vector math intrinsic");
			natives[base + (w == 32 ? "f" : w == 80 ? "l" : "")](d, a, r);
			return true;
		}
		case Intrinsic::copysign:
			map2([](const Val& x, const Val& y, TypeD* t) {
				if (isF(x) && isF(y)) return mkFP(std::copysign(fval(x), fval(y)), t->w);
				if (x.k == V_FPA || y.k == V_FPA) {
					Z3_ast ax = Z3_mk_fpa_abs(Z, toFpa(x));
					return mkFpa(Z3_mk_ite(Z, Z3_mk_fpa_is_negative(Z, toFpa(y)), Z3_mk_fpa_neg(Z, ax), ax), t->w);
				}
				Val m = fabsV(x);
				bool neg = isF(y) ? std::signbit(fval(y)) : decideVal(nCmp(toNode(y), constNode(0), 1));
				return neg ? fneg(m) : m;
			});
			return true;
		case Intrinsic::minnum: map2([](const Val& x, const Val& y, TypeD*) { return minmaxV(x, y, false, false); }); return true;
		case Intrinsic::maxnum: map2([](const Val& x, const Val& y, TypeD*) { return minmaxV(x, y, true, false); }); return true;
		case Intrinsic::fmuladd: {
			std::vector<Val> o;
			unsigned n = t->k == T_VEC ? t->n : 1;
			for (unsigned i = 0; i < n; ++i) {
				unsigned ew = t->k == T_VEC ? t->el->w : w;
				Val x = t->k == T_VEC ? lane(a[0], i) : a[0], y = t->k == T_VEC ? lane(a[1], i) : a[1], z = t->k == T_VEC ? lane(a[2], i) : a[2];
				o.push_back(fbin(Instruction::FAdd, fbin(Instruction::FMul, x, y, ew), z, ew));
			}
			r = t->k == T_VEC ? mkAgg(std::move(o)) : o[0];
			return true;
		}
		case Intrinsic::x86_sse_min_ps:
		case Intrinsic::x86_sse2_min_pd: map2([](const Val& x, const Val& y, TypeD*) { return minmaxV(x, y, false, true); }); return true;
		case Intrinsic::x86_sse_max_ps:
		case Intrinsic::x86_sse2_max_pd: map2([](const Val& x, const Val& y, TypeD*) { return minmaxV(x, y, true, true); }); return true;
		case Intrinsic::x86_sse_cmp_ps:
		case Intrinsic::x86_sse2_cmp_pd: {
			uint64_t imm = concretize(a[2]) & 7;
			static const unsigned pr[8] = { CmpInst::FCMP_OEQ, CmpInst::FCMP_OLT, CmpInst::FCMP_OLE, CmpInst::FCMP_UNO, CmpInst::FCMP_UNE, CmpInst::FCMP_UGE, CmpInst::FCMP_UGT, CmpInst::FCMP_ORD };
			map2([&](const Val& x, const Val& y, TypeD* e) {
				Val m = castV(Instruction::SExt, fcmp(pr[imm], x, y), intT(1), intT(e->w));
				return castV(Instruction::BitCast, m, intT(e->w), e);
			});
			return true;
		}
		case Intrinsic::x86_sse_movmsk_ps:
		case Intrinsic::x86_sse2_movmsk_pd: {
			uint64_t m = 0;
			unsigned n = d.intr == Intrinsic::x86_sse_movmsk_ps ? 4 : 2, ew = 128 / n;
			for (unsigned i = 0; i < n; ++i) {
				Val l = lane(a[0], i);
				Val bits = castV(Instruction::BitCast, l, typeOf(ew == 32 ? Type::getFloatTy(LCTX) : Type::getDoubleTy(LCTX)), intT(ew));
				if (decideVal(icmp(CmpInst::ICMP_SLT, bits, mkInt(0, ew), ew))) m |= 1ull << i;
			}
			r = mkInt(m, 32);
			return true;
		}
		case Intrinsic::x86_sse2_cvtps2dq: {
			std::vector<Val> o(4);
			for (unsigned i = 0; i < 4; ++i) o[i] = mkInt((uint64_t)(int64_t)std::nearbyint(fc(lane(a[0], i))), 32);
			r = mkAgg(std::move(o));
			return true;
		}
		case Intrinsic::x86_sse2_cvttps2dq: {
			std::vector<Val> o(4);
			for (unsigned i = 0; i < 4; ++i) o[i] = fpToInt(lane(a[0], i), 32, true);
			r = mkAgg(std::move(o));
			return true;
		}
		case Intrinsic::ctpop: map1([](const Val& x, TypeD* t) { return mkInt(__builtin_popcountll(concretize(x)), t->w); }); return true;
		case Intrinsic::ctlz:
			map1([](const Val& x, TypeD* t) {
				uint64_t v = concretize(x);
				return mkInt(v ? __builtin_clzll(v) - (64 - t->w) : t->w, t->w);
			});
			return true;
		case Intrinsic::cttz:
			map1([](const Val& x, TypeD* t) {
				uint64_t v = concretize(x);
				return mkInt(v ? __builtin_ctzll(v) : t->w, t->w);
			});
			return true;
		case Intrinsic::bswap: {
			uint64_t v = concretize(a[0]);
			r = mkInt(__builtin_bswap64(v) >> (64 - w), w);
			return true;
		}
		case Intrinsic::smax:
		case Intrinsic::smin:
		case Intrinsic::umax:
		case Intrinsic::umin: {
			unsigned p = d.intr == Intrinsic::smax ? CmpInst::ICMP_SGT : d.intr == Intrinsic::smin ? CmpInst::ICMP_SLT : d.intr == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
			map2([&](const Val& x, const Val& y, TypeD* t) {
				if (x.k == V_UNDEF || y.k == V_UNDEF) return Val();
				Val v = selectV(icmp(p, x, y, t->w), x, y, t);
				if (v.k == V_SINT && (d.intr == Intrinsic::smax || d.intr == Intrinsic::smin)) {
					i128 al, ah, bl, bh;
					rangeOf(x, al, ah);
					rangeOf(y, bl, bh);
					if (d.intr == Intrinsic::smax) return mkSInt(v.in->bv, t->w, std::max(al, bl), std::max(ah, bh));
					return mkSInt(v.in->bv, t->w, std::min(al, bl), std::min(ah, bh));
				}
				return v;
			});
			return true;
		}
		case Intrinsic::abs:
			map1([&](const Val& x, TypeD* t) {
				if (x.k == V_UNDEF) return Val();
				Val neg = ibin(Instruction::Sub, mkInt(0, t->w), x, t->w);
				Val v = selectV(icmp(CmpInst::ICMP_SLT, x, mkInt(0, t->w), t->w), neg, x, t);
				if (v.k == V_SINT) {
					i128 lo, hi;
					rangeOf(x, lo, hi);
					i128 m = std::max(lo < 0 ? -lo : lo, hi < 0 ? -hi : hi);
					return mkSInt(v.in->bv, t->w, 0, m);
				}
				return v;
			});
			return true;
		case Intrinsic::fshl: {
			if (a[0].k == V_INT && a[1].k == V_INT && a[2].k == V_INT && t->k == T_INT) {
				unsigned s = a[2].i % w;
				r = s ? mkInt((a[0].i << s) | (a[1].i >> (w - s)), w) : a[0];
				return true;
			}
			unsup("fshl");
		}
		case Intrinsic::fshr: {
			if (a[0].k == V_INT && a[1].k == V_INT && a[2].k == V_INT && t->k == T_INT) {
				unsigned s = a[2].i % w;
				r = s ? mkInt((a[0].i << (w - s)) | (a[1].i >> s), w) : a[1];
				return true;
			}
			unsup("fshr");
		}
		case Intrinsic::usub_sat: {
			Val lt = icmp(CmpInst::ICMP_ULT, a[0], a[1], w);
			r = selectV(lt, mkInt(0, w), ibin(Instruction::Sub, a[0], a[1], w), t);
			return true;
		}
		case Intrinsic::umul_with_overflow:
		case Intrinsic::uadd_with_overflow:
		case Intrinsic::usub_with_overflow:
		case Intrinsic::smul_with_overflow:
		case Intrinsic::sadd_with_overflow:
		case Intrinsic::ssub_with_overflow: {
			unsigned ww = t->fields[0]->w;
			if (a[0].k == V_UNDEF || a[1].k == V_UNDEF) {
				r = undefOf(t);
				return true;
			}
			if (a[0].k != V_INT || a[1].k != V_INT) {
				i128 al, ah, bl, bh;
				rangeOf(a[0], al, ah);
				rangeOf(a[1], bl, bh);
				bool sg = d.intr == Intrinsic::smul_with_overflow || d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow;
				i128 lo, hi;
				unsigned op;
				if (d.intr == Intrinsic::umul_with_overflow || d.intr == Intrinsic::smul_with_overflow) {
					if (bitsFor(al, ah) + bitsFor(bl, bh) > 120) unsup("symbolic multiplication overflow check");
					i128 q[4] = { al * bl, al * bh, ah * bl, ah * bh };
					lo = *std::min_element(q, q + 4);
					hi = *std::max_element(q, q + 4);
					op = Instruction::Mul;
				}
				else if (d.intr == Intrinsic::uadd_with_overflow || d.intr == Intrinsic::sadd_with_overflow) lo = al + bl, hi = ah + bh, op = Instruction::Add;
				else lo = al - bh, hi = ah - bl, op = Instruction::Sub;
				i128 mn = sg ? -((i128)1 << (ww - 1)) : 0, mx = ((i128)1 << (ww - 1)) - 1;
				if (lo < mn || hi > mx || (!sg && (al < 0 || bl < 0))) unsup("symbolic overflow check");
				r = mkAgg({ ibin(op, a[0], a[1], ww), mkInt(0, 1) });
				return true;
			}
			bool sg = d.intr == Intrinsic::smul_with_overflow || d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow;
			i128 x = sg ? (i128)sxt(a[0].i, ww) : (i128)a[0].i, y = sg ? (i128)sxt(a[1].i, ww) : (i128)a[1].i, z;
			bool ovf;
			if (d.intr == Intrinsic::umul_with_overflow) {
				unsigned __int128 zz = (unsigned __int128)a[0].i * a[1].i;
				ovf = ww == 64 ? (zz >> 64) != 0 : (zz >> ww) != 0;
				z = (i128)zz;
			}
			else {
				z = d.intr == Intrinsic::smul_with_overflow ? x * y : (d.intr == Intrinsic::uadd_with_overflow || d.intr == Intrinsic::sadd_with_overflow) ? x + y : x - y;
				i128 mn = sg ? -((i128)1 << (ww - 1)) : 0, mx = sg ? ((i128)1 << (ww - 1)) - 1 : ((i128)1 << ww) - 1;
				ovf = z < mn || z > mx;
			}
			r = mkAgg({ mkInt((uint64_t)z, ww), mkInt(ovf, 1) });
			return true;
		}
		case Intrinsic::vector_reduce_add:
		case Intrinsic::vector_reduce_or:
		case Intrinsic::vector_reduce_and:
		case Intrinsic::vector_reduce_mul: {
			unsigned op = d.intr == Intrinsic::vector_reduce_add ? Instruction::Add : d.intr == Intrinsic::vector_reduce_or ? Instruction::Or : d.intr == Intrinsic::vector_reduce_and ? Instruction::And : Instruction::Mul;
			Val acc = a[0].agg->v[0];
			for (size_t i = 1; i < a[0].agg->v.size(); ++i) acc = ibin(op, acc, a[0].agg->v[i], w);
			r = acc;
			return true;
		}
		case Intrinsic::vector_reduce_fadd:
		case Intrinsic::vector_reduce_fmul: {
			unsigned op = d.intr == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul;
			Val acc = a[0];
			for (auto& l : a[1].agg->v) acc = fbin(op, acc, l, w);
			r = acc;
			return true;
		}
		case Intrinsic::is_fpclass: {
			uint64_t mask = concretize(a[1]);
			if (isF(a[0])) {
				double x = fval(a[0]);
				unsigned cls;
				bool sub = a[0].k == V_F32 ? std::fpclassify(a[0].f) == FP_SUBNORMAL : std::fpclassify(x) == FP_SUBNORMAL;
				if (std::isnan(x)) cls = 3;
				else if (std::isinf(x)) cls = x < 0 ? 4 : 512;
				else if (x == 0) cls = std::signbit(x) ? 32 : 64;
				else if (sub) cls = x < 0 ? 16 : 128;
				else cls = x < 0 ? 8 : 256;
				r = mkInt((cls & mask) != 0, 1);
				return true;
			}
			if (a[0].k == V_SF) {
				if ((mask & ~3ull & ~516ull) == 0) {
					r = mkInt(0, 1);
					return true;
				}
				if ((mask & 504) == 504) {
					r = mkInt(1, 1);
					return true;
				}
				unsup("fpclass of symbolic real");
			}
			if (a[0].k == V_FPA) {
				Z3_ast x = a[0].fpa->fp, acc = Z3_mk_false(Z), ng = Z3_mk_fpa_is_negative(Z, x), ps = Z3_mk_fpa_is_positive(Z, x);
				if (mask & 3) acc = mkOr(acc, Z3_mk_fpa_is_nan(Z, x));
				auto addc = [&](uint64_t mn, uint64_t mp, Z3_ast k) {
					if (mask & mn) acc = mkOr(acc, mkAnd(k, ng));
					if (mask & mp) acc = mkOr(acc, mkAnd(k, ps));
				};
				addc(4, 512, Z3_mk_fpa_is_infinite(Z, x));
				addc(8, 256, Z3_mk_fpa_is_normal(Z, x));
				addc(16, 128, Z3_mk_fpa_is_subnormal(Z, x));
				addc(32, 64, Z3_mk_fpa_is_zero(Z, x));
				r = mkBool(Z3_simplify(Z, acc));
				return true;
			}
			r = Val();
			return true;
		}
		default: return false;
	}
}

// ------------------------------------------------------------------ interpreter
static inline const Val& ov(const Frame& f, const Opnd& o) {
	static const Val undef;
	if (o.idx >= 0) return f.r[o.idx];
	int i = ~o.idx;
	if (i == 0x3fffffff) return undef;
	return consts[i];
}
static void jump(Frame& f, int target) {
	BBD& b = f.f->bbs[target];
	int from = f.bb;
	if (b.nphi) {
		Val tmp[16];
		std::vector<Val> big;
		Val* t = tmp;
		if (b.nphi > 16) {
			big.resize(b.nphi);
			t = big.data();
		}
		for (int i = 0; i < b.nphi; ++i) {
			DInst& d = f.f->code[b.first + i];
			size_t k = 0;
			while (k < d.idx.size() && (int)d.idx[k] != from) ++k;
			t[i] = ov(f, d.ops[k]);
			d.hits++;
		}
		for (int i = 0; i < b.nphi; ++i) f.r[f.f->code[b.first + i].dst] = std::move(t[i]);
	}
	f.prevbb = from;
	f.bb = target;
	f.pc = b.first + b.nphi;
}
static void pushFrame(FnD* fd, const std::vector<Val>& args, int retDst) {
	if (S->st.size() > 2000) throw EndPath{ E_BUDGET, "call depth" };
	Frame f;
	f.f = fd;
	f.r.resize(fd->nregs);
	for (size_t i = 0; i < args.size() && i < fd->F->arg_size(); ++i) f.r[i] = args[i];
	f.retDst = retDst;
	f.pc = fd->bbs[0].first;
	S->st.push_back(std::move(f));
}
static bool isNoopExternal(const std::string& n) {
	static const char* pre[] = { "_ZNSt13runtime_error", "_ZNSt12domain_error", "_ZNSt16invalid_argument", "_ZNSt12out_of_range", "_ZNSt11logic_error", "_ZNSt12length_error", "_ZNSt9exception", "__cxa_free_exception", "__cxa_begin_catch", "__cxa_end_catch" };
	for (auto p : pre)
		if (n.rfind(p, 0) == 0) return true;
	return false;
}
static void callFn(Frame& f, DInst& d) {
	Function* F = d.callee;
	std::vector<Val> args;
	args.reserve(d.ops.size());
	for (auto& o : d.ops) args.push_back(ov(f, o));
	auto* cb = cast<CallBase>(d.I);
	if (!F) {
		if (cb->isInlineAsm()) {
			// empty asm used as an optimisation barrier
			auto* ia = cast<InlineAsm>(cb->getCalledOperand());
			if (ia->getAsmString().empty()) {
				if (d.dst >= 0) f.r[d.dst] = args.empty() ? Val() : args[0];
				f.pc++;
				return;
			}
			unsup("inline assembly: " + std::string(ia->getAsmString()));
		}
		uint64_t a = concretize(args.back());
		args.pop_back();
		auto it = fnByAddr.find(a);
		if (it == fnByAddr.end()) throw EndPath{ E_MEM, "call through an invalid function pointer" };
		F = it->second;
	}
	auto finish = [&](Val&& r) {
		Frame& g = top();
		if (d.dst >= 0) g.r[d.dst] = std::move(r);
		if (d.op == Instruction::Invoke) jump(g, d.b0);
		else g.pc++;
	};
	if (d.intr && F == d.callee) {
		Val r;
		if (!intrinsic(d, args, r)) unsup("intrinsic " + F->getName().str());
		finish(std::move(r));
		return;
	}
	static std::unordered_map<Function*, NativeFn*> ncache;
	auto nc = ncache.find(F);
	NativeFn* nf;
	if (nc != ncache.end()) nf = nc->second;
	else {
		auto it = natives.find(F->getName().str());
		nf = it == natives.end() ? nullptr : &it->second;
		ncache[F] = nf;
	}
	if (nf) {
		Val r;
		(*nf)(d, args, r);
		finish(std::move(r));
		return;
	}
	if (F->isDeclaration()) {
		std::string n = F->getName().str();
		if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos) doThrow(n);
		if (S->throwing || isNoopExternal(n)) {
			finish(typeOf(F->getReturnType())->k == T_VOID ? Val() : zeroOf(typeOf(F->getReturnType())));
			return;
		}
		unsup("external function " + n);
	}
	FnD* fd = decode(F);
	pushFrame(fd, args, d.dst);
}
static void step() {
	Frame& f = top();
	DInst& d = f.f->code[f.pc];
	d.hits++;
	TypeD* t = d.ty;
	switch (d.op) {
		case Instruction::Ret: {
			Val r;
			if (!d.ops.empty()) r = ov(f, d.ops[0]);
			std::vector<uint64_t> al = std::move(f.allocas);
			int dst = f.retDst;
			S->st.pop_back();
			for (auto it = al.rbegin(); it != al.rend(); ++it) release(*it, 0);
			if (S->st.empty()) throw EndPath{ E_RETURN, "" };
			Frame& g = top();
			DInst& c = g.f->code[g.pc];
			if (dst >= 0) g.r[dst] = std::move(r);
			if (c.op == Instruction::Invoke) jump(g, c.b0);
			else g.pc++;
			return;
		}
		case Instruction::Br:
			if (d.ops.empty()) jump(f, d.b0);
			else {
				const Val& c = ov(f, d.ops[0]);
				if (c.k == V_UNDEF) throw EndPath{ E_UNINIT, "branch on an uninitialised value" };
				bool b = decideVal(c);
				jump(top(), b ? d.b0 : d.b1);
			}
			return;
		case Instruction::Switch: {
			Val c = ov(f, d.ops[0]);
			if (c.k == V_UNDEF) throw EndPath{ E_UNINIT, "switch on an uninitialised value" };
			unsigned w = d.ops.empty() ? 64 : cast<SwitchInst>(d.I)->getCondition()->getType()->getIntegerBitWidth();
			for (auto& cs : d.gepIdx) {
				Val e = icmp(CmpInst::ICMP_EQ, c, mkInt((uint64_t)cs.second, w), w);
				if (decideVal(e)) {
					jump(top(), cs.first.idx);
					return;
				}
			}
			jump(top(), d.b0);
			return;
		}
		case Instruction::Unreachable:
			if (S->throwing) doThrow("exception");
			throw EndPath{ E_UNREACH, "unreachable code executed (undefined behaviour)" };
		case Instruction::Call:
		case Instruction::Invoke: callFn(f, d); return;
		case Instruction::Alloca: {
			uint64_t n = 1;
			if (!d.ops.empty()) n = concretize(ov(f, d.ops[0]));
			uint64_t a = allocate(d.gepOff * n, d.align, 0, false);
			f.allocas.push_back(a);
			f.r[d.dst] = mkInt(a, 64);
			break;
		}
		case Instruction::Load: {
			uint64_t a = concretize(ov(f, d.ops[0]));
			if (d.align > 8 && t->k == T_VEC && (a % std::min(d.align, 16u))) throw EndPath{ E_MEM, "misaligned vector load" };
			f.r[d.dst] = loadT(a, t);
			break;
		}
		case Instruction::Store: {
			uint64_t a = concretize(ov(f, d.ops[1]));
			if (d.align > 8 && d.ty2->k == T_VEC && (a % std::min(d.align, 16u))) throw EndPath{ E_MEM, "misaligned vector store" };
			storeT(a, ov(f, d.ops[0]), d.ty2);
			break;
		}
		case Instruction::GetElementPtr: {
			const Val& b = ov(f, d.ops[0]);
			if (b.k == V_UNDEF) {
				f.r[d.dst] = Val();
				break;
			}
			if (b.k == V_INT) {
				uint64_t a = b.i + (uint64_t)d.gepOff;
				bool und = false, sy = false;
				for (auto& [o, s] : d.gepIdx) {
					const Val& i = ov(f, o);
					if (i.k == V_UNDEF) und = true;
					else if (i.k != V_INT) sy = true;
					else a += (uint64_t)(sxt(i.i, i.w) * s);
				}
				if (und) {
					f.r[d.dst] = Val();
					break;
				}
				if (!sy) {
					f.r[d.dst] = mkInt(a, 64);
					break;
				}
			}
			uint64_t a = concretize(b) + (uint64_t)d.gepOff;
			Val base = mkInt(a, 64);
			for (auto& [o, s] : d.gepIdx) {
				Val i = ov(f, o);
				if (i.k == V_BYTES) i = mkSIntFull(toBV(i), i.w);
				if (i.w < 64) i = castV(Instruction::SExt, i, intT(i.w), intT(64));
				base = ibin(Instruction::Add, base, ibin(Instruction::Mul, i, mkInt((uint64_t)s, 64), 64), 64);
			}
			f.r[d.dst] = base;
			break;
		}
		case 10000: unsup("vector gep");
		case Instruction::ICmp: {
			TypeD* st = d.ty2;
			const Val &a = ov(f, d.ops[0]), &b = ov(f, d.ops[1]);
			if (t->k == T_VEC) {
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) r[i] = icmp(d.intr, lane(a, i), lane(b, i), st->el->w);
				f.r[d.dst] = mkAgg(std::move(r));
			}
			else f.r[d.dst] = icmp(d.intr, a, b, st->w);
			break;
		}
		case Instruction::FCmp: {
			const Val &a = ov(f, d.ops[0]), &b = ov(f, d.ops[1]);
			if (t->k == T_VEC) {
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) r[i] = fcmp(d.intr, lane(a, i), lane(b, i));
				f.r[d.dst] = mkAgg(std::move(r));
			}
			else f.r[d.dst] = fcmp(d.intr, a, b);
			break;
		}
		case Instruction::Add:
		case Instruction::Sub:
		case Instruction::Mul:
		case Instruction::UDiv:
		case Instruction::SDiv:
		case Instruction::URem:
		case Instruction::SRem:
		case Instruction::Shl:
		case Instruction::LShr:
		case Instruction::AShr:
		case Instruction::And:
		case Instruction::Or:
		case Instruction::Xor: {
			const Val &a = ov(f, d.ops[0]), &b = ov(f, d.ops[1]);
			if (t->k == T_VEC) {
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) r[i] = ibin(d.op, lane(a, i), lane(b, i), t->el->w);
				f.r[d.dst] = mkAgg(std::move(r));
			}
			else f.r[d.dst] = ibin(d.op, a, b, t->w);
			break;
		}
		case Instruction::FAdd:
		case Instruction::FSub:
		case Instruction::FMul:
		case Instruction::FDiv:
		case Instruction::FRem: {
			const Val &a = ov(f, d.ops[0]), &b = ov(f, d.ops[1]);
			if (t->k == T_VEC) {
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) r[i] = fbin(d.op, lane(a, i), lane(b, i), t->el->w);
				f.r[d.dst] = mkAgg(std::move(r));
			}
			else f.r[d.dst] = fbin(d.op, a, b, t->w);
			break;
		}
		case Instruction::FNeg: {
			const Val& a = ov(f, d.ops[0]);
			if (t->k == T_VEC) {
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) r[i] = fneg(lane(a, i));
				f.r[d.dst] = mkAgg(std::move(r));
			}
			else f.r[d.dst] = fneg(a);
			break;
		}
		case Instruction::Select: {
			const Val &c = ov(f, d.ops[0]), &a = ov(f, d.ops[1]), &b = ov(f, d.ops[2]);
			if (c.k == V_AGG) {
				std::vector<Val> r(t->n);
				for (unsigned i = 0; i < t->n; ++i) r[i] = selectV(c.agg->v[i], lane(a, i), lane(b, i), t->el);
				f.r[d.dst] = mkAgg(std::move(r));
			}
			else if (t->k == T_VEC || t->k == T_STRUCT) {
				bool b2 = decideVal(c);
				Frame& g = top();
				g.r[d.dst] = b2 ? ov(g, d.ops[1]) : ov(g, d.ops[2]);
			}
			else f.r[d.dst] = selectV(c, a, b, t);
			break;
		}
		case Instruction::Freeze: f.r[d.dst] = ov(f, d.ops[0]); break;
		case Instruction::ExtractValue: {
			const Val* v = &ov(f, d.ops[0]);
			for (unsigned i : d.idx) v = v->k == V_AGG ? &v->agg->v[i] : v;
			Val x = *v;
			f.r[d.dst] = std::move(x);
			break;
		}
		case Instruction::InsertValue: {
			Val a = ov(f, d.ops[0]);
			Val e = ov(f, d.ops[1]);
			std::function<Val(const Val&, TypeD*, size_t)> ins = [&](const Val& v, TypeD* ty, size_t k) -> Val {
				if (k == d.idx.size()) return e;
				std::vector<Val> r;
				if (v.k == V_AGG) r = v.agg->v;
				else r = undefOf(ty).agg->v;
				TypeD* et = ty->k == T_STRUCT ? ty->fields[d.idx[k]] : ty->el;
				r[d.idx[k]] = ins(r[d.idx[k]], et, k + 1);
				return mkAgg(std::move(r));
			};
			f.r[d.dst] = ins(a, t, 0);
			break;
		}
		case Instruction::ExtractElement: {
			const Val& v = ov(f, d.ops[0]);
			uint64_t i = concretize(ov(f, d.ops[1]));
			f.r[d.dst] = v.k == V_AGG && i < v.agg->v.size() ? Val(v.agg->v[i]) : Val();
			break;
		}
		case Instruction::InsertElement: {
			Val v = ov(f, d.ops[0]);
			uint64_t i = concretize(ov(f, d.ops[2]));
			std::vector<Val> r(t->n);
			if (v.k == V_AGG) r = v.agg->v;
			if (i < r.size()) r[i] = ov(f, d.ops[1]);
			f.r[d.dst] = mkAgg(std::move(r));
			break;
		}
		case Instruction::ShuffleVector: {
			const Val &a = ov(f, d.ops[0]), &b = ov(f, d.ops[1]);
			std::vector<Val> r(t->n);
			unsigned n = d.ty2->n;
			for (unsigned i = 0; i < t->n; ++i) {
				int m = (int)d.idx[i];
				if (m < 0) continue;
				r[i] = (unsigned)m < n ? lane(a, m) : lane(b, m - n);
			}
			f.r[d.dst] = mkAgg(std::move(r));
			break;
		}
		case Instruction::AtomicRMW: {
			auto* rmw = cast<AtomicRMWInst>(d.I);
			uint64_t a = concretize(ov(f, d.ops[0]));
			Val o = loadT(a, t), x = ov(f, d.ops[1]);
			Val n;
			switch (rmw->getOperation()) {
				case AtomicRMWInst::Add: n = ibin(Instruction::Add, o, x, t->w); break;
				case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, o, x, t->w); break;
				case AtomicRMWInst::Xchg: n = x; break;
				case AtomicRMWInst::Or: n = ibin(Instruction::Or, o, x, t->w); break;
				default: unsup("atomicrmw");
			}
			storeT(a, n, t);
			f.r[d.dst] = o;
			break;
		}
		case Instruction::AtomicCmpXchg: {
			uint64_t a = concretize(ov(f, d.ops[0]));
			TypeD* et = t->fields[0];
			Val o = loadT(a, et);
			bool eq = concretize(o) == concretize(ov(f, d.ops[1]));
			if (eq) storeT(a, ov(f, d.ops[2]), et);
			f.r[d.dst] = mkAgg({ o, mkInt(eq, 1) });
			break;
		}
		case Instruction::Fence: break;
		case Instruction::LandingPad:
		case Instruction::Resume: throw EndPath{ E_UNSUP, "landing pad" };
		default:
			if (d.op >= Instruction::CastOpsBegin && d.op < Instruction::CastOpsEnd) {
				Val r = castV(d.op, ov(f, d.ops[0]), d.ty2, t);
				top().r[d.dst] = std::move(r);
				break;
			}
			unsup(std::string("instruction ") + d.I->getOpcodeName());
	}
	top().pc++;
}

static std::string obsStr(const Val& v, Z3_model m, double& tol) {
	tol = 0;
	if (isF(v)) {
		// in the exact-arithmetic mode the two compilers may round constants differently
		if (S->realMode) tol = std::max(1.0, std::fabs(fval(v))) * (v.w == 32 ? 0x1p-16 : 0x1p-40);
		return hexD(fval(v));
	}
	if (v.k == V_SF) {
		Z3_ast r;
		bool ex;
		if (m && Z3_model_eval(Z, m, polyZ3(v.sf->p), true, &r)) {
			tol = v.sf->E;
			if (S->realMode) tol += std::max(std::fabs(v.sf->lo), std::fabs(v.sf->hi)) * (v.w == 32 ? 0x1p-16 : 0x1p-40);
			Z3_ast q = Z3_simplify(Z, r);
			if (Z3_get_ast_kind(Z, q) != Z3_NUMERAL_AST && !Z3_is_algebraic_number(Z, q)) return "";
			double d = qToDouble(r, ex);
			if (!ex) tol += 1e-15 * std::fabs(d);
			return hexD(d);
		}
	}
	if (v.k == V_FPA && m && !S->usedLibm) {
		Z3_ast r;
		uint64_t u;
		if (Z3_model_eval(Z, m, Z3_mk_fpa_to_ieee_bv(Z, v.fpa->fp), true, &r) && Z3_get_numeral_uint64(Z, Z3_simplify(Z, r), &u)) {
			double d;
			if (v.w == 32) {
				uint32_t x = (uint32_t)u;
				float f;
				memcpy(&f, &x, 4);
				d = f;
			}
			else memcpy(&d, &u, 8);
			return hexD(d);
		}
	}
	return "";
}
static void endPath(const EndPath& e) {
	++nPaths;
	std::string kind;
	switch (e.k) {
		case E_ASSUME: --nPaths; ++nAssumeEnds; return;
		case E_VIOL: return;
		case E_REJECT: {
			++nRejects;
			auto& st = asserts[S->rejectId];
			st.evaluated++;
			st.discharged++;
			break;
		}
		case E_RETURN: break;
		case E_UNSUP: addInconclusive("unsupported", "", e.msg); return;
		case E_BUDGET: {
			if (e.msg == "time limit") {
				addInconclusive("budget", "", e.msg);
				return;
			}
			kind = "budget";
			break;
		}
		case E_THROW: kind = "rejected"; break;
		case E_MEM: kind = "memory"; break;
		case E_UNREACH: kind = "ub"; break;
		case E_UNINIT: kind = "uninit"; break;
		case E_TRAP: kind = "trap"; break;
	}
	if (!kind.empty()) {
		try {
			needModel();
			bool ok;
			Assign a = concretizeModel(S->model, nullptr, ok);
			addViolation(kind, "", e.msg, a, ok);
		}
		catch (EndPath& e2) {
			addInconclusive("unsupported", "", e.msg + " / " + e2.msg);
		}
		return;
	}
	// validation sample: a concrete run on this path with predicted results
	static uint64_t nextSample = 1;
	if (nPaths >= nextSample && (int)samples.size() < VALIDATE && !CONCRETE) {
		nextSample = nPaths + 1 + nPaths * 3 / 4;
		try {
			for (auto& o : S->obs)
				if (o.a.k == V_SF) ensurePoly(o.a.sf->p);
			Z3_model m = nullptr;
			bool ok = false;
			Assign a = randomAssign(SEED * 1000003 + nPaths);
			if (S->realMode) pinAtoms(a);
			Z3_lbool rc = check(conj(a.eqs, nullptr), &m, 3000);
			ok = rc == Z3_L_TRUE && m;
			if (rc == Z3_L_FALSE) {
				for (auto& in : S->inputs)
					if (!in.isConc && in.kind != 'I' && !in.bv) ensureVar(in.var);
				needModel();
				a = concretizeModel(S->model, nullptr, ok);
				m = nullptr;
				if (ok && S->realMode) pinAtoms(a);
				if (ok) ok = check(conj(a.eqs, nullptr), &m, 3000) == Z3_L_TRUE && m;
			}
			if (ok) {
				Sample s;
				s.inputs = a.lines;
				s.reject = e.k == E_REJECT;
				for (auto& o : S->obs) {
					double tol;
					std::string v = obsStr(o.a, m, tol);
					if (v.empty()) v = "-";
					char b[64];
					snprintf(b, sizeof b, " %.17g", tol);
					s.obs.push_back(o.id + " " + v + b);
				}
				samples.push_back(s);
			}
		}
		catch (EndPath&) {
		}
	}
	else if (CONCRETE) {
		Sample s;
		s.reject = e.k == E_REJECT;
		for (auto& o : S->obs) {
			double tol;
			std::string v = obsStr(o.a, nullptr, tol);
			char b[64];
			snprintf(b, sizeof b, " %.17g", tol);
			s.obs.push_back(o.id + " " + v + b);
		}
		samples.push_back(s);
	}
}
static void runState(State* s) {
	S = s;
	try {
		for (;;) {
			if (++S->steps > MAXSTEPS) throw EndPath{ E_BUDGET, "step limit (possible non-termination)" };
			if ((++nInstr & 0xfffff) == 0) checkTime();
			step();
		}
	}
	catch (EndPath& e) {
		try {
			endPath(e);
		}
		catch (EndPath& e2) {
			addInconclusive("budget", "", e2.msg);
		}
	}
	delete s;
	S = nullptr;
}
static std::string js(const std::string& s) {
	std::string o = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') o += '\\', o += c;
		else if ((unsigned char)c < 32) o += ' ';
		else o += c;
	}
	return o + "\"";
}
static std::string jl(const std::vector<std::string>& v) {
	std::string o = "[";
	for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + js(v[i]);
	return o + "]";
}

int main(int argc, char** argv) {
	std::string bc, entry, out;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--entry") entry = nx();
		else if (a == "--out") out = nx();
		else if (a == "--timeout") T_LIMIT = std::stod(nx());
		else if (a == "--vlimit") V_LIMIT = std::stod(nx());
		else if (a == "--qtimeout") Q_TIMEOUT = std::stoul(nx());
		else if (a == "--maxpaths") MAXPATHS = std::stoull(nx());
		else if (a == "--nlsat") NLSAT = true;
		else if (a == "--steps") MAXSTEPS = std::stoull(nx());
		else if (a == "--validate") VALIDATE = std::stoi(nx());
		else if (a == "--smt") SMTDUMP = nx();
		else if (a == "--seed") SEED = std::stoull(nx());
		else if (a == "--concrete") {
			CONCRETE = true;
			FILE* f = fopen(nx().c_str(), "r");
			char line[4096];
			while (f && fgets(line, sizeof line, f)) {
				std::string l = line;
				while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
				auto p = l.find(' ');
				if (p != std::string::npos) concreteInputs[l.substr(0, p)] = l.substr(p + 1);
			}
			if (f) fclose(f);
		}
		else bc = a;
	}
	T_START = now();
	SMDiagnostic err;
	MOD = parseIRFile(bc, err, LCTX);
	if (!MOD) {
		err.print("dsym", errs());
		return 3;
	}
	DL = &MOD->getDataLayout();
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context(cfg);
	Z3_set_error_handler(Z, nullptr);
	Z3_set_error_handler(Z, z3err);
	SOLVER = Z3_mk_solver(Z);
	Z3_solver_inc_ref(Z, SOLVER);
	setupNatives();
	uint64_t fa = 0x10000000, ga = 0x20000000;
	for (auto& F : *MOD) {
		gAddr[&F] = fa;
		fnByAddr[fa] = &F;
		fa += 16;
	}
	for (auto& g : MOD->globals()) {
		uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
		ga = (ga + al - 1) / al * al;
		gAddr[&g] = ga;
		gByAddr[ga] = &g;
		ga += DL->getTypeAllocSize(g.getValueType()).getFixedValue() + 64;
	}
	Function* E = MOD->getFunction(entry);
	if (!E || E->isDeclaration()) {
		fprintf(stderr, "dsym: no entry %s\n", entry.c_str());
		return 3;
	}
	// global constructors
	std::vector<Function*> ctors;
	if (auto* gc = MOD->getGlobalVariable("llvm.global_ctors")) {
		if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
			for (auto& o : ca->operands()) ctors.push_back(cast<Function>(cast<ConstantStruct>(o)->getOperand(1)));
	}
	State* s0 = new State;
	bool bad = false;
	try {
		for (auto* c : ctors) {
			S = s0;
			pushFrame(decode(c), {}, -1);
			try {
				for (;;) step();
			}
			catch (EndPath& e) {
				if (e.k != E_RETURN) {
					fprintf(stderr, "dsym: constructor %s: %s\n", c->getName().str().c_str(), e.msg.c_str());
					s0->st.clear();
				}
			}
		}
		S = s0;
		s0->steps = 0;
		pushFrame(decode(E), {}, -1);
		work.push_back(s0);
		while (!work.empty()) {
			if (nPaths >= MAXPATHS || now() - T_START > T_LIMIT) {
				addInconclusive("budget", "", nPaths >= MAXPATHS ? "path limit" : "time limit");
				break;
			}
			if (violations.size() >= 12) break;
			State* s = work.back();
			work.pop_back();
			runState(s);
		}
	}
	catch (EndPath& e) {
		fprintf(stderr, "dsym: %s\n", e.msg.c_str());
		bad = true;
		Report r;
		r.kind = "engine";
		r.msg = e.msg;
		inconclusive.push_back(r);
	}
	(void)bad;
	// coverage of library functions, by debug information
	std::map<std::string, std::set<unsigned>> lines;
	std::map<std::string, std::string> funcs;
	for (auto& [F, fd] : fnds) {
		for (auto& d : fd->code) {
			if (!d.hits) continue;
			for (const DILocation* dl = d.I->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) {
				std::string fn = dl->getFilename().str();
				auto p = fn.find("include/dspbb/");
				if (p == std::string::npos) continue;
				fn = fn.substr(p + 8);
				lines[fn].insert(dl->getLine());
				if (auto* sp = dl->getScope()->getSubprogram()) funcs[fn + ":" + sp->getName().str()] = fn;
			}
		}
	}
	FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
	fprintf(f, "{\n\"entry\": %s,\n\"paths\": %llu, \"forks\": %llu, \"rejected_paths\": %llu, \"assumed_away\": %llu, \"queries\": %llu, \"unknown\": %llu, \"assert_queries\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"instructions\": %llu, \"z3\": %s,\n", js(entry).c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nRejects, (unsigned long long)nAssumeEnds, (unsigned long long)nQueries, (unsigned long long)nQueryUnknown, (unsigned long long)nAssertFinal, tSolver, now() - T_START, (unsigned long long)nInstr, js(Z3_get_full_version()).c_str());
	fprintf(f, "\"asserts\": {");
	bool first = true;
	for (auto& [id, st] : asserts) {
		fprintf(f, "%s\n %s: {\"evaluated\": %llu, \"discharged\": %llu, \"by_simplification\": %llu, \"queries\": %llu, \"unknown\": %llu}", first ? "" : ",", js(id).c_str(), (unsigned long long)st.evaluated, (unsigned long long)st.discharged, (unsigned long long)st.trivially, (unsigned long long)st.queries, (unsigned long long)st.unknown);
		first = false;
	}
	auto reports = [&](const char* name, std::vector<Report>& v) {
		fprintf(f, ",\n\"%s\": [", name);
		for (size_t i = 0; i < v.size(); ++i) fprintf(f, "%s\n {\"kind\": %s, \"id\": %s, \"msg\": %s, \"where\": %s, \"exact\": %s, \"inputs\": %s}", i ? "," : "", js(v[i].kind).c_str(), js(v[i].id).c_str(), js(v[i].msg).c_str(), js(v[i].where).c_str(), v[i].confirmedModel ? "true" : "false", jl(v[i].inputs).c_str());
		fprintf(f, "]");
	};
	fprintf(f, "}");
	reports("violations", violations);
	reports("inconclusive", inconclusive);
	fprintf(f, ",\n\"samples\": [");
	for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\n {\"reject\": %s, \"inputs\": %s, \"obs\": %s}", i ? "," : "", samples[i].reject ? "true" : "false", jl(samples[i].inputs).c_str(), jl(samples[i].obs).c_str());
	fprintf(f, "],\n\"functions\": [");
	first = true;
	for (auto& [k, v] : funcs) fprintf(f, "%s%s", first ? "" : ",", js(k).c_str()), first = false;
	fprintf(f, "],\n\"lines\": {");
	first = true;
	for (auto& [k, v] : lines) fprintf(f, "%s%s: %zu", first ? "" : ",", js(k).c_str(), v.size()), first = false;
	fprintf(f, "}\n}\n");
	if (f != stdout) fclose(f);
	fflush(stdout);
	_exit(0);
}
