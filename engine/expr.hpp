// Expression layer: reference counted Z3 terms with local rewriting.
#pragma once
#include <z3.h>
#include <llvm/ADT/APInt.h>
#include <llvm/Support/KnownBits.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/StringRef.h>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>
#include <cstdlib>
#include <cstdio>
using llvm::APInt;
using llvm::KnownBits;

extern Z3_context C;

struct E {
	Z3_ast a = nullptr;
	E() = default;
	explicit E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(C, a); }
	E(const E& o) : a(o.a) { if (a) Z3_inc_ref(C, a); }
	E(E&& o) noexcept : a(o.a) { o.a = nullptr; }
	E& operator=(const E& o) { if (o.a) Z3_inc_ref(C, o.a); if (a) Z3_dec_ref(C, a); a = o.a; return *this; }
	E& operator=(E&& o) noexcept { std::swap(a, o.a); return *this; }
	~E() { if (a) Z3_dec_ref(C, a); }
	explicit operator bool() const { return a != nullptr; }
	unsigned id() const { return Z3_get_ast_id(C, a); }
	bool operator==(const E& o) const { return a == o.a; }
};
inline E X(Z3_ast a) { return E(a); }

inline Z3_sort bvS(unsigned w) {
	static std::vector<Z3_sort> cache(1025, nullptr);
	if (w <= 1024) { if (!cache[w]) { cache[w] = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, cache[w])); } return cache[w]; }
	Z3_sort s = Z3_mk_bv_sort(C, w); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); return s;
}
inline Z3_sort boolS() { static Z3_sort s = nullptr; if (!s) { s = Z3_mk_bool_sort(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); } return s; }

inline E numAP(const APInt& v) {
	unsigned w = v.getBitWidth();
	if (w <= 64) return X(Z3_mk_unsigned_int64(C, v.getZExtValue(), bvS(w)));
	llvm::SmallString<64> s; v.toString(s, 10, false);
	return X(Z3_mk_numeral(C, s.c_str(), bvS(w)));
}
inline E num(uint64_t v, unsigned w) { return X(Z3_mk_unsigned_int64(C, w < 64 ? v & ((1ULL << w) - 1) : v, bvS(w))); }
inline E T() { static E* t = nullptr; if (!t) t = new E(Z3_mk_true(C)); return *t; }
inline E F() { static E* t = nullptr; if (!t) t = new E(Z3_mk_false(C)); return *t; }
inline bool isT(const E& e) { return e.a == T().a; }
inline bool isF(const E& e) { return e.a == F().a; }

inline bool isBoolE(const E& e) { return Z3_get_sort_kind(C, Z3_get_sort(C, e.a)) == Z3_BOOL_SORT; }
inline unsigned widthE(const E& e) {
	Z3_sort s = Z3_get_sort(C, e.a);
	if (Z3_get_sort_kind(C, s) == Z3_BOOL_SORT) return 1;
	return Z3_get_bv_sort_size(C, s);
}
inline bool isNum(const E& e) { return Z3_get_ast_kind(C, e.a) == Z3_NUMERAL_AST; }
inline bool getNum(const E& e, APInt& out) {
	if (!isNum(e)) return false;
	unsigned w = widthE(e);
	uint64_t v;
	if (w <= 64 && Z3_get_numeral_uint64(C, e.a, &v)) { out = APInt(w, v); return true; }
	out = APInt(w, llvm::StringRef(Z3_get_numeral_string(C, e.a)), 10);
	return true;
}
inline Z3_decl_kind dk(const E& e) {
	if (Z3_get_ast_kind(C, e.a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
	return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e.a)));
}
inline unsigned nargs(const E& e) { return Z3_get_app_num_args(C, Z3_to_app(C, e.a)); }
inline E arg(const E& e, unsigned i) { return X(Z3_get_app_arg(C, Z3_to_app(C, e.a), i)); }
inline int dparam(const E& e, unsigned i) { return Z3_get_decl_int_parameter(C, Z3_get_app_decl(C, Z3_to_app(C, e.a)), i); }

inline E simp(const E& e) { return X(Z3_simplify(C, e.a)); }

// ---- Boolean layer
inline E mkNot(const E& a) {
	if (isT(a)) return F(); if (isF(a)) return T();
	if (dk(a) == Z3_OP_NOT) return arg(a, 0);
	return X(Z3_mk_not(C, a.a));
}
inline E mkAnd(const E& a, const E& b) {
	if (isF(a) || isF(b)) return F(); if (isT(a)) return b; if (isT(b)) return a;
	if (a == b) return a;
	Z3_ast v[2] = {a.a, b.a}; return X(Z3_mk_and(C, 2, v));
}
inline E mkOr(const E& a, const E& b) {
	if (isT(a) || isT(b)) return T(); if (isF(a)) return b; if (isF(b)) return a;
	if (a == b) return a;
	Z3_ast v[2] = {a.a, b.a}; return X(Z3_mk_or(C, 2, v));
}
inline E mkEq(const E& a, const E& b);
inline E mkIte(const E& c, const E& a, const E& b) {
	if (isT(c)) return a; if (isF(c)) return b; if (a == b) return a;
	if (isT(a) && isF(b)) return c;
	if (isF(a) && isT(b)) return mkNot(c);
	if (dk(c) == Z3_OP_NOT) return mkIte(arg(c, 0), b, a);
	// ite(c, ite(c,x,y), b) -> ite(c,x,b)
	if (dk(a) == Z3_OP_ITE && arg(a, 0) == c) return mkIte(c, arg(a, 1), b);
	if (dk(b) == Z3_OP_ITE && arg(b, 0) == c) return mkIte(c, a, arg(b, 2));
	return X(Z3_mk_ite(C, c.a, a.a, b.a));
}
// ---- bit-vector layer
E mkExtract(unsigned hi, unsigned lo, const E& e);
inline E mkZext(const E& e, unsigned w) {
	unsigned o = widthE(e);
	if (isBoolE(e)) return mkIte(e, num(1, w), num(0, w));
	if (o == w) return e;
	APInt v; if (getNum(e, v)) return numAP(v.zext(w));
	if (dk(e) == Z3_OP_ZERO_EXT) return mkZext(arg(e, 0), w);
	if (dk(e) == Z3_OP_ITE && isNum(arg(e, 1)) && isNum(arg(e, 2)))
		return mkIte(arg(e, 0), mkZext(arg(e, 1), w), mkZext(arg(e, 2), w));
	return X(Z3_mk_zero_ext(C, w - o, e.a));
}
inline E mkSext(const E& e, unsigned w) {
	unsigned o = widthE(e);
	if (isBoolE(e)) return mkIte(e, numAP(APInt::getAllOnes(w)), num(0, w));
	if (o == w) return e;
	APInt v; if (getNum(e, v)) return numAP(v.sext(w));
	if (dk(e) == Z3_OP_SIGN_EXT) return mkSext(arg(e, 0), w);
	if (dk(e) == Z3_OP_ZERO_EXT) return mkZext(arg(e, 0), w);
	if (dk(e) == Z3_OP_ITE && isNum(arg(e, 1)) && isNum(arg(e, 2)))
		return mkIte(arg(e, 0), mkSext(arg(e, 1), w), mkSext(arg(e, 2), w));
	return X(Z3_mk_sign_ext(C, w - o, e.a));
}
inline E mkConcat(const E& a, const E& b) { // a high
	APInt va, vb; bool na = getNum(a, va), nb = getNum(b, vb);
	unsigned wa = widthE(a), wb = widthE(b);
	if (na && nb) return numAP(va.zext(wa + wb).shl(wb) | vb.zext(wa + wb));
	if (na && va.isZero()) return mkZext(b, wa + wb);
	if (dk(a) == Z3_OP_EXTRACT && dk(b) == Z3_OP_EXTRACT && arg(a, 0) == arg(b, 0) && dparam(a, 1) == dparam(b, 0) + 1)
		return mkExtract(dparam(a, 0), dparam(b, 1), arg(a, 0));
	if (dk(a) == Z3_OP_CONCAT && nargs(a) == 2) { // rotate right-assoc for merging
		return mkConcat(arg(a, 0), mkConcat(arg(a, 1), b));
	}
	if (dk(b) == Z3_OP_CONCAT && nargs(b) == 2) {
		E b0 = arg(b, 0);
		if (dk(a) == Z3_OP_EXTRACT && dk(b0) == Z3_OP_EXTRACT && arg(a, 0) == arg(b0, 0) && dparam(a, 1) == dparam(b0, 0) + 1)
			return mkConcat(mkExtract(dparam(a, 0), dparam(b0, 1), arg(a, 0)), arg(b, 1));
		APInt v0; if (na && getNum(b0, v0)) return mkConcat(mkConcat(a, b0), arg(b, 1));
	}
	return X(Z3_mk_concat(C, a.a, b.a));
}
inline E mkExtract(unsigned hi, unsigned lo, const E& e0) {
	E e = e0;
	unsigned w = widthE(e);
	if (lo == 0 && hi == w - 1) return e;
	APInt v; if (getNum(e, v)) return numAP(v.extractBits(hi - lo + 1, lo));
	switch (dk(e)) {
	case Z3_OP_EXTRACT: { unsigned l0 = dparam(e, 1); return mkExtract(hi + l0, lo + l0, arg(e, 0)); }
	case Z3_OP_ZERO_EXT: {
		E b = arg(e, 0); unsigned bw = widthE(b);
		if (lo >= bw) return num(0, hi - lo + 1);
		if (hi < bw) return mkExtract(hi, lo, b);
		return mkZext(mkExtract(bw - 1, lo, b), hi - lo + 1);
	}
	case Z3_OP_SIGN_EXT: {
		E b = arg(e, 0); unsigned bw = widthE(b);
		if (hi < bw) return mkExtract(hi, lo, b);
		if (lo < bw) return mkSext(mkExtract(bw - 1, lo, b), hi - lo + 1);
		break;
	}
	case Z3_OP_CONCAT: {
		unsigned n = nargs(e); unsigned pos = w;
		for (unsigned i = 0; i < n; i++) {
			E b = arg(e, i); unsigned bw = widthE(b); pos -= bw;
			if (lo >= pos && hi < pos + bw) return mkExtract(hi - pos, lo - pos, b);
			if (hi >= pos + bw) break; // spans
			if (hi >= pos && lo < pos) { // spans b and following
				if (n == 2) return mkConcat(mkExtract(hi - pos, 0, b), mkExtract(pos - 1, lo, arg(e, 1)));
				break;
			}
		}
		break;
	}
	case Z3_OP_ITE:
		if (isNum(arg(e, 1)) || isNum(arg(e, 2)))
			return mkIte(arg(e, 0), mkExtract(hi, lo, arg(e, 1)), mkExtract(hi, lo, arg(e, 2)));
		break;
	case Z3_OP_BAND: case Z3_OP_BOR: case Z3_OP_BXOR:
		if (nargs(e) == 2 && (isNum(arg(e, 0)) || isNum(arg(e, 1)))) {
			E a = mkExtract(hi, lo, arg(e, 0)), b = mkExtract(hi, lo, arg(e, 1));
			extern E mkBit(Z3_decl_kind, const E&, const E&);
			return mkBit(dk(e), a, b);
		}
		break;
	default: break;
	}
	return X(Z3_mk_extract(C, hi, lo, e.a));
}
inline E mkBit(Z3_decl_kind k, const E& a0, const E& b0) {
	E a = a0, b = b0;
	APInt va, vb; bool na = getNum(a, va), nb = getNum(b, vb);
	if (na && nb) return numAP(k == Z3_OP_BAND ? va & vb : k == Z3_OP_BOR ? va | vb : va ^ vb);
	if (na) { std::swap(a, b); std::swap(va, vb); std::swap(na, nb); }
	if (nb) {
		if (vb.isZero()) return k == Z3_OP_BAND ? b : a;
		if (vb.isAllOnes()) { if (k == Z3_OP_BAND) return a; if (k == Z3_OP_BOR) return b; return X(Z3_mk_bvnot(C, a.a)); }
		if (k == Z3_OP_BAND) {
			// low mask -> zext(extract); contiguous masks -> concat
			unsigned w = va.getBitWidth(); w = vb.getBitWidth();
			unsigned lo = vb.countr_zero(); APInt s = vb.lshr(lo);
			if (s.isMask()) {
				unsigned n = s.countr_one();
				E m = mkExtract(lo + n - 1, lo, a);
				if (lo) m = mkConcat(m, num(0, lo));
				return mkZext(m, w);
			}
		}
		if (dk(a) == Z3_OP_ITE && isNum(arg(a, 1)) && isNum(arg(a, 2)))
			return mkIte(arg(a, 0), mkBit(k, arg(a, 1), b), mkBit(k, arg(a, 2), b));
	} else {
		if (a == b) return k == Z3_OP_BXOR ? num(0, widthE(a)) : a;
		if (a.id() > b.id()) std::swap(a, b);
	}
	if (k == Z3_OP_BAND) return X(Z3_mk_bvand(C, a.a, b.a));
	if (k == Z3_OP_BOR) {
		// or of disjoint zext / shifted parts: (x<<k)|(zext y) with y narrower than k -> concat
		for (int s = 0; s < 2; s++) {
			E hi = s ? b : a, lo = s ? a : b;
			if (dk(hi) == Z3_OP_CONCAT && nargs(hi) == 2 && dk(lo) == Z3_OP_ZERO_EXT) {
				E hl = arg(hi, 1); APInt v;
				if (getNum(hl, v) && v.isZero() && widthE(arg(lo, 0)) <= widthE(hl))
					return mkConcat(arg(hi, 0), mkZext(arg(lo, 0), widthE(hl)));
			}
		}
		return X(Z3_mk_bvor(C, a.a, b.a));
	}
	return X(Z3_mk_bvxor(C, a.a, b.a));
}
inline E mkAdd(const E& a0, const E& b0) {
	E a = a0, b = b0;
	APInt va, vb; bool na = getNum(a, va), nb = getNum(b, vb);
	if (na && nb) return numAP(va + vb);
	if (nb) { std::swap(a, b); std::swap(va, vb); std::swap(na, nb); }
	if (na) { // const first
		if (va.isZero()) return b;
		if (dk(b) == Z3_OP_BADD && nargs(b) == 2) {
			APInt c; if (getNum(arg(b, 0), c)) return mkAdd(numAP(va + c), arg(b, 1));
		}
		return X(Z3_mk_bvadd(C, a.a, b.a));
	}
	// float constants outward
	APInt c;
	if (dk(a) == Z3_OP_BADD && nargs(a) == 2 && getNum(arg(a, 0), c)) return mkAdd(arg(a, 0), mkAdd(arg(a, 1), b));
	if (dk(b) == Z3_OP_BADD && nargs(b) == 2 && getNum(arg(b, 0), c)) return mkAdd(arg(b, 0), mkAdd(a, arg(b, 1)));
	// x + (-x)
	if (dk(b) == Z3_OP_BNEG && arg(b, 0) == a) return num(0, widthE(a));
	if (dk(a) == Z3_OP_BNEG && arg(a, 0) == b) return num(0, widthE(a));
	// (x + y) + (-y) and (x + (-y)) + y
	for (int s = 0; s < 2; s++) {
		E p = s ? b : a, q = s ? a : b;
		if (dk(p) == Z3_OP_BADD && nargs(p) == 2) {
			E p0 = arg(p, 0), p1 = arg(p, 1);
			for (int t = 0; t < 2; t++) {
				E u = t ? p1 : p0, o = t ? p0 : p1;
				if (dk(q) == Z3_OP_BNEG && arg(q, 0) == u) return o;
				if (dk(u) == Z3_OP_BNEG && arg(u, 0) == q) return o;
			}
		}
	}
	if (a.id() > b.id()) std::swap(a, b);
	return X(Z3_mk_bvadd(C, a.a, b.a));
}
inline E mkNeg(const E& a) {
	APInt v; if (getNum(a, v)) return numAP(-v);
	if (dk(a) == Z3_OP_BNEG) return arg(a, 0);
	if (dk(a) == Z3_OP_BADD && nargs(a) == 2) { APInt c; if (getNum(arg(a, 0), c)) return mkAdd(numAP(-c), mkNeg(arg(a, 1))); }
	return X(Z3_mk_bvneg(C, a.a));
}
inline E mkSub(const E& a, const E& b) {
	if (a == b) return num(0, widthE(a));
	return mkAdd(a, mkNeg(b));
}
inline E mkShlC(const E& a, unsigned s) {
	unsigned w = widthE(a); if (s == 0) return a; if (s >= w) return num(0, w);
	return mkConcat(mkExtract(w - 1 - s, 0, a), num(0, s));
}
inline E mkLshrC(const E& a, unsigned s) {
	unsigned w = widthE(a); if (s == 0) return a; if (s >= w) return num(0, w);
	return mkZext(mkExtract(w - 1, s, a), w);
}
inline E mkAshrC(const E& a, unsigned s) {
	unsigned w = widthE(a); if (s == 0) return a; if (s >= w) s = w - 1;
	return mkSext(mkExtract(w - 1, s, a), w);
}
inline E mkMul(const E& a0, const E& b0) {
	E a = a0, b = b0;
	APInt va, vb; bool na = getNum(a, va), nb = getNum(b, vb);
	if (na && nb) return numAP(va * vb);
	if (nb) { std::swap(a, b); std::swap(va, vb); std::swap(na, nb); }
	if (na) {
		if (va.isZero()) return a; if (va.isOne()) return b;
		if (va.isPowerOf2()) return mkShlC(b, va.logBase2());
	} else if (a.id() > b.id()) std::swap(a, b);
	return X(Z3_mk_bvmul(C, a.a, b.a));
}
inline bool provablyDistinct(const E& a, const E& b) { // differ by a non zero constant
	E d = mkSub(a, b); APInt v; return getNum(d, v) && !v.isZero();
}
inline E mkEq(const E& a0, const E& b0) {
	E a = a0, b = b0;
	if (a == b) return T();
	if (isBoolE(a)) {
		if (isT(a)) return b; if (isT(b)) return a; if (isF(a)) return mkNot(b); if (isF(b)) return mkNot(a);
		return X(Z3_mk_iff(C, a.a, b.a));
	}
	APInt va, vb; bool na = getNum(a, va), nb = getNum(b, vb);
	if (na && nb) return va == vb ? T() : F();
	if (na) { std::swap(a, b); std::swap(va, vb); std::swap(na, nb); }
	if (nb) {
		APInt x, y;
		switch (dk(a)) {
		case Z3_OP_ITE:
			if (getNum(arg(a, 1), x) && getNum(arg(a, 2), y)) {
				bool ex = x == vb, ey = y == vb;
				if (ex && ey) return T(); if (!ex && !ey) return F();
				return ex ? arg(a, 0) : mkNot(arg(a, 0));
			}
			if (getNum(arg(a, 1), x) && x != vb) return mkAnd(mkNot(arg(a, 0)), mkEq(arg(a, 2), b));
			if (getNum(arg(a, 2), y) && y != vb) return mkAnd(arg(a, 0), mkEq(arg(a, 1), b));
			break;
		case Z3_OP_ZERO_EXT: {
			unsigned w = widthE(arg(a, 0));
			if (vb.getActiveBits() > w) return F();
			return mkEq(arg(a, 0), numAP(vb.trunc(w)));
		}
		case Z3_OP_CONCAT:
			if (nargs(a) == 2) {
				E h = arg(a, 0), l = arg(a, 1); unsigned wl = widthE(l), wh = widthE(h);
				return mkAnd(mkEq(h, numAP(vb.extractBits(wh, wl))), mkEq(l, numAP(vb.trunc(wl))));
			}
			break;
		case Z3_OP_BADD:
			if (nargs(a) == 2 && getNum(arg(a, 0), x)) return mkEq(arg(a, 1), numAP(vb - x));
			break;
		case Z3_OP_BNEG: return mkEq(arg(a, 0), numAP(-vb));
		case Z3_OP_BNOT: return mkEq(arg(a, 0), numAP(~vb));
		case Z3_OP_BXOR:
			if (nargs(a) == 2) { if (getNum(arg(a, 1), x)) return mkEq(arg(a, 0), numAP(vb ^ x)); if (getNum(arg(a, 0), x)) return mkEq(arg(a, 1), numAP(vb ^ x)); }
			break;
		default: break;
		}
	} else {
		if (widthE(a) <= 64 && provablyDistinct(a, b)) return F();
		if (a.id() > b.id()) std::swap(a, b);
	}
	return X(Z3_mk_eq(C, a.a, b.a));
}

// ---- known bits
inline KnownBits known(const E& e, int depth = 0) {
	unsigned w = widthE(e);
	KnownBits k(w);
	APInt v;
	if (getNum(e, v)) { k.One = v; k.Zero = ~v; return k; }
	if (depth > 12 || isBoolE(e)) return k;
	switch (dk(e)) {
	case Z3_OP_ZERO_EXT: return known(arg(e, 0), depth + 1).zext(w);
	case Z3_OP_SIGN_EXT: return known(arg(e, 0), depth + 1).sext(w);
	case Z3_OP_EXTRACT: return known(arg(e, 0), depth + 1).extractBits(w, dparam(e, 1));
	case Z3_OP_CONCAT: {
		unsigned n = nargs(e), pos = w;
		for (unsigned i = 0; i < n; i++) { E b = arg(e, i); unsigned bw = widthE(b); pos -= bw; k.insertBits(known(b, depth + 1), pos); }
		return k;
	}
	case Z3_OP_ITE: return known(arg(e, 1), depth + 1).intersectWith(known(arg(e, 2), depth + 1));
	case Z3_OP_BAND: { k = known(arg(e, 0), depth + 1); for (unsigned i = 1; i < nargs(e); i++) k &= known(arg(e, i), depth + 1); return k; }
	case Z3_OP_BOR: { k = known(arg(e, 0), depth + 1); for (unsigned i = 1; i < nargs(e); i++) k |= known(arg(e, i), depth + 1); return k; }
	case Z3_OP_BXOR: { k = known(arg(e, 0), depth + 1); for (unsigned i = 1; i < nargs(e); i++) k ^= known(arg(e, i), depth + 1); return k; }
	case Z3_OP_BNOT: { KnownBits a = known(arg(e, 0), depth + 1); std::swap(a.Zero, a.One); return a; }
	case Z3_OP_BADD: { k = known(arg(e, 0), depth + 1); for (unsigned i = 1; i < nargs(e); i++) k = KnownBits::computeForAddSub(true, false, k, known(arg(e, i), depth + 1)); return k; }
	case Z3_OP_BMUL: { k = known(arg(e, 0), depth + 1); for (unsigned i = 1; i < nargs(e); i++) k = KnownBits::mul(k, known(arg(e, i), depth + 1)); return k; }
	case Z3_OP_BSHL: return KnownBits::shl(known(arg(e, 0), depth + 1), known(arg(e, 1), depth + 1));
	case Z3_OP_BLSHR: return KnownBits::lshr(known(arg(e, 0), depth + 1), known(arg(e, 1), depth + 1));
	case Z3_OP_BUREM: case Z3_OP_BUREM_I: { KnownBits m = known(arg(e, 1), depth + 1); APInt mx = m.getMaxValue(); unsigned lz = mx.countl_zero(); APInt z; if (getNum(arg(e,1), z) && !z.isZero()) k.Zero.setHighBits(lz); return k; }
	default: return k;
	}
}
inline E mkUlt(const E& a, const E& b) {
	if (a == b) return F();
	KnownBits ka = known(a), kb = known(b);
	if (ka.getMaxValue().ult(kb.getMinValue())) return T();
	if (ka.getMinValue().uge(kb.getMaxValue())) return F();
	// strip common zero extension
	if (dk(a) == Z3_OP_ZERO_EXT && dk(b) == Z3_OP_ZERO_EXT && widthE(arg(a, 0)) == widthE(arg(b, 0))) return mkUlt(arg(a, 0), arg(b, 0));
	APInt v;
	if (getNum(b, v) && v.isOne()) return mkEq(a, num(0, widthE(a)));
	return X(Z3_mk_bvult(C, a.a, b.a));
}
inline E mkUle(const E& a, const E& b) { return mkNot(mkUlt(b, a)); }
inline E mkSlt(const E& a, const E& b) {
	if (a == b) return F();
	KnownBits ka = known(a), kb = known(b);
	if (ka.isNonNegative() && kb.isNonNegative()) return mkUlt(a, b);
	if (ka.isNegative() && kb.isNonNegative()) return T();
	if (ka.isNonNegative() && kb.isNegative()) return F();
	return X(Z3_mk_bvslt(C, a.a, b.a));
}
// guarded shifts: amounts >= width yield `over` (LLVM: poison)
inline E mkShift(int kind, const E& a, const E& s) { // 0 shl 1 lshr 2 ashr ; z3 semantics
	APInt v; unsigned w = widthE(a);
	if (getNum(s, v)) {
		unsigned n = v.getLimitedValue(w + 1) >= w ? w : (unsigned)v.getZExtValue();
		return kind == 0 ? mkShlC(a, n) : kind == 1 ? mkLshrC(a, n) : mkAshrC(a, n);
	}
	return kind == 0 ? X(Z3_mk_bvshl(C, a.a, s.a)) : kind == 1 ? X(Z3_mk_bvlshr(C, a.a, s.a)) : X(Z3_mk_bvashr(C, a.a, s.a));
}
inline E freshBV(const char* pfx, unsigned w) { return X(Z3_mk_fresh_const(C, pfx, w ? bvS(w) : boolS())); }
inline E namedBV(const std::string& n, unsigned w) { return X(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvS(w))); }
inline E mkUF(const std::string& n, const std::vector<E>& as, unsigned rw) { // rw 0 = bool
	std::vector<Z3_sort> ds; std::vector<Z3_ast> av;
	for (auto& a : as) { ds.push_back(Z3_get_sort(C, a.a)); av.push_back(a.a); }
	std::string nm = n; for (auto& a : as) nm += "_" + std::to_string(widthE(a));
	Z3_func_decl d = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, nm.c_str()), ds.size(), ds.data(), rw ? bvS(rw) : boolS());
	return X(Z3_mk_app(C, d, av.size(), av.data()));
}
