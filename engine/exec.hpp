// Instruction interpreter.
#pragma once
static DenseMap<const Constant*, Val> constCache;
static Val undefOf(Type* t) {
	if (t->isIntegerTy()) return Val::C64(0, t->getIntegerBitWidth());
	if (t->isPointerTy()) return Val::C64(0);
	if (t->isDoubleTy()) return Val::C64(0); if (t->isFloatTy()) return Val::C64(0, 32);
	if (t->isFloatingPointTy()) return Val::CA(APInt(t->getPrimitiveSizeInBits(), 0));
	vector<Val> v;
	if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.push_back(undefOf(e));
	else if (auto* at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(undefOf(at->getElementType()));
	else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(undefOf(vt->getElementType()));
	else return Val();
	return Val::A(std::move(v));
}
static Val binop(State& s, unsigned op, const Val& a, const Val& b, Type* t);
static Val castop(State& s, unsigned op, const Val& a, Type* from, Type* to);
static Val cmpop(CmpInst::Predicate p, const Val& a, const Val& b);
static Val gepVal(const GEPOperator* g, const Val& base, const std::function<Val(Value*)>& get);
static Val constVal(State& s, const Constant* c);
static Val constVal0(State& s, const Constant* c) {
	if (auto* i = dyn_cast<ConstantInt>(c)) return Val::CA(i->getValue());
	if (auto* f = dyn_cast<ConstantFP>(c)) return Val::CA(f->getValueAPF().bitcastToAPInt());
	if (isa<ConstantPointerNull>(c)) return Val::C64(0);
	if (isa<UndefValue>(c)) return undefOf(c->getType());
	if (isa<ConstantAggregateZero>(c)) return undefOf(c->getType());
	if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = GAddr.find(g); if (it == GAddr.end()) { errs() << "no global " << g->getName() << "\n"; exit(3); } return Val::C64(it->second).withProv(GObj[g]); }
	if (auto* f = dyn_cast<Function>(c)) return Val::C64(GAddr[f]);
	if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(s, ga->getAliasee());
	if (auto* b = dyn_cast<BlockAddress>(c)) return Val::C64(BBAddr[{b->getFunction(), b->getBasicBlock()}]);
	if (auto* d = dyn_cast<ConstantDataSequential>(c)) { vector<Val> v; for (unsigned i = 0; i < d->getNumElements(); i++) v.push_back(constVal0(s, d->getElementAsConstant(i))); return Val::A(std::move(v)); }
	if (auto* d = dyn_cast<ConstantAggregate>(c)) { vector<Val> v; for (auto& o : d->operands()) v.push_back(constVal(s, cast<Constant>(o))); return Val::A(std::move(v)); }
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		auto get = [&](const Value* v) { return constVal(s, cast<Constant>(v)); };
		if (auto* g = dyn_cast<GEPOperator>(ce)) return gepVal(g, get(g->getPointerOperand()), get);
		if (ce->isCast()) return castop(s, ce->getOpcode(), get(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType());
		if (Instruction::isBinaryOp(ce->getOpcode())) return binop(s, ce->getOpcode(), get(ce->getOperand(0)), get(ce->getOperand(1)), ce->getType());
		if (ce->isCompare()) return cmpop((CmpInst::Predicate)ce->getPredicate(), get(ce->getOperand(0)), get(ce->getOperand(1)));
	}
	errs() << "unsupported constant " << *c << "\n"; return Val();
}
static Val constVal(State& s, const Constant* c) {
	if (auto* i = dyn_cast<ConstantInt>(c)) return Val::CA(i->getValue());
	auto it = constCache.find(c); if (it != constCache.end()) return it->second;
	Val v = constVal0(s, c); constCache[c] = v; return v;
}
static Val getV(State& s, Frame& f, const Value* v) {
	if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
	auto it = f.fi->slot.find(v);
	if (it == f.fi->slot.end()) { if (isa<MetadataAsValue>(v)) return Val(); errs() << "no slot\n"; exit(3); }
	return f.regs[it->second];
}
static void setV(Frame& f, const Value* i, Val v) { f.regs[f.fi->slot.lookup(i)] = std::move(v); }
static E asBool(const Val& v) { return v.toE(); }

// ------------------------------------------------------------ FP helpers (bit level)
static E isNaNE(const E& x) { unsigned w = widthE(x); unsigned m = w == 64 ? 52 : 23; unsigned e = w - 1 - m;
	return mkAnd(mkEq(mkExtract(w - 2, m, x), numAP(APInt::getAllOnes(e))), mkNot(mkEq(mkExtract(m - 1, 0, x), num(0, m)))); }
static E isZeroE(const E& x) { unsigned w = widthE(x); return mkEq(mkExtract(w - 2, 0, x), num(0, w - 1)); }
static E signE(const E& x) { unsigned w = widthE(x); return mkEq(mkExtract(w - 1, w - 1, x), num(1, 1)); }
static E fpLt(const E& a, const E& b) { // ordered operands assumed
	E sa = signE(a), sb = signE(b); E bz = mkAnd(isZeroE(a), isZeroE(b));
	E r = mkIte(sa, mkIte(sb, mkUlt(b, a), T()), mkIte(sb, F(), mkUlt(a, b)));
	return mkAnd(mkNot(bz), r);
}
static E fpEq(const E& a, const E& b) { return mkOr(mkEq(a, b), mkAnd(isZeroE(a), isZeroE(b))); }
static double asD(const APInt& v) { return v.getBitWidth() == 64 ? v.bitsToDouble() : (double)v.bitsToFloat(); }
static Val fromD(double d, unsigned w) { return w == 64 ? Val::CA(APInt::doubleToBits(d)) : Val::CA(APInt::floatToBits((float)d)); }
static Val fpBin(const char* n, const Val& a, const Val& b, bool comm) {
	unsigned w = a.w();
	if (a.conc() && b.conc() && w <= 64) {
		string k = n;
		if (w == 64) { double x = asD(a.c), y = asD(b.c); if (k == "fadd") return fromD(x + y, 64); if (k == "fsub") return fromD(x - y, 64); if (k == "fmul") return fromD(x * y, 64); if (k == "fdiv") return fromD(x / y, 64); }
		else { float x = a.c.bitsToFloat(), y = b.c.bitsToFloat(); if (k == "fadd") return fromD(x + y, 32); if (k == "fsub") return fromD(x - y, 32); if (k == "fmul") return fromD(x * y, 32); if (k == "fdiv") return fromD(x / y, 32); }
	}
	E x = a.toE(), y = b.toE();
	if (comm) { // commutative: a function of the unordered pair
		if (x.id() > y.id()) std::swap(x, y);
		if (!isNum(x) && !isNum(y) && !(x == y)) { E c = mkUle(x, y), lo = mkIte(c, x, y), hi = mkIte(c, y, x); x = lo; y = hi; }
		else if (isNum(x)) std::swap(x, y);
	}
	notes["floating-point operation encoded as uninterpreted function"]++;
	return Val::S(mkUF(n, {x, y}, w));
}
static Val fneg1(const Val& a) { unsigned w = a.w(); return a.conc() ? Val::CA(a.c ^ APInt::getSignMask(w)) : Val::S(mkConcat(X(Z3_simplify(C, Z3_mk_bvnot(C, mkExtract(w - 1, w - 1, a.e).a))), mkExtract(w - 2, 0, a.e))); }
static unsigned mbits(unsigned w) { return w == 64 ? 52 : 23; }
static E mkUge(const E& a, const E& b) { return mkUle(b, a); }
static E mkUgt(const E& a, const E& b) { return mkUlt(b, a); }
static std::map<unsigned, std::pair<E, E>> truncOf;
// truncation towards zero, exactly
static Val ftruncV(const Val& a) {
	unsigned w = a.w(); if (a.conc()) return w == 64 ? fromD(std::trunc(asD(a.c)), 64) : fromD(std::trunc(asD(a.c)), 32);
	if (w != 32 && w != 64) return Val::S(mkUF("ftrunc", {a.toE()}, w));
	unsigned m = mbits(w); uint64_t bias = w == 64 ? 1023 : 127; E x = a.toE();
	E e = mkZext(mkExtract(w - 2, m, x), w); E sign = mkBit(Z3_OP_BAND, x, num(1ull << (w - 1), w));
	E below = mkUlt(e, num(bias, w)), whole = mkUge(e, num(bias + m, w));
	E mask = mkSub(mkShift(0, num(1, w), mkSub(num(bias + m, w), e)), num(1, w));
	E r = mkIte(below, sign, mkIte(whole, x, mkBit(Z3_OP_BAND, x, X(Z3_mk_bvnot(C, mask.a))))); truncOf[r.id()] = {r, x}; return Val::S(r);
}
// conversion to integer, exactly where the result is defined and as an unknown function elsewhere
static Val fptoint(const Val& a, unsigned w, bool sg) {
	unsigned fw = a.w(); std::string nm = (sg ? "fptosi" : "fptoui") + std::to_string(w); E x = a.toE();
	auto it = truncOf.find(x.id()); if (it != truncOf.end()) x = it->second.second; // truncating the operand first changes nothing
	if (a.conc() && (fw == 32 || fw == 64) && w <= 64) { APFloat f(fw == 64 ? APFloat::IEEEdouble() : APFloat::IEEEsingle(), a.c); APSInt o(w, !sg); bool ex; if (f.convertToInteger(o, APFloat::rmTowardZero, &ex) != APFloat::opInvalidOp) return Val::CA(o); }
	if (dk(x) == Z3_OP_ITE && (isNum(arg(x, 1)) || isNum(arg(x, 2)))) { auto arm = [&](int i) { E y = arg(x, i); APInt v; return fptoint(getNum(y, v) ? Val::CA(v) : Val::S(y), w, sg).toE(); }; return Val::S(mkIte(arg(x, 0), arm(1), arm(2))); }
	if ((fw != 32 && fw != 64) || w > 64) return Val::S(mkUF(nm, {x}, w));
	unsigned m = mbits(fw); const unsigned B = 64; uint64_t bias = fw == 64 ? 1023 : 127;
	E e = mkZext(mkExtract(fw - 2, m, x), B); E neg = mkEq(mkExtract(fw - 1, fw - 1, x), num(1, 1));
	E sig = mkZext(mkConcat(num(1, 1), mkExtract(m - 1, 0, x)), B);
	E sh = mkShift(0, sig, mkSub(e, num(bias + m, B))), rs = mkShift(1, sig, mkSub(num(bias + m, B), e));
	E mag = mkIte(mkUlt(e, num(bias, B)), num(0, B), mkIte(mkUge(e, num(bias + m, B)), sh, rs));
	E lim = sg ? mkIte(neg, num(1ull << (w - 1), B), num((1ull << (w - 1)) - 1, B)) : mkIte(neg, num(0, B), num(w == 64 ? ~0ull : (1ull << w) - 1, B));
	E bad = mkOr(mkUge(e, num(bias + 64, B)), mkUgt(mag, lim)); E mg = mkExtract(w - 1, 0, mag);
	return Val::S(mkIte(bad, mkUF(nm, {x}, w), mkIte(neg, mkNeg(mg), mg)));
}
static Val fcmpV(CmpInst::Predicate p, const Val& a, const Val& b) {
	E x = a.toE(), y = b.toE();
	E un = mkOr(isNaNE(x), isNaNE(y)); E ord = mkNot(un), r;
	switch (p) {
	case CmpInst::FCMP_FALSE: return Val::C64(0, 1); case CmpInst::FCMP_TRUE: return Val::C64(1, 1);
	case CmpInst::FCMP_ORD: r = ord; break; case CmpInst::FCMP_UNO: r = un; break;
	case CmpInst::FCMP_OEQ: r = mkAnd(ord, fpEq(x, y)); break;
	case CmpInst::FCMP_UEQ: r = mkOr(un, fpEq(x, y)); break;
	case CmpInst::FCMP_ONE: r = mkAnd(ord, mkNot(fpEq(x, y))); break;
	case CmpInst::FCMP_UNE: r = mkOr(un, mkNot(fpEq(x, y))); break;
	case CmpInst::FCMP_OLT: r = mkAnd(ord, fpLt(x, y)); break;
	case CmpInst::FCMP_ULT: r = mkOr(un, fpLt(x, y)); break;
	case CmpInst::FCMP_OGT: r = mkAnd(ord, fpLt(y, x)); break;
	case CmpInst::FCMP_UGT: r = mkOr(un, fpLt(y, x)); break;
	case CmpInst::FCMP_OLE: r = mkAnd(ord, mkOr(fpLt(x, y), fpEq(x, y))); break;
	case CmpInst::FCMP_ULE: r = mkOr(un, mkOr(fpLt(x, y), fpEq(x, y))); break;
	case CmpInst::FCMP_OGE: r = mkAnd(ord, mkOr(fpLt(y, x), fpEq(x, y))); break;
	case CmpInst::FCMP_UGE: r = mkOr(un, mkOr(fpLt(y, x), fpEq(x, y))); break;
	default: r = F();
	}
	return Val::S(r);
}
static Val cmpop(CmpInst::Predicate p, const Val& a, const Val& b) {
	if (a.k == Val::Agg) { vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(cmpop(p, (*a.agg)[i], (*b.agg)[i])); return Val::A(std::move(r)); }
	if (CmpInst::isFPPredicate(p)) return fcmpV(p, a, b);
	if (a.conc() && b.conc()) return Val::C64(ICmpInst::compare(a.c, b.c, p), 1);
	E x = a.toE(), y = b.toE(), r;
	if (isBoolE(x)) {
		switch (p) {
		case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: r = mkAnd(mkNot(x), y); break;
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: r = mkAnd(x, mkNot(y)); break;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: r = mkOr(mkNot(x), y); break;
		default: r = mkOr(x, mkNot(y)); break;
		}
		return Val::S(r);
	}
	switch (p) {
	case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
	case CmpInst::ICMP_ULT: r = mkUlt(x, y); break; case CmpInst::ICMP_UGT: r = mkUlt(y, x); break;
	case CmpInst::ICMP_ULE: r = mkNot(mkUlt(y, x)); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(x, y)); break;
	case CmpInst::ICMP_SLT: r = mkSlt(x, y); break; case CmpInst::ICMP_SGT: r = mkSlt(y, x); break;
	case CmpInst::ICMP_SLE: r = mkNot(mkSlt(y, x)); break; default: r = mkNot(mkSlt(x, y)); break;
	}
	return Val::S(r);
}
static Val shiftV(State& s, int kind, const Val& a, const Val& b) {
	unsigned w = a.w();
	if (b.conc()) {
		if (b.c.uge(w)) { notes["oversize shift (undefined result)"]++; return Val::S(freshBV("poison", w)); }
		unsigned n = b.u();
		if (a.conc()) return Val::CA(kind == 0 ? a.c.shl(n) : kind == 1 ? a.c.lshr(n) : a.c.ashr(n));
		return Val::S(kind == 0 ? mkShlC(a.e, n) : kind == 1 ? mkLshrC(a.e, n) : mkAshrC(a.e, n));
	}
	E x = a.toE(), y = b.toE();
	E r = mkShift(kind, x, y);
	E in = mkUlt(y, num(w, w));
	if (!isT(in)) {
		// only introduce the undefined value when it is feasible on this path
		if (!(evalBool(s, in) == 1 && check(s, mkNot(in), nullptr) == 0)) { notes["oversize shift (undefined result)"]++; r = mkIte(in, r, mkUF("poisonshift" + std::to_string(kind), {x, y}, w)); }
	}
	return Val::S(r);
}
static Val binop(State& s, unsigned op, const Val& a, const Val& b, Type* t) {
	if (a.k == Val::Agg) {
		vector<Val> r; Type* et = cast<VectorType>(t)->getElementType();
		for (size_t i = 0; i < a.agg->size(); i++) r.push_back(binop(s, op, (*a.agg)[i], (*b.agg)[i], et));
		return Val::A(std::move(r));
	}
	switch (op) {
	case Instruction::FAdd: return fpBin("fadd", a, b, true);
	case Instruction::FSub: /* x - y is x + (-y) */ return fpBin("fadd", a, fneg1(b), true);
	case Instruction::FMul: return fpBin("fmul", a, b, true);
	case Instruction::FDiv: return fpBin("fdiv", a, b, false);
	case Instruction::FRem: return fpBin("frem", a, b, false);
	case Instruction::Add: return vAdd(a, b);
	case Instruction::Sub: return vSub(a, b);
	default: break;
	}
	unsigned w = a.w();
	if (w == 1) {
		E x = a.toE(), y = b.toE();
		switch (op) {
		case Instruction::And: case Instruction::Mul: return Val::S(mkAnd(x, y));
		case Instruction::Or: return Val::S(mkOr(x, y));
		case Instruction::Xor: return Val::S(mkNot(mkEq(x, y)));
		default: return a;
		}
	}
	bool cc = a.conc() && b.conc();
	auto keepProv = [&](Val r) { if (a.prov && !b.prov) r.prov = a.prov; else if (b.prov && !a.prov) r.prov = b.prov; return r; };
	switch (op) {
	case Instruction::Mul: return cc ? Val::CA(a.c * b.c) : Val::S(mkMul(a.toE(), b.toE()));
	case Instruction::And: return keepProv(cc ? Val::CA(a.c & b.c) : Val::S(mkBit(Z3_OP_BAND, a.toE(), b.toE())));
	case Instruction::Or: return keepProv(cc ? Val::CA(a.c | b.c) : Val::S(mkBit(Z3_OP_BOR, a.toE(), b.toE())));
	case Instruction::Xor: return cc ? Val::CA(a.c ^ b.c) : Val::S(mkBit(Z3_OP_BXOR, a.toE(), b.toE()));
	case Instruction::Shl: return shiftV(s, 0, a, b);
	case Instruction::LShr: return shiftV(s, 1, a, b);
	case Instruction::AShr: return shiftV(s, 2, a, b);
	case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
		bool sg = op == Instruction::SDiv || op == Instruction::SRem;
		if (b.conc()) { if (b.c.isZero()) bug(s, "trap", "division by zero"); }
		else require(s, mkNot(mkEq(b.toE(), num(0, w))), "trap", "division by zero", false);
		if (sg && !(b.conc() && !b.c.isAllOnes())) {
			E ov = mkAnd(mkEq(a.toE(), numAP(APInt::getSignedMinValue(w))), mkEq(b.toE(), numAP(APInt::getAllOnes(w))));
			if (isT(ov)) bug(s, "trap", "signed division overflow");
			if (!isF(ov)) require(s, mkNot(ov), "trap", "signed division overflow", false);
		}
		if (cc) return Val::CA(op == Instruction::UDiv ? a.c.udiv(b.c) : op == Instruction::URem ? a.c.urem(b.c) : op == Instruction::SDiv ? a.c.sdiv(b.c) : a.c.srem(b.c));
		if (!sg && b.conc() && b.c.isPowerOf2()) {
			unsigned k = b.c.logBase2();
			if (op == Instruction::UDiv) return Val::S(mkLshrC(a.e, k));
			return Val::S(k == 0 ? num(0, w) : mkZext(mkExtract(k - 1, 0, a.e), w));
		}
		E x = a.toE(), y = b.toE();
		return Val::S(X(op == Instruction::UDiv ? Z3_mk_bvudiv(C, x.a, y.a) : op == Instruction::URem ? Z3_mk_bvurem(C, x.a, y.a) : op == Instruction::SDiv ? Z3_mk_bvsdiv(C, x.a, y.a) : Z3_mk_bvsrem(C, x.a, y.a)));
	}
	}
	incomplete(s, "binop"); endPath();
}
static Val truncV(const Val& a, unsigned w) {
	if (a.conc()) return Val::CA(a.c.trunc(w)).withProv(w == 64 ? a.prov : 0);
	if (w == 1) return Val::S(mkEq(mkExtract(0, 0, a.e), num(1, 1)));
	return Val::S(mkExtract(w - 1, 0, a.e));
}
static Val zextV(const Val& a, unsigned w) { return a.conc() ? Val::CA(a.c.zext(w)) : Val::S(mkZext(a.e, w)); }
static Val sextV(const Val& a, unsigned w) { return a.conc() ? Val::CA(a.c.sext(w)) : Val::S(mkSext(a.e, w)); }
static unsigned bitsOf(Type* t) { return DL->getTypeSizeInBits(t).getFixedValue(); }
static Val flatten(State& s, const Val& v, Type* t) { // to a single bit-vector
	if (v.k != Val::Agg) { if (v.w() == 1 && bitsOf(t) != 1) return zextV(v, bitsOf(t)); return v; }
	auto* vt = cast<FixedVectorType>(t); Type* et = vt->getElementType();
	E r; for (size_t i = 0; i < v.agg->size(); i++) { E b = flatten(s, (*v.agg)[i], et).toE(); if (isBoolE(b)) b = mkIte(b, num(1, 1), num(0, 1)); r = r ? mkConcat(b, r) : b; }
	return Val::S(r);
}
static Val unflatten(const Val& v, Type* t) {
	auto* vt = dyn_cast<FixedVectorType>(t); if (!vt) { if (bitsOf(t) == 1 && v.w() == 1) return v; return v; }
	unsigned eb = bitsOf(vt->getElementType()); vector<Val> r; E e = v.toE();
	for (unsigned i = 0; i < vt->getNumElements(); i++) { Val x = Val::S(mkExtract(i * eb + eb - 1, i * eb, e)); if (eb == 1) x = Val::S(mkEq(x.toE(), num(1, 1))); r.push_back(x); }
	return Val::A(std::move(r));
}
static Val castop(State& s, unsigned op, const Val& a, Type* from, Type* to) {
	if (a.k == Val::Agg && op != Instruction::BitCast) {
		vector<Val> r; for (auto& x : *a.agg) r.push_back(castop(s, op, x, cast<VectorType>(from)->getElementType(), cast<VectorType>(to)->getElementType()));
		return Val::A(std::move(r));
	}
	unsigned w = to->isPointerTy() ? 64 : to->isVectorTy() || to->isAggregateType() ? 0 : bitsOf(to);
	switch (op) {
	case Instruction::Trunc: return truncV(a, w);
	case Instruction::ZExt: return zextV(a, w);
	case Instruction::SExt: return sextV(a, w);
	case Instruction::PtrToInt: return w == 64 ? a : w < 64 ? truncV(a, w) : zextV(a, w);
	case Instruction::IntToPtr: return a.w() == 64 ? a : a.w() > 64 ? truncV(a, 64) : zextV(a, 64);
	case Instruction::BitCast: {
		if (!from->isVectorTy() && !to->isVectorTy()) return a;
		Val f = from->isVectorTy() ? flatten(s, a, from) : a;
		return to->isVectorTy() ? unflatten(f, to) : f;
	}
	case Instruction::AddrSpaceCast: return a;
	case Instruction::FPExt: if (a.conc()) return fromD(asD(a.c), w); return Val::S(mkUF("fpext", {a.e}, w));
	case Instruction::FPTrunc: if (a.conc() && w == 32) return fromD(asD(a.c), 32); return Val::S(mkUF("fptrunc", {a.e}, w));
	case Instruction::SIToFP: if (a.conc() && a.w() <= 64) { if (w == 64) return fromD((double)a.c.getSExtValue(), 64); return Val::CA(APInt::floatToBits((float)a.c.getSExtValue())); } return Val::S(mkUF("sitofp" + std::to_string(w), {a.toE()}, w));
	case Instruction::UIToFP: if (a.conc() && a.w() <= 64) { if (w == 64) return fromD((double)a.c.getZExtValue(), 64); return Val::CA(APInt::floatToBits((float)a.c.getZExtValue())); } return Val::S(mkUF("uitofp" + std::to_string(w), {a.toE()}, w));
	case Instruction::FPToSI: return fptoint(a, w, true);
	case Instruction::FPToUI: return fptoint(a, w, false);
	}
	incomplete(s, "cast"); endPath();
}
static Val gepVal(const GEPOperator* g, const Val& base, const std::function<Val(Value*)>& get) {
	Val r = base; uint64_t cst = 0; Val dyn; bool hasDyn = false;
	for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
		Value* op = gi.getOperand();
		if (StructType* st = gi.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
		uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
		Val i = get(op);
		if (i.k == Val::Agg) return Val();
		if (i.w() < 64) i = sextV(i, 64); else if (i.w() > 64) i = truncV(i, 64);
		i.prov = 0;
		if (i.conc()) cst += i.u() * sz;
		else { Val m = Val::S(mkMul(i.e, num(sz, 64))); dyn = hasDyn ? vAdd(dyn, m) : m; hasDyn = true; }
	}
	uint32_t p = base.prov;
	if (hasDyn) r = vAdd(r, dyn);
	if (cst) r = vAdd(r, Val::C64(cst));
	r.prov = p;
	return r;
}
static Val loadT(State& s, const Val& p, Type* t) {
	if (auto* st = dyn_cast<StructType>(t)) {
		vector<Val> r; auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadT(s, vAdd(p, Val::C64(sl->getElementOffset(i))).withProv(p.prov), st->getElementType(i)));
		return Val::A(std::move(r));
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		vector<Val> r; uint64_t sz = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
		for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(loadT(s, vAdd(p, Val::C64(i * sz)).withProv(p.prov), at->getElementType()));
		return Val::A(std::move(r));
	}
	unsigned n = DL->getTypeStoreSize(t).getFixedValue();
	Val v = memRead(s, p, n);
	if (t->isVectorTy()) { unsigned b = bitsOf(t); if (b < n * 8) v = truncV(v, b); return unflatten(v, t); }
	unsigned b = t->isPointerTy() ? 64 : bitsOf(t);
	if (b < n * 8) v = truncV(v, b);
	return v;
}
static void storeT(State& s, const Val& p, const Val& v, Type* t) {
	if (auto* st = dyn_cast<StructType>(t)) {
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, vAdd(p, Val::C64(sl->getElementOffset(i))).withProv(p.prov), (*v.agg)[i], st->getElementType(i));
		return;
	}
	if (auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t sz = DL->getTypeAllocSize(at->getElementType()).getFixedValue();
		for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, vAdd(p, Val::C64(i * sz)).withProv(p.prov), (*v.agg)[i], at->getElementType());
		return;
	}
	unsigned n = DL->getTypeStoreSize(t).getFixedValue();
	Val x = v;
	if (t->isVectorTy()) { x = flatten(s, v, t); if (x.w() == 1 && x.sym() && isBoolE(x.e)) x = zextV(x, 8); }
	if (x.k == Val::None) x = Val::C64(0, n * 8);
	if (x.w() < n * 8) x = zextV(x, n * 8);
	memWrite(s, p, x, n);
}

// ------------------------------------------------------------ exceptions
static std::map<string, string> tiBase; static std::map<string, int> tiId; static std::map<string, uint64_t> dummyTi;
static int typeId(const string& n) { auto it = tiId.find(n); if (it != tiId.end()) return it->second; int k = tiId.size() + 1; tiId[n] = k; return k; }
static bool isA(string t, const string& want) {
	for (int i = 0; i < 16; i++) {
		if (t == want) return true;
		auto it = tiBase.find(t); if (it == tiBase.end()) return false; t = it->second;
	}
	return false;
}
static void initTypes() {
	auto b = [&](const char* x, const char* y) { tiBase[x] = y; };
	b("_ZTISt13runtime_error", "_ZTISt9exception"); b("_ZTISt11logic_error", "_ZTISt9exception"); b("_ZTISt9bad_alloc", "_ZTISt9exception");
	b("_ZTISt12length_error", "_ZTISt11logic_error"); b("_ZTISt12out_of_range", "_ZTISt11logic_error"); b("_ZTISt16invalid_argument", "_ZTISt11logic_error");
	b("_ZTISt17bad_function_call", "_ZTISt9exception"); b("_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"); b("_ZTISt11range_error", "_ZTISt13runtime_error");
	b("_ZTISt14overflow_error", "_ZTISt13runtime_error"); b("_ZTISt12bad_weak_ptr", "_ZTISt9exception"); b("_ZTISt8bad_cast", "_ZTISt9exception"); b("_ZTISt12system_error", "_ZTISt13runtime_error");
	b("_ZTISt18bad_variant_access", "_ZTISt9exception"); b("_ZTISt19bad_optional_access", "_ZTISt9exception");
	for (auto& g : M->globals()) if (g.getName().starts_with("_ZTI") && g.hasInitializer())
		if (auto* cs = dyn_cast<ConstantStruct>(g.getInitializer())) if (cs->getNumOperands() >= 3)
			if (auto* bg = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) tiBase[g.getName().str()] = bg->getName().str();
}
static void enterBlock(State& s, Frame& f, BasicBlock* bb) {
	f.prev = f.bb; f.bb = bb; f.it = bb->begin();
	// simultaneous phi evaluation
	vector<std::pair<PHINode*, Val>> vs;
	for (auto it = bb->begin(); isa<PHINode>(*it); ++it) { auto* p = cast<PHINode>(&*it); vs.push_back({p, getV(s, f, p->getIncomingValueForBlock(f.prev))}); f.it = std::next(it); }
	for (auto& p : vs) setV(f, p.first, p.second);
	while (isa<PHINode>(*f.it)) ++f.it;
}
static void popFrame(State& s) {
	for (auto id : s.st.back().allocas) wobj(s, id)->freed = true;
	s.st.pop_back();
}
static void unwind(State& s) {
	while (!s.st.empty()) {
		Frame& f = s.st.back();
		if (auto* inv = dyn_cast<InvokeInst>(&*f.it)) {
			BasicBlock* ub = inv->getUnwindDest(); auto* lp = ub->getLandingPadInst();
			const Exc& e = s.exc.back(); int sel = -1;
			for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
				if (!lp->isCatch(i)) { if (lp->isFilter(i)) sel = 0; continue; }
				auto* cl = lp->getClause(i)->stripPointerCasts();
				if (isa<ConstantPointerNull>(cl)) sel = typeId("*");
				else if (isA(e.type, cl->getName().str())) sel = typeId(cl->getName().str());
			}
			if (sel < 0 && lp->isCleanup()) sel = 0;
			if (sel >= 0) {
				s.unwinding = sel; enterBlock(s, f, ub);
				return;
			}
		}
		popFrame(s);
	}
	State tmp = s; bug(s, "exception", "uncaught exception " + llvm::demangle(s.exc.back().type));
}
static void throwType(State& s, const string& ti, uint64_t ptr = 0, uint32_t prov = 0) {
	if (!ptr) { uint32_t id = newObj(s, Val::C64(128), 6, "exception " + ti); ptr = s.objs[id]->base; prov = id; 
		Obj* o = wobj(s, id); memset(o->data.data(), 0, 128); memset(o->st.data(), 1, 128); }
	s.exc.push_back({ptr, prov, ti});
	unwind(s);
}
#include "builtins.hpp"

static void pushCall(State& s, Function* f, const vector<Val>& args) {
	FuncInfo* fi = info(f); fi->calls++;
	if (s.st.size() > 400) { incomplete(s, "call depth"); endPath(); }
	Frame n; n.fi = fi; n.regs.resize(fi->nslots);
	for (unsigned i = 0; i < args.size(); i++) {
		if (i < f->arg_size()) n.regs[i] = args[i]; else n.va.push_back(args[i]);
	}
	for (auto& a : f->args()) if (a.hasByValAttr()) { // private copy
		uint64_t sz = DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
		uint32_t id = newObj(s, Val::C64(sz), 1, "byval");
		Val d = Val::C64(s.objs[id]->base).withProv(id);
		memCopy(s, d, args[a.getArgNo()], Val::C64(sz), false);
		n.regs[a.getArgNo()] = d; n.allocas.push_back(id);
	}
	n.bb = &f->getEntryBlock(); n.it = n.bb->begin();
	s.st.push_back(std::move(n));
}
static void finishCall(State& s, const Val& r) { // value returned to caller's current call instruction
	Frame& f = s.st.back(); Instruction* i = &*f.it;
	if (!i->getType()->isVoidTy()) setV(f, i, r.k == Val::None ? undefOf(i->getType()) : r);
	if (auto* inv = dyn_cast<InvokeInst>(i)) enterBlock(s, f, inv->getNormalDest()); else ++f.it;
}
static void doCall(State& s, CallBase* cb) {
	Frame& f = s.st.back();
	Value* cv = cb->getCalledOperand();
	if (isa<InlineAsm>(cv)) {
		if (cb->getType()->isVoidTy()) { finishCall(s, Val()); return; }
		incomplete(s, "inline asm"); endPath();
	}
	Function* callee = dyn_cast<Function>(cv->stripPointerCasts());
	if (auto* ga = dyn_cast<GlobalAlias>(cv->stripPointerCasts())) callee = dyn_cast<Function>(ga->getAliaseeObject());
	if (!callee) {
		Val p = getV(s, f, cv);
		if (p.k == Val::None) bug(s, "memory", "call through undefined function pointer");
		APInt a = p.conc() ? p.c : concretize(s, p.e, 4096, "call target");
		auto it = FuncAt.find(a.getZExtValue());
		if (it == FuncAt.end()) bug(s, "memory", "call through invalid function pointer");
		callee = it->second;
	}
	if (!overrides.empty()) { auto ov = overrides.find(callee); if (ov != overrides.end()) callee = ov->second; }
	vector<Val> args; for (auto& a : cb->args()) args.push_back(a->getType()->isMetadataTy() ? Val() : getV(s, f, a));
	Val r;
	if (auto* bi = findBuiltin(callee)) {
		size_t depth = s.st.size(); BasicBlock* bb = f.bb; auto it = f.it;
		if ((*bi)(s, cb, callee, args, r)) { // completed with value
			(void)depth; (void)bb; (void)it;
			finishCall(s, r);
		}
		return; // control was transferred (throw, frame push)
	}
	if (callee->isDeclaration()) { incomplete(s, "external function " + callee->getName().str()); endPath(); }
	pushCall(s, callee, args);
}
static Instruction* curI = nullptr; static State* curS = nullptr;
static void step(State& s) {
	Frame& f = s.st.back(); Instruction* i = &*f.it; Val r; curI = i; curS = &s;
	switch (i->getOpcode()) {
	case Instruction::Br: {
		auto* b = cast<BranchInst>(i);
		if (b->isUnconditional()) { enterBlock(s, f, b->getSuccessor(0)); return; }
		Val c = getV(s, f, b->getCondition());
		if (c.conc()) { enterBlock(s, f, b->getSuccessor(c.c.isZero() ? 1 : 0)); return; }
		if (b->getSuccessor(0) == b->getSuccessor(1)) { enterBlock(s, f, b->getSuccessor(0)); return; }
		bool t = branch(s, asBool(c), [&](State& n, bool v) { enterBlock(n, n.st.back(), b->getSuccessor(v ? 0 : 1)); });
		enterBlock(s, s.st.back(), b->getSuccessor(t ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto* sw = cast<SwitchInst>(i); Val c = getV(s, f, sw->getCondition());
		if (c.conc()) { BasicBlock* d = sw->getDefaultDest(); for (auto& cs : sw->cases()) if (cs.getCaseValue()->getValue() == c.c) { d = cs.getCaseSuccessor(); break; } enterBlock(s, f, d); return; }
		// group by successor
		vector<BasicBlock*> order; std::map<BasicBlock*, E> cond; E any = F();
		for (auto& cs : sw->cases()) {
			E q = mkEq(c.toE(), numAP(cs.getCaseValue()->getValue()));
			any = mkOr(any, q); auto* bb = cs.getCaseSuccessor();
			if (!cond.count(bb)) { order.push_back(bb); cond[bb] = q; } else cond[bb] = mkOr(cond[bb], q);
		}
		E dflt = mkNot(any); auto* db = sw->getDefaultDest();
		if (cond.count(db)) cond[db] = mkOr(cond[db], dflt); else { order.push_back(db); cond[db] = dflt; }
		APInt mv;
		if (!evalBV(s, c.toE(), mv)) { incomplete(s, "cannot evaluate switch"); endPath(); }
		BasicBlock* d = db; for (auto& cs : sw->cases()) if (cs.getCaseValue()->getValue() == mv) { d = cs.getCaseSuccessor(); break; }
		E cd = simp(cond[d]);
		if (!isT(cd)) {
			ModelP mf; int rf = check(s, mkNot(cd), &mf);
			if (rf < 0) incomplete(s, "solver unknown on switch");
			if (rf == 1) { auto n = forkState(s); addPC(*n, mkNot(cd)); n->model = mf; work.push_back(std::move(n)); addPC(s, cd); }
		}
		enterBlock(s, s.st.back(), d);
		return;
	}
	case Instruction::IndirectBr: {
		Val a = getV(s, f, cast<IndirectBrInst>(i)->getAddress());
		APInt v = a.conc() ? a.c : concretize(s, a.e, 1024, "indirect branch");
		auto it = BBAt.find(v.getZExtValue()); if (it == BBAt.end()) bug(s, "memory", "indirect branch to invalid address");
		enterBlock(s, s.st.back(), it->second); return;
	}
	case Instruction::Ret: {
		auto* ri = cast<ReturnInst>(i); Val v; if (ri->getReturnValue()) v = getV(s, f, ri->getReturnValue());
		auto cb = f.onRet;
		popFrame(s);
		if (cb) cb(s);
		if (s.st.empty()) { s.dead = true; return; }
		finishCall(s, v); return;
	}
	case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(i)); return;
	case Instruction::Resume: {
		Frame& fr = s.st.back(); (void)fr; popFrame(s); unwind(s); return;
	}
	case Instruction::Unreachable: bug(s, "trap", "unreachable code executed");
	case Instruction::LandingPad: {
		const Exc& e = s.exc.back();
		r = Val::A({Val::C64(e.ptr).withProv(e.prov), Val::C64((uint32_t)s.unwinding, 32)}); break;
	}
	case Instruction::Alloca: {
		auto* ai = cast<AllocaInst>(i); uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue();
		Val n = getV(s, f, ai->getArraySize()); uint64_t c = n.conc() ? n.u() : concretize(s, n.e, 64, "alloca size").getZExtValue();
		uint32_t id = newObj(s, Val::C64(sz * c), 1, "local " + ai->getName().str() + " of " + f.fi->pretty, ai->getAlign().value());
		s.st.back().allocas.push_back(id); r = Val::C64(s.objs[id]->base).withProv(id); break;
	}
	case Instruction::Load: { auto* l = cast<LoadInst>(i); r = loadT(s, getV(s, f, l->getPointerOperand()), l->getType()); break; }
	case Instruction::Store: { auto* st = cast<StoreInst>(i); storeT(s, getV(s, f, st->getPointerOperand()), getV(s, f, st->getValueOperand()), st->getValueOperand()->getType()); break; }
	case Instruction::GetElementPtr: {
		auto* g = cast<GEPOperator>(i); auto get = [&](Value* v) { return getV(s, f, v); };
		r = gepVal(g, get(g->getPointerOperand()), get); break;
	}
	case Instruction::ICmp: case Instruction::FCmp: r = cmpop(cast<CmpInst>(i)->getPredicate(), getV(s, f, i->getOperand(0)), getV(s, f, i->getOperand(1))); break;
	case Instruction::Select: {
		Val c = getV(s, f, i->getOperand(0)), a = getV(s, f, i->getOperand(1)), b = getV(s, f, i->getOperand(2));
		if (c.k == Val::Agg) { vector<Val> v; for (size_t k = 0; k < c.agg->size(); k++) v.push_back(vIte(asBool((*c.agg)[k]), (*a.agg)[k], (*b.agg)[k])); r = Val::A(std::move(v)); break; }
		if (c.sym() && i->getType()->isPointerTy() && a.prov != b.prov) { bool t = branch(s, asBool(c), [](State&, bool) {}); r = t ? a : b; break; }
		r = vIte(asBool(c), a, b); break;
	}
	case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(i); r = getV(s, f, e->getAggregateOperand()); for (auto k : e->indices()) { Val t = (*r.agg)[k]; r = t; } break; }
	case Instruction::InsertValue: {
		auto* e = cast<InsertValueInst>(i); Val agg = getV(s, f, e->getAggregateOperand()), v = getV(s, f, e->getInsertedValueOperand());
		std::function<Val(const Val&, ArrayRef<unsigned>)> ins = [&](const Val& a, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return v; vector<Val> x = *a.agg; x[ix[0]] = ins(x[ix[0]], ix.drop_front()); return Val::A(std::move(x)); };
		r = ins(agg, e->getIndices()); break;
	}
	case Instruction::ExtractElement: {
		Val v = getV(s, f, i->getOperand(0)), ix = getV(s, f, i->getOperand(1));
		if (ix.conc()) { if (ix.u() >= v.agg->size()) r = undefOf(i->getType()); else r = (*v.agg)[ix.u()]; }
		else { r = (*v.agg)[0]; for (size_t k = 1; k < v.agg->size(); k++) r = vIte(mkEq(ix.e, num(k, ix.w())), (*v.agg)[k], r); }
		break;
	}
	case Instruction::InsertElement: {
		Val v = getV(s, f, i->getOperand(0)), x = getV(s, f, i->getOperand(1)), ix = getV(s, f, i->getOperand(2)); vector<Val> o = *v.agg;
		if (ix.conc()) { if (ix.u() < o.size()) o[ix.u()] = x; } else for (size_t k = 0; k < o.size(); k++) o[k] = vIte(mkEq(ix.e, num(k, ix.w())), x, o[k]);
		r = Val::A(std::move(o)); break;
	}
	case Instruction::ShuffleVector: {
		auto* sv = cast<ShuffleVectorInst>(i); Val a = getV(s, f, i->getOperand(0)), b = getV(s, f, i->getOperand(1)); vector<Val> o; int n = a.agg->size();
		for (int m : sv->getShuffleMask()) o.push_back(m < 0 ? undefOf(cast<VectorType>(i->getType())->getElementType()) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
		r = Val::A(std::move(o)); break;
	}
	case Instruction::Freeze: r = getV(s, f, i->getOperand(0)); break;
	case Instruction::FNeg: {
		std::function<Val(const Val&)> ng = [&](const Val& a) -> Val { if (a.k == Val::Agg) { vector<Val> o; for (auto& x : *a.agg) o.push_back(ng(x)); return Val::A(std::move(o)); }
			return fneg1(a); };
		r = ng(getV(s, f, i->getOperand(0))); break;
	}
	case Instruction::Fence: ++f.it; return;
	case Instruction::AtomicCmpXchg: {
		auto* c = cast<AtomicCmpXchgInst>(i); Type* t = c->getCompareOperand()->getType(); Val p = getV(s, f, c->getPointerOperand());
		Val old = loadT(s, p, t); Val eq = cmpop(CmpInst::ICMP_EQ, old, getV(s, f, c->getCompareOperand()));
		storeT(s, p, vIte(asBool(eq), getV(s, f, c->getNewValOperand()), old), t);
		r = Val::A({old, eq}); break;
	}
	case Instruction::AtomicRMW: {
		auto* a = cast<AtomicRMWInst>(i); Type* t = a->getType(); Val p = getV(s, f, a->getPointerOperand()), v = getV(s, f, a->getValOperand());
		Val old = loadT(s, p, t), nv;
		switch (a->getOperation()) {
		case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = vAdd(old, v); break; case AtomicRMWInst::Sub: nv = vSub(old, v); break;
		case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, t); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, t); break; case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, v, t); break;
		case AtomicRMWInst::Max: nv = vIte(asBool(cmpop(CmpInst::ICMP_SGT, old, v)), old, v); break; case AtomicRMWInst::Min: nv = vIte(asBool(cmpop(CmpInst::ICMP_SLT, old, v)), old, v); break;
		case AtomicRMWInst::UMax: nv = vIte(asBool(cmpop(CmpInst::ICMP_UGT, old, v)), old, v); break; case AtomicRMWInst::UMin: nv = vIte(asBool(cmpop(CmpInst::ICMP_ULT, old, v)), old, v); break;
		default: incomplete(s, "atomicrmw"); endPath();
		}
		storeT(s, p, nv, t); r = old; break;
	}
	default:
		if (i->isBinaryOp()) r = binop(s, i->getOpcode(), getV(s, f, i->getOperand(0)), getV(s, f, i->getOperand(1)), i->getType());
		else if (i->isCast()) r = castop(s, i->getOpcode(), getV(s, f, i->getOperand(0)), i->getOperand(0)->getType(), i->getType());
		else { incomplete(s, string("instruction ") + i->getOpcodeName()); endPath(); }
	}
	Frame& g = s.st.back();
	if (!i->getType()->isVoidTy()) setV(g, i, std::move(r));
	++g.it;
}
#include "main.hpp"
