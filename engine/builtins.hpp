// Models of library functions, intrinsics and the harness interface.
#pragma once
using Builtin = std::function<bool(State&, CallBase*, Function*, vector<Val>&, Val&)>;
static std::unordered_map<string, Builtin> BI; static vector<std::pair<string, Builtin>> BIprefix;
static DenseMap<Function*, const Builtin*> biCache;
static std::set<string> overrideDefined; // builtins used even when a body exists
static DenseMap<Function*, Function*> overrides; // replaced by a harness stand-in (__vs_override__NAME)
static const Builtin* findBuiltin(Function* f) {
	auto it = biCache.find(f); if (it != biCache.end()) return it->second;
	const Builtin* r = nullptr; string n = f->getName().str();
	if (f->isDeclaration() || overrideDefined.count(n)) {
		auto b = BI.find(n); if (b != BI.end()) r = &b->second;
		else { size_t best = 0; for (auto& p : BIprefix) if (n.compare(0, p.first.size(), p.first) == 0 && p.first.size() > best) { best = p.first.size(); r = &p.second; } }
	}
	biCache[f] = r; return r;
}
static string cstr(State& s, const Val& p) {
	string r; if (!p.conc()) return "?";
	for (int i = 0; i < 4096; i++) { Val b = memRead(s, vAdd(p, Val::C64(i)).withProv(p.prov), 1); if (!b.conc()) { r += "?"; continue; } if (b.c.isZero()) break; r += (char)b.u(); }
	return r;
}
static Val ptrTo(State& s, uint32_t id) { return Val::C64(s.objs[id]->base).withProv(id); }
static const uint64_t HUGE_ALLOC = 1ULL << 36;
// allocation with possibly symbolic size; returns false when an exception was raised
static bool doAlloc(State& s, const Val& n, uint8_t kind, const char* nm, uint64_t align, bool throwing, Val& r) {
	if (n.conc()) {
		if (n.u() > HUGE_ALLOC) { if (throwing) { throwType(s, "_ZTISt9bad_alloc"); return false; } r = Val::C64(0); return true; }
		uint32_t id = newObj(s, n, kind, string(nm), align, n.u() > (16u << 20)); 
		if (n.u() > (16u << 20)) { auto u = mkUpd(Upd::BaseArr, nullptr); u->arr = X(Z3_mk_fresh_const(C, "heaparr", Z3_mk_array_sort(C, bvS(64), bvS(8)))); wobj(s, id)->head = u; }
		r = ptrTo(s, id); return true;
	}
	bool big = branch(s, mkUlt(num(HUGE_ALLOC, 64), n.e), [](State&, bool) {});
	if (big) { if (throwing) { throwType(s, "_ZTISt9bad_alloc"); return false; } r = Val::C64(0); return true; }
	uint32_t id = newObj(s, n, kind, nm, align, true);
	auto u = mkUpd(Upd::BaseArr, nullptr); u->arr = X(Z3_mk_fresh_const(C, "heaparr", Z3_mk_array_sort(C, bvS(64), bvS(8)))); wobj(s, id)->head = u;
	r = ptrTo(s, id); return true;
}
static void doFree(State& s, const Val& p, uint8_t kind, const char* what) {
	if (p.conc() && p.c.isZero()) return;
	APInt a = p.conc() ? p.c : concretize(s, p.e, 64, "free pointer");
	Obj* o = findObj(s, a.getZExtValue());
	if (!o || o->base != a.getZExtValue()) bug(s, "memory", string(what) + " of a pointer that was not allocated");
	if (o->freed) bug(s, "memory", string("double ") + what);
	if (o->kind != kind) bug(s, "memory", string(what) + " mismatches the allocation (" + describe(s, o) + ")");
	wobj(s, o->id)->freed = true;
}
// ---- formatted output: lengths are exact for every argument value, contents are not modelled
static const vector<uint64_t>* ptrVals(const E& e) { // every value a pointer expression can have (whatever the path), or null when too many
	static std::unordered_map<unsigned, vector<uint64_t>> cache; static vector<E> keep; auto it = cache.find(e.id()); if (it != cache.end()) return it->second.empty() ? nullptr : &it->second;
	keep.push_back(e); auto& v = cache[e.id()]; Z3_solver q = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, q);
	while (v.size() < 80) { if (Z3_solver_check(C, q) != Z3_L_TRUE) break; Z3_model m = Z3_solver_get_model(C, q); Z3_model_inc_ref(C, m); Z3_ast r = nullptr; uint64_t x = 0; bool ok = Z3_model_eval(C, m, e.a, true, &r) && Z3_get_numeral_uint64(C, r, &x); Z3_model_dec_ref(C, m); if (!ok) { v.clear(); break; } v.push_back(x); Z3_solver_assert(C, q, mkNot(mkEq(e, num(x, 64))).a); }
	Z3_solver_dec_ref(C, q); if (v.size() >= 80) v.clear(); return v.empty() ? nullptr : &v; }
static int64_t strLenAt(State& s, uint64_t at) { Obj* o = findObj(s, at); if (!o || o->freed || !o->size.conc() || at < o->base) return -1; uint64_t off = at - o->base; for (uint64_t i = off; i < o->size.u(); i++) { Val b = offsetRead(s, o->id, Val::C64(i), 1); if (!b.conc()) return -2; if (b.c.isZero()) return i - off; o = s.objs[o->id].get(); } return -1; }
static Val digits(const Val& v, unsigned base) { Val n = Val::C64(1); unsigned w = v.w(); if (v.conc()) { uint64_t x = v.u(), k = 1; while (x >= base) x /= base, k++; return Val::C64(k); } unsigned __int128 lim = base; while (lim >> w == 0) { n = vAdd(n, vIte(mkUlt(v.toE(), num((uint64_t)lim, w)), Val::C64(0), Val::C64(1))); lim *= base; } return n; }
static bool doFormat(State& s, vector<Val>& a, unsigned fi, bool bounded, Val& r) {
	string f = cstr(s, a[fi]); unsigned ai = fi + 1; Val len = Val::C64(0); uint64_t ub = 0; auto arg = [&]() -> Val { if (ai >= a.size()) bug(s, "format", "a format directive without its argument: " + f); return a[ai++]; };
	for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { len = vAdd(len, Val::C64(1)); ub++; continue; } i++; bool alt = false, minus = false, plus = false; uint64_t width = 0, lng = 0; int64_t prec = -1; while (i < f.size() && strchr("-+ #0", f[i])) { alt |= f[i] == '#'; minus |= f[i] == '-'; plus |= f[i] == '+' || f[i] == ' '; i++; }
		if (i < f.size() && f[i] == '*') { Val w = arg(); width = w.conc() ? w.u() : 0; if (!w.conc()) notes["symbolic field width"]++; i++; } while (i < f.size() && isdigit(f[i])) width = width * 10 + (f[i++] - '0'); if (i < f.size() && f[i] == '.') { prec = 0; i++; if (i < f.size() && f[i] == '*') { Val w = arg(); prec = w.conc() ? (int64_t)w.u() : 1 << 20; i++; } while (i < f.size() && isdigit(f[i])) prec = prec * 10 + (f[i++] - '0'); }
		while (i < f.size() && strchr("lhzjt", f[i])) { if (f[i] != 'h') lng++; i++; } char c = i < f.size() ? f[i] : 0; Val n = Val::C64(1); uint64_t u = 1;
		if (c == '%') {} else if (c == 'c') arg();
		else if (strchr("uxXod", c) || c == 'i') { Val v = arg(); unsigned w = lng ? 64 : 32; if (v.w() > w) v = truncV(v, w); if (v.w() < w) v = zextV(v, w); unsigned base = c == 'x' || c == 'X' ? 16 : c == 'o' ? 8 : 10; bool sg = c == 'd' || c == 'i'; if (sg) { E neg = mkEq(mkExtract(w - 1, w - 1, v.toE()), num(1, 1)); Val m = vIte(neg, vSub(Val::CA(APInt(w, 0)), v), v); n = vAdd(digits(m, base), vIte(simp(neg), Val::C64(1), Val::C64(plus))); } else n = digits(v, base); if (alt && base == 16) n = vAdd(n, vIte(mkEq(v.toE(), num(0, w)), Val::C64(0), Val::C64(2))); u = base == 16 ? w / 4 + 2 * alt : w == 64 ? 21 : 12; }
		else if (c == 'p') { arg(); n = Val::C64(18); u = 18; }
		else if (c == 's') { Val p = arg(); auto one = [&](uint64_t at) -> int64_t { int64_t l = strLenAt(s, at); if (l == -2) { notes["text of unknown length printed"]++; l = 0; } if (prec >= 0 && l > prec) l = prec; return l; };
			if (p.conc()) { int64_t l = one(p.u()); if (l < 0) bug(s, "memory", "%s of something that is not a string: " + f); n = Val::C64(l); u = l; }
			else { auto vals = ptrVals(simp(p.e)); vector<uint64_t> own; if (!vals) { own.push_back(concretize(s, p.e, 256, "%s argument").getZExtValue()); vals = &own; } u = 0; bool first = true; for (uint64_t x : *vals) { int64_t l = one(x); if (l < 0) { E eq = mkEq(p.e, num(x, 64)); if (check(s, eq, nullptr) == 1) { concretize(s, p.e, 256, "%s argument"); return doFormat(s, a, fi, bounded, r); } continue; } if ((uint64_t)l > u) u = l; n = first ? Val::C64(l) : vIte(mkEq(p.e, num(x, 64)), Val::C64(l), n); first = false; } } }
		else if (c == 'f' || c == 'g' || c == 'e' || c == 'G' || c == 'E' || c == 'a') { arg(); n = Val::S(freshBV("float text", 64)); u = 330; E ok = mkAnd(mkUlt(num(0, 64), n.e), mkUlt(n.e, num(c == 'f' ? 330 : 32, 64))); if (check(s, ok, nullptr) == 1) { ModelP m; check(s, ok, &m); addPC(s, ok); s.model = m; } }
		else { incomplete(s, "format directive not modelled: " + f); endPath(); }
		if (width && width >= u) n = Val::C64(width), u = width; else if (width) { n = vIte(mkUlt(n.toE(), num(width, 64)), Val::C64(width), n); if (u < width) u = width; } len = vAdd(len, n); ub += u; }
	Val cap = bounded ? a[1] : Val::C64(~0ull); Val need = vAdd(len, Val::C64(1)); Val wr = vIte(mkUlt(cap.toE(), need.toE()), cap, need); bool none = wr.conc() && wr.u() == 0;
	if (!none && !wr.conc()) { E z = mkEq(wr.e, num(0, 64)); none = branch(s, z, [](State&, bool) {}); }
	if (!none) { Loc l = resolve(s, a[0], wr, "formatted output"); Val last = vSub(wr, Val::C64(1)); Obj* o = s.objs[l.id].get(); if (!l.off.conc() || !o->size.conc() || o->arr() || !cap.conc()) offsetWrite(s, l.id, vAdd(l.off, last), Val::C64(0, 8), 1);
		else { uint64_t m = std::min<uint64_t>({ len.conc() ? len.u() : ub, cap.u() - 1, o->size.u() - l.off.u() - 1 }); for (uint64_t i = 0; i <= m; i++) offsetWrite(s, l.id, Val::C64(l.off.u() + i), Val::C64(i == m ? 0 : 'x', 8), 1); } }
	r = truncV(len, 32); return true; }
static unsigned uniq(State& s, const string& n) { return s.names[n]++; }
static string inName(State& s, const string& n) { unsigned k = uniq(s, n); return k ? n + "#" + std::to_string(k) : n; }
static void doSym(State& s, const Val& p, uint64_t n, const string& name0) {
	string name = inName(s, name0); auto in = std::make_shared<Input>(); in->name = name; in->n = n; in->kind = 0;
	uint64_t i = 0; unsigned k = 0;
	while (i < n) {
		unsigned c = n - i >= 8 ? 8 : n - i >= 4 ? 4 : n - i >= 2 ? 2 : 1;
		E e = namedBV(n <= 8 && c == n ? name : name + "." + std::to_string(k++), c * 8);
		memWrite(s, vAdd(p, Val::C64(i)).withProv(p.prov), Val::S(e), c, "__vs_sym");
		in->parts.push_back({e, c}); i += c;
	}
	s.inputs.push_back(in);
}
static E ctlzE(const E& x) { unsigned w = widthE(x); E r = num(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(i, i, x), num(1, 1)), num(w - 1 - i, w), r); return r; }
static E cttzE(const E& x) { unsigned w = widthE(x); E r = num(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(i, i, x), num(1, 1)), num(i, w), r); return r; }
static E ctpopE(const E& x) { unsigned w = widthE(x); E r = num(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(i, i, x), w)); return r; }
static E bswapE(const E& x) { unsigned n = widthE(x) / 8; E r; for (unsigned i = 0; i < n; i++) { E b = byteAt(x, i); r = r ? mkConcat(r, b) : b; } return r; }
static E brevE(const E& x) { unsigned n = widthE(x); E r; for (unsigned i = 0; i < n; i++) { E b = mkExtract(i, i, x); r = r ? mkConcat(r, b) : b; } return r; }
static E crcE(E crc, const E& data) { // CRC32-C, reflected, 8 bits at a time
	unsigned n = widthE(data) / 8;
	for (unsigned i = 0; i < n; i++) {
		crc = mkBit(Z3_OP_BXOR, crc, mkZext(byteAt(data, i), 32));
		for (int b = 0; b < 8; b++) { E l = mkEq(mkExtract(0, 0, crc), num(1, 1)); E sh = mkLshrC(crc, 1); crc = mkIte(l, mkBit(Z3_OP_BXOR, sh, num(0x82F63B78u, 32)), sh); }
	}
	return crc;
}
static Val mapE(const Val& a, const std::function<Val(const Val&)>& f) { if (a.k == Val::Agg) { vector<Val> o; for (auto& x : *a.agg) o.push_back(f(x)); return Val::A(std::move(o)); } return f(a); }
static Val map2(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) { if (a.k == Val::Agg) { vector<Val> o; for (size_t i = 0; i < a.agg->size(); i++) o.push_back(f((*a.agg)[i], (*b.agg)[i])); return Val::A(std::move(o)); } return f(a, b); }
static Val ufV(const string& n, const vector<Val>& as, unsigned w) { vector<E> es; for (auto& a : as) es.push_back(a.toE()); notes["floating-point operation encoded as uninterpreted function"]++; return Val::S(mkUF(n, es, w)); }
static E memcmpE(State& s, const Val& a, const Val& b, unsigned n) { // sign result as 32-bit
	E r = num(0, 32);
	for (int i = (int)n - 1; i >= 0; i--) {
		E x = memRead(s, vAdd(a, Val::C64(i)).withProv(a.prov), 1).toE(), y = memRead(s, vAdd(b, Val::C64(i)).withProv(b.prov), 1).toE();
		r = mkIte(mkEq(x, y), r, mkSub(mkZext(x, 32), mkZext(y, 32)));
	}
	return r;
}
static void initBuiltins() {
	auto S1 = [](const char* n, Builtin b) { BI[n] = b; };
	#define B(n) BI[n] = [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool
	#define BP(n) BIprefix.push_back({n, [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool
	(void)S1;
	// ---- harness interface
	B("__vs_sym") { doSym(s, a[0], a[1].u(), cstr(s, a[2])); return true; };
	B("__vs_havoc") { // array content symbolic for [p, p+n)
		Loc l = resolve(s, a[0], a[1], "havoc"); string nm = cstr(s, a[2]); bool same = nm[0] == '='; nm = same ? nm.substr(1) : inName(s, nm); // "=x": the same bytes as the input x
		Z3_sort as = Z3_mk_array_sort(C, bvS(64), bvS(8));
		E arr = X(Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), as));
		if (!s.objs[l.id]->size.conc() && !s.objs[l.id]->arr()) offsetRead(s, l.id, Val::C64(0), 1);
		auto base = mkUpd(Upd::BaseArr, nullptr); base->arr = arr;
		bool whole = l.off.conc() && l.off.c.isZero() && ((s.objs[l.id]->size.conc() && a[1].conc() && s.objs[l.id]->size.c == a[1].c) || (a[1].sym() && s.objs[l.id]->size.sym() && a[1].e == s.objs[l.id]->size.e));
		if (whole) { Obj* o = wobj(s, l.id); o->head = base; o->data.clear(); o->st.clear(); o->sx.clear(); o->pv.clear(); }
		else { toArray(s, l.id); Obj* o = wobj(s, l.id); auto u = mkUpd(Upd::Copy, o->head); u->idx = l.off; u->n = a[1]; u->src = base; u->srcOff = Val::C64(0); o->head = u; }
		if (same) return true;
		auto in = std::make_shared<Input>(); in->name = nm; in->kind = 1; in->arr = arr; in->size = a[1]; s.inputs.push_back(in);
		return true; };
	B("__vs_assume") {
		E c = simp(asBool(a[0])); if (isT(c)) return true; if (isF(c)) endPath();
		if (evalBool(s, c) != 1) { ModelP m; int k = check(s, c, &m); if (k == 0) endPath(); if (k < 0) { incomplete(s, "solver unknown on assume"); endPath(); } s.model = m; }
		addPC(s, c); return true; };
	B("__vs_assert") { string msg = cstr(s, a[1]); E c = simp(asBool(a[0])); require(s, c, "assert", msg); return true; };
	B("__vs_assert_kf") { // (ok, documentedFault, id, msg)
		E ok = simp(asBool(a[0])), fa = simp(asBool(a[1])); string id = cstr(s, a[2]), msg = cstr(s, a[3]);
		if (isT(ok)) { nAssertConc++; proved[msg]++; return true; }
		ModelP m; int k = check(s, mkAnd(mkNot(ok), fa), &m);
		if (k == 1 && !knowns.count(id)) { knowns.emplace(id, replayOf(s, m, "known", id + ": " + msg)); }
		require(s, mkOr(ok, fa), "assert", msg); return true; };
	B("__vs_fail") { string msg = cstr(s, a[0]); bug(s, "assert", msg); };
	B("__vs_cover") { coverHits[cstr(s, a[0])]++; return true; };
	B("__vs_trail") { s.trail.push_back(cstr(s, a[0])); return true; };
	B("__vs_param") { string n = cstr(s, a[0]); auto it = params.find(n); r = it != params.end() ? Val::C64(it->second) : a[1]; return true; };
	B("__vs_concretize") { r = a[0].conc() ? a[0] : Val::CA(concretize(s, a[0].e, 8192, "__vs_concretize")); return true; };
	B("__vs_end") { endedPaths["__vs_end"]++; endPath(); };
	B("__vs_symbolic") { r = Val::C64(1, 32); return true; };
	B("__vs_is_concrete") { r = Val::C64(a[0].conc(), 32); return true; };
	B("__vs_steplimit") { s.stepLimit = a[0].u() ? s.steps + a[0].u() : 0; s.stepMsg = cstr(s, a[1]); return true; };
	B("__vs_simplify") { r = a[0].sym() ? Val::S(simp(a[0].e)) : a[0]; return true; };
	B("__vs_print") { fprintf(stderr, "[print] %s = ", cstr(s, a[0]).c_str()); if (a[1].conc()) fprintf(stderr, "0x%llx\n", (unsigned long long)a[1].u()); else fprintf(stderr, "%s\n", Z3_ast_to_string(C, simp(a[1].e).a)); return true; };
	B("__vs_touch") { if (a[1].conc() && a[1].u() == 0) return true; resolve(s, a[0], a[1], strdup(cstr(s, a[2]).c_str())); return true; };
	B("__vs_expect_fault") { r = Val::C64(0, 32); return true; };
	// ---- memory management
	B("malloc") { return doAlloc(s, a[0], 2, "malloc block", 16, false, r); };
	B("calloc") { Val n = a[0].conc() && a[1].conc() ? Val::CA(a[0].c * a[1].c) : Val::S(mkMul(a[0].toE(), a[1].toE())); if (!doAlloc(s, n, 2, "calloc block", 16, false, r)) return false; if (!(r.conc() && r.c.isZero())) memSet(s, r, Val::C64(0, 8), n); return true; };
	B("free") { doFree(s, a[0], 2, "free"); return true; };
	B("aligned_alloc") { return doAlloc(s, a[1], 2, "aligned_alloc block", a[0].conc() ? a[0].u() : 64, false, r); };
	B("_Znwm") { return doAlloc(s, a[0], 3, "new block", 16, true, r); };
	B("_Znam") { return doAlloc(s, a[0], 5, "new[] block", 16, true, r); };
	B("_ZnwmRKSt9nothrow_t") { return doAlloc(s, a[0], 3, "new block", 16, false, r); };
	B("_ZnamRKSt9nothrow_t") { return doAlloc(s, a[0], 5, "new[] block", 16, false, r); };
	B("_ZnwmSt11align_val_t") { return doAlloc(s, a[0], 3, "new block", a[1].u(), true, r); };
	B("_ZnamSt11align_val_t") { return doAlloc(s, a[0], 5, "new[] block", a[1].u(), true, r); };
	for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) B(n) { doFree(s, a[0], 3, "delete"); return true; };
	for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) B(n) { doFree(s, a[0], 5, "delete[]"); return true; };
	B("mmap") {
		E z = mkOr(mkEq(a[1].toE(), num(0, 64)), mkUlt(num(1ULL << 40, 64), a[1].toE()));
		bool bad = branch(s, z, [](State&, bool) {}); if (bad) { r = Val::CA(APInt::getAllOnes(64)); return true; }
		uint32_t id = newObj(s, a[1], 4, "mmap region", 4096, true); auto u = mkUpd(Upd::BaseConst, nullptr); u->v = Val::C64(0, 8); wobj(s, id)->head = u;
		r = ptrTo(s, id); return true; };
	B("munmap") {
		APInt p = a[0].conc() ? a[0].c : concretize(s, a[0].e, 16, "munmap"); Obj* o = findObj(s, p.getZExtValue());
		if (!o || o->kind != 4 || o->base != p.getZExtValue()) { bug(s, "memory", "munmap of host memory that is not a mapping of this machine"); }
		if (o->freed) bug(s, "memory", "double munmap");
		wobj(s, o->id)->freed = true; r = Val::C64(0, 32); return true; };
	B("madvise") { // MADV_DONTNEED zero-fills; needs page alignment
		if (a[2].conc() && a[2].u() == 4) { memSet(s, a[0], Val::C64(0, 8), a[1]); }
		r = Val::C64(0, 32); return true; };
	auto mc = [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool { memCopy(s, a[0], a[1], a[2], true); r = a[0]; return true; };
	BIprefix.push_back({"llvm.memcpy", mc}); BIprefix.push_back({"llvm.memmove", mc}); BI["memcpy"] = mc; BI["memmove"] = mc;
	auto ms = [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool { Val v = a[1].w() > 8 ? truncV(a[1], 8) : a[1]; memSet(s, a[0], v, a[2]); r = a[0]; return true; };
	BIprefix.push_back({"llvm.memset", ms}); BI["memset"] = ms;
	auto mcmp = [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool {
		if (a[2].conc() && a[2].u() <= 256) { if (a[2].u() == 0) { r = Val::C64(0, 32); return true; } resolve(s, a[0], a[2], "memcmp read"); resolve(s, a[1], a[2], "memcmp read"); r = Val::S(memcmpE(s, a[0], a[1], a[2].u())); return true; }
		resolve(s, a[0], a[2], "memcmp read"); resolve(s, a[1], a[2], "memcmp read");
		E n = a[2].toE();
		if (a[2].sym() && implied(s, mkUle(n, num(32, 64)))) { APInt c = concretize(s, n, 64, "memcmp length"); r = Val::S(memcmpE(s, a[0], a[1], c.getZExtValue())); if (r.k == Val::None) r = Val::C64(0, 32); return true; }
		notes["memcmp over a large symbolic length: result unconstrained"]++;
		r = Val::S(freshBV("memcmp", 32)); return true; };
	BI["memcmp"] = mcmp; BI["bcmp"] = mcmp;
	// ---- exceptions
	B("__cxa_allocate_exception") { uint32_t id = newObj(s, a[0], 6, "exception object"); r = ptrTo(s, id); return true; };
	B("__cxa_free_exception") { return true; };
	B("__cxa_throw") { auto* g = cast<GlobalVariable>(cb->getArgOperand(1)->stripPointerCasts()); throwType(s, g->getName().str(), a[0].u(), a[0].prov); return false; };
	B("__cxa_rethrow") { if (s.caught.empty()) bug(s, "exception", "rethrow without exception"); s.exc.push_back(s.caught.back()); unwind(s); return false; };
	B("__cxa_begin_catch") { Exc e = s.exc.back(); s.exc.pop_back(); s.caught.push_back(e); r = Val::C64(e.ptr).withProv(e.prov); return true; };
	B("__cxa_get_exception_ptr") { r = a[0]; return true; };
	B("__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; };
	B("__cxa_init_primary_exception") { r = a[0]; return true; };
	BP("llvm.eh.typeid.for") { Value* v = cb->getArgOperand(0)->stripPointerCasts(); r = Val::C64(isa<ConstantPointerNull>(v) ? typeId("*") : typeId(v->getName().str()), 32); return true; }});
	B("_ZSt9terminatev") { bug(s, "exception", "std::terminate called"); };
	B("__cxa_pure_virtual") { bug(s, "exception", "pure virtual call"); };
	B("abort") { bug(s, "trap", "abort called"); };
	B("__assert_fail") { bug(s, "trap", "assertion failure in the code"); };
	B("__clang_call_terminate") { bug(s, "exception", "exception left a noexcept function"); };
	B("snprintf") { return doFormat(s, a, 2, true, r); }; B("sprintf") { return doFormat(s, a, 1, false, r); };
	overrideDefined.insert("__clang_call_terminate");
	#define THROWER(n, t) B(n) { throwType(s, t); return false; }
	THROWER("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"); THROWER("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"); THROWER("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
	THROWER("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"); THROWER("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"); THROWER("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
	THROWER("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"); THROWER("_ZSt20__throw_system_errori", "_ZTISt12system_error"); THROWER("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
	THROWER("_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"); THROWER("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"); THROWER("_ZSt20__throw_bad_weak_ptrv", "_ZTISt12bad_weak_ptr"); THROWER("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
	for (auto n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt13runtime_errorC2ERKS_", "_ZNSt13runtime_errorC2EOS_",
		"_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeC2EPKc", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentC2EPKc", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorD0Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt16invalid_argumentD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt12length_errorD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt11range_errorC1EPKc", "_ZNSt11range_errorD1Ev"}) B(n) { return true; };
	// exception_ptr: one pointer to the exception object
	B("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv") { return true; };
	B("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv") { return true; };
	B("_ZSt17current_exceptionv") { memWrite(s, a[0], s.caught.empty() ? Val::C64(0) : Val::C64(s.caught.back().ptr).withProv(s.caught.back().prov), 8); return true; };
	B("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") { Val p = memRead(s, a[0], 8); string t = "_ZTISt9exception"; uint32_t pr = 0;
		Obj* o = p.conc() ? findObj(s, p.u()) : nullptr; if (o) { pr = o->id; auto k = o->name.find("exception "); if (k == 0 && o->name.size() > 10 && o->name[10] == '_') t = o->name.substr(10); }
		throwType(s, t, p.u(), pr); return false; };
	// ---- threads, time, misc environment
	for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"}) B(n) { r = Val::C64(0, 32); return true; };
	for (auto n : {"__cxa_atexit"}) B(n) { r = Val::C64(0, 32); return true; };
	B("__cxa_guard_acquire") { Val b = memRead(s, a[0], 1); r = Val::C64(b.conc() && b.u() ? 0 : 1, 32); return true; };
	B("__cxa_guard_release") { memWrite(s, a[0], Val::C64(1, 8), 1); return true; };
	B("__cxa_guard_abort") { return true; };
	B("pthread_once") { // control word, routine
		Val c = memRead(s, a[0], 4); if (c.conc() && c.u() == 2) { r = Val::C64(0, 32); return true; }
		memWrite(s, a[0], Val::C64(2, 32), 4); Function* f = FuncAt[a[1].u()];
		// run routine then return 0 from the call
		FuncInfo* fi = info(f); fi->calls++; Frame n; n.fi = fi; n.regs.resize(fi->nslots); n.bb = &f->getEntryBlock(); n.it = n.bb->begin();
		s.st.push_back(std::move(n)); return false; };
	for (auto n : {"rand"}) B(n) { r = Val::S(mkZext(freshBV("rand", 31), 32)); return true; };
	B("__errno_location") { static uint32_t eid = 0; (void)eid; uint32_t id = newObj(s, Val::C64(4), 6, "errno"); r = ptrTo(s, id); memWrite(s, r, Val::S(freshBV("errno", 32)), 4); return true; };
	for (auto n : {"printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fputc", "vfprintf", "perror"}) B(n) { r = Val::S(freshBV("io", 32)); return true; };
	for (auto n : {"fwrite"}) B(n) { r = a[2]; return true; };
	// ---- intrinsics
	for (auto n : {"llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.donothing", "llvm.stackrestore", "llvm.va_end", "llvm.sideeffect", "llvm.pseudoprobe"})
		BP(n) { r = undefOf(cb->getType()); return true; }});
	B("llvm.assume") { E c = simp(asBool(a[0])); if (isF(c)) endPath(); if (!isT(c)) { if (check(s, mkNot(c), nullptr) != 0) { notes["llvm.assume not implied"]++; ModelP m; if (check(s, c, &m) != 1) endPath(); s.model = m; addPC(s, c); } } return true; };
	BP("llvm.expect") { r = a[0]; return true; }});
	BP("llvm.launder") { r = a[0]; return true; }}); BP("llvm.strip") { r = a[0]; return true; }}); BP("llvm.threadlocal.address") { r = a[0]; return true; }}); BP("llvm.ssa.copy") { r = a[0]; return true; }}); BP("llvm.annotation") { r = a[0]; return true; }}); BP("llvm.ptr.annotation") { r = a[0]; return true; }});
	BP("llvm.is.constant") { r = Val::C64(a[0].conc(), 1); return true; }});
	BP("llvm.objectsize") { r = Val::CA(APInt::getAllOnes(bitsOf(cb->getType()))); return true; }});
	BP("llvm.stacksave") { r = Val::C64(0); return true; }});
	B("llvm.trap") { bug(s, "trap", "trap"); }; B("llvm.debugtrap") { bug(s, "trap", "debugtrap"); }; BP("llvm.ubsantrap") { bug(s, "trap", "ubsantrap"); }});
	BP("llvm.ctlz") { r = mapE(a[0], [](const Val& x) { return x.conc() ? Val::C64(x.c.countl_zero(), x.w()) : Val::S(ctlzE(x.e)); }); return true; }});
	BP("llvm.cttz") { r = mapE(a[0], [](const Val& x) { return x.conc() ? Val::C64(x.c.countr_zero(), x.w()) : Val::S(cttzE(x.e)); }); return true; }});
	BP("llvm.ctpop") { r = mapE(a[0], [](const Val& x) { return x.conc() ? Val::C64(x.c.popcount(), x.w()) : Val::S(ctpopE(x.e)); }); return true; }});
	BP("llvm.bswap") { r = mapE(a[0], [](const Val& x) { return x.conc() ? Val::CA(x.c.byteSwap()) : Val::S(bswapE(x.e)); }); return true; }});
	BP("llvm.bitreverse") { r = mapE(a[0], [](const Val& x) { return x.conc() ? Val::CA(x.c.reverseBits()) : Val::S(brevE(x.e)); }); return true; }});
	#define MM(n, P) BP(n) { r = map2(a[0], a[1], [](const Val& x, const Val& y) { return vIte(asBool(cmpop(CmpInst::P, x, y)), x, y); }); return true; }})
	MM("llvm.umin", ICMP_ULT); MM("llvm.umax", ICMP_UGT); MM("llvm.smin", ICMP_SLT); MM("llvm.smax", ICMP_SGT);
	BP("llvm.abs") { r = mapE(a[0], [](const Val& x) { return vIte(asBool(cmpop(CmpInst::ICMP_SLT, x, Val::CA(APInt(x.w(), 0)))), vSub(Val::CA(APInt(x.w(), 0)), x), x); }); return true; }});
	#define OVF(n, EXT, OP) BP(n) { unsigned w = a[0].w(); Val x = EXT(a[0], 2 * w), y = EXT(a[1], 2 * w); Val f = binop(s, Instruction::OP, x, y, nullptr); Val t = binop(s, Instruction::OP, a[0], a[1], nullptr); r = Val::A({t, cmpop(CmpInst::ICMP_NE, f, EXT(t, 2 * w))}); return true; }})
	OVF("llvm.smul.with.overflow", sextV, Mul); OVF("llvm.umul.with.overflow", zextV, Mul);
	#define OVF1(n, EXT, OP) BP(n) { unsigned w = a[0].w(); Val x = EXT(a[0], w + 1), y = EXT(a[1], w + 1); Val f = binop(s, Instruction::OP, x, y, nullptr); Val t = binop(s, Instruction::OP, a[0], a[1], nullptr); r = Val::A({t, cmpop(CmpInst::ICMP_NE, f, EXT(t, w + 1))}); return true; }})
	OVF1("llvm.sadd.with.overflow", sextV, Add); OVF1("llvm.ssub.with.overflow", sextV, Sub); 
	BP("llvm.uadd.with.overflow") { Val t = vAdd(a[0], a[1]); t.prov = 0; r = Val::A({t, cmpop(CmpInst::ICMP_ULT, t, a[0])}); return true; }});
	BP("llvm.usub.with.overflow") { Val t = vSub(a[0], a[1]); t.prov = 0; r = Val::A({t, cmpop(CmpInst::ICMP_ULT, a[0], a[1])}); return true; }});
	BP("llvm.uadd.sat") { r = map2(a[0], a[1], [](const Val& x, const Val& y) { Val t = vAdd(x, y); return vIte(asBool(cmpop(CmpInst::ICMP_ULT, t, x)), Val::CA(APInt::getAllOnes(x.w())), t); }); return true; }});
	BP("llvm.usub.sat") { r = map2(a[0], a[1], [](const Val& x, const Val& y) { return vIte(asBool(cmpop(CmpInst::ICMP_ULT, x, y)), Val::CA(APInt(x.w(), 0)), vSub(x, y)); }); return true; }});
	BP("llvm.sadd.sat") { r = map2(a[0], a[1], [](const Val& x, const Val& y) { unsigned w = x.w(); Val t = vAdd(sextV(x, w + 1), sextV(y, w + 1)); Val mx = Val::CA(APInt::getSignedMaxValue(w).sext(w + 1)), mn = Val::CA(APInt::getSignedMinValue(w).sext(w + 1));
		return truncV(vIte(asBool(cmpop(CmpInst::ICMP_SGT, t, mx)), mx, vIte(asBool(cmpop(CmpInst::ICMP_SLT, t, mn)), mn, t)), w); }); return true; }});
	BP("llvm.ssub.sat") { r = map2(a[0], a[1], [](const Val& x, const Val& y) { unsigned w = x.w(); Val t = vSub(sextV(x, w + 1), sextV(y, w + 1)); Val mx = Val::CA(APInt::getSignedMaxValue(w).sext(w + 1)), mn = Val::CA(APInt::getSignedMinValue(w).sext(w + 1));
		return truncV(vIte(asBool(cmpop(CmpInst::ICMP_SGT, t, mx)), mx, vIte(asBool(cmpop(CmpInst::ICMP_SLT, t, mn)), mn, t)), w); }); return true; }});
	auto fsh = [](bool left) { return [left](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool {
		std::function<Val(const Val&, const Val&, const Val&)> f = [&](const Val& x, const Val& y, const Val& z) -> Val {
			unsigned w = x.w(); Val cat = Val::S(mkConcat(x.toE(), y.toE())); // 2w
			Val sh = zextV(binop(s, Instruction::URem, z, Val::C64(w, w), nullptr), 2 * w);
			E e;
			if (left) { e = mkShift(0, cat.toE(), sh.toE()); return Val::S(mkExtract(2 * w - 1, w, e)); }
			e = mkShift(1, cat.toE(), sh.toE()); return Val::S(mkExtract(w - 1, 0, e)); };
		if (a[0].k == Val::Agg) { vector<Val> o; for (size_t i = 0; i < a[0].agg->size(); i++) o.push_back(f((*a[0].agg)[i], (*a[1].agg)[i], (*a[2].agg)[i])); r = Val::A(std::move(o)); }
		else r = f(a[0], a[1], a[2]);
		return true; }; };
	BIprefix.push_back({"llvm.fshl", fsh(true)}); BIprefix.push_back({"llvm.fshr", fsh(false)});
	#define RED(n, OP) BP(n) { Val x = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); i++) x = binop(s, Instruction::OP, x, (*a[0].agg)[i], cast<VectorType>(cb->getArgOperand(0)->getType())->getElementType()); r = x; return true; }})
	RED("llvm.vector.reduce.add", Add); RED("llvm.vector.reduce.or", Or); RED("llvm.vector.reduce.and", And); RED("llvm.vector.reduce.xor", Xor); RED("llvm.vector.reduce.mul", Mul);
	// floating point
	#define UF1(n, u) BP(n) { r = mapE(a[0], [](const Val& x) { return ufV(u, {x}, x.w()); }); return true; }})
	UF1("llvm.sqrt", "sqrt"); UF1("llvm.floor", "floor"); UF1("llvm.ceil", "ceil"); UF1("llvm.rint", "rint"); UF1("llvm.nearbyint", "rint"); UF1("llvm.roundeven", "roundeven"); UF1("llvm.round", "round"); UF1("llvm.log2", "log2"); UF1("llvm.exp2", "exp2"); UF1("llvm.log", "log"); UF1("llvm.exp", "exp");
	BP("llvm.trunc.f") { r = mapE(a[0], [](const Val& x) { return ftruncV(x); }); return true; }});
	B("trunc") { r = ftruncV(a[0]); return true; }; B("truncf") { r = ftruncV(a[0]); return true; };
	#define LIB1(n, u) B(n) { r = ufV(u, {a[0]}, a[0].w()); return true; }
	LIB1("sqrt", "sqrt"); LIB1("sqrtf", "sqrt"); LIB1("floor", "floor"); LIB1("floorf", "floor"); LIB1("ceil", "ceil"); LIB1("ceilf", "ceil"); LIB1("rint", "rint"); LIB1("rintf", "rint"); LIB1("nearbyint", "rint"); LIB1("nearbyintf", "rint"); LIB1("round", "round"); LIB1("roundf", "round"); LIB1("roundeven", "roundeven"); LIB1("roundevenf", "roundeven"); LIB1("logb", "logb"); LIB1("logbf", "logb"); LIB1("log2", "log2"); LIB1("log2f", "log2"); LIB1("exp2", "exp2"); LIB1("exp2f", "exp2"); LIB1("cbrt", "cbrt");
	auto fma = [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool { Val x = a[0], y = a[1]; { E p = x.toE(), q = y.toE(); if (p.id() > q.id()) std::swap(p, q); if (!(p == q)) { E c = mkUle(p, q); x = Val::S(mkIte(c, p, q)); y = Val::S(mkIte(c, q, p)); } } r = ufV("fma", {x, y, a[2]}, a[0].w()); return true; };
	BIprefix.push_back({"llvm.fma", fma}); BI["fma"] = fma; BI["fmaf"] = fma;
	BP("llvm.fmuladd") { r = fpBin("fadd", fpBin("fmul", a[0], a[1], true), a[2], true); return true; }});
	auto comm2 = [](const char* u, bool comm) { string un = u; return [un, comm](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool { r = map2(a[0], a[1], [&](const Val& x, const Val& y) { Val p = x, q = y; if (comm && p.toE().id() > q.toE().id()) std::swap(p, q); return ufV(un, {p, q}, x.w()); }); return true; }; };
	for (auto n : {"fmin", "fminf"}) BI[n] = comm2("fmin", true); for (auto n : {"fmax", "fmaxf"}) BI[n] = comm2("fmax", true);
	BIprefix.push_back({"llvm.minnum", comm2("fmin", true)}); BIprefix.push_back({"llvm.maxnum", comm2("fmax", true)});
	for (auto n : {"fmod", "fmodf"}) BI[n] = comm2("frem", false); for (auto n : {"pow", "powf"}) BI[n] = comm2("pow", false);
	for (auto n : {"scalbn", "scalbnf", "ldexp", "ldexpf", "scalbln", "scalblnf"}) B(n) { r = ufV("ldexp", {a[0], a[1].w() < 64 ? sextV(a[1], 64) : a[1]}, a[0].w()); return true; };
	BP("llvm.ldexp") { r = ufV("ldexp", {a[0], a[1].w() < 64 ? sextV(a[1], 64) : a[1]}, a[0].w()); return true; }});
	for (auto n : {"ilogb", "ilogbf"}) B(n) { r = ufV("ilogb", {a[0]}, 32); return true; };
	for (auto n : {"lrint", "lrintf", "llrint", "llrintf"}) B(n) { r = ufV("lrint", {a[0]}, 64); return true; };
	BP("llvm.lrint") { r = ufV("lrint", {a[0]}, 64); return true; }}); BP("llvm.llrint") { r = ufV("lrint", {a[0]}, 64); return true; }});
	for (auto n : {"lround", "lroundf", "llround", "llroundf"}) B(n) { r = ufV("lround", {a[0]}, 64); return true; };
	BP("llvm.lround") { r = ufV("lround", {a[0]}, 64); return true; }}); BP("llvm.llround") { r = ufV("lround", {a[0]}, 64); return true; }});
	BP("llvm.fptosi.sat") { unsigned w = bitsOf(cb->getType()); r = ufV("fptosisat" + std::to_string(w), {a[0]}, w); return true; }}); BP("llvm.fptoui.sat") { unsigned w = bitsOf(cb->getType()); r = ufV("fptouisat" + std::to_string(w), {a[0]}, w); return true; }});
	BP("llvm.fabs") { r = mapE(a[0], [](const Val& x) { unsigned w = x.w(); return x.conc() ? Val::CA(x.c & APInt::getSignedMaxValue(w)) : Val::S(mkZext(mkExtract(w - 2, 0, x.e), w)); }); return true; }});
	for (auto n : {"fabs", "fabsf"}) B(n) { unsigned w = a[0].w(); r = Val::S(mkZext(mkExtract(w - 2, 0, a[0].toE()), w)); return true; };
	auto cps = [](State& s, CallBase* cb, Function* fn, vector<Val>& a, Val& r) -> bool { r = map2(a[0], a[1], [](const Val& x, const Val& y) { unsigned w = x.w(); return Val::S(mkConcat(mkExtract(w - 1, w - 1, y.toE()), mkExtract(w - 2, 0, x.toE()))); }); return true; };
	BIprefix.push_back({"llvm.copysign", cps}); BI["copysign"] = cps; BI["copysignf"] = cps;
	BP("llvm.is.fpclass") {
		unsigned mask = a[1].u(); E x = a[0].toE(); unsigned w = widthE(x), m = w == 64 ? 52 : 23, ew = w - 1 - m;
		E ex = mkExtract(w - 2, m, x), ma = mkExtract(m - 1, 0, x); E emax = mkEq(ex, numAP(APInt::getAllOnes(ew))), e0 = mkEq(ex, num(0, ew)), m0 = mkEq(ma, num(0, m)); E q = mkEq(mkExtract(m - 1, m - 1, x), num(1, 1)); E ng = signE(x), ps = mkNot(ng);
		E inf = mkAnd(emax, m0), nan = mkAnd(emax, mkNot(m0)), zero = mkAnd(e0, m0), sub = mkAnd(e0, mkNot(m0)), nor = mkAnd(mkNot(emax), mkNot(e0)); E res = F();
		E cls[10] = {mkAnd(nan, mkNot(q)), mkAnd(nan, q), mkAnd(ng, inf), mkAnd(ng, nor), mkAnd(ng, sub), mkAnd(ng, zero), mkAnd(ps, zero), mkAnd(ps, sub), mkAnd(ps, nor), mkAnd(ps, inf)};
		for (int i = 0; i < 10; i++) if (mask >> i & 1) res = mkOr(res, cls[i]);
		r = Val::S(res); return true; }});
	BP("llvm.x86.sse42.crc32.") { // 32.8, 32.16, 32.32, 64.64
		Val acc = a[0].w() > 32 ? truncV(a[0], 32) : a[0]; E e = crcE(acc.toE(), a[1].toE()); r = zextV(Val::S(e), bitsOf(cb->getType())); return true; }});
	B("llvm.x86.xgetbv") { r = Val::C64(0xffffffff); return true; };
	// overflow-free string primitives whose loops would fork are in the runtime (vs_rt.cpp)
	#undef B
	#undef BP
}
