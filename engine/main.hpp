// Global setup and the exploration loop.
#pragma once
static void writeConst(State& s, uint32_t id, uint64_t off, const Constant* c) {
	Type* t = c->getType();
	Obj* o = s.objs[id].get();
	if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { uint64_t n = DL->getTypeAllocSize(t).getFixedValue(); n = std::min(n, o->data.size() - off); memset(&o->data[off], 0, n); memset(&o->st[off], 1, n); return; }
	if (auto* cs = dyn_cast<ConstantStruct>(c)) { uint64_t n = DL->getTypeAllocSize(t).getFixedValue(); memset(&o->st[off], 1, std::min(n, o->data.size() - off)); auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(s, id, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
	if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue(); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(s, id, off + i * sz, ca->getOperand(i)); return; }
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef raw = cd->getRawDataValues(); memcpy(&o->data[off], raw.data(), raw.size()); memset(&o->st[off], 1, raw.size()); return; }
	Val v = constVal(s, c); unsigned n = DL->getTypeStoreSize(t).getFixedValue();
	if (t->isVectorTy()) v = flatten(s, v, t);
	if (v.w() < n * 8) v = zextV(v, n * 8);
	cellWrite(s, id, off, v, n);
}
static void setupGlobals(State& s) {
	s.objs.push_back(std::make_shared<Obj>()); // id 0 unused
	uint64_t fa = 0x10000;
	for (auto& f : *M) { GAddr[&f] = fa; FuncAt[fa] = &f; fa += 16; }
	for (auto& f : *M) for (auto& b : f) if (b.hasAddressTaken()) { BBAddr[{&f, &b}] = fa; BBAt[fa] = &b; fa += 16; }
	for (auto& g : M->globals()) {
		uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
		if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 64);
		uint32_t id = newObj(s, Val::C64(sz), 0, "global " + llvm::demangle(g.getName().str()), std::max<uint64_t>(16, g.getAlign().valueOrOne().value()));
		GAddr[&g] = s.objs[id]->base; GObj[&g] = id;
		// pack globals more densely
		s.nextAddr = s.objs[id]->base + ((sz + 63) & ~63ULL) + 64;
	}
	for (auto& g : M->globals()) {
		uint32_t id = GObj[&g];
		if (g.hasInitializer()) writeConst(s, id, 0, g.getInitializer());
		else if (g.getName().starts_with("_ZTV") || g.getName().starts_with("_ZTI")) { Obj* o = s.objs[id].get(); memset(o->st.data(), 1, o->st.size()); }
		else if (g.getName() == "__libc_single_threaded") { Obj* o = s.objs[id].get(); o->data[0] = 1; memset(o->st.data(), 1, o->st.size()); }
		else if (g.getName() == "__dso_handle") { Obj* o = s.objs[id].get(); memset(o->st.data(), 1, o->st.size()); }
		if (g.isConstant()) s.objs[id]->readonly = true;
	}
	s.nextAddr = (s.nextAddr + 0xffffffULL) & ~0xffffffULL;
}
static uint64_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return (uint64_t)b * 4096 / (1 << 20); }
static bool stopAll = false; static string stopWhy;
static void runState(std::unique_ptr<State> sp) {
	State& s = *sp;
	try {
		while (!s.dead) {
			try { step(s); } catch (Restart&) { }
			s.steps++; nSteps++;
			if ((nSteps & 0xfff) == 0) {
				if (now() - t0 > optTime) { stopAll = true; stopWhy = "time limit"; return; }
				if ((nSteps & 0xffff) == 0 && rssMB() > optMem) { stopAll = true; stopWhy = "memory limit"; return; }
			}
			if (s.stepLimit && s.steps > s.stepLimit) bug(s, "steps", s.stepMsg);
			if (s.steps > 200000000ULL) { incomplete(s, "step limit"); break; }
		}
		nPaths++;
	} catch (PathEnd&) { nPaths++; }
}
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); if (curI) { errs() << *curI << "\n"; for (auto it = curS->st.rbegin(); it != curS->st.rend(); ++it) { errs() << "  in " << it->fi->pretty << " bb " << it->bb->getName() << "\n"; } } abort(); }
int main(int argc, char** argv) {
	if (argc < 2) { fprintf(stderr, "usage: vse module.bc [--fn f] [--out f] [-D k=v] [--time s] [--query s]\n"); return 2; }
	string modf = argv[1];
	for (int i = 2; i < argc; i++) {
		string a = argv[i];
		if (a == "--fn") harnessFn = argv[++i]; else if (a == "--out") outFile = argv[++i]; else if (a == "--time") optTime = atof(argv[++i]); else if (a == "--query") optQuery = atof(argv[++i]);
		else if (a == "--mem") optMem = atoi(argv[++i]); else if (a == "--seed") optSeed = atoi(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--maxviol") optMaxViol = atoi(argv[++i]);
		else if (a == "-D") { string kv = argv[++i]; auto p = kv.find('='); params[kv.substr(0, p)] = strtoull(kv.c_str() + p + 1, nullptr, 0); }
		else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
	}
	t0 = now();
	Z3_global_param_set("smt.random_seed", std::to_string(optSeed).c_str());
	Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); C = Z3_mk_context_rc(cfg); Z3_set_error_handler(C, z3err); Z3_set_ast_print_mode(C, Z3_PRINT_LOW_LEVEL);
	inc = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, inc); setTimeout(inc, 800);
	LLVMContext ctx; SMDiagnostic err; M = parseIRFile(modf, err, ctx);
	if (!M) { err.print("vse", errs()); return 2; }
	DL = &M->getDataLayout();
	initTypes(); initBuiltins();
	for (auto& fn : *M) if (fn.getName().starts_with("__vs_override__") && !fn.isDeclaration()) if (auto* t = M->getFunction(fn.getName().drop_front(15))) overrides[t] = &fn;
	auto s = std::make_unique<State>(); setupGlobals(*s);
	Function* hf = M->getFunction(harnessFn);
	if (!hf || hf->isDeclaration()) { fprintf(stderr, "harness function %s not found\n", harnessFn.c_str()); return 2; }
	pushCall(*s, hf, {});
	// static constructors run first (stacked above the harness frame)
	if (auto* gv = M->getGlobalVariable("llvm.global_ctors")) if (gv->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer())) {
		vector<std::pair<unsigned, Function*>> cs;
		for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); cs.push_back({(unsigned)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); }
		std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
		auto saved = std::move(s->st); 
		for (auto& c : cs) if (c.second && !c.second->isDeclaration()) {
			s->st.clear(); s->dead = false; pushCall(*s, c.second, {});
			try { while (!s->dead) { step(*s); nSteps++; } } catch (PathEnd&) { fprintf(stderr, "static constructor failed\n"); incompletes["static constructor"]++; } catch (Restart&) { }
		}
		s->st = std::move(saved); s->dead = false;
	}
	work.push_back(std::move(s));
	while (!work.empty() && !stopAll) {
		auto n = std::move(work.back()); work.pop_back();
		runState(std::move(n));
		if (nPaths > optMaxPaths) { stopAll = true; stopWhy = "path limit"; }
		if (violations.size() >= optMaxViol) { stopAll = true; stopWhy = "violation limit"; }
	}
	if (stopAll && stopWhy != "violation limit") incompletes[stopWhy] += work.size() + 1;
	json::Object o; auto mapJ = [](std::map<string, uint64_t>& m) { json::Object r; for (auto& p : m) r[p.first] = (int64_t)p.second; return r; };
	o["harness"] = harnessFn; o["paths"] = (int64_t)nPaths; o["forks"] = (int64_t)nForks; o["steps"] = (int64_t)nSteps; o["queries"] = (int64_t)nQueries; o["sat"] = (int64_t)nQSat; o["unsat"] = (int64_t)nQUnsat; o["unknown"] = (int64_t)nQUnknown; o["fallback"] = (int64_t)nFallback;
	o["solver_s"] = solverTime; o["wall_s"] = now() - t0; o["asserts_proved"] = (int64_t)nAssertProved; o["asserts_trivial"] = (int64_t)nAssertConc; o["bounds_proved"] = (int64_t)nBounds; o["rss_mb"] = (int64_t)rssMB();
	o["cover"] = mapJ(coverHits); o["incomplete"] = mapJ(incompletes); o["notes"] = mapJ(notes); o["proved"] = mapJ(proved); o["conc_sites"] = mapJ(concSites);
	json::Array fns; for (auto& p : FI) if (p.second && p.second->calls) fns.push_back(p.second->pretty); o["functions"] = std::move(fns);
	o["violations"] = std::move(violations); json::Array kn; for (auto& k : knowns) kn.push_back(std::move(k.second)); o["known"] = std::move(kn);
	string js; raw_string_ostream os(js); os << json::Value(std::move(o)) << "\n"; os.flush();
	if (outFile.empty()) fputs(js.c_str(), stdout); else { std::ofstream f(outFile); f << js; }
	fflush(stdout); _exit(0);
}
