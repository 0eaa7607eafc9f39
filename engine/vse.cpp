// vse: a bounded symbolic executor for LLVM IR (solver: Z3).
#include "llvm/ADT/APSInt.h"
#include "mem.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <deque>
#include <fstream>
#include <functional>
#include <cmath>
#include <sstream>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr;
Z3_context C;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- globals
static std::unique_ptr<Module> M;
static const DataLayout* DL;
struct FuncInfo {
	Function* f; unsigned nslots = 0;
	DenseMap<const Value*, unsigned> slot;
	string pretty;
	uint64_t calls = 0;
	std::function<void()> dummy;
};
static DenseMap<const Function*, std::unique_ptr<FuncInfo>> FI;
static FuncInfo* info(Function* f) {
	auto& p = FI[f];
	if (!p) {
		p = std::make_unique<FuncInfo>(); p->f = f;
		for (auto& a : f->args()) p->slot[&a] = p->nslots++;
		for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->nslots++;
		p->pretty = llvm::demangle(f->getName().str());
	}
	return p.get();
}
static DenseMap<const GlobalValue*, uint64_t> GAddr;
static DenseMap<const GlobalValue*, uint32_t> GObj;
static std::unordered_map<uint64_t, Function*> FuncAt;
static std::map<std::pair<const Function*, const BasicBlock*>, uint64_t> BBAddr;
static std::unordered_map<uint64_t, BasicBlock*> BBAt;

// options
static double optTime = 600, optQuery = 20; static unsigned optMaxViol = 3; static uint64_t optMaxPaths = 1000000;
static std::map<string, uint64_t> params; static string harnessFn = "harness", outFile; static bool verbose = false;
static uint64_t optMem = 3500; static uint64_t optSeed = 1;

// statistics
static uint64_t nQueries = 0, nQSat = 0, nQUnsat = 0, nQUnknown = 0, nPaths = 0, nSteps = 0, nForks = 0, nAssertProved = 0, nAssertConc = 0, nBounds = 0, nFallback = 0;
static double solverTime = 0, t0;
static std::map<string, uint64_t> coverHits, incompletes, notes, proved, endedPaths;

struct ModelP {
	Z3_model m = nullptr;
	ModelP() = default;
	explicit ModelP(Z3_model x) : m(x) { if (m) Z3_model_inc_ref(C, m); }
	ModelP(const ModelP& o) : m(o.m) { if (m) Z3_model_inc_ref(C, m); }
	ModelP& operator=(const ModelP& o) { if (o.m) Z3_model_inc_ref(C, o.m); if (m) Z3_model_dec_ref(C, m); m = o.m; return *this; }
	~ModelP() { if (m) Z3_model_dec_ref(C, m); }
	explicit operator bool() const { return m; }
};

struct Exc { uint64_t ptr = 0; uint32_t prov = 0; string type; };
struct Frame {
	FuncInfo* fi; BasicBlock* bb; BasicBlock* prev = nullptr; BasicBlock::iterator it;
	vector<Val> regs; vector<uint32_t> allocas; vector<Val> va;
	bool ctorFrame = false;
	std::function<void(struct State&)> onRet;
};
struct Input { string name; unsigned n = 0; vector<std::pair<E, unsigned>> parts; E arr; Val size; int kind; };
struct State {
	vector<Frame> st;
	vector<shared_ptr<Obj>> objs;
	uint64_t nextAddr = 0x200000000000ULL;
	vector<E> pc; ModelP model;
	vector<shared_ptr<Input>> inputs; std::map<string, int> names;
	vector<Exc> exc; vector<Exc> caught; int unwinding = 0;
	uint64_t steps = 0, stepLimit = 0; string stepMsg;
	std::set<std::pair<uint64_t, uint64_t>> okBounds;
	vector<string> trail;
	bool dead = false;
};
static vector<std::unique_ptr<State>> work;
static int fpUsed = 0;

// ---------------------------------------------------------------- solver
static Z3_solver inc; static vector<E> incStack;
static int lbool(Z3_lbool r) { return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; }
static void setTimeout(Z3_solver s, unsigned ms) {
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
	Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
}
// collect free constants of a term (for independence slicing)
static std::unordered_map<unsigned, shared_ptr<std::set<unsigned>>> varCache; static vector<E> varKeep;
static shared_ptr<std::set<unsigned>> varsOf(const E& e) {
	auto it = varCache.find(e.id()); if (it != varCache.end()) return it->second;
	auto res = std::make_shared<std::set<unsigned>>();
	std::set<unsigned> seen; vector<Z3_ast> stk{e.a};
	while (!stk.empty()) {
		Z3_ast a = stk.back(); stk.pop_back();
		unsigned id = Z3_get_ast_id(C, a); if (!seen.insert(id).second) continue;
		if (Z3_get_ast_kind(C, a) != Z3_APP_AST) continue;
		Z3_app ap = Z3_to_app(C, a); unsigned n = Z3_get_app_num_args(C, ap);
		Z3_func_decl d = Z3_get_app_decl(C, ap);
		if (Z3_get_decl_kind(C, d) == Z3_OP_UNINTERPRETED) { res->insert(Z3_get_ast_id(C, Z3_func_decl_to_ast(C, d))); varKeep.emplace_back(Z3_func_decl_to_ast(C, d)); }
		for (unsigned i = 0; i < n; i++) stk.push_back(Z3_get_app_arg(C, ap, i));
	}
	varCache[e.id()] = res; varKeep.push_back(e);
	return res;
}
static vector<E> slice(const vector<E>& pc, const E& cond) {
	std::set<unsigned> vs = *varsOf(cond); vector<char> used(pc.size(), 0); bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
			auto v = varsOf(pc[i]); bool hit = false;
			for (auto x : *v) if (vs.count(x)) { hit = true; break; }
			if (hit) { used[i] = 1; ch = true; vs.insert(v->begin(), v->end()); }
		}
	}
	vector<E> r; for (size_t i = 0; i < pc.size(); i++) if (used[i]) r.push_back(pc[i]);
	return r;
}
// returns 1 sat, 0 unsat, -1 unknown. model filled on sat when wanted.
static int check(State& s, const E& cond0, ModelP* out, double maxT = -1) {
	E cond = simp(cond0);
	if (isF(cond)) return 0;
	if (maxT < 0) maxT = optQuery;
	nQueries++;
	double t = now();
	size_t cp = 0; while (cp < incStack.size() && cp < s.pc.size() && incStack[cp] == s.pc[cp]) cp++;
	if (cp < incStack.size()) { Z3_solver_pop(C, inc, incStack.size() - cp); incStack.resize(cp); }
	while (incStack.size() < s.pc.size()) { Z3_solver_push(C, inc); Z3_solver_assert(C, inc, s.pc[incStack.size()].a); incStack.push_back(s.pc[incStack.size()]); }
	int r = -1;
	bool useInc = !fpUsed;
	if (useInc) {
		Z3_solver_push(C, inc); Z3_solver_assert(C, inc, cond.a);
		r = lbool(Z3_solver_check(C, inc));
		if (r == 1 && out) { Z3_model m = Z3_solver_get_model(C, inc); if (m) *out = ModelP(m); }
		Z3_solver_pop(C, inc, 1);
	}
	if (r < 0) {
		nFallback++;
		static const char* tac[] = {"bv", "smt"};
		for (int k = 0; k < 2 && r < 0; k++) {
			Z3_solver f;
			if (k == 0) {
				if (fpUsed) f = Z3_mk_simple_solver(C); else f = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_AUFBV"));
			} else f = Z3_mk_solver(C);
			(void)tac;
			Z3_solver_inc_ref(C, f); setTimeout(f, (unsigned)(maxT * 1000 / (k == 0 ? 1 : 2)));
			vector<E> sl = slice(s.pc, cond);
			for (auto& c : sl) Z3_solver_assert(C, f, c.a);
			Z3_solver_assert(C, f, cond.a);
			r = lbool(Z3_solver_check(C, f));
			if (r == 1 && out) {
				if (sl.size() == s.pc.size()) { Z3_model m = Z3_solver_get_model(C, f); if (m) *out = ModelP(m); }
				else { // need a model of everything: assert the rest too
					for (auto& c : s.pc) Z3_solver_assert(C, f, c.a);
					int r2 = lbool(Z3_solver_check(C, f));
					if (r2 == 1) { Z3_model m = Z3_solver_get_model(C, f); if (m) *out = ModelP(m); }
					else if (r2 == 0) r = 0; else r = -1;
				}
			}
			Z3_solver_dec_ref(C, f);
		}
	}
	solverTime += now() - t;
	if (verbose && now() - t > (getenv("VSE_SLOW") ? atof(getenv("VSE_SLOW")) : 2)) fprintf(stderr, "slow query %.1fs -> %d  pc=%zu\n", now() - t, r, s.pc.size());
	if (r == 1) nQSat++; else if (r == 0) nQUnsat++; else nQUnknown++;
	return r;
}
static int evalBool(State& s, const E& c) { // under cached model: 1/0/-1
	if (!s.model) return -1;
	Z3_ast o; if (!Z3_model_eval(C, s.model.m, c.a, true, &o)) return -1;
	E e(o); if (isT(e)) return 1; if (isF(e)) return 0;
	return -1;
}
static bool evalBV(State& s, const E& c, APInt& v) {
	if (!s.model) { ModelP m; if (check(s, T(), &m) != 1) return false; s.model = m; }
	Z3_ast o; if (!Z3_model_eval(C, s.model.m, c.a, true, &o)) return false;
	E e(o); e = simp(e); return getNum(e, v);
}
static void addPC(State& s, const E& c) { if (!isT(c)) s.pc.push_back(c); }

struct PathEnd { };
[[noreturn]] static void endPath() { throw PathEnd(); }
static void incomplete(State& s, const string& why) { incompletes[why]++; (void)s; }

// ---------------------------------------------------------------- violations
static json::Array violations; static std::set<string> violKeys; static std::map<string, json::Value> knowns;
static string locOf(State& s) {
	string r;
	for (int i = (int)s.st.size() - 1, k = 0; i >= 0 && k < 4; i--, k++) {
		auto& f = s.st[i]; string l = f.fi->pretty; auto p = l.find('('); if (p != string::npos) l = l.substr(0, p);
		if (f.it != f.bb->end()) { if (auto& d = f.it->getDebugLoc()) l += ":" + std::to_string(d.getLine()); }
		r += (k ? " < " : "") + l;
	}
	return r;
}
static string hexOf(const APInt& v, unsigned bytes) { // little endian bytes hex
	string r; char b[3];
	APInt x = v.zextOrTrunc(bytes * 8);
	for (unsigned i = 0; i < bytes; i++) { snprintf(b, 3, "%02x", (unsigned)x.extractBitsAsZExtValue(8, i * 8)); r += b; }
	return r;
}
static APInt evalIn(ModelP& m, const E& e) {
	Z3_ast o; APInt v(isBoolE(e) ? 1 : widthE(e), 0);
	if (m && Z3_model_eval(C, m.m, e.a, true, &o)) { E r = simp(E(o)); if (isT(r)) return APInt(1, 1); getNum(r, v); }
	return v;
}
static void dumpArray(ModelP& m, const E& arr, json::Object& o) {
	json::Array ents; uint64_t def = 0;
	Z3_ast out;
	if (m && Z3_model_eval(C, m.m, arr.a, true, &out)) {
		E cur(out); std::set<uint64_t> seen; int guard = 0;
		while (guard++ < 200000) {
			auto k = dk(cur);
			if (k == Z3_OP_STORE) {
				APInt i(64, 0), v(8, 0); getNum(arg(cur, 1), i); getNum(arg(cur, 2), v);
				if (seen.insert(i.getZExtValue()).second) ents.push_back(json::Array{(int64_t)i.getZExtValue(), (int64_t)v.getZExtValue()});
				cur = arg(cur, 0);
			} else if (k == Z3_OP_CONST_ARRAY) { APInt v(8, 0); getNum(arg(cur, 0), v); def = v.getZExtValue(); break; }
			else if (k == Z3_OP_AS_ARRAY) {
				Z3_func_decl fd = Z3_get_as_array_func_decl(C, cur.a);
				Z3_func_interp fi = Z3_model_get_func_interp(C, m.m, fd);
				if (fi) {
					Z3_func_interp_inc_ref(C, fi);
					for (unsigned j = 0; j < Z3_func_interp_get_num_entries(C, fi); j++) {
						Z3_func_entry en = Z3_func_interp_get_entry(C, fi, j); Z3_func_entry_inc_ref(C, en);
						APInt i(64, 0), v(8, 0); getNum(E(Z3_func_entry_get_arg(C, en, 0)), i); getNum(E(Z3_func_entry_get_value(C, en)), v);
						if (seen.insert(i.getZExtValue()).second) ents.push_back(json::Array{(int64_t)i.getZExtValue(), (int64_t)v.getZExtValue()});
						Z3_func_entry_dec_ref(C, en);
					}
					APInt v(8, 0); E els(Z3_func_interp_get_else(C, fi)); if (els) getNum(els, v); def = v.getZExtValue();
					Z3_func_interp_dec_ref(C, fi);
				}
				break;
			} else break;
		}
	}
	o["default"] = (int64_t)def; o["entries"] = std::move(ents);
}
static json::Object replayOf(State& s, ModelP m, const string& kind, const string& msg) {
	json::Object v; v["kind"] = kind; v["msg"] = msg; v["where"] = locOf(s);
	json::Object ps; for (auto& p : params) ps[p.first] = (int64_t)p.second; v["params"] = std::move(ps);
	v["fn"] = harnessFn;
	json::Array ins;
	for (auto& i : s.inputs) {
		json::Object o; o["name"] = i->name;
		if (i->kind == 0) {
			string h; for (auto& p : i->parts) h += hexOf(evalIn(m, p.first), p.second);
			o["hex"] = h;
		} else { dumpArray(m, i->arr, o); o["size"] = (int64_t)(i->size.conc() ? i->size.u() : evalIn(m, i->size.e).getZExtValue()); }
		ins.push_back(std::move(o));
	}
	v["inputs"] = std::move(ins);
	json::Array tr; for (auto& t : s.trail) tr.push_back(t); v["trail"] = std::move(tr);
	return v;
}
static std::map<string,int> violCount;
static void violation(State& s, ModelP m, const string& kind, const string& msg) {
	string key = kind + "|" + msg + "|" + (s.st.empty() ? "" : s.st.back().fi->pretty);
	if (violCount[key]++ >= 2) return;
	if (!m) check(s, T(), &m);
	if (verbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), locOf(s).c_str());
	violations.push_back(replayOf(s, m, kind, msg));
}
// assertion: returns after constraining state to cond (or ends path)
static void require(State& s, const E& cond, const string& kind, const string& msg, bool cnt = true) {
	if (isT(cond)) { if (cnt) { nAssertConc++; proved[msg]++; } return; }
	ModelP m; int ev = evalBool(s, cond); int r;
	if (ev == 0) { r = 1; m = s.model; } else r = check(s, mkNot(cond), &m);
	if (r == 0) { if (cnt) { nAssertProved++; proved[msg]++; } else nBounds++; return; }
	if (r < 0) { incomplete(s, "solver unknown on: " + msg); addPC(s, cond); s.model = ModelP(); return; }
	violation(s, m, kind, msg);
	ModelP m2; int r2 = evalBool(s, cond) == 1 ? 1 : check(s, cond, &m2);
	if (r2 != 1) endPath();
	if (m2) s.model = m2;
	addPC(s, cond);
}
[[noreturn]] static void bug(State& s, const string& kind, const string& msg) { violation(s, s.model, kind, msg); endPath(); }

static std::unique_ptr<State> forkState(State& s) { nForks++; auto n = std::make_unique<State>(s); return n; }
// Decide a branch: returns chosen truth for current state, pushes the other side to the worklist.
// `prep` adjusts the forked state (which takes the opposite side), called with its truth value.
static bool branch(State& s, const E& c0, const std::function<void(State&, bool)>& prep) {
	E c = simp(c0);
	if (isT(c)) return true; if (isF(c)) return false;
	int ev = evalBool(s, c);
	ModelP mt, mf; int rt, rf;
	if (ev == 1) { rt = 1; mt = s.model; rf = check(s, mkNot(c), &mf); }
	else if (ev == 0) { rf = 1; mf = s.model; rt = check(s, c, &mt); }
	else { rt = check(s, c, &mt); rf = rt == 0 ? 1 : check(s, mkNot(c), &mf); }
	if (rt < 0) { incomplete(s, "solver unknown on branch"); rt = 0; }
	if (rf < 0) { incomplete(s, "solver unknown on branch"); rf = 0; }
	if (rt == 0 && rf == 0) endPath();
	if (rt && rf) {
		auto n = forkState(s);
		addPC(*n, mkNot(c)); n->model = mf; prep(*n, false); work.push_back(std::move(n));
		addPC(s, c); s.model = mt; return true;
	}
	if (rt) { if (mt) s.model = mt; return true; }
	if (mf) s.model = mf; return false;
}
// Fork so that the expression becomes concrete; each alternative re-executes the current instruction.
static std::map<string, uint64_t> concSites;
struct Restart { };
static APInt concretize(State& s, const E& e0, unsigned limit, const char* what) {
	E e = simp(e0); APInt v; if (getNum(e, v)) return v;
	// choose model value
	if (!evalBV(s, e, v)) { incomplete(s, string("cannot evaluate ") + what); endPath(); }
	E eq = mkEq(e, numAP(v));
	static std::unordered_map<unsigned, unsigned> forksPerExpr;
	ModelP mf; int rf = check(s, mkNot(eq), &mf);
	if (rf < 0) { incomplete(s, string("solver unknown while concretizing ") + what); rf = 0; }
	if (rf == 1) {
		unsigned& cnt = forksPerExpr[e.id()]; static vector<E> keep; keep.push_back(e);
		if (++cnt > limit * 64) { incomplete(s, string("too many values for ") + what + " @ " + locOf(s)); }
		else {
			auto n = forkState(s); addPC(*n, mkNot(eq)); n->model = mf; work.push_back(std::move(n));
		}
		addPC(s, eq);
	} // else implied: not needed in pc
	concSites[what]++;
	return v;
}

// ---------------------------------------------------------------- memory
static Obj* wobj(State& s, uint32_t id) { auto& p = s.objs[id]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static uint32_t newObj(State& s, const Val& size, uint8_t kind, const string& name, uint64_t align = 16, bool arrayMode = false) {
	auto o = std::make_shared<Obj>();
	o->id = s.objs.size(); o->size = size; o->kind = kind; o->name = name;
	uint64_t res = size.conc() ? size.u() : (1ULL << 40);
	if (align < 16) align = 16;
	s.nextAddr = (s.nextAddr + align - 1) & ~(align - 1);
	o->base = s.nextAddr; o->reserve = res;
	s.nextAddr += ((res + 4095) & ~4095ULL) + 4096;
	if (!arrayMode && size.conc()) { o->data.assign(size.u(), 0); o->st.assign(size.u(), 0); }
	s.objs.push_back(o);
	return o->id;
}
static Obj* findObj(State& s, uint64_t addr) {
	// ids ascend with base
	size_t lo = 1, hi = s.objs.size();
	while (lo < hi) { size_t mid = (lo + hi) / 2; if (s.objs[mid]->base <= addr) lo = mid + 1; else hi = mid; }
	if (lo <= 1) return nullptr;
	Obj* o = s.objs[lo - 1].get();
	if (addr <= o->base + o->reserve) return o;
	return nullptr;
}
static void ensureSx(Obj* o) { if (o->sx.empty()) o->sx.resize(o->data.size()); }
static E byteAt(const E& e, unsigned i) { return mkExtract(i * 8 + 7, i * 8, e); }
static uint64_t freshCnt = 0;
static E cellByte(Obj* o, uint64_t off) {
	if (o->st[off] == 1) return num(o->data[off], 8);
	if (o->st[off] == 0) {
		E e = freshBV("uninit", 8); ensureSx(o); o->sx[off] = {e, 0}; o->st[off] = 2; freshCnt++;
		return e;
	}
	auto& p = o->sx[off]; return byteAt(p.first, p.second);
}
static Val cellRead(State& s, uint32_t id, uint64_t off, unsigned n) {
	Obj* o = s.objs[id].get();
	bool allc = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { allc = false; break; }
	uint32_t prov = 0;
	if (n == 8 && !o->pv.empty()) { prov = o->pv[off]; for (unsigned i = 1; i < 8; i++) if (o->pv[off + i] != prov) { prov = 0; break; } }
	if (allc) {
		if (n <= 8) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return Val::C64(v, n * 8).withProv(prov); }
		APInt v(n * 8, 0); for (unsigned i = 0; i < n; i++) v.insertBits(o->data[off + i], i * 8, 8);
		return Val::CA(v);
	}
	for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 0) { o = wobj(s, id); break; }
	// whole-expression fast path
	if (o->st[off] == 2) {
		auto& p = o->sx[off];
		if (p.second == 0 && widthE(p.first) == n * 8) {
			bool ok = true;
			for (unsigned i = 1; i < n; i++) if (o->st[off + i] != 2 || !(o->sx[off + i].first == p.first) || o->sx[off + i].second != i) { ok = false; break; }
			if (ok) return Val::S(p.first).withProv(prov);
		}
	}
	if (o->st[off] == 0) { // uninitialised run: one fresh word
		bool all0 = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 0) { all0 = false; break; }
		if (all0 && n > 1) {
			E e = freshBV("uninit", n * 8); ensureSx(o); freshCnt++;
			for (unsigned i = 0; i < n; i++) { o->sx[off + i] = {e, (uint8_t)i}; o->st[off + i] = 2; }
			return Val::S(e);
		}
	}
	E r = cellByte(o, off + n - 1);
	for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, cellByte(o, off + i));
	return Val::S(r).withProv(prov);
}
static void cellWrite(State& s, uint32_t id, uint64_t off, const Val& v, unsigned n) {
	Obj* o = wobj(s, id);
	if (v.prov && n == 8) { if (o->pv.empty()) o->pv.assign(o->data.size(), 0); }
	if (!o->pv.empty()) for (unsigned i = 0; i < n; i++) o->pv[off + i] = n == 8 ? v.prov : 0;
	if (v.conc()) {
		if (n <= 8) { uint64_t x = v.c.getZExtValue(); memcpy(&o->data[off], &x, n); }
		else for (unsigned i = 0; i < n; i++) o->data[off + i] = v.c.extractBitsAsZExtValue(8, i * 8);
		memset(&o->st[off], 1, n);
		if (!o->sx.empty()) for (unsigned i = 0; i < n; i++) o->sx[off + i] = {};
	} else {
		ensureSx(o);
		for (unsigned i = 0; i < n; i++) { o->sx[off + i] = {v.e, (uint8_t)i}; o->st[off + i] = 2; }
	}
}
static Val vAdd(const Val& a, const Val& b) {
	uint32_t p = a.prov ? (b.prov ? 0 : a.prov) : b.prov;
	if (a.conc() && b.conc()) return Val::CA(a.c + b.c).withProv(p);
	return Val::S(mkAdd(a.toE(), b.toE())).withProv(p);
}
static Val vSub(const Val& a, const Val& b) {
	uint32_t p = b.prov ? 0 : a.prov;
	if (a.conc() && b.conc()) return Val::CA(a.c - b.c).withProv(p);
	return Val::S(mkSub(a.toE(), b.toE())).withProv(p);
}
static Val vIte(const E& c, const Val& a, const Val& b) {
	if (isT(c)) return a; if (isF(c)) return b;
	if (a.k == Val::Agg) {
		vector<Val> r; for (size_t i = 0; i < a.agg->size(); i++) r.push_back(vIte(c, (*a.agg)[i], (*b.agg)[i]));
		return Val::A(std::move(r));
	}
	if (a.k == Val::None) return b; if (b.k == Val::None) return a;
	if (a.conc() && b.conc() && a.c == b.c) return a.withProv(a.prov == b.prov ? a.prov : 0);
	return Val::S(mkIte(c, a.toE(), b.toE())).withProv(a.prov == b.prov ? a.prov : (a.prov ? (b.prov ? 0 : a.prov) : b.prov));
}
// candidate offsets of a symbolic expression from known bits
static bool candidates(const E& off, vector<uint64_t>& out, unsigned maxBits, uint64_t limit) {
	KnownBits k = known(off);
	APInt unk = ~(k.Zero | k.One); unsigned nb = unk.popcount();
	if (nb > maxBits) return false;
	vector<unsigned> bits; for (unsigned i = 0; i < unk.getBitWidth(); i++) if (unk[i]) bits.push_back(i);
	for (uint64_t m = 0; m < (1ULL << nb); m++) {
		uint64_t v = k.One.getZExtValue(); for (unsigned i = 0; i < nb; i++) if (m >> i & 1) v |= 1ULL << bits[i];
		if (v <= limit) out.push_back(v);
	}
	return true;
}
static Val updRead(State& s, const UpdP& head, const Val& idx, unsigned n);
static Val cellsReadSym(State& s, const shared_ptr<Obj>& o, const Val& idx); // single byte from snapshot
static Val mux(const E& off, const vector<uint64_t>& cand, const vector<Val>& vals) {
	// ite chain keyed on equality; the last is the default
	Val r = vals.back();
	for (int i = (int)cand.size() - 2; i >= 0; i--) r = vIte(mkEq(off, num(cand[i], 64)), vals[i], r);
	return r;
}
static Val muxTree(const E& off, const vector<uint64_t>& cand, const vector<Val>& vals, size_t lo, size_t hi, int bit) {
	if (hi - lo == 1) return vals[lo];
	while (bit >= 0) { // cand sorted ascending: find split on this bit
		if (((cand[lo] ^ cand[hi - 1]) >> bit) & 1) break; bit--;
	}
	size_t mid = lo; while (mid < hi && !((cand[mid] >> bit) & 1)) mid++;
	Val a = muxTree(off, cand, vals, mid, hi, bit - 1), b = muxTree(off, cand, vals, lo, mid, bit - 1);
	return vIte(mkEq(mkExtract(bit, bit, off), num(1, 1)), a, b);
}
static Val symIndexRead(const E& off, vector<uint64_t>& cand, vector<Val>& vals) {
	std::sort(cand.begin(), cand.end());
	return muxTree(off, cand, vals, 0, cand.size(), 63);
}
static Val cellsReadSym(State& s, const shared_ptr<Obj>& o, const Val& idx) {
	if (idx.conc()) {
		if (idx.u() >= o->data.size()) return Val::S(freshBV("oob", 8));
		return Val::S(cellByte(o.get(), idx.u()));
	}
	vector<uint64_t> cand; vector<Val> vals;
	uint64_t sz = o->data.size();
	if (sz <= 512) { // mux over everything feasible by known bits
		KnownBits k = known(idx.e);
		for (uint64_t i = 0; i < sz; i++) if ((i & k.Zero.getZExtValue()) == 0 && (~i & k.One.getZExtValue()) == 0) cand.push_back(i);
	} else if (!candidates(idx.e, cand, 10, sz - 1)) {
		// real SMT array holding the snapshot
		static std::map<Obj*, E> cache; static vector<shared_ptr<Obj>> keep;
		auto it = cache.find(o.get());
		if (it == cache.end()) {
			Z3_sort as = Z3_mk_array_sort(C, bvS(64), bvS(8)); (void)as;
			E a(Z3_mk_const_array(C, bvS(64), num(0, 8).a));
			for (uint64_t i = 0; i < sz; i++) { E b = cellByte(o.get(), i); APInt z; if (getNum(b, z) && z.isZero()) continue; a = X(Z3_mk_store(C, a.a, num(i, 64).a, b.a)); }
			it = cache.emplace(o.get(), a).first; keep.push_back(o);
		}
		return Val::S(X(Z3_mk_select(C, it->second.a, idx.e.a)));
	}
	if (cand.empty()) return Val::S(freshBV("oob", 8));
	for (auto c : cand) vals.push_back(Val::S(cellByte(o.get(), c)));
	return symIndexRead(idx.e, cand, vals);
}
static E toIdx(const Val& v) { return v.toE(); }
static std::unordered_map<uint64_t, E> diffCache; static vector<E> diffKeep;
static Val diff(const Val& a, const Val& b) {
	Val d = vSub(a, b); if (d.conc()) return d;
	auto it = diffCache.find(d.e.id()); if (it != diffCache.end()) return Val::S(it->second);
	E sm = simp(d.e); diffCache[d.e.id()] = sm; diffKeep.push_back(d.e);
	return Val::S(sm);
}
static Val updReadByte(State& s, const Upd* u, const Val& idx, int depth = 0) {
	// iterative gather of conditions, then fold
	vector<std::pair<E, Val>> conds; Val base; 
	while (true) {
		if (u->k == Upd::BaseArr) { base = Val::S(X(Z3_mk_select(C, u->arr.a, idx.toE().a))); break; }
		if (u->k == Upd::BaseConst) { base = u->v; break; }
		if (u->k == Upd::BaseCells) { base = cellsReadSym(s, u->cells, idx); break; }
		Val d = diff(idx, u->idx);
		E in = mkUlt(d.toE(), u->n.toE());
		if (isF(in)) { u = u->prev.get(); continue; }
		in = simp(in);
		if (isF(in)) { u = u->prev.get(); continue; }
		Val v;
		if (u->k == Upd::Store) {
			unsigned n = u->n.u();
			if (n == 1) v = u->v;
			else if (d.conc()) v = Val::S(byteAt(u->v.toE(), d.u()));
			else {
				vector<uint64_t> cand; vector<Val> vals; KnownBits k = known(d.e);
				for (uint64_t i = 0; i < n; i++) if ((i & k.Zero.getZExtValue()) == 0 && (~i & k.One.getZExtValue() & ((1ULL<<63)-1)) == 0) { cand.push_back(i); vals.push_back(Val::S(byteAt(u->v.toE(), i))); }
				if (cand.empty()) { u = u->prev.get(); continue; }
				v = symIndexRead(d.e, cand, vals);
			}
		} else if (u->k == Upd::Set) v = u->v;
		else v = updReadByte(s, u->src.get(), vAdd(u->srcOff, d), depth + 1);
		if (isT(in)) { base = v; break; }
		conds.push_back({in, v});
		u = u->prev.get();
	}
	for (int i = (int)conds.size() - 1; i >= 0; i--) base = vIte(conds[i].first, conds[i].second, base);
	return base;
}
static Val updRead(State& s, const UpdP& head, const Val& idx, unsigned n) {
	// fast path: whole word from one update / skip disjoint ones
	const Upd* u = head.get();
	while (u->k == Upd::Store || u->k == Upd::Set) {
		Val d = diff(idx, u->idx);
		if (!d.conc() || !u->n.conc()) break;
		uint64_t dd = d.u(), un = u->n.u();
		if (u->k == Upd::Store && dd + n <= un && dd < un) return Val::S(mkExtract((dd + n) * 8 - 1, dd * 8, u->v.toE())).withProv(dd == 0 && n == 8 && un == 8 ? u->v.prov : 0);
		if (dd >= un && dd + n - 1 >= dd && (uint64_t)(-dd) >= n) { u = u->prev.get(); continue; }
		break;
	}
	if (u->k == Upd::BaseCells && idx.conc() && idx.u() + n <= u->cells->data.size()) {
		shared_ptr<Obj> o = u->cells; uint32_t prov = 0;
		if (n == 8 && !o->pv.empty()) { prov = o->pv[idx.u()]; for (unsigned i = 1; i < 8; i++) if (o->pv[idx.u() + i] != prov) { prov = 0; break; } }
		E r = cellByte(o.get(), idx.u() + n - 1);
		for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, cellByte(o.get(), idx.u() + i));
		return Val::S(r).withProv(prov);
	}
	E r; 
	for (int i = (int)n - 1; i >= 0; i--) { Val b = updReadByte(s, u, vAdd(idx, Val::C64(i))); r = r ? mkConcat(r, b.toE()) : b.toE(); }
	return Val::S(r);
}
static UpdP mkUpd(Upd::K k, UpdP prev) { auto u = std::make_shared<Upd>(); u->k = k; u->prev = prev; return u; }
static UpdP snapshot(State& s, uint32_t id) { // content of object as update chain
	auto& o = s.objs[id];
	if (o->arr()) return o->head;
	auto u = mkUpd(Upd::BaseCells, nullptr); u->cells = std::make_shared<Obj>(*o);
	// materialise uninit bytes once so that snapshot and object agree
	return u;
}
static void toArray(State& s, uint32_t id) {
	if (s.objs[id]->arr()) return;
	Obj* o = wobj(s, id);
	for (uint64_t i = 0; i < o->data.size(); i++) if (o->st[i] == 0) cellByte(o, i);
	UpdP u = snapshot(s, id);
	o->head = u; o->data.clear(); o->st.clear(); o->sx.clear(); o->pv.clear();
}

// resolve pointer to (object id, offset); performs bounds check for n bytes.
struct Loc { uint32_t id; Val off; };
static string describe(State& s, Obj* o) { return (o->name.empty() ? "object" : o->name) + (o->size.conc() ? "(" + std::to_string(o->size.u()) + " bytes)" : ""); }
static Loc resolve(State& s, const Val& p, const Val& n, const char* what) {
	Obj* o = nullptr;
	if (p.k == Val::None) bug(s, "memory", "undefined pointer in " + string(what));
	if (p.prov && p.prov < s.objs.size()) o = s.objs[p.prov].get();
	if (p.conc()) {
		if (o) {
			uint64_t off = p.u() - o->base;
			if (!(o->size.conc() && n.conc() && off <= o->size.u() && n.u() <= o->size.u() - off)) {
				if (o->size.conc() && n.conc()) {
					Obj* o2 = findObj(s, p.u());
					if (o2 && o2 != o && !o2->freed && o2->size.conc() && p.u() - o2->base + n.u() <= o2->size.u() && p.u() >= o2->base) {
						notes["pointer left its object but landed in another live one"]++; o = o2;
					}
				}
			}
		} else o = findObj(s, p.u());
		if (!o) {
			if (n.conc() && n.u() == 0) return {0, p};
			char b[64]; snprintf(b, 64, "%s of %s address 0x%llx", what, p.u() < 4096 ? "null-page" : "unmapped", (unsigned long long)p.u());
			bug(s, "memory", b);
		}
	} else if (!o) {
		APInt v;
		if (!evalBV(s, p.e, v)) { incomplete(s, "cannot evaluate symbolic pointer"); endPath(); }
		o = findObj(s, v.getZExtValue());
		if (!o) { bug(s, "memory", string(what) + " through wild pointer"); }
		// constrain to this object, fork the rest
		E in = mkUlt(mkSub(p.e, num(o->base, 64)), num(o->reserve + 1, 64));
		bool b = branch(s, in, [](State&, bool) {});
		if (!b) throw Restart(); // re-resolve under the other assumption
	}
	Val off = vSub(Val(p).withProv(0), Val::C64(o->base));
	if (o->freed) { if (n.conc() && n.u() == 0) return {o->id, off}; bug(s, "memory", string(what) + " of freed " + describe(s, o)); }
	// bounds
	if (off.conc() && o->size.conc() && n.conc()) {
		if (!(off.u() <= o->size.u() && n.u() <= o->size.u() - off.u()))
			bug(s, "memory", string(what) + " out of bounds of " + describe(s, o));
	} else {
		bool ok = false;
		if (off.sym() && o->size.conc() && n.conc()) {
			APInt mx = known(off.e).getMaxValue();
			if (mx.getActiveBits() <= 63 && n.u() <= o->size.u() && mx.getZExtValue() <= o->size.u() - n.u()) ok = true;
		}
		if (!ok) {
			std::pair<uint64_t, uint64_t> key{((uint64_t)o->id << 32) | (off.sym() ? off.e.id() : 0xffffffff), n.conc() ? n.u() : (1ULL << 63) | n.e.id()};
			if (off.conc() || !s.okBounds.count(key)) {
				E sz = o->size.toE(), of = off.toE(), ne = n.toE();
				E cond = mkAnd(mkUle(of, sz), mkUle(ne, mkSub(sz, of)));
				cond = mkOr(cond, mkEq(ne, num(0, 64)));
				static vector<E> keep; if (off.sym()) keep.push_back(off.e); if (n.sym()) keep.push_back(n.e);
				require(s, cond, "memory", string(what) + " out of bounds of " + describe(s, o), false);
				if (off.sym()) s.okBounds.insert(key);
			}
		}
	}
	return {o->id, off};
}
// a symbolic offset as constant + varying part; candidates of the varying part
static E splitBase(const E& off, uint64_t& base) {
	APInt c; base = 0;
	if (dk(off) == Z3_OP_BADD && nargs(off) == 2 && getNum(arg(off, 0), c) && c.getBitWidth() == 64) { base = c.getZExtValue(); return arg(off, 1); }
	return off;
}
static bool relCandidates(const E& key, uint64_t base, vector<uint64_t>& out, unsigned maxBits, uint64_t limit) {
	vector<uint64_t> all; if (!candidates(key, all, maxBits, ~0ULL)) return false;
	for (auto c : all) if (base + c <= limit) out.push_back(c);
	return !out.empty();
}
// the content of a cell when cond holds (a previous store through the same symbolic index is forwarded)
static Val cellReadUnder(State& s, uint32_t id, uint64_t off, unsigned n, const E& cond) {
	Obj* o = s.objs[id].get(); bool any = false;
	for (unsigned i = 0; i < n; i++) if (o->st[off + i] == 2 && dk(o->sx[off + i].first) == Z3_OP_ITE && arg(o->sx[off + i].first, 0) == cond) { any = true; break; }
	if (!any) return cellRead(s, id, off, n);
	E r; uint32_t prov = 0;
	if (n == 8 && !o->pv.empty()) { prov = o->pv[off]; for (unsigned i = 1; i < 8; i++) if (o->pv[off + i] != prov) { prov = 0; break; } }
	for (int i = (int)n - 1; i >= 0; i--) {
		E b; if (o->st[off + i] == 2 && dk(o->sx[off + i].first) == Z3_OP_ITE && arg(o->sx[off + i].first, 0) == cond) b = byteAt(arg(o->sx[off + i].first, 1), o->sx[off + i].second); else { b = cellByte(wobj(s, id), off + i); o = s.objs[id].get(); }
		r = r ? mkConcat(r, b) : b;
	}
	APInt v; if (getNum(r, v)) return Val::CA(v).withProv(prov);
	return Val::S(r).withProv(prov);
}
static Val offsetRead(State& s, uint32_t id, const Val& off, unsigned n) {
	auto& o = s.objs[id];
	if (o->arr()) return updRead(s, o->head, off, n);
	if (!o->size.conc()) { // symbolic size, not yet array
		Obj* w = wobj(s, id); auto u = mkUpd(Upd::BaseArr, nullptr);
		u->arr = X(Z3_mk_fresh_const(C, "uninitarr", Z3_mk_array_sort(C, bvS(64), bvS(8)))); w->head = u;
		return updRead(s, w->head, off, n);
	}
	if (off.conc()) return cellRead(s, id, off.u(), n);
	vector<uint64_t> cand; uint64_t base; E key = splitBase(off.e, base);
	if (relCandidates(key, base, cand, 10, o->size.u() - n)) {
		vector<Val> vals; for (auto c : cand) vals.push_back(cellReadUnder(s, id, base + c, n, mkEq(key, num(c, 64))));
		return symIndexRead(key, cand, vals);
	}
	if (s.objs[id]->size.u() <= 4096 && n >= 2) {
		// table lookups with a scaled index: try the stride given by low zero bits
		KnownBits k = known(off.e); unsigned tz = k.countMinTrailingZeros(); uint64_t stride = 1ULL << std::min(tz, 12u);
		uint64_t cnt = (s.objs[id]->size.u() + stride - 1) / stride;
		if (cnt <= 1024 && k.One.isZero()) {
			vector<Val> vals; cand.clear();
			for (uint64_t c = 0; c + n <= s.objs[id]->size.u(); c += stride) { cand.push_back(c); vals.push_back(cellRead(s, id, c, n)); }
			return symIndexRead(off.e, cand, vals);
		}
	}
	if (s.objs[id]->readonly) {
		auto u = mkUpd(Upd::BaseCells, nullptr); u->cells = s.objs[id];
		return updRead(s, u, off, n);
	}
	toArray(s, id);
	return updRead(s, s.objs[id]->head, off, n);
}
static void offsetWrite(State& s, uint32_t id, const Val& off, const Val& v, unsigned n) {
	if (s.objs[id]->readonly) bug(s, "memory", "write to constant object " + s.objs[id]->name);
	if (!s.objs[id]->arr() && !s.objs[id]->size.conc()) offsetRead(s, id, Val::C64(0), 1);
	if (!s.objs[id]->arr()) {
		if (off.conc()) { cellWrite(s, id, off.u(), v, n); return; }
		vector<uint64_t> cand; uint64_t base; E key = splitBase(off.e, base);
		if (relCandidates(key, base, cand, 8, s.objs[id]->size.u() - n)) {
			KnownBits k = known(key); bool overlap = k.countMinTrailingZeros() < Log2_32_Ceil(n);
			if (!overlap) {
				for (auto c : cand) cellWrite(s, id, base + c, vIte(mkEq(key, num(c, 64)), v, cellRead(s, id, base + c, n)), n);
				return;
			}
		}
		toArray(s, id);
	}
	Obj* o = wobj(s, id);
	auto u = mkUpd(Upd::Store, o->head); u->idx = off; u->n = Val::C64(n); u->v = v; o->head = u;
}
static Val memRead(State& s, const Val& p, unsigned n, const char* what = "read") { Loc l = resolve(s, p, Val::C64(n), what); return offsetRead(s, l.id, l.off, n); }
static void memWrite(State& s, const Val& p, const Val& v, unsigned n, const char* what = "write") { Loc l = resolve(s, p, Val::C64(n), what); offsetWrite(s, l.id, l.off, v, n); }

static bool implied(State& s, const E& c) { if (isT(c)) return true; if (isF(c)) return false; if (evalBool(s, c) == 0) return false; return check(s, mkNot(c), nullptr) == 0; }
static void memCopy(State& s, const Val& d, const Val& sp, const Val& n, bool) {
	if (n.conc() && n.u() == 0) return;
	Loc ls = resolve(s, sp, n, "memcpy read"), ld = resolve(s, d, n, "memcpy write");
	if (s.objs[ld.id]->readonly && n.conc()) bug(s, "memory", "write to constant object");
	bool cc = !s.objs[ls.id]->arr() && !s.objs[ld.id]->arr() && ls.off.conc() && ld.off.conc() && s.objs[ls.id]->size.conc() && s.objs[ld.id]->size.conc();
	if (n.conc() && cc) {
		Obj* o = wobj(s, ld.id); Obj* q = s.objs[ls.id].get(); uint64_t N = n.u(), a = ld.off.u(), b = ls.off.u();
		bool needSx = !q->sx.empty() || !o->sx.empty(), needPv = !q->pv.empty() || !o->pv.empty();
		if (needSx) ensureSx(o); if (needPv && o->pv.empty()) o->pv.assign(o->data.size(), 0);
		if (needSx && q->sx.empty()) { q = wobj(s, ls.id); ensureSx(q); o = s.objs[ld.id].get(); }
		auto mv = [&](uint64_t i) {
			o->data[a + i] = q->data[b + i]; o->st[a + i] = q->st[b + i];
			if (needSx) o->sx[a + i] = q->sx[b + i]; if (needPv) o->pv[a + i] = q->pv.empty() ? 0 : q->pv[b + i];
		};
		if (o == q && a > b) for (uint64_t i = N; i-- > 0;) mv(i); else for (uint64_t i = 0; i < N; i++) mv(i);
		return;
	}
	if (n.conc() && n.u() <= 64) {
		unsigned N = n.u(); vector<std::pair<unsigned, Val>> parts; unsigned i = 0;
		while (i < N) { unsigned k = N - i >= 8 ? 8 : N - i >= 4 ? 4 : N - i >= 2 ? 2 : 1; parts.push_back({i, offsetRead(s, ls.id, vAdd(ls.off, Val::C64(i)), k)}); i += k; }
		for (auto& p : parts) offsetWrite(s, ld.id, vAdd(ld.off, Val::C64(p.first)), p.second, p.second.w() / 8);
		return;
	}
	if (!s.objs[ls.id]->arr()) { if (!s.objs[ls.id]->size.conc()) offsetRead(s, ls.id, Val::C64(0), 1); }
	if (!s.objs[ls.id]->arr()) { Obj* q = wobj(s, ls.id); for (uint64_t i = 0; i < q->data.size(); i++) if (q->st[i] == 0) cellByte(q, i); }
	UpdP src = snapshot(s, ls.id);
	if (!s.objs[ld.id]->arr()) { if (!s.objs[ld.id]->size.conc()) offsetRead(s, ld.id, Val::C64(0), 1); }
	toArray(s, ld.id);
	Obj* o = wobj(s, ld.id);
	auto u = mkUpd(Upd::Copy, o->head); u->idx = ld.off; u->n = n; u->src = src; u->srcOff = ls.off; o->head = u;
}
static void memSet(State& s, const Val& d, const Val& v, const Val& n) {
	if (n.conc() && n.u() == 0) return;
	Loc ld = resolve(s, d, n, "memset write");
	if (n.conc() && !s.objs[ld.id]->arr() && ld.off.conc() && s.objs[ld.id]->size.conc()) {
		Obj* o = wobj(s, ld.id); uint64_t a = ld.off.u(), N = n.u();
		if (v.conc()) {
			memset(&o->data[a], (int)v.u(), N); memset(&o->st[a], 1, N);
			if (!o->sx.empty()) for (uint64_t i = 0; i < N; i++) o->sx[a + i] = {};
		} else { ensureSx(o); for (uint64_t i = 0; i < N; i++) { o->st[a + i] = 2; o->sx[a + i] = {v.e, 0}; } }
		if (!o->pv.empty()) for (uint64_t i = 0; i < N; i++) o->pv[a + i] = 0;
		return;
	}
	if (!s.objs[ld.id]->arr() && !s.objs[ld.id]->size.conc()) offsetRead(s, ld.id, Val::C64(0), 1);
	if (n.conc() && n.u() <= 64) {
		for (unsigned i = 0; i < n.u();) { unsigned k = n.u() - i >= 8 ? 8 : 1; 
			Val w = v; if (k == 8) { E b = v.toE(); E r = b; for (int j = 0; j < 7; j++) r = mkConcat(r, b); w = Val::S(r); }
			offsetWrite(s, ld.id, vAdd(ld.off, Val::C64(i)), w, k); i += k; }
		return;
	}
	toArray(s, ld.id);
	Obj* o = wobj(s, ld.id); auto u = mkUpd(Upd::Set, o->head); u->idx = ld.off; u->n = n; u->v = v; o->head = u;
}
#include "exec.hpp"
