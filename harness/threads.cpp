// P22 signals, P23 guest threads, P24 futexes: one system call from any state of the scheduler.
#include "common.hpp"
#include <libloong/posix/threads.hpp>
#include <libloong/posix/signals.hpp>
static constexpr uint64_t SZ = 1 << 20, LOW = 0x4000; enum { GONE, CUR, READY, BLOCKED }; static constexpr unsigned MAXN = 5;
static unsigned wq, wv; // the watched register and vector byte
struct Dig { uint64_t pc, g; uint8_t v; uint32_t fcsr; uint8_t fcc; };
static Dig dig(const Registers& r) { return { r.pc, r.m_regs[wq], ((const uint8_t*)&r.m_vr)[wv], r.m_fcsr.whole, r.m_fcc }; }
static bool eq(const Dig& a, const Dig& b) { return (a.pc == b.pc) & (a.g == b.g) & (a.v == b.v) & (a.fcsr == b.fcsr) & (a.fcc == b.fcc); }
struct T { Thread* t; int st; Dig d; uint64_t a0, word, clr; uint32_t ex; };
struct S { Machine* m; unsigned gap; unsigned tid(unsigned i) const { return i + (i >= gap); } /* a thread that has already left */ unsigned n, cur, nr, nb; T t[MAXN]; unsigned ready[MAXN], blk[MAXN]; Registers old; uint64_t k; uint8_t kb; uint8_t* ram; };
static uint64_t A(S& s, unsigned i) { return s.old.m_regs[4 + i]; }
static void insert(unsigned* l, unsigned& n, unsigned v) { unsigned p = n ? (unsigned)__vs_concretize(sym8("position") % (n + 1)) : 0; for (unsigned i = n; i > p; i--) l[i] = l[i - 1]; l[p] = v; n++; }
static void setup(S& s) {
	s.n = (unsigned)__vs_param("n", 3); MachineOptions o = plain_options(); s.m = new Machine(std::string_view{}, o); s.m->memory.allocate_custom_arena(SZ, LOW, LOW); s.ram = arena(*s.m); __vs_havoc(s.ram, SZ, "ram"); s.m->cpu.reg(REG_SP) = 0x80000; s.m->setup_linux_syscalls(); s.m->setup_posix_threads(); MultiThreading& mt = s.m->threads();
	wq = sym8("reg"); ASSUME((wq < 32) & (wq != 4)); wv = sym<uint16_t>("vreg"); ASSUME(wv < 1024); s.k = sym64("watched"); ASSUME(s.k < SZ);
	s.gap = (unsigned)__vs_param("gap", ~0u); for (unsigned i = 1; i < s.n + (s.gap <= s.n); i++) { Thread* t = mt.create(0, 0, 0, 0x1000 * i, 0, 0, 0); ASSERT(t->tid == (int)i, "P23: a new thread's number"); } if (s.gap <= s.n) mt.erase_thread((int)s.gap);
	s.cur = (unsigned)__vs_concretize(s.n > 1 ? sym8("current") % s.n : 0); s.nr = s.nb = 0; mt.m_suspended.clear(); mt.m_blocked.clear();
	for (unsigned i = 0; i < s.n; i++) { T& t = s.t[i]; t.t = mt.get_thread((int)s.tid(i)); ASSERT(t.t != nullptr, "P23: a new thread cannot be found"); __vs_havoc(&t.t->stored_regs.m_regs, 256, "gpr"); __vs_havoc(&t.t->stored_regs.m_vr, 1024, "vr"); t.t->stored_regs.m_regs[0] = 0; t.t->stored_regs.pc = sym64("pc"); t.t->stored_regs.m_fcsr.whole = sym32("fcsr"); t.t->stored_regs.m_fcc = sym8("fcc");
		t.word = t.t->block_word = sym64("word"); ASSUME(t.word < SZ); t.ex = t.t->block_extra = sym32("mask"); ASSUME(t.ex != 0); t.clr = t.t->clear_tid = sym64("clear_tid");
		t.d = dig(t.t->stored_regs); t.a0 = t.t->stored_regs.m_regs[4]; if (i == s.cur) { t.st = CUR; mt.m_current = t.t; } else if (__vs_concretize(symbool("blocked"))) { t.st = BLOCKED; insert(s.blk, s.nb, i); } else { t.st = READY; insert(s.ready, s.nr, i); } }
	for (unsigned i = 0; i < s.nr; i++) mt.m_suspended.push_back(s.t[s.ready[i]].t); for (unsigned i = 0; i < s.nb; i++) mt.m_blocked.push_back(s.t[s.blk[i]].t);
	Registers& r = s.m->cpu.registers(); __vs_havoc(&r.m_regs, 256, "cpu gpr"); __vs_havoc(&r.m_vr, 1024, "cpu vr"); r.m_regs[0] = 0; r.pc = sym64("cpu pc"); r.m_fcsr.whole = sym32("cpu fcsr"); r.m_fcc = sym8("cpu fcc"); }
static int call(S& s, unsigned nr) { s.old = s.m->cpu.registers(); s.kb = s.ram[s.k]; s.m->set_max_instructions(1000); return guarded([&] { s.m->system_call(nr); }); }
static bool stopped(S& s) { return s.m->max_instructions() == 0; }
// every live thread is in exactly one state; none changed but by being switched; returns the current one
struct R { int st[MAXN]; unsigned cur; };
static R look(S& s, unsigned extra = 0, unsigned gone = ~0u) { MultiThreading& mt = s.m->threads(); R r; unsigned n = s.n + extra, seen = 0; r.cur = ~0u; ASSERT(mt.m_threads.size() == n - (gone != ~0u), "P23: wrong number of threads");
	for (unsigned i = 0; i < n; i++) { Thread* t = i < s.n ? mt.get_thread((int)s.tid(i)) : mt.m_current; r.st[i] = GONE; if (i == gone) { ASSERT(t == nullptr, "P23: an exited thread is still there"); continue; } ASSERT(t != nullptr, "P23: a thread disappeared"); if (i >= s.n) { for (unsigned j = 0; j < s.n; j++) ASSERT((t != s.t[j].t) & (t->tid != (int)s.tid(j)), "P23: the new thread is not a new one"); s.t[i].t = t; } unsigned c = 0; if (mt.m_current == t) { c++; r.st[i] = CUR; r.cur = i; } for (Thread* x : mt.m_suspended) if (x == t) { c++; r.st[i] = READY; } for (Thread* x : mt.m_blocked) if (x == t) { c++; r.st[i] = BLOCKED; } ASSERT(c == 1, "P23: a thread is in no state, or in two"); seen++; }
	ASSERT(mt.m_suspended.size() + mt.m_blocked.size() + 1 == seen, "P23: a list holds a thread that does not exist"); ASSERT(r.cur != ~0u, "P23: no thread is current");
	for (unsigned i = 0; i < s.n; i++) if (i != gone) { T& t = s.t[i]; if (r.st[i] == BLOCKED && t.st == BLOCKED) ASSERT((t.t->block_word == t.word) & (t.t->block_extra == t.ex), "P24: what a thread waits for changed");
		if (t.st == CUR) ASSERT(eq(dig(r.cur == i ? s.m->cpu.registers() : t.t->stored_regs), dig(s.old)), r.cur == i ? "P23: the calling thread's registers changed" : "P23: a thread switched out loses registers");
		else if (r.cur == i) ASSERT(eq(dig(s.m->cpu.registers()), t.d) & (s.m->cpu.reg(4) == t.a0), "P23: a thread resumes with other registers than it had"); else ASSERT(eq(dig(t.t->stored_regs), t.d) & (t.t->stored_regs.m_regs[4] == t.a0), "P23: a waiting thread's registers changed"); }
	return r; }
static uint64_t result(S& s, R& r, unsigned i) { return r.cur == i ? s.m->cpu.reg(4) : s.t[i].t->stored_regs.m_regs[4]; }
// blocked threads stay blocked, but for the main one when nobody else can run
static void still_blocked(S& s, R& r, bool but_main) { for (unsigned i = 0; i < s.n; i++) if (s.t[i].st == BLOCKED) ASSERT(r.st[i] == BLOCKED || (but_main && i == 0 && r.st[i] == CUR), "P24: a blocked thread resumed without being woken"); }
static void memory_same(S& s) { ASSERT(s.ram[s.k] == s.kb, "P23: memory changed"); }
static void still_ready(S& s, R& r) { for (unsigned i = 0; i < s.nr; i++) ASSERT(r.st[s.ready[i]] == (s.nr && i == 0 && r.cur != s.cur ? CUR : READY), "P23: the next thread to run is not the one that waited longest, or a ready thread was lost"); }
HARNESS(yield) { S s; setup(s); int th = call(s, 124); ASSERT(!th, "P23: yielding raised"); R r = look(s); memory_same(s); still_blocked(s, r, false); ASSERT(result(s, r, s.cur) == 0, "P23: yield does not return zero"); ASSERT(r.st[s.cur] != BLOCKED, "P23: a yielding thread is blocked"); if (s.nr) { ASSERT(r.cur != s.cur, "P23: yield does not let others run"); COVER("switched"); } else COVER("alone"); still_ready(s, r); }
HARNESS(simple) { S s; setup(s); unsigned nr = (unsigned)__vs_param("nr", 178); int th = call(s, nr); ASSERT(!th, "P23: the call raised"); R r = look(s); memory_same(s); still_blocked(s, r, false); still_ready(s, r); ASSERT(r.cur == s.cur, "P23: the call switched threads");
	if (nr == 94) { ASSERT(stopped(s), "P23: exit_group does not stop the machine"); COVER("done"); return; } ASSERT(!stopped(s), "P23: the call stopped the machine"); if (nr == 178 || nr == 96) ASSERT(s.m->cpu.reg(4) == (uint64_t)s.tid(s.cur), "P23: wrong thread number"); else ASSERT(s.m->cpu.reg(4) == 0, "P23: wrong result");
	for (unsigned i = 0; i < s.n; i++) ASSERT(s.t[i].t->clear_tid == ((nr == 96) & (i == s.cur) ? A(s, 0) : s.t[i].clr), "P23: the address to clear at exit"); COVER("done"); }
HARNESS(futex) { S s; setup(s); unsigned nr = (unsigned)__vs_param("nr", 98), cmd = (unsigned)__vs_param("cmd", 0); bool wait = cmd == 0 || cmd == 9, wake = cmd == 1 || cmd == 10, bits = cmd >= 9; Registers& rg = s.m->cpu.registers(); uint64_t addr = rg.m_regs[4]; uint32_t op = (uint32_t)rg.m_regs[5], val = (uint32_t)rg.m_regs[6], mask = bits ? (uint32_t)rg.m_regs[9] : ~0u; ASSUME((op & ~0x180u) == cmd); if (bits) ASSUME(mask != 0); if (wake) ASSUME((int32_t)val >= 0); if (wait) ASSUME((addr & 3) == 0); else ASSUME(wake);
	bool ok = (addr >= LOW) & (addr < SZ); uint32_t w = 0; if (wait) { if (ok) memcpy(&w, s.ram + addr, 4); } int th = call(s, nr); R r = look(s);
	if (wait) { if (th) { ASSERT(!ok, "P24: waiting on readable memory raised"); memory_same(s); ASSERT(r.cur == s.cur, "P24: a failed wait switched threads"); COVER("fault"); return; } ASSERT(ok, "P24: waiting outside memory");
		if (w != val) { COVER("retry"); ASSERT(result(s, r, s.cur) == (uint64_t)-11ll, "P24: no retry error though the word differs"); ASSERT(r.st[s.cur] != BLOCKED, "P24: blocked though the word differs"); still_blocked(s, r, false); still_ready(s, r); memory_same(s); return; }
		ASSERT(result(s, r, s.cur) == 0, "P24: a wait returns something else than zero"); ASSERT((s.n == 1) & (s.k - addr < 4) ? (s.ram[s.k] == 0) | (s.ram[s.k] == s.kb) : s.ram[s.k] == s.kb, "P24: waiting changed memory"); still_ready(s, r); still_blocked(s, r, s.nr == 0);
		if (s.nr) { COVER("blocked"); ASSERT(r.st[s.cur] == BLOCKED, "P24: a waiting thread goes on"); ASSERT((s.t[s.cur].t->block_word == addr) & (s.t[s.cur].t->block_extra == mask), "P24: a thread waits for something else"); } else { COVER("deadlock"); ASSERT(r.st[0] == CUR || r.st[s.cur] == CUR, "P24: nobody runs"); } return; }
	ASSERT(!th, "P24: waking raised"); memory_same(s); ASSERT(r.cur == s.cur, "P24: waking switched threads"); uint64_t woken = 0, match = 0; for (unsigned i = 0; i < s.n; i++) if (s.t[i].st == BLOCKED) { bool m = (s.t[i].word == addr) & ((s.t[i].ex & mask) != 0); match += m; if (r.st[i] != BLOCKED) { ASSERT(m, "P24: a thread waiting for something else was woken"); woken++; } } still_ready(s, r);
	ASSERT(woken == (match < val ? match : val), "P24: wrong number of threads woken"); ASSERT(s.m->cpu.reg(4) == woken, "P24: wrong number of woken threads reported"); if (woken) COVER("woken"); else COVER("none"); }
HARNESS(futex_other) { S s; setup(s); uint32_t op = (uint32_t)s.m->cpu.reg(5) & 15; ASSUME((op != 0) & (op != 1) & (op != 9) & (op != 10)); int th = call(s, (unsigned)__vs_param("nr", 98)); ASSERT(!th, "P24: an unknown operation raised"); R r = look(s); memory_same(s); still_blocked(s, r, false); still_ready(s, r); ASSERT(r.cur == s.cur, "P24: an unknown operation switched threads"); ASSERT((int64_t)s.m->cpu.reg(4) < 0, "P24: an unknown operation succeeded"); COVER("refused"); }
static void after_exit(S& s, R& r, unsigned who, bool self) { uint64_t c = s.t[who].clr; if (c) { if (s.k - c < 4) ASSERT(s.ram[s.k] == 0, "P23: the thread word is not cleared at exit"); else memory_same(s); } else memory_same(s); bool any = false, freed = false, ran = false;
	for (unsigned i = 0; i < s.n; i++) if (i != who && s.t[i].st == BLOCKED) { bool m = (c != 0) & (s.t[i].word == c); any |= m; if (r.st[i] != BLOCKED) { if (m) freed = true; else ASSERT(i == 0 && r.st[i] == CUR && self, "P24: a blocked thread resumed without being woken"); } }
	ASSERT(!any | freed, "P24: a thread waiting for another's exit is not woken"); for (unsigned i = 0; i < s.nr; i++) if (s.ready[i] != who) ASSERT(r.st[s.ready[i]] == (self && i == 0 ? CUR : READY), "P23: the next thread to run is not the one that waited longest, or a ready thread was lost"); if (freed) COVER("joined"); }
HARNESS(texit) { S s; setup(s); bool th = call(s, 93); uint64_t c = s.t[s.cur].clr; bool ok = (c == 0) | ((c >= LOW) & (c < SZ)); if (th) { ASSERT(!ok, "P23: exit raised"); look(s); COVER("fault"); return; } ASSERT(ok, "P23: a word outside writable memory was cleared");
	if (s.cur == 0) { R r = look(s); ASSERT(stopped(s), "P23: the exit of the main thread does not stop the machine"); COVER("main"); return; } ASSERT(!stopped(s), "P23: the exit of a thread stops the machine"); R r = look(s, 0, s.cur); after_exit(s, r, s.cur, true); if (!s.nr) COVER("fallback"); COVER("exited"); }
HARNESS(tkill) { S s; setup(s); Registers& rg = s.m->cpu.registers(); uint32_t tid = (uint32_t)rg.m_regs[5], sig = (uint32_t)rg.m_regs[6]; ASSUME((tid <= s.n) & (sig <= 64)); tid = (uint32_t)__vs_concretize(tid); rg.m_regs[5] = tid == s.n ? (s.gap <= s.n ? s.gap : s.n) : s.tid(tid); if (tid < s.n) { uint64_t c = s.t[tid].clr; ASSUME((c == 0) | ((c >= LOW) & (c < SZ))); } int th = call(s, 131); ASSERT(!th, "P23: a signal raised");
	if (tid == s.n) { R r = look(s); still_blocked(s, r, false); still_ready(s, r); COVER("nobody"); return; } if (sig == 0) { R r = look(s); memory_same(s); still_blocked(s, r, false); still_ready(s, r); ASSERT((s.m->cpu.reg(4) == 0) & (r.cur == s.cur) & !stopped(s), "P22: signal 0 has an effect"); COVER("probe"); return; }
	if (tid == 0) { ASSERT(stopped(s), "P23: the end of the main thread does not stop the machine"); COVER("main"); return; } R r = look(s, 0, tid); ASSERT(!stopped(s), "P23: the end of a thread stops the machine"); after_exit(s, r, tid, tid == s.cur); if (tid != s.cur) { ASSERT(r.cur == s.cur, "P23: ending another thread switched threads"); COVER("other"); } }
HARNESS(tclone) { S s; setup(s); bool three = __vs_param("three", 0); struct { uint64_t flags, pidfd, child, parent, sig, stack, size, tls, arr, cnt, cg; } a; uint64_t old_tp = s.m->cpu.reg(2);
	if (three) { uint64_t p = s.m->cpu.reg(4); ASSUME((p >= LOW) & (p <= SZ - 88)); memcpy(&a, s.ram + p, 88); ASSUME(a.cnt == 0); a.stack += a.size; if (!(a.flags & 0x80000)) a.tls = old_tp; } else { uint64_t* g = s.m->cpu.registers().m_regs.data() + 4; a.flags = g[0]; a.stack = g[1]; a.parent = g[2]; a.child = g[3]; a.tls = g[4] ? g[4] : old_tp; }
	bool cs = (a.flags >> 24) & 1, ps = (a.flags >> 20) & 1, cc = (a.flags >> 21) & 1; bool bad = (cs & !((a.child >= LOW) & (a.child < SZ))) | (ps & !((a.parent >= LOW) & (a.parent < SZ))); if (!bad) { if (cs) ASSUME(a.child <= SZ - 4); if (ps) ASSUME(a.parent <= SZ - 4); } int th = call(s, three ? 435 : 220);
	if (three && (A(s, 1) < 88)) { ASSERT(!th & ((int64_t)s.m->cpu.reg(4) < 0), "P23: clone with a short structure"); R r = look(s); memory_same(s); ASSERT(r.cur == s.cur, "P23: a refused clone switched threads"); COVER("refused"); return; }
	if (th) { ASSERT(bad, "P23: clone raised"); R r = look(s); ASSERT(r.cur == s.cur, "P23: a failed clone switched threads"); still_blocked(s, r, false); still_ready(s, r); COVER("fault"); return; } ASSERT(!bad, "P23: thread numbers written outside writable memory"); R r = look(s, 1); unsigned c = s.n, ct = s.t[c].t->tid; still_blocked(s, r, false); for (unsigned i = 0; i < s.nr; i++) ASSERT(r.st[s.ready[i]] == READY, "P23: clone lost a thread"); ASSERT((r.cur == c) & (r.st[s.cur] == READY), "P23: clone does not run the child, or the parent is not ready"); Registers& g = s.m->cpu.registers();
	ASSERT((g.m_regs[4] == 0) & (result(s, r, s.cur) == ct), "P23: clone results"); ASSERT((g.m_regs[3] == a.stack) & (g.m_regs[2] == a.tls), "P23: the child's stack or thread pointer"); Dig d = dig(g), e = dig(s.old); if ((wq == 2) | (wq == 3)) d.g = e.g; ASSERT(eq(d, e), "P23: the child's registers differ from the parent's"); ASSERT(s.t[c].t->clear_tid == (cc ? a.child : 0), "P23: the address to clear at the child's exit");
	uint32_t id = ct; uint8_t want = s.kb; if (cs & (s.k - a.child < 4)) want = (uint8_t)(id >> 8 * (s.k - a.child)); if (ps & (s.k - a.parent < 4) & !(cs & (s.k - a.child < 4) & 0)) want = (uint8_t)(id >> 8 * (s.k - a.parent)); ASSERT(s.ram[s.k] == want, "P23: clone wrote something else than the thread numbers"); COVER("cloned"); }
HARNESS(hostops) { S s; setup(s); MultiThreading& mt = s.m->threads(); s.old = s.m->cpu.registers(); s.kb = s.ram[s.k]; unsigned op = (unsigned)__vs_param("op", 0), tid = (unsigned)__vs_concretize(sym8("tid") % (s.n + 1));
	if (op == 0) { bool ret = symbool("store"); uint64_t v = sym64("value"); bool y = mt.yield_to((int)(tid == s.n ? (s.gap <= s.n ? s.gap : s.n) : s.tid(tid)), ret, v); R r = look(s); memory_same(s); still_blocked(s, r, false); if (!y) { ASSERT(r.cur == s.cur, "P23: a refused yield_to switched threads"); ASSERT(tid == s.n || s.t[tid].st != READY, "P23: a ready thread cannot be yielded to"); COVER("refused"); return; } ASSERT((r.cur == tid) & (r.st[s.cur] == READY), "P23: yield_to runs another thread"); ASSERT(result(s, r, s.cur) == (ret ? v : A(s, 0)), "P23: yield_to result"); COVER("switched"); return; }
	mt.unblock((int)(tid == s.n ? (s.gap <= s.n ? s.gap : s.n) : s.tid(tid))); R r = look(s); memory_same(s); ASSERT(r.cur == s.cur, "P23: unblocking switched threads"); for (unsigned i = 0; i < s.n; i++) if (s.t[i].st == BLOCKED) ASSERT(r.st[i] == (i == tid ? READY : BLOCKED), "P24: unblocking"); still_ready(s, r); COVER("done"); }
// ---- signals
static void sigmachine(S& s) { s.n = 1; s.m = new Machine(std::string_view{}, plain_options()); s.m->memory.allocate_custom_arena(SZ, LOW, LOW); s.ram = arena(*s.m); __vs_havoc(s.ram, SZ, "ram"); s.m->cpu.reg(REG_SP) = 0x80000; s.m->setup_linux_syscalls(); if (__vs_param("threads", 0)) s.m->setup_posix_threads(); Registers& r = s.m->cpu.registers(); __vs_havoc(&r.m_regs, 256, "cpu gpr"); r.m_regs[0] = 0; s.k = sym64("watched"); ASSUME(s.k < SZ); wq = sym8("reg"); ASSUME((wq < 32) & (wq != 4)); wv = 0; r.pc = 0x10000; }
static int sc(S& s, unsigned nr, uint64_t a0, uint64_t a1, uint64_t a2 = 0, uint64_t a3 = 0) { uint64_t* g = s.m->cpu.registers().m_regs.data() + 4; g[0] = a0; g[1] = a1; g[2] = a2; g[3] = a3; s.old = s.m->cpu.registers(); s.kb = s.ram[s.k]; s.m->set_max_instructions(1000); return guarded([&] { s.m->system_call(nr); }); }
static bool ok_or_error(S& s, int th) { return !th && (int64_t)s.m->cpu.reg(4) >= 0; }
struct Act { uint64_t handler, flags, mask; };
static Act rd(S& s, uint64_t p) { Act a; memcpy(&a, s.ram + p, 24); return a; }
static bool valid(uint64_t sig) { return ((int32_t)sig >= 1) & ((int32_t)sig <= 64); }
// how the second signal number relates to the first: 0 the same (any), 1 another (the first taken apart into each of its values), 2 the first any, refused or not, no second
static void two(uint64_t& s1, uint64_t& s2) { unsigned rel = (unsigned)__vs_param("rel", 0); uint64_t hi = (uint64_t)sym32("high") << 32; uint32_t x = sym32("sig1"); if (rel == 1) { ASSUME(valid(x)); unsigned lo = (unsigned)__vs_param("lo", 1), hi2 = (unsigned)__vs_param("hi", 64); ASSUME((x >= lo) & (x <= hi2)); x = (uint32_t)__vs_concretize(x); } s1 = hi | x; s2 = rel == 1 ? sym64("sig2") : s1; if (rel == 1) ASSUME((uint32_t)s2 != x); if (rel == 0) ASSUME(valid(x)); if (rel == 2) ASSUME(!valid(x)); }
HARNESS(sig_action) { S s; sigmachine(s); uint64_t s1, s2; two(s1, s2); const uint64_t p1 = 0x5000, p2 = 0x6000, q = 0x7000; Act a = rd(s, p1), b = rd(s, p2); ASSUME(((a.handler & 3) == 0) & (a.handler < ~7ull)); ASSUME(((b.handler & 3) == 0) & (b.handler < ~7ull));
	int t1 = sc(s, 134, s1, p1, 0, 8); ASSERT(ok_or_error(s, t1) == valid(s1), "P22: signal numbers other than 1 to 64 must be refused, these accepted"); ASSERT(s.ram[s.k] == s.kb, "P22: registering changed memory"); if (!valid(s1)) { COVER("refused"); return; } int t2 = sc(s, 134, s2, p2, 0, 8); ASSERT(ok_or_error(s, t2) == valid(s2), "P22: signal numbers"); if (!valid(s2)) return; bool same = (int32_t)s1 == (int32_t)s2;
	unsigned qy = (unsigned)__vs_param("query", 0); uint64_t s3 = qy == 2 ? __vs_concretize((unsigned)__vs_param("lo", 1) + sym8("sig3") % 8) : qy ? s2 : s1; ASSUME(valid(s3)); if (qy == 2) ASSUME(((int32_t)s3 != (int32_t)s1) & ((int32_t)s3 != (int32_t)s2)); int t3 = sc(s, 134, s3, 0, q, 8); ASSERT(ok_or_error(s, t3), "P22: a valid query failed"); ASSERT((s.k - q < 24) | (s.ram[s.k] == s.kb), "P22: a query wrote outside the structure"); Act w = { 0, 0, 0 }; if ((int32_t)s3 == (int32_t)s2) w = b; else if ((int32_t)s3 == (int32_t)s1) w = a; bool set = ((int32_t)s3 == (int32_t)s2) | ((int32_t)s3 == (int32_t)s1); Act r = rd(s, q);
	ASSERT(r.handler == w.handler, "P22: a query returns another handler than was registered"); ASSERT((r.flags >> 27 & 1) == (w.flags >> 27 & 1), "P22: the alternate stack flag"); ASSERT(r.mask == w.mask, "P22: the mask"); if (same) COVER("same"); else COVER("two"); if (!set) COVER("unset"); }
HARNESS(sig_action_mem) { S s; sigmachine(s); uint64_t p = sym64("act"), q = sym64("old"); bool pok = (p == 0) | ((p >= LOW) & (p <= SZ - 24)), qok = (q == 0) | ((q >= LOW) & (q <= SZ - 24)); int th = sc(s, 134, 10, p, q, 8); if (th) { ASSERT(!(pok & qok), "P22: registering raised"); COVER("fault"); return; } ASSERT((pok & qok) | ((int64_t)s.m->cpu.reg(4) < 0), "P22: a structure outside memory"); ASSERT((s.k - q < 24) | (s.ram[s.k] == s.kb), "P22: registering wrote outside the structure"); ASSERT(eq(dig(s.m->cpu.registers()), dig(s.old)), "P22: registering changed registers"); COVER("done"); }
HARNESS(sig_deliver) { S s; sigmachine(s); const uint64_t p1 = 0x5000, ss = 0x6000; uint64_t s1, s2; two(s1, s2); bool reg = symbool("register"), alt = symbool("stack"); if (__vs_param("rel", 0) == 2) reg = false; Act a = rd(s, p1); ASSUME(((a.handler & 3) == 0) & (a.handler < ~7ull)); struct { uint64_t sp; uint32_t flags, pad; uint64_t size; } st; memcpy(&st, s.ram + ss, 24);
	if (reg) { ASSERT(ok_or_error(s, sc(s, 134, s1, p1, 0, 8)), "P22: registering failed"); } if (alt) ASSERT(ok_or_error(s, sc(s, 132, ss, 0)), "P22: sigaltstack failed"); unsigned how = (unsigned)__vs_param("how", 130); uint64_t self = s.m->has_threads() ? 0 : 1; int th = how == 130 ? sc(s, 130, self, s2) : sc(s, 131, 77, self, s2); Registers& r = s.m->cpu.registers(); int32_t sg = (int32_t)s2;
	bool handled = reg & (sg == (int32_t)s1) & (a.handler != 0);
	if (handled) { ASSERT(!th, "P22: delivery raised"); ASSERT(r.pc == a.handler - 4, "P22: the handler is not entered"); ASSERT(r.m_regs[4] == (uint64_t)(int64_t)sg, "P22: the handler's argument is not the signal number"); bool on = alt & ((a.flags >> 27) & 1) & (st.size != 0) & ((st.flags & 2) == 0); ASSERT(r.m_regs[3] == (on ? st.sp + st.size : s.old.m_regs[3]), "P22: the handler's stack"); if (wq != 3) ASSERT(r.m_regs[wq] == s.old.m_regs[wq], "P22: delivery changed other registers"); ASSERT(s.ram[s.k] == s.kb, "P22: delivery changed memory"); if (on) COVER("altstack"); COVER("delivered"); return; }
	if (!th) { ASSERT((r.pc == s.old.pc) | stopped(s), "P22: a signal without handler enters something"); if (sg == 0) ASSERT(r.m_regs[4] == 0, "P22: probing with signal 0"); COVER("ignored"); } else { ASSERT(!valid(s2) | (sg == 6), "P22: an unhandled signal raised"); COVER("raised"); } }
HARNESS(sig_stack) { S s; sigmachine(s); uint64_t p = sym64("new"), q = sym64("old"); struct St { uint64_t sp; uint32_t flags, pad; uint64_t size; }; bool pok = (p >= LOW) & (p <= SZ - 24), qok = (q >= LOW) & (q <= SZ - 24); St a; if (pok) memcpy(&a, s.ram + p, 24); int t1 = sc(s, 132, p, 0); if (p == 0) return; if (t1 | ((int64_t)s.m->cpu.reg(4) < 0)) { ASSERT(!pok, "P22: a readable stack description was refused"); COVER("fault"); return; } ASSERT(pok, "P22: a stack description outside memory"); ASSERT(s.ram[s.k] == s.kb, "P22: sigaltstack changed memory"); int t2 = sc(s, 132, 0, q); if (q == 0) return; if (t2 | ((int64_t)s.m->cpu.reg(4) < 0)) { ASSERT(!qok, "P22: a query failed"); COVER("fault"); return; } ASSERT(qok, "P22: a stack description outside memory"); ASSERT((s.k - q < 24) | (s.ram[s.k] == s.kb), "P22: a query wrote outside the structure"); St b; memcpy(&b, s.ram + q, 24); ASSERT((a.sp == b.sp) & (a.flags == b.flags) & (a.size == b.size), "P22: the stack set is not the stack returned"); COVER("done"); }
