// P25: calls from the host into the guest.
#include "common.hpp"
static constexpr uint64_t F = 0x20000, EXIT = 0x20010, OUT = 0x20020, SZ = 0x40000, RO = 0x1000, DATA = 0x4000;
// f: break; ret    exit: break    outer: break; addi.d s0, s0, 1; break
static const uint32_t code[16] = { 0x002A0000u, 0x4C000020u, 0x002A0000u, 0x002A0000u, 0x002A0000u, 0x50000000u, 0x002A0000u, 0x002A0000u, 0x002A0000u, 0x02C006F7u, 0x002A0000u, 0x002A0000u, 0x50000000u, 0x002A0000u, 0x002A0000u, 0x002A0000u };
static std::shared_ptr<MachineOptions> opts() { static auto o = std::make_shared<MachineOptions>(plain_options()); return o; }
static Registers entry; static bool entered, left, fail; static uint64_t exit_a0, exit_fa0, stack; static Machine* g_m; static unsigned outer_step;
static void (*at_entry)(Machine&); static void (*in_outer)(Machine&);
static void havoc_regs(Machine& m, const char* name) { uint64_t pc = m.cpu.m_regs.pc, ra = m.cpu.reg(REG_RA); __vs_havoc(&m.cpu.m_regs, sizeof(Registers), name); m.cpu.m_regs.m_regs[0] = 0; m.cpu.m_regs.pc = pc; m.cpu.reg(REG_RA) = ra; }
static void brk(Machine& m) {
	uint64_t pc = m.cpu.m_regs.pc;
	if (pc == F) { ASSERT(!entered, "P25: the function was entered twice"); entered = true; entry = m.cpu.m_regs; if (at_entry) at_entry(m); if (fail) throw MachineException(ILLEGAL_OPERATION, "guest", 5); havoc_regs(m, "callee"); exit_a0 = m.cpu.reg(REG_A0); memcpy(&exit_fa0, &m.cpu.m_regs.m_vr[0], 8); }
	else if (pc == EXIT) { left = true; m.stop(); }
	else if (pc == OUT) { outer_step++; in_outer(m); }
	else { ASSERT(pc == OUT + 8, "P25: control went astray"); outer_step += 10; m.stop(); }
}
static Machine& mk() {
	auto& m = *new Machine{std::string_view{}, plain_options()}; g_m = &m; m.set_options(opts()); give_arena(m, Geo{SZ, RO, DATA}); for (int i = 0; i < 32; i++) m.install_syscall_handler((unsigned)i, nullptr); m.install_syscall_handler(0, brk);
	m.cpu.init_execute_area(code, F, 64); m.memory.set_exit_address(EXIT); __vs_havoc(&m.cpu.m_regs, sizeof(Registers), "regs"); m.cpu.m_regs.m_regs[0] = 0;
	stack = sym32("stack") & 0x3FFFF; ASSUME((stack >= 0x8000) & (stack <= 0x30000)); m.memory.set_stack_address(stack); entered = left = fail = false; at_entry = nullptr; return m;
}
static uint64_t A(unsigned i) { return entry.m_regs[4 + i]; }
static uint64_t FAR(unsigned i) { uint64_t v; memcpy(&v, &entry.m_vr[i], 8); return v; }
static uint64_t SP() { return entry.m_regs[REG_SP]; }
static uint64_t slot(unsigned i) { uint64_t v; memcpy(&v, arena(*g_m) + SP() + 8 * i, 8); return v; }
static uint64_t top; // the stack in use before the call
static void frame() { ASSERT((SP() & 15) == 0, "P25: stack pointer not aligned"); ASSERT(SP() <= top, "P25: stack pointer above the stack"); ASSERT(top - SP() <= 0x400, "P25: stack pointer far below the stack"); ASSERT(entry.m_regs[REG_RA] == EXIT, "P25: return address"); ASSERT(entry.m_regs[0] == 0, "P25: zero register"); }
static uint64_t wk; static uint8_t wv;
static void watch() { wk = sym64("watched"); ASSUME(wk < SZ); wv = arena(*g_m)[wk]; }
static void unwatch() { ASSERT(((wk >= SP()) & (wk < top)) | (arena(*g_m)[wk] == wv), "P25: a call changed memory outside its stack frame"); }
static uint64_t in_frame(uint64_t p, uint64_t n) { return (p >= SP()) & (p < top) & (n <= top - p); }
template <class T> static uint64_t w(T v) { if constexpr (sizeof(T) <= 4) return (uint64_t)(int64_t)(int32_t)v; else return (uint64_t)v; }
struct Small { uint32_t a; uint8_t b; }; struct Big { uint64_t a, b; uint32_t c; }; enum class EI : int32_t {}; enum class EU : uint32_t {}; enum class EB : uint8_t {};
static unsigned how;
// every entry point, with the same argument list
template <class Ret = uint64_t, class... Args> static Ret call(Machine& m, Args... a) {
	switch (how) {
	case 0: return m.vmcall<Ret>(F, a...);
	case 1: return m.vmcall<Ret, 1000>(F, a...);
	case 2: m.timed_vmcall(F, 1000, a...); return m.return_value<Ret>();
	case 3: m.preempt(1000, F, a...); return m.return_value<Ret>();
	default: { uint64_t r = m.preempt<true, true>(1000, F, a...); return (Ret)r; }
	}
}
static void start(Machine& m) { how = (unsigned)__vs_param("how", 0); top = stack; if (how >= 3) { uint64_t sp = sym32("sp") & 0x3FFFF; ASSUME((sp >= 0x8000) & (sp <= 0x30000)); m.cpu.reg(REG_SP) = sp; top = sp; } watch(); }
static void done() { ASSERT(entered & left, "P25: the function did not run to its end"); frame(); unwatch(); COVER("called"); }
HARNESS(args_int) { auto& m = mk(); start(m);
	auto a = sym<int8_t>("a"); auto b = sym<uint8_t>("b"); auto c = sym<int16_t>("c"); auto d = sym<uint16_t>("d"); auto e = sym<int32_t>("e"); auto f = sym<uint32_t>("f"); auto g = sym<int64_t>("g"); auto h = sym<uint64_t>("h");
	call(m, a, b, c, d, e, f, g, h);
	ASSERT((A(0) == w(a)) & (A(1) == w(b)) & (A(2) == w(c)) & (A(3) == w(d)) & (A(4) == w(e)) & (A(5) == w(f)) & (A(6) == w(g)) & (A(7) == w(h)), "P25: integer arguments"); ASSERT(SP() == (how >= 3 ? (top - 16) & ~15ull : top & ~15ull), "P25: stack pointer without stack arguments"); done(); }
HARNESS(args_many) { auto& m = mk(); start(m);
	auto v = sym<uint64_t>("v"); auto e = sym<int32_t>("e"); auto f = sym<uint32_t>("f"); auto b = sym<uint8_t>("b"); auto d = sym<double>("d"); bool t = symbool("t");
	call(m, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, e, f, b, d, t);
	for (unsigned i = 0; i < 8; i++) ASSERT(A(i) == v + i, "P25: first eight arguments"); uint64_t fa = FAR(0); ASSERT(memcmp(&fa, &d, 8) == 0, "P25: floating-point argument after stack arguments");
	ASSERT((slot(0) == w(e)) & (slot(1) == w(f)) & (slot(2) == w(b)) & (slot(3) == t), "P25: stack arguments"); done(); }
HARNESS(args_fp) { auto& m = mk(); start(m);
	auto f = sym<float>("f"); auto d = sym<double>("d"); auto g = sym<float>("g"); auto n = sym<uint64_t>("n"); uint64_t dd; uint32_t ff, gg; memcpy(&dd, &d, 8); memcpy(&ff, &f, 4); memcpy(&gg, &g, 4);
	call(m, n, f, d, g, d, n + 1, f, d, g, d, f, n + 2, d);
	ASSERT(((uint32_t)FAR(0) == ff) & (FAR(1) == dd) & ((uint32_t)FAR(2) == gg) & (FAR(3) == dd) & ((uint32_t)FAR(4) == ff) & (FAR(5) == dd) & ((uint32_t)FAR(6) == gg) & (FAR(7) == dd), "P25: floating-point arguments");
	ASSERT((A(0) == n) & (A(1) == n + 1) & ((uint32_t)A(2) == ff) & (A(3) == n + 2) & (A(4) == dd), "P25: floating-point arguments in integer registers"); done(); }
HARNESS(args_fp_stack) { auto& m = mk(); start(m); auto d = sym<double>("d"); auto f = sym<float>("f"); auto n = sym<uint64_t>("n"); uint64_t dd; uint32_t ff; memcpy(&dd, &d, 8); memcpy(&ff, &f, 4);
	call(m, n, n, n, n, n, n, n, d, d, d, d, d, d, d, d, f, d, n, f);
	ASSERT(((uint32_t)A(7) == ff) & (slot(0) == dd) & (slot(1) == n) & ((uint32_t)slot(2) == ff), "P25: floating-point arguments on the stack"); done(); }
static const char* const strs[] = { "", "a", "fifteen chars..", "sixteen chars...", "a string of more than thirty-two characters" };
HARNESS(args_str) { auto& m = mk(); start(m); unsigned i = sym8("s1"), j = sym8("s2"); ASSUME((i < 5) & (j < 5)); i = (unsigned)__vs_concretize(i); j = (unsigned)__vs_concretize(j); std::string s = strs[i]; const char* p = strs[j]; Small st; __vs_havoc(&st, sizeof st, "small"); Big bg; __vs_havoc(&bg, sizeof bg, "big"); auto n = sym<uint32_t>("n"); auto eb = (EB)sym8("eb");
	call(m, s, n, p, st, bg, eb, (EU)n, (EI)n);
	ASSERT((A(1) == w(n)) & (A(5) == (uint8_t)eb) & (A(6) == w(n)) & (A(7) == w(n)), "P25: integers and enumerations between strings");
	ASSERT(in_frame(A(0), s.size() + 1) & in_frame(A(2), strlen(p) + 1) & in_frame(A(3), sizeof st) & in_frame(A(4), sizeof bg), "P25: argument copies outside the frame"); uint8_t* r = arena(m);
	ASSERT(memcmp(r + A(0), s.c_str(), s.size() + 1) == 0, "P25: string argument"); ASSERT(memcmp(r + A(2), p, strlen(p) + 1) == 0, "P25: C string argument"); ASSERT(memcmp(r + A(3), &st, sizeof st) == 0, "P25: structure argument"); ASSERT(memcmp(r + A(4), &bg, sizeof bg) == 0, "P25: large structure argument"); done(); }
HARNESS(args_guest_string) { auto& m = mk(); start(m); GuestStdString gs; uint8_t n = sym8("size"); ASSUME(n <= 15); gs.len = n; __vs_havoc(gs.data, 16, "sso"); gs.ptr = 0; uint8_t copy[16]; memcpy(copy, gs.data, 16); auto x = sym64("x"); Big bg; __vs_havoc(&bg, sizeof bg, "big");
	how == 0 ? (void)m.vmcall(F, x, bg, gs, x) : how == 2 ? m.timed_vmcall(F, 1000, x, bg, gs, x) : (void)m.preempt(1000, F, x, bg, gs, x);
	ASSERT((A(0) == x) & (A(3) == x), "P25: arguments around a guest string"); ASSERT(in_frame(A(2), sizeof gs), "P25: guest string outside the frame"); GuestStdString q; memcpy(&q, arena(m) + A(2), sizeof q); ASSERT(q.len == n, "P25: guest string length"); ASSERT(q.ptr == A(2) + 16, "P25: guest string does not point at itself"); ASSERT(memcmp(q.data, copy, 16) == 0, "P25: guest string contents"); done(); }
template <class Ret> static void ret(Machine& m) { Ret r = call<Ret>(m, sym64("arg")); if constexpr (std::is_floating_point_v<Ret>) ASSERT(memcmp(&r, &exit_fa0, sizeof r) == 0, "P25: floating-point result"); else { if (std::is_same_v<Ret, bool>) ASSUME(exit_a0 <= 1); ASSERT(memcmp(&r, &exit_a0, sizeof r) == 0, "P25: integer result"); } done(); }
HARNESS(returns) { auto& m = mk(); start(m); switch (__vs_param("t", 0)) { case 0: return ret<int8_t>(m); case 1: return ret<uint16_t>(m); case 2: return ret<int32_t>(m); case 3: return ret<uint32_t>(m); case 4: return ret<int64_t>(m); case 5: return ret<uint64_t>(m); case 6: return ret<bool>(m); case 7: return ret<float>(m); case 8: return ret<double>(m); } }
// the whole interrupted context comes back, also when the call fails or runs out of instructions
static Registers before; static uint64_t outer_max; static int kind;
static bool same_regs(const Registers& a, const Registers& b, bool result) { unsigned k = sym8("reg"); ASSUME((k < 32) & (!result | (k != 4))); unsigned v = sym8("vreg"), l = sym8("lane"); ASSUME((v < 32) & (l < 4)); uint64_t x[4], y[4]; memcpy(x, &a.m_vr[v], 32); memcpy(y, &b.m_vr[v], 32);
	return (a.m_regs[k] == b.m_regs[k]) & (x[l] == y[l]) & (a.pc == b.pc) & (a.m_fcsr.whole == b.m_fcsr.whole) & (memcmp(&a.m_fcc, &b.m_fcc, sizeof a.m_fcc) == 0); }
static void interrupt(Machine& m) {
	before = m.cpu.m_regs; outer_max = m.max_instructions(); top = before.m_regs[REG_SP]; uint64_t r = 0; int th; auto arg = sym64("arg"); std::string s = "string";
	fail = kind == 1;
	if (kind == 2) at_entry = [](Machine& mm) { mm.cpu.reg(REG_RA) = OUT + 16; };  // the callee ends up in an endless loop
	th = guarded([&] { r = m.preempt<true, true>(kind == 2 ? 3 : 1000, F, arg, s); });
	ASSERT(entered, "P25: the preempting call did not run"); ASSERT(th == (kind != 0), "P25: outcome of a preempting call");
	ASSERT(same_regs(m.cpu.m_regs, before, th == 0), "P25: a preempting call lost the interrupted context"); if (!th) { ASSERT((r == exit_a0) & (m.cpu.reg(REG_A0) == exit_a0), "P25: result of a preempting call"); }
	ASSERT(m.max_instructions() == outer_max, "P25: a preempting call changed the instruction limit of the interrupted run"); ASSERT(SP() < top, "P25: a preempting call runs on the interrupted stack"); ASSERT(A(0) == arg, "P25: argument of a preempting call"); frame(); unwatch(); COVER("preempted");
}
HARNESS(preempted) { auto& m = mk(); kind = (int)__vs_param("kind", 0); in_outer = interrupt; uint64_t sp = sym32("sp") & 0x3FFFF; ASSUME((sp >= 0x8000) & (sp <= 0x30000)); m.cpu.reg(REG_SP) = sp; watch(); outer_step = 0; uint64_t s0 = m.cpu.m_regs.m_regs[23]; m.cpu.m_regs.pc = OUT;
	int th = guarded([&] { if (__vs_param("how", 0)) m.cpu.simulate_inaccurate(OUT); else m.simulate(100); }); ASSERT(th == 0, "P25: the interrupted run failed"); ASSERT(outer_step == 11, "P25: the interrupted run did not go on to its end"); ASSERT(m.cpu.m_regs.m_regs[23] == s0 + 1, "P25: the interrupted run continued elsewhere"); COVER("continued"); }
// limits and failures of direct calls
HARNESS(limits) { auto& m = mk(); start(m); at_entry = nullptr; unsigned n = sym8("limit"); ASSUME((n >= 1) & (n <= 4)); n = (unsigned)__vs_concretize(n); int type = -1; at_entry = [](Machine& mm) { mm.cpu.reg(REG_RA) = OUT + 16; };
	try { if (how == 2) m.timed_vmcall(F, n, 1); else if (how == 1) m.vmcall<int, 3>(F, 1); else m.preempt(n, F, 1); } catch (const MachineException& e) { type = e.type(); }
	ASSERT(type == MACHINE_TIMEOUT, "P25: a call over its limit did not time out"); COVER("timeout"); }
HARNESS(failing) { auto& m = mk(); start(m); fail = true; uint64_t d = 0; try { call(m, sym64("x")); } catch (const MachineException& e) { d = e.data(); } ASSERT(d == 5, "P25: a guest failure was lost"); COVER("failed"); }
