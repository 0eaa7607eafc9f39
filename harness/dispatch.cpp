// P21: the system call instruction reaches exactly the installed handler.
// One handler is installed at a symbolic number over an otherwise empty table;
// the guest then calls with a symbolic 64-bit number.
#include "common.hpp"
static int hits, unknown_hits; static int unknown_last; static CPU* seen; static uint64_t seen_pc;
static constexpr unsigned NSYS = LA_SYSCALLS_MAX;
static void stub(Machine& m) { hits++; seen = &m.cpu; seen_pc = m.cpu.registers().pc; }
static void count_unknown(Machine& m, int n) { unknown_hits++; unknown_last = n; seen = &m.cpu; seen_pc = m.cpu.registers().pc; }
static void ending(Machine& m) { if (m.cpu.registers().pc == 0x20000 + 8) m.stop(); else stub(m); }
static uint32_t code[4] = { 0x002B0000u, 0x02C00000u, 0x002A0000u, 0x002A0000u };
static constexpr uint64_t B = 0x20000;
static std::shared_ptr<MachineOptions> opts() { static auto o = std::make_shared<MachineOptions>(plain_options()); return o; }
static void regs(Machine& m) { __vs_havoc(&m.cpu.m_regs.m_regs, sizeof(m.cpu.m_regs.m_regs), "gpr"); m.cpu.m_regs.m_regs[0] = 0; }
static void load(Machine& m, unsigned how) {
	if (how == 0) { give_arena(m, Geo{0x30000, 0x1000, 0x4000}, false); for (int i = 0; i < 4; i++) m.memory.write<uint32_t>(B + 4 * i, code[i]); }
	else m.cpu.init_execute_area(code, B, 16);
}
static int run(Machine& m, unsigned how) { m.cpu.registers().pc = B; return guarded([&] { if (how == 0) m.cpu.step_one(); else if (how == 1) m.simulate(1000); else m.cpu.simulate_inaccurate(B); }); }
HARNESS(dispatch_number) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts()); m.set_unknown_syscall_handler(count_unknown);
	unsigned how = (unsigned)__vs_param("how", 0); uint32_t where = sym32("installed");
	if (how) m.install_syscall_handler(0, ending); // the run ends at a break, whose handler stops it
	if (how) ASSUME(where != 0);
	m.install_syscall_handler(where, stub);
	unsigned imm = sym32("code") & 0x7FFF; bool useimm = __vs_param("imm", 0); // a non-zero low part is an immediate call, which returns to RA
	ASSUME(((imm & 0x3FF) != 0) == useimm); if (useimm) imm = __vs_concretize(imm & 31) & 0x3FF; code[0] = 0x002B0000u | imm; load(m, how); regs(m);
	uint64_t num = m.cpu.reg(REG_A7); uint64_t lo = __vs_param("lo", 0), hi = __vs_param("hi", ~0ull);
	if (useimm) { m.cpu.reg(REG_RA) = B + 8; ASSUME(imm != 0); num = imm; }
	ASSUME((num >= lo) & (num <= hi)); if (hi < NSYS) { num = __vs_concretize(num); if (!useimm) m.cpu.reg(REG_A7) = num; } unsigned k = (unsigned)sym8("reg"); ASSUME(k < 32); uint64_t before = m.cpu.m_regs.m_regs[k]; hits = unknown_hits = 0;
	int th = run(m, how); ASSERT(th == 0, "P21: a system call raised by itself");
	bool known = (num < NSYS) & ((num == where) | ((how != 0) & (num == 0)));
	if (known) { ASSERT((hits == 1) & (unknown_hits == 0), "P21: the handler did not run exactly once"); COVER("handler"); }
	else { ASSERT(hits == 0, "P21: a number without handler reached one"); ASSERT(unknown_hits == 1, "P21: the unknown-call hook did not run exactly once"); ASSERT(useimm | (num >= NSYS) | (unknown_last == (int)num), "P21: the hook got another number"); COVER("unknown"); }
	ASSERT(seen == &m.cpu, "P21: the handler got another machine"); ASSERT(seen_pc == B, "P21: the handler sees another pc");
	ASSERT(m.cpu.m_regs.m_regs[k] == before, "P21: a system call changed a register by itself");
	ASSERT(m.cpu.registers().pc == (how ? B + 12 : useimm ? B + 8 : B + 4), "P21: pc after a system call");
}
// called by the host: any 64-bit number the API takes
HARNESS(dispatch_api) {
	Machine m{std::string_view{}, plain_options()}; m.set_unknown_syscall_handler(count_unknown); uint32_t where = sym32("installed"); m.install_syscall_handler(where, stub);
	regs(m); uint64_t num = sym64("called"); ASSUME((num >= __vs_param("lo", 0)) & (num <= __vs_param("hi", 0))); if (__vs_param("hi", 0) < NSYS) num = __vs_concretize(num); m.cpu.reg(REG_A7) = num; hits = unknown_hits = 0; m.system_call(num);
	bool known = (num < NSYS) & (num == where);
	if (known) { ASSERT((hits == 1) & (unknown_hits == 0), "P21: host call: the handler did not run exactly once"); COVER("handler"); } else { ASSERT((hits == 0) & (unknown_hits == 1), "P21: host call: a number without handler reached one"); COVER("unknown"); }
}
// with no hook installed the call raises "unimplemented", and nothing changes
HARNESS(dispatch_default) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts()); unsigned how = (unsigned)__vs_param("how", 0); load(m, how); regs(m); unsigned k = (unsigned)sym8("reg"); ASSUME(k < 32); uint64_t before = m.cpu.m_regs.m_regs[k], num = m.cpu.reg(REG_A7); bool got = false;
	m.cpu.registers().pc = B; try { if (how == 0) m.cpu.step_one(); else if (how == 1) m.simulate(1000); else m.cpu.simulate_inaccurate(B); } catch (const MachineException& e) { got = e.type() == UNIMPLEMENTED_SYSCALL; ASSERT((num > 0x7FFFFFFF) | (e.data() == num), "P21: the exception names another call"); }
	ASSERT(got, "P21: a number without handler did not raise"); ASSERT(m.cpu.m_regs.m_regs[k] == before, "P21: an unimplemented call changed a register"); ASSERT(m.cpu.registers().pc == B, "P21: pc after an unimplemented call"); COVER("thrown");
}
// a handler's exception reaches the host from every engine, with the system call's pc
HARNESS(dispatch_throw) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts()); unsigned how = (unsigned)__vs_param("how", 0);
	m.install_syscall_handler(7, [](Machine&) { throw MachineException(ILLEGAL_OPERATION, "x", 77); }); load(m, how); regs(m); m.cpu.reg(REG_A7) = 7; m.cpu.registers().pc = B; bool got = false;
	try { if (how == 0) m.cpu.step_one(); else if (how == 1) m.simulate(1000); else m.cpu.simulate_inaccurate(B); } catch (const MachineException& e) { got = e.data() == 77; }
	ASSERT(got, "P21: a handler's exception was lost"); ASSERT(m.cpu.registers().pc == B, "P21: pc after a failing system call"); COVER("thrown");
}
// a handler's result reaches the guest in the result register, no other register changes
HARNESS(dispatch_result) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts()); unsigned how = (unsigned)__vs_param("how", 0); m.install_syscall_handler(0, ending); static uint64_t r; r = sym64("result");
	m.install_syscall_handler(9, [](Machine& mm) { mm.set_result(r); }); load(m, how); regs(m); m.cpu.reg(REG_A7) = 9; unsigned k = (unsigned)sym8("reg"); ASSUME(k < 32); uint64_t before = m.cpu.m_regs.m_regs[k];
	int th = run(m, how); ASSERT(th == 0, "P21: a handled call raised"); ASSERT(m.cpu.m_regs.m_regs[k] == (k == REG_A0 ? r : before), "P21: registers after a call with a result"); COVER("result");
}
