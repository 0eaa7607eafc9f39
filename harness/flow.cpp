// P10/P11 (and the flow part of P09): what the pre-decoded interpreter executes, how it counts and where it stops.
#include "common.hpp"
#include <libloong/threaded_bytecodes.hpp>

static const uint64_t BASE = 0x20000;
static const unsigned MAXN = 8;
static uint32_t code[MAXN]; static unsigned N;
static int sysmode = -1; static uint64_t systarget; static uint64_t choose(const char* n, uint64_t limit); static bool stop_requested; static unsigned syscalls; static uint64_t sys_pc;
static void behave(Machine& m) { // what it does is picked at the first call
	if (sysmode < 0) { sysmode = (int)choose("syscall_mode", 4); systarget = BASE + 4 * (sysmode == 2 ? choose("syscall_target", N) : 0); }
	syscalls++; sys_pc = m.cpu.registers().pc;
	m.cpu.reg(4) = m.cpu.reg(4) * 3 + 1;
	if (sysmode == 1) { stop_requested = true; m.stop(); }
	if (sysmode == 2) m.cpu.registers().pc = systarget - 4;
	if (sysmode == 3) throw MachineException(INVALID_PROGRAM, "refused");
}
enum { ALU, FUNC, PCREL, SYS, BRK, STOPM, BEQZ_, B_, BL_, JIRL_, BNE_, KINDS };
static bool uses_target(unsigned k) { return k >= BEQZ_; }
static uint32_t encode(unsigned kind, int delta) { // delta: words from here to the target
	switch (kind) {
	case ALU: return 0x02C00000u | (0xFFFu << 10) | (6u << 5) | 6;        // addi.d r6, r6, -1
	case FUNC: return 0x004D0000u | (1u << 10) | (4u << 5) | 4;           // rotri.d r4, r4, 1
	case PCREL: return 0x18000000u | (1u << 5) | 8;                       // pcaddi r8, 1
	case SYS: return 0x002B0000u;
	case BRK: return 0x002A0003u;
	case STOPM: return 0x00150000u;
	case BEQZ_: return 0x40000000u | ((uint32_t)(delta & 0xFFFF) << 10) | (6u << 5) | ((uint32_t)(delta >> 16) & 31);
	case B_: return 0x50000000u | ((uint32_t)(delta & 0xFFFF) << 10) | ((uint32_t)(delta >> 16) & 0x3FF);
	case BL_: return 0x54000000u | ((uint32_t)(delta & 0xFFFF) << 10) | ((uint32_t)(delta >> 16) & 0x3FF);
	case JIRL_: return 0x4C000000u | ((uint32_t)(delta & 0xFFFF) << 10) | (8u << 5) | 1; // jirl r1, r8, delta
	default: return 0x5C000000u | ((uint32_t)(delta & 0xFFFF) << 10) | (6u << 5) | 0;    // bne r6, r0, delta
	}
}
static uint64_t choose(const char* n, uint64_t limit) { uint64_t v = sym8(n); ASSUME(v < limit); return __vs_concretize(v); }
static uint64_t upto(const char* n, uint64_t limit) { uint64_t v = sym8(n); ASSUME(v < limit); return v; }
static const char* const kn[] = { "kind0", "kind1", "kind2", "kind3", "kind4" }; static const char* const tn[] = { "target0", "target1", "target2", "target3", "target4" };
static bool jirl;
static void make_program() {
	N = (unsigned)__vs_param("N", 3); unsigned last = N;
	for (unsigned i = 0; i < N; i++) {
		unsigned k;
		if (i == 0 && __vs_param("k0", 99) != 99) k = (unsigned)__vs_param("k0", 0); else if (__vs_param("few", 0)) { static const unsigned char few[] = { ALU, PCREL, SYS, BEQZ_, BL_, JIRL_ }; k = few[choose(kn[i], 6)]; }
		else k = (unsigned)choose(kn[i], KINDS);
		jirl |= k == JIRL_; int t = uses_target(k) && k != JIRL_ ? (int)choose(tn[i], last + 1) : 0;
		code[i] = encode(k, k == JIRL_ ? 0 : t - (int)i);
	}
}
struct Run { // one machine; both are given the same state
	Machine m{std::string_view{}, plain_options()};
	Run() { m.m_unknown_syscall_handler = [](Machine& m, int) { behave(m); };
		m.install_syscall_handler(0, behave); m.install_syscall_handler(17, behave); }
	CPU& cpu() { return m.cpu; }
};
static uint64_t R(const char* n) { return sym64(n); }
static void state(CPU& c, uint64_t r4, uint64_t r6, uint64_t r8, uint64_t pc) { for (auto& r : c.m_regs.m_regs) r = 0; c.reg(4) = r4; c.reg(6) = r6; c.reg(8) = r8; c.reg(REG_A7) = 17; c.reg(1) = 0; c.registers().pc = pc; }
// the reference: one instruction at a time until `n` are done, a stop is requested or something is raised. Returns the number executed.
static unsigned reference(CPU& c, unsigned n, uint64_t limit, bool& raised, bool& halted, bool& late) {
	unsigned done = 0; raised = halted = late = false;
	while (done < n) {
		uint64_t pc = __vs_concretize(c.registers().pc);
		if (pc < BASE || pc >= BASE + 4 * N) { raised = true; break; } // nothing to execute there
		uint32_t w = code[(pc - BASE) >> 2];
		if (guarded([&] { c.execute(la_instruction(w)); })) { raised = true; break; }
		c.increment_pc(4); done++;
		if (w == 0x00150000u) { halted = true; break; }
		if (stop_requested) { halted = true; break; }
		late |= (done >= limit) & (c.registers().pc != pc + 4) & (done < n); // the limit was due here
	}
	return done;
}
static void same(CPU& a, CPU& b, const char* what) {
	uint64_t d = (a.reg(4) ^ b.reg(4)) | (a.reg(6) ^ b.reg(6)) | (a.reg(8) ^ b.reg(8)) | (a.reg(1) ^ b.reg(1)) | a.reg(0);
	ASSERT(d == 0, what);
}
static std::shared_ptr<MachineOptions> opts() { static auto o = std::make_shared<MachineOptions>(plain_options()); return o; }

// one run under an instruction limit, optionally resumed once
HARNESS(flow_limit) {
	make_program();
	unsigned start = (unsigned)choose("start", N); bool two = __vs_param("resume", 0);
	uint64_t limit = 1 + upto("limit", __vs_param("maxlimit", 6)), limit2 = two ? limit + upto("more", 4) : limit;
	uint64_t r4 = R("r4"), r6 = R("r6"), t8 = BASE + 4 * (jirl ? choose("r8_slot", N + 1) : 0);
	Run f, s; f.m.set_options(opts());
	f.cpu().init_execute_area(code, BASE, 4 * N);
	state(f.cpu(), r4, r6, t8, BASE + 4 * start); state(s.cpu(), r4, r6, t8, BASE + 4 * start);
	stop_requested = false; syscalls = 0; uint64_t first = 0;
	bool stopped = false;
	int th = guarded([&] { stopped = f.m.simulate(limit); });
	if (two && !th && !stop_requested && !stopped) { first = f.m.instruction_counter(); th = guarded([&] { stopped = f.m.simulate(limit2, first); }); limit = limit2;  }
	bool fstop = stop_requested; unsigned fsys = syscalls; uint64_t fpc = sys_pc;
	stop_requested = false; syscalls = 0; bool raised, halted, late;
	if (th) { // followed until the reference raises as well
		unsigned d = reference(s.cpu(), 24, ~0ull, raised, halted, late);
		ASSERT(raised, "the pre-decoded interpreter raised where stepping does not"); COVER("raised"); (void)d;
		same(f.cpu(), s.cpu(), "registers differ when an exception is raised"); return;
	}
	uint64_t n = f.m.instruction_counter(); n = __vs_concretize(n);
	ASSERT(n <= limit + 2 * N + 1, "the instruction limit was overrun by more than the code holds");
	unsigned d = reference(s.cpu(), (unsigned)n, two ? ~0ull : limit, raised, halted, late);
	ASSERT(!late, "the run went on past a jump taken at or after its instruction limit");
	ASSERT(!raised & (d == n), "the reported instruction count differs from the number of instructions executed");
	ASSERT((n >= limit) | halted, "the run ended before its instruction limit");
	ASSERT(fstop == stop_requested, "a stop request was lost or invented"); ASSERT(fsys == syscalls, "system calls executed a different number of times");
	same(f.cpu(), s.cpu(), "registers differ after the run");
	ASSERT(f.cpu().registers().pc == s.cpu().registers().pc, "program counter differs after the run");
	if (syscalls) { ASSERT(fpc == sys_pc, "a system call saw a different program counter"); COVER("syscall"); }
	if (fstop) { ASSERT(stopped, "simulate() does not report the stop request"); COVER("stopped"); }
	COVER(first && n > first ? "resumed" : "done");
}
// unlimited ("inaccurate") mode, for programs that end by themselves
HARNESS(flow_unlimited) {
	make_program();
	unsigned start = (unsigned)choose("start", N);
	uint64_t r4 = R("r4"), r6 = R("r6"), t8 = BASE + 4 * (jirl ? choose("r8_slot", N + 1) : 0);
	Run f, s; f.m.set_options(opts());
	state(f.cpu(), r4, r6, t8, BASE + 4 * start); state(s.cpu(), r4, r6, t8, BASE + 4 * start);
	bool raised, halted, late; stop_requested = false;
	unsigned d = reference(s.cpu(), 9, ~0ull, raised, halted, late); bool sstop = stop_requested;
	ASSUME(raised | halted);
	f.cpu().init_execute_area(code, BASE, 4 * N); stop_requested = false; f.m.set_max_instructions(1); (void)d;
	int th = guarded([&] { f.cpu().simulate_inaccurate(BASE + 4 * start); });
	ASSERT(th == (int)raised, "unlimited mode raises where stepping does not, or the reverse");
	same(f.cpu(), s.cpu(), "registers differ after the run"); ASSERT(sstop == stop_requested, "a stop request was lost or invented");
	if (!th) { ASSERT(f.cpu().registers().pc == s.cpu().registers().pc, "program counter differs after the run"); COVER("done"); } else COVER("raised");
}
// straight-line code of any length up to `max`: one branch at the end
static uint32_t big[17000];
HARNESS(flow_long) {
	unsigned n = (unsigned)__vs_param("len", 300); // instructions before the branch
	for (unsigned i = 0; i < n; i++) big[i] = 0x02C00400u | (6u << 5) | 6; // addi.d r6, r6, 1
	big[n] = 0x50000000u; // b .
	unsigned pcslot = (unsigned)__vs_param("pcslot", 5); big[pcslot] = encode(PCREL, 0);
	Run f; f.m.set_options(opts()); f.cpu().init_execute_area(big, BASE, 4 * (n + 1));
	uint64_t start = sym64("start"); unsigned lo = (unsigned)__vs_param("lo", 0), hi = (unsigned)__vs_param("hi", 4); ASSUME((start >= lo) & (start < hi)); start = __vs_concretize(start);
	uint64_t r6 = R("r6"); state(f.cpu(), 0, r6, 0, BASE + 4 * start);
	f.m.simulate(1);
	uint64_t c = f.m.instruction_counter(), pc = f.cpu().registers().pc, done = start <= pcslot;
	ASSERT(c >= 1 && pc >= BASE && pc <= BASE + 4 * n, "the limited run left the code"); 
	// it ends at the branch, or (split code) at an instruction boundary after c instructions
	ASSERT((pc == BASE + 4 * (start + c)) | ((pc == BASE + 4 * n) & (c == n + 1 - start)), "the reported count differs from the number of instructions executed");
	uint64_t ran = pc == BASE + 4 * n && c == n + 1 - start ? n - start : c;
	bool saw = done && start + ran > pcslot;
	ASSERT(f.cpu().reg(6) == r6 + ran - saw, "the instructions executed differ from the count");
	if (saw) ASSERT(f.cpu().reg(8) == BASE + 4 * pcslot + 4, "a pc-relative instruction saw a wrong program counter");
	COVER("done");
}
