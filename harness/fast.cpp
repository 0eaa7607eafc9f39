// P09: the pre-decoded (threaded) interpreter computes what step-by-step interpretation computes.
#include "isa_spec.hpp"
#include <libloong/threaded_bytecodes.hpp>

static char msgbuf[160];
static const char* M(const char* name, const char* what) {
	unsigned n = 0; for (const char* s = name; *s && n < 60; s++) msgbuf[n++] = *s;
	msgbuf[n++] = ':'; msgbuf[n++] = ' '; for (const char* s = what; *s && n < 150; s++) msgbuf[n++] = *s; msgbuf[n] = 0; return msgbuf;
}
static const uint32_t SELF = 0x50000000, NOPW = 0x03400000; // b . ; nop
static uint32_t code[32768];

// mode 0: accurate simulate() with a small budget; mode 1: simulate_inaccurate() ended by the stop marker
static void compare(unsigned row, unsigned nwords, unsigned at, unsigned start, bool inaccurate) {
	const Row& R = rows[row]; const char* name = R.name; const uint64_t BASE = 0x20000;
	const Geo g{0x100000, 0x1000, 0x4000};
	Machine m{std::string_view{}, plain_options()}, m2{std::string_view{}, plain_options()};
	give_arena(m, g); give_arena(m2, g, false); __vs_havoc(arena(m2), g.size + 64, "=arena");
	static std::shared_ptr<MachineOptions> opt = std::make_shared<MachineOptions>(plain_options());
	m.set_options(opt); m2.set_options(opt);
	CPU &cpu = m.cpu, &cpu2 = m2.cpu;
	__vs_havoc(&cpu.m_regs.m_regs, sizeof(cpu.m_regs.m_regs), "gpr");
	__vs_havoc(&cpu.m_regs.m_vr, sizeof(cpu.m_regs.m_vr), "fpv");
	cpu.m_regs.m_regs[0] = 0;
	cpu.m_regs.m_fcc = sym8("fcc"); cpu.m_regs.m_fcsr.whole = sym32("fcsr");
	bool ll = symbool("llbit"); cpu.m_ll_bit = ll; cpu2.m_ll_bit = ll;
	__vs_havoc(&cpu2.m_regs.m_regs, sizeof(cpu.m_regs.m_regs), "=gpr"); __vs_havoc(&cpu2.m_regs.m_vr, sizeof(cpu.m_regs.m_vr), "=fpv");
	cpu2.m_regs.m_regs[0] = 0; cpu2.m_regs.m_fcc = cpu.m_regs.m_fcc; cpu2.m_regs.m_fcsr.whole = cpu.m_regs.m_fcsr.whole;
	uint32_t fields = sym32("fields"); uint32_t w = R.match | (fields & ~R.mask);
	for (unsigned i = 0; i < NROWS; i++) if (i != row && (rows[i].mask & R.mask) == R.mask && (rows[i].match & R.mask) == R.match && rows[i].mask != R.mask) ASSUME((w & rows[i].mask) != rows[i].match);
	ASSUME(w != 0x00150000); // or zero, zero, zero: the library's stop marker
	uint64_t budget = 1 + (uint64_t)symbool("more_budget") * 3; budget = __vs_concretize(budget);
	__vs_trail(name);
	for (unsigned i = 0; i < nwords; i++) code[i] = SELF;
	for (unsigned i = start; i < at; i++) code[i] = NOPW;
	code[at] = w;
	cpu.init_execute_area(code, BASE, 4 * nwords);
	if (__vs_param("full", 0) == 0) {
		// an entry that names the very handler of this word, with the very word: nothing left to compare
		const auto* e = cpu.m_exec->decoder_cache(); auto bc = e[at].get_bytecode(); bc = __vs_concretize(bc);
		if (bc == LA64_BC_FUNCTION || bc == LA64_BC_FUNCTION2) {
			auto h = bc == LA64_BC_FUNCTION ? e[at].get_handler() : e[at].get_extended_handler();
			bool same = (h == CPU::decode(la_instruction(w)).handler) & (e[at].instr == w) & (e[at].block_bytes == 4 * (nwords - 1 - at)) & (at == start || e[start].block_bytes == 4 * (nwords - 1 - start));
			if (same) { COVER("same-handler"); return; }
		}
	}
	cpu.registers().pc = BASE + 4 * start; cpu2.registers().pc = BASE + 4 * start;
	uint64_t n = 0; int th, type = -1;
	th = guarded([&] { cpu.simulate(BASE + 4 * start, 0, budget); });
	n = th ? 12 : m.instruction_counter(); // a raising run is followed until the slow path raises or leaves too
	n = __vs_concretize(n);
	int th2 = 0; unsigned done = 0;
	for (; done < n && done < 64 && !th2; done++) {
		uint64_t pc = cpu2.registers().pc, i = (pc - BASE) >> 2;
		if ((pc < BASE) | (pc >= BASE + 4 * nwords)) break;
		i = __vs_concretize(i);
		th2 = guarded([&] { cpu2.execute(la_instruction(code[i])); }); if (!th2) cpu2.increment_pc(4);
	}
	uint64_t k = sym64("watched"); ASSUME(k < g.size);
	unsigned gi = (unsigned)sym8("gpr_index"), vi = (unsigned)sym8("vr_index"); ASSUME((gi < 32) & (vi < 32));
	bool left = th & !th2 & ((cpu2.registers().pc < BASE) | (cpu2.registers().pc >= BASE + 4 * nwords)); // nothing to run there
	bool load0 = !th & th2 & ((w & 31) == 0) & (strncmp(name, "LD", 2) == 0); // a load into the zero register may be elided
	if (load0) { COVER("elided-load"); return; }
	ASSERT((th == th2) | left, M(name, th ? "the fast path faults where the slow path does not" : "the slow path faults where the fast path does not"));
	ASSERT(cpu.m_regs.m_regs[gi] == cpu2.m_regs.m_regs[gi], M(name, "general registers differ"));
	uint64_t d = 0; for (unsigned l = 0; l < 4; l++) d |= cpu.m_regs.m_vr[vi].du[l] ^ cpu2.m_regs.m_vr[vi].du[l];
	ASSERT(d == 0, M(name, "vector registers differ"));
	ASSERT((cpu.m_regs.m_fcc == cpu2.m_regs.m_fcc) & (cpu.m_regs.m_fcsr.whole == cpu2.m_regs.m_fcsr.whole), M(name, "flags differ"));
	ASSERT(cpu.m_ll_bit == cpu2.m_ll_bit, M(name, "LL bit differs"));
	ASSERT(arena(m)[k] == arena(m2)[k], M(name, "memory differs"));
	if (th) { COVER("raised"); return; }
	COVER("done");
	ASSERT(done == n, M(name, "instruction counter disagrees with the instructions executed"));
	ASSERT(cpu.m_regs.pc == cpu2.m_regs.pc, M(name, "program counter differs"));
}
HARNESS(fastslow) {
	static const char* const pn[] = { "r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7" };
	uint64_t n = __vs_param("n", 1), row = sym64("row"); bool in = false;
	for (unsigned i = 0; i < n; i++) in |= row == __vs_param(pn[i], 0);
	ASSUME(in & (row < NROWS)); row = __vs_concretize(row);
	COVER("row");
	unsigned nwords = (unsigned)__vs_param("words", 3), at = (unsigned)__vs_param("at", 1), start = (unsigned)__vs_param("start", 0);
	compare((unsigned)row, nwords, at, start, false);
}
