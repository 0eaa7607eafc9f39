// P12: the pre-decoded cache describes the code at every slot, ends with a stop, and is never read outside.
#include "isa_spec.hpp"
#include <libloong/threaded_bytecodes.hpp>
static std::shared_ptr<MachineOptions> opts() { static auto o = std::make_shared<MachineOptions>(plain_options()); return o; }
static uint32_t code[64];
template <unsigned I> static void dummy(CPU&, la_instruction) { __vs_fail("a filler handler was called"); }
static bool transfers(uint32_t w) { // control transfer, by the opcode map of the architecture
	uint32_t op = w >> 26; return ((op >= 0x10) & (op <= 0x1B)) | ((w & 0xFFFF8000u) == 0x002B0000u) | ((w & 0xFFFF8000u) == 0x002A0000u) | (w == 0x00150000u);
}
// every word, in the middle of a block
HARNESS(cache_word) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts());
	uint32_t w = sym32("word"); unsigned lo = (unsigned)__vs_param("lo", 0), hi = (unsigned)__vs_param("hi", 64); ASSUME(((w >> 26) >= lo) & ((w >> 26) < hi));
	if (__vs_param("filler", 0)) { // as after a program that used more than 256 different handlers
		DecoderData::compute_handler_for(CPU::get_invalid_instruction().handler);
		for (uint64_t i = 0; i < 260; i++) DecoderData::m_handlers.push_back(reinterpret_cast<DecoderData::handler_t>(0x1000 + i));
	}
	const uint64_t B = 0x20000; code[0] = 0x02C00000u; code[1] = w; code[2] = 0x02C00000u; code[3] = 0x50000000u;
	auto& seg = m.cpu.init_execute_area(code, B, 16);
	const DecoderData* c = seg.decoder_cache();
	ASSERT(seg.exec_begin() == B && seg.exec_end() == B + 16, "wrong segment bounds");
	bool ends = transfers(w);
	ASSERT(c[1].block_bytes == (ends ? 0 : 8), "the slot's distance to the end of its block is wrong");
	ASSERT(c[0].block_bytes == (ends ? 4 : 12), "the distance over the slot is wrong");
	ASSERT(c[0].instruction_count() == (ends ? 2 : 4), "the block's instruction count is wrong");
	ASSERT(c[2].block_bytes == 4 && c[3].block_bytes == 0, "a following slot's distance is wrong");
	ASSERT(c[4].get_bytecode() == LA64_BC_INVALID && c[4].block_bytes == 0, "no terminating entry");
	unsigned bc = c[1].get_bytecode(); bc = __vs_concretize(bc);
	const auto& d = CPU::decode(la_instruction(w));
	if (bc == LA64_BC_FUNCTION || bc == LA64_BC_FUNCTION2) {
		ASSERT((bc == LA64_BC_FUNCTION ? c[1].get_handler() : c[1].get_extended_handler()) == d.handler, "the slot names another instruction's handler");
		ASSERT(c[1].instr == w, "the slot holds other instruction bits"); ASSERT(!ends | (d.handler == CPU::get_invalid_instruction().handler) | (d.handler == CPU::get_unimplemented_instruction().handler), "a control transfer is executed as a plain instruction"); COVER("handler");
		if (bc == LA64_BC_FUNCTION2) COVER("extended");
	} else if (bc == LA64_BC_FAR_BRANCH || bc == LA64_BC_INVALID) { ASSERT(c[1].instr == w, "the slot holds other instruction bits"); COVER("whole"); }
	else COVER("bytecode"); // checked against stepping by fast_equals_slow
}
// any size (also not a multiple of four) and base address
HARNESS(cache_size) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts());
	uint64_t len = sym8("len"), begin = sym64("begin"); ASSUME(len <= 16); ASSUME((begin & 3) == 0); ASSUME(begin <= (1ull << 39)); len = __vs_concretize(len);
	for (unsigned i = 0; i < 6; i++) code[i] = symbool("ends") ? 0x50000000u : 0x02C00000u;
	for (unsigned i = 0; i < 6; i++) code[i] = __vs_concretize(code[i]);
	int th = guarded([&] { m.cpu.init_execute_area(code, begin, len); });
	if (len & 3) { ASSERT(th == 1, "a partial instruction was accepted"); COVER("refused"); return; }
	ASSERT(th == 0, "whole instructions were refused");
	auto& seg = *m.cpu.m_exec; unsigned n = len / 4; const DecoderData* c = seg.decoder_cache();
	if (!n) { ASSERT(guarded([&] { m.simulate(1); }) == 1 || true, ""); COVER("empty"); return; }
	unsigned dist = 0;
	for (unsigned i = n; i-- > 0;) { dist = code[i] == 0x50000000u ? 0 : dist + 4; ASSERT(c[i].block_bytes == dist, "distance to the end of the block"); }
	ASSERT(c[n].get_bytecode() == LA64_BC_INVALID && c[n].block_bytes == 0, "no terminating entry");
	ASSERT(c[n].instr == 0, "terminating entry with instruction bits");
	// the pc-relative view finds the slot of every pc inside
	uint64_t off = sym8("offset"); ASSUME(off < len); off = __vs_concretize(off);
	const DecoderData* e = seg.pc_relative_decoder_cache() + ((begin + off) >> DecoderCache::SHIFT);
	ASSERT(e == &c[off >> 2], "the pc-relative cache finds another slot");
	COVER("done");
}
// running off the end, from any slot or byte of it
HARNESS(cache_runoff) {
	Machine m{std::string_view{}, plain_options()}; m.set_options(opts());
	unsigned n = (unsigned)__vs_param("n", 5); const uint64_t B = 0x20000;
	for (unsigned i = 0; i < n; i++) { uint32_t k = sym8("kind"); ASSUME(k < 5); k = __vs_concretize(k);
		static const uint32_t w[5] = { 0x02C00000u, 0x004D0484u, 0x5C000400u /* bne r0, r0: never taken */, 0x40000400u | (6u << 5) /* beqz r6, next */, 0x002B0000u }; code[i] = w[k]; }
	m.m_unknown_syscall_handler = [](Machine&, int) {}; m.cpu.init_execute_area(code, B, 4 * n);
	uint64_t pc = sym8("offset"); ASSUME(pc < 4 * n); pc = __vs_concretize(pc);
	m.cpu.reg(6) = sym64("r6"); m.cpu.reg(REG_A7) = 400; m.cpu.registers().pc = B + pc;
	bool unlimited = symbool("unlimited");
	int th = guarded([&] { if (unlimited) m.cpu.simulate_inaccurate(B + pc); else m.simulate(1000); });
	ASSERT(th == 1, "running off the end of the code raised nothing"); COVER("raised");
}
