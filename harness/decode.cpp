// P08: the instruction decoder against the ISA's encoding table, for every 32-bit word.
#include "common.hpp"
#include <libloong/la_instr_enum.hpp>
#include "isa_table.hpp"
struct Row { InstrId id; uint32_t match, mask; };
#define ISA(n, m, k) { InstrId::n, m, k },
static const Row rows[] = { ISA_TABLE(ISA) };
#undef ISA
static constexpr unsigned NROWS = sizeof(rows) / sizeof(rows[0]);
static bool unsupported(const CPU::instruction_t& i) { return (&i == &CPU::get_unimplemented_instruction()) | (&i == &CPU::get_invalid_instruction()); }

// Soundness: whatever a word decodes to, the word is an ISA encoding of that instruction.
HARNESS(decode_sound) {
	uint32_t top = (uint32_t)__vs_param("top", 0);
	la_instruction w; w.whole = sym32("word"); ASSUME((w.whole >> 29) == top);
	const auto& d = CPU::decode(w);
	if (unsupported(d)) { COVER("unsupported"); return; }
	COVER("decoded");
	bool ok = false;
	if (d.id == InstrId::NOP) ok = ((w.whole & 0xFFC00000u) == 0x03400000u) & ((w.whole & 31) == 0); // `andi $zero, rj, imm` is a no-op
	for (unsigned i = 0; i < NROWS; i++) if (rows[i].id == d.id) ok |= (w.whole & rows[i].mask) == rows[i].match;
	ASSERT(ok, "P08: a word decodes to an instruction it does not encode");
	const auto& d2 = CPU::decode(w);
	ASSERT(&d == &d2, "P08: decoding is not deterministic");
}
// Completeness: every encoding of an instruction the library supports decodes to it.
HARNESS(decode_complete) {
	unsigned lo = (unsigned)__vs_param("lo", 0), hi = (unsigned)__vs_param("hi", NROWS); if (hi > NROWS) hi = NROWS;
	uint64_t k = sym64("row"); ASSUME((k >= lo) & (k < hi)); k = __vs_concretize(k);
	la_instruction w; uint32_t f = sym32("fields"); w.whole = rows[k].match | (f & ~rows[k].mask);
	// `andi $zero, rj, imm` is the architectural no-op
	if (((w.whole & 0xFFC00000u) == 0x03400000u) & ((w.whole & 31) == 0)) { const auto& d = CPU::decode(w); COVER("row"); ASSERT((d.id == InstrId::NOP) | (d.id == InstrId::ANDI), "P08: a no-op decodes to something else"); return; }
	const auto& d = CPU::decode(w);
	COVER("row");
	ASSERT(!unsupported(d), "P08: an encoding of a supported instruction is not recognised");
	ASSERT(d.id == rows[k].id, "P08: an encoding of a supported instruction decodes to another one");
}
// Executing an unsupported word: an exception, and nothing changes.
HARNESS(decode_unsupported) {
	bool inv = symbool("invalid");
	Machine m{std::string_view{}, plain_options()};
	Registers& r = m.cpu.registers(); Registers old;
	__vs_havoc(&r, sizeof(r), "regs"); memcpy((void*)&old, (void*)&r, sizeof(r));
	la_instruction w; w.whole = sym32("word");
	const auto& d = inv ? CPU::get_invalid_instruction() : CPU::get_unimplemented_instruction();
	int th = guarded([&] { d.handler(m.cpu, w); });
	ASSERT(th == 1, "P08: executing an unsupported word raised no exception");
	COVER("raised");
	bool same = true; const uint64_t* a = (const uint64_t*)&r; const uint64_t* b = (const uint64_t*)&old;
	for (unsigned i = 0; i < sizeof(r) / 8; i++) same &= a[i] == b[i];
	ASSERT(same, "P08: an unsupported word changed the registers");
}
