// P32: disassembly of every instruction word stays within its buffer and never looks at the guest.
#include "common.hpp"
HARNESS(print_word) {
	uint32_t top = (uint32_t)__vs_param("top", 0); la_instruction w; w.whole = sym32("word"); ASSUME((w.whole >> 28) == top); uint64_t pc = sym64("pc"), n = sym64("size"); ASSUME(n <= 64);
	const auto& d = CPU::decode(w); if (!d.printer) { COVER("none"); return; } char* b = (char*)malloc(n ? n : 1); static char nobody[1]; if (n == 0) b[0] = 1;
	const CPU& guest = *(const CPU*)(nobody + 1); // any look at the processor is outside an object
	int r = d.printer(b, n, guest, w, pc); ASSERT(r > 0, "P32: nothing printed"); if (n == 0) ASSERT(b[0] == 1, "P32: wrote into an empty buffer"); COVER("printed"); }
HARNESS(to_string) {
	uint32_t top = (uint32_t)__vs_param("top", 0); la_instruction w; w.whole = sym32("word"); ASSUME((w.whole >> 28) == top); Machine m{std::string_view{}, plain_options()}; Registers& r = m.cpu.registers(); r.pc = sym64("pc"); uint64_t pc = r.pc; unsigned q = sym8("reg"); ASSUME(q < 32); uint64_t v = r.m_regs[q];
	std::string t = m.cpu.to_string(w); ASSERT(t.size() > 0, "P32: nothing printed"); ASSERT((r.pc == pc) & (r.m_regs[q] == v), "P32: printing changed the guest"); COVER("printed"); }
HARNESS(current) { Machine m{std::string_view{}, plain_options()}; m.memory.allocate_custom_arena(1 << 16, 0x1000, 0x4000); __vs_havoc(arena(m), 1 << 16, "ram"); uint64_t k = sym64("watched"); ASSUME(k < 1 << 16); uint8_t kb = arena(m)[k]; Registers& r = m.cpu.registers(); uint64_t pc = sym64("pc"); r.pc = pc; bool ok = (pc >= 0x1000) & (pc < 1 << 16);
	if (ok) { uint32_t word; memcpy(&word, arena(m) + pc, 4); ASSUME((word >> 20) == __vs_param("class", 0x001)); } std::string t = m.cpu.current_instruction_to_string(); ASSERT(t.size() > 0, "P32: nothing printed"); ASSERT((r.pc == pc) & (arena(m)[k] == kb), "P32: printing changed the guest"); if (!ok) { ASSERT(t == "Invalid instruction", "P32: an instruction outside memory"); COVER("outside"); } else COVER("inside"); }
HARNESS(registers) { Machine m{std::string_view{}, plain_options()}; Registers& r = m.cpu.registers(); __vs_havoc(&r.m_regs, 256, "gpr"); r.pc = sym64("pc"); std::string t = r.to_string(); ASSERT(t.size() > 0, "P32: no registers printed"); COVER("printed"); }
// symbol names come from the image: any length, demangled or not
#include <cxxabi.h>
namespace __cxxabiv1 { extern "C" char* __cxa_demangle(const char* n, char*, size_t*, int* st) { if (!symbool("demangles")) { *st = -2; return nullptr; } *st = 0; char* p = (char*)malloc(6); memcpy(p, "f()::", 6); return p; } }
HARNESS(backtrace) {
	Machine m{std::string_view{}, plain_options()}; m.memory.allocate_custom_arena(1 << 16, 0x1000, 0x4000); __vs_havoc(arena(m), (1 << 16) + 64, "ram"); uint64_t N = __vs_param("name", 10), D = __vs_param("depth", 2); uint64_t k = sym64("watched"); ASSUME(k < 1 << 16); uint8_t kb = arena(m)[k];
	if (N) { Symbol s; s.address = sym64("symbol"); s.size = sym64("symsize"); s.name = std::string(N, 'x'); m.memory.m_symbols.push_back(s); }
	Registers& r = m.cpu.registers(); __vs_havoc(&r.m_regs, 256, "gpr"); r.m_regs[0] = 0; r.pc = sym64("pc"); uint64_t sp = r.m_regs[REG_SP], pc = r.pc; if (D < 64) ASSUME((sp < 0x1000) | (sp >= (1 << 16) - 8 * D + 8)); else ASSUME(r.m_regs[REG_RA] != 0);
	unsigned q = sym8("reg"); ASSUME(q < 32); uint64_t v = r.m_regs[q]; uint64_t a = sym64("initial"); std::string t = m.backtrace(a);
	ASSERT(t.size() >= 23 + (a != 0), "P32: backtrace without its first line"); ASSERT(t.size() <= (N + 40) * (D + 2), "P32: backtrace longer than its lines"); ASSERT((r.pc == pc) & (r.m_regs[q] == v) & (arena(m)[k] == kb), "P32: a backtrace changed the guest"); COVER("printed"); }
HARNESS(backtrace_deep) { // always another return address: ends all the same
	Machine m{std::string_view{}, plain_options()}; m.memory.allocate_custom_arena(1 << 16, 0x1000, 0x4000); memset(arena(m), 0x41, 1 << 16); Registers& r = m.cpu.registers(); r.pc = sym64("pc"); r.m_regs[REG_RA] = 4; uint64_t sp = sym64("sp"); ASSUME((sp >= 0x1000) & (sp < (1 << 16) - 0x400)); r.m_regs[REG_SP] = sp;
	std::string t = m.backtrace(); ASSERT(t.size() <= 100 * 30, "P32: backtrace without end"); COVER("printed"); }
