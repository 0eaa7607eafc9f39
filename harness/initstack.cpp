// P27: the initial process stack.
#include "common.hpp"
extern "C" int sum_rand() asm("__vs_override__rand");
extern "C" __attribute__((used)) int sum_rand() { return (int)(sym32("rand") & 0x7FFFFFFF); }
static constexpr uint64_t SZ = 0x40000, DATA = 0x4000;
static const unsigned lens[] = { 0, 1, 7, 8, 15, 16, 17, 40 };
static std::string str(const char* what) { unsigned n = sym8(what); ASSUME(n < __vs_param("lens", 4)); n = lens[__vs_concretize(n) * (8 / __vs_param("lens", 4)) % 8]; std::string s(n, 'x'); for (unsigned i = 0; i < n; i++) { char c = (char)sym8("char"); ASSUME(c != 0); s[i] = c; } return s; }
HARNESS(initial_stack) {
	Machine m{std::string_view{}, plain_options()}; give_arena(m, Geo{SZ, 0x1000, DATA}); __vs_havoc(&m.cpu.m_regs, sizeof(Registers), "regs"); m.cpu.m_regs.m_regs[0] = 0;
	unsigned na = (unsigned)__vs_param("args", 1), ne = (unsigned)__vs_param("env", 0); uint64_t sp0 = __vs_param("anysp", 0) ? sym64("sp") : 0x8000 + (sym32("sp") & 0x1FFFF); m.cpu.reg(REG_SP) = sp0;
	m.memory.set_stack_address(sp0); uint64_t start = sym64("entry"), phdr = sym64("phdr"); unsigned phn = sym32("phnum") & 0xFFFF, phe = sym32("phent") & 0xFFFF; m.memory.m_start_address = start; m.memory.m_elf_phdr_addr = phdr; m.memory.m_elf_phnum = (uint16_t)phn; m.memory.m_elf_phentsize = (uint16_t)phe;
	std::vector<std::string> args, env; for (unsigned i = 0; i < na; i++) args.push_back(str("arg")); for (unsigned i = 0; i < ne; i++) env.push_back(str("env"));
	uint64_t k = sym64("watched"); ASSUME(k < SZ); uint8_t* r = arena(m); uint8_t old = r[k]; unsigned q = sym8("reg"); ASSUME((q < 32) & (q != 3)); uint64_t qv = m.cpu.m_regs.m_regs[q];
	int th = guarded([&] { m.setup_linux(args, env); });
	ASSERT(m.cpu.m_regs.m_regs[q] == qv, "P27: stack setup changed another register");
	if (th) { ASSERT((sp0 < DATA + 0x1000) | (sp0 > SZ) | (na == 0), "P27: stack setup failed although everything fits"); COVER("refused"); return; }
	ASSERT(na > 0, "P27: a program without a name was accepted"); uint64_t sp = m.cpu.reg(REG_SP);
	ASSERT((sp & 15) == 0, "P27: initial stack pointer not aligned"); ASSERT((sp >= DATA) & (sp < sp0) & (sp0 < SZ + 16), "P27: initial stack outside writable memory"); ASSERT(((k >= sp) & (k < sp0)) | (r[k] == old), "P27: memory outside the new stack changed");
	auto word = [&](uint64_t i) { uint64_t v; memcpy(&v, r + sp + 8 * i, 8); return v; };
	ASSERT(word(0) == na, "P27: argc"); uint64_t base = 1; uint64_t lists = sp + 8 * (na + ne + 3);
	auto list = [&](const std::vector<std::string>& v) { for (auto& s : v) { uint64_t p = word(base++); ASSERT((p >= lists) & (p < sp0) & (s.size() + 1 <= sp0 - p), "P27: string outside the stack"); for (size_t i = 0; i <= s.size(); i++) ASSERT(r[p + i] == (uint8_t)s.c_str()[i], "P27: string contents"); } ASSERT(word(base++) == 0, "P27: list not terminated"); };
	list(args); list(env);
	bool f3 = false, f4 = false, f5 = false, f6 = false, f9 = false, f25 = false, fend = false; unsigned n = 0;
	for (; n < 40; n++) { uint64_t t = __vs_concretize(word(base)), v = word(base + 1); base += 2; if (t == 0) { fend = true; break; }
		if (t == 3) { f3 = true; ASSERT(v == phdr, "P27: AT_PHDR"); } if (t == 4) { f4 = true; ASSERT(v == phe, "P27: AT_PHENT"); } if (t == 5) { f5 = true; ASSERT(v == phn, "P27: AT_PHNUM"); } if (t == 6) { f6 = true; ASSERT(v == 4096, "P27: AT_PAGESZ"); } if (t == 9) { f9 = true; ASSERT(v == start, "P27: AT_ENTRY"); }
		if (t == 25) { f25 = true; ASSERT((v >= sp + 8 * base) & (v < sp0) & (sp0 - v >= 16), "P27: AT_RANDOM outside the stack"); } }
	ASSERT(fend, "P27: auxiliary vector not terminated"); ASSERT(f3 & f4 & f5 & f6 & f9 & f25, "P27: auxiliary vector incomplete"); ASSERT(sp + 8 * base <= sp0, "P27: auxiliary vector outside the stack"); COVER("stack");
}
