// P19: the guest mapping allocator, one step from any state the allocator can be in.
#include "elfimg.hpp"
static constexpr uint64_t SZ = 1 << 20;
struct St { Machine* m; uint64_t S, T, k; uint8_t old; uint8_t* ram; unsigned q; uint64_t qv; };
static void setup(St& s) {
	static uint32_t code[4] = { 0x4C000020u, 0x4C000020u, 0x4C000020u, 0x4C000020u }; static Img img; img.program(code, 4, nullptr, 0, Img::TEXT);
	MachineOptions o = plain_options(); o.memory_max = SZ; o.stack_size = __vs_param("stack", 4096); o.brk_size = __vs_param("brk", 4096); s.m = new Machine(img.view(), o); s.m->setup_linux_syscalls();
	s.S = s.m->memory.mmap_address(); ASSERT(s.S <= SZ, "P19: the initial mapping area is outside memory"); ASSERT((s.S >= s.m->memory.stack_address()) & (s.S >= s.m->memory.brk_address()) & ((s.S & 4095) == 0), "P19: the mapping area overlaps the stack or heap");
	s.T = sym64("top"); ASSUME((s.T >= s.S) & (s.T <= SZ) & ((s.T & 4095) == 0)); s.m->memory.m_mmap_address = s.T;
	s.ram = arena(*s.m); __vs_havoc(s.ram, SZ, "ram"); s.k = sym64("watched"); ASSUME(s.k < SZ); s.old = s.ram[s.k]; ASSUME((s.k < s.T) | (s.old == 0)); // never-mapped memory is untouched
	__vs_havoc(&s.m->cpu.m_regs.m_regs, sizeof(s.m->cpu.m_regs.m_regs), "gpr"); s.m->cpu.m_regs.m_regs[0] = 0; s.q = sym8("reg"); ASSUME((s.q < 32) & (s.q != 4)); s.qv = s.m->cpu.m_regs.m_regs[s.q];
}
static uint64_t A(St& s, unsigned i) { return s.m->cpu.m_regs.m_regs[4 + i]; }
static uint64_t sys(St& s, unsigned n) { int th = guarded([&] { s.m->system_call(n); }); ASSERT(th == 0, "P19: a mapping call raised"); ASSERT(s.m->cpu.m_regs.m_regs[s.q] == s.qv, "P19: a mapping call changed a register"); return A(s, 0); }
static uint64_t top(St& s) { return s.m->memory.mmap_address(); }
static bool error(uint64_t r) { return r >= (uint64_t)-4095ll; }
HARNESS(map_anon) { St s; setup(s); uint64_t len = A(s, 1), addr = A(s, 0), flags = A(s, 3); ASSUME((addr == 0) | ((flags & 0x10) == 0)); uint64_t r = sys(s, 222);
	ASSERT(s.ram[s.k] == s.old, "P19: mapping changed memory");
	if (error(r)) { ASSERT(top(s) == s.T, "P19: a refused mapping moved the allocator"); ASSERT((len == 0) | (len > SZ - s.T), "P19: a mapping that fits was refused"); COVER("refused"); return; }
	ASSERT((r & 4095) == 0, "P19: mapping not page aligned"); ASSERT((r >= s.T) & (r <= SZ), "P19: mapping overlaps an earlier one"); ASSERT(len <= SZ - r, "P19: mapping leaves guest memory"); ASSERT((top(s) >= r) & (top(s) - r >= len) & (top(s) <= SZ) & ((top(s) & 4095) == 0), "P19: the allocator may hand the mapping out again"); ASSERT(len != 0, "P19: an empty mapping was granted"); COVER("mapped"); }
HARNESS(map_fixed) { St s; setup(s); uint64_t len = A(s, 1), addr = A(s, 0), flags = A(s, 3); ASSUME((addr != 0) & ((flags & 0x10) != 0)); uint64_t r = sys(s, 222);
	ASSERT(top(s) == s.T, "P19: a fixed mapping moved the allocator"); if (error(r)) { COVER("refused"); return; }
	ASSERT(r == addr, "P19: a fixed mapping went elsewhere"); ASSERT((addr & 4095) == 0, "P19: fixed mapping not page aligned"); ASSERT((addr < s.T) & (len <= s.T - addr), "P19: fixed mapping outside the mapped part of memory"); ASSERT((s.ram[s.k] == s.old) | ((s.k - addr) < ((len + 4095) & ~4095ull)), "P19: a fixed mapping changed other memory"); COVER("mapped"); }
HARNESS(unmap) { St s; setup(s); uint64_t addr = A(s, 0), len = A(s, 1), t; bool host = __vs_param("host", 0); if (host) { ASSERT(guarded([&] { s.m->memory.mmap_deallocate(addr, len); }) == 0, "P19: unmapping raised"); } else sys(s, 215); t = top(s);
	if (t == s.T) { ASSERT(s.ram[s.k] == s.old, "P19: an unmapping without effect changed memory"); COVER("kept"); return; }
	ASSERT(t == addr, "P19: unmapping moved the allocator to another place"); ASSERT((t >= s.S) & (t < s.T) & ((t & 4095) == 0), "P19: unmapping released memory that was never mapped"); ASSERT((len <= s.T - t) & (s.T - t - len < 4096), "P19: unmapping released more than it names");
	ASSERT((s.k >= t) & (s.k < s.T) ? s.ram[s.k] == 0 : s.ram[s.k] == s.old, "P19: released memory keeps its contents, or other memory changed"); COVER("released"); }
HARNESS(host_map) { St s; setup(s); uint64_t len = sym64("size"), r = 0; int th = guarded([&] { r = s.m->memory.mmap_allocate(len); }); ASSERT(s.ram[s.k] == s.old, "P19: mapping changed memory");
	if (th) { ASSERT(top(s) == s.T, "P19: a refused mapping moved the allocator"); ASSERT(len > SZ - s.T, "P19: a mapping that fits was refused"); COVER("refused"); return; }
	ASSERT((r & 4095) == 0, "P19: mapping not page aligned"); ASSERT((r >= s.T) & (r <= SZ) & (len <= SZ - r), "P19: mapping leaves guest memory"); ASSERT((top(s) >= r) & (top(s) - r >= len) & (top(s) <= SZ) & ((top(s) & 4095) == 0), "P19: the allocator may hand the mapping out again"); COVER("mapped"); }
// three calls in a row: live ranges stay apart, a re-used range is empty
HARNESS(history) { St s; setup(s); struct R { uint64_t a, n; } live[4]; unsigned n = 0; unsigned steps = (unsigned)__vs_param("steps", 3);
	for (unsigned i = 0; i < steps; i++) { uint64_t a = sym32("a0"), l = sym32("a1"); s.m->cpu.m_regs.m_regs[4] = a; s.m->cpu.m_regs.m_regs[5] = l; unsigned op = (unsigned)(__vs_param("ops", 0) >> i & 1); s.qv = s.m->cpu.m_regs.m_regs[s.q];
		if (op == 0) { ASSUME(a == 0); uint64_t r = sys(s, 222); if (!error(r)) { for (unsigned j = 0; j < n; j++) ASSERT((live[j].n == 0) | (r >= live[j].a + live[j].n) | (r + l <= live[j].a), "P19: two live mappings overlap"); if ((s.k >= s.T) & (s.k >= r) & (s.k - r < l)) ASSERT(s.ram[s.k] == 0, "P19: a new mapping is not empty"); if ((s.k >= s.T) & (s.k >= r) & (s.k - r < l)) { s.ram[s.k] = 1; COVER("written"); } live[n++] = { r, l }; } }
		else { sys(s, 215); for (unsigned j = 0; j < n; j++) if ((a <= live[j].a + live[j].n) & (l > 0)) { uint64_t e = a + l; e = e < a ? ~0ull : e; uint64_t end = (e + 4095 < e ? ~0ull : e + 4095) & ~4095ull; if ((a <= live[j].a) & (end >= live[j].a + live[j].n)) live[j].n = 0; else if ((a > live[j].a) & (a < live[j].a + live[j].n) & (end >= live[j].a + live[j].n)) live[j].n = a - live[j].a; } } }
	COVER("history"); }
