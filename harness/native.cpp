// P17: accelerated memory and string calls against the C library's definitions.
#include "elfimg.hpp"
static const char* const names[9][4] = {
	{ "__memcpy_lsx", "__memcpy_lasx", "__memcpy_aligned", "__memcpy_unaligned" }, { "__memset_lsx", "__memset_lasx", "__memset_aligned", "__memset_unaligned" },
	{ "__memcmp_lsx", "__memcmp_lasx", "__memcmp_aligned", nullptr }, { "__memmove_lsx", "__memmove_lasx", "__memmove_aligned", "__memmove_unaligned" },
	{ "__memchr_lsx", "__memchr_lasx", "__memchr_aligned", nullptr }, { "__strlen_lsx", "__strlen_lasx", "__strlen_aligned", nullptr },
	{ "__strnlen_lsx", "__strnlen_lasx", "__strnlen_aligned", nullptr }, { "__strcmp_lsx", "__strcmp_lasx", "__strcmp_aligned", nullptr }, { "__strncmp_lsx", "__strncmp_lasx", "__strncmp_aligned", nullptr } };
enum { MEMCPY, MEMSET, MEMCMP, MEMMOVE, MEMCHR, STRLEN, STRNLEN, STRCMP, STRNCMP };
static uint64_t g_watch = ~0ull; static uint8_t* g_base; static uint64_t g_maxlen = 6;
#ifdef SUM
// Strings of any length: a scan returns any position consistent with the memory at the watched index (an over-approximation
// of the C library's scan that still checks every byte it may read lies inside the allocation).
extern "C" __attribute__((used)) size_t sum_strnlen(const char* s, size_t n) asm("__vs_override__strnlen");
extern "C" __attribute__((used)) size_t sum_strnlen(const char* s, size_t n) {
	if (n == 0) return 0;
	size_t l = sym64("scan"); ASSUME(l <= n); __vs_touch(s, l + (l < n), "string scan");
	uint64_t o = (const uint8_t*)s - g_base; ASSUME((l == n) | (s[l < n ? l : 0] == 0)); ASSUME(!((g_watch - o) < l) | (g_base[g_watch] != 0));
	return l;
}
extern "C" __attribute__((used)) void* sum_memchr(const void* p, int c, size_t n) asm("__vs_override__memchr");
extern "C" __attribute__((used)) void* sum_memchr(const void* p, int c, size_t n) {
	if (n == 0) return nullptr;
	const uint8_t* s = (const uint8_t*)p; size_t l = sym64("scan"); ASSUME(l <= n); __vs_touch(s, l + (l < n), "memchr scan");
	uint64_t o = s - g_base; ASSUME((l == n) | (s[l < n ? l : 0] == (uint8_t)c)); ASSUME(!((g_watch - o) < l) | (g_base[g_watch] != (uint8_t)c));
	return l < n ? (void*)(s + l) : nullptr;
}
#endif
static constexpr uint64_t SZ = 1 << 20;
struct Call {
	Machine* m; uint64_t ro, data; uint8_t* ram; uint64_t k; uint8_t old; uint64_t a0, a1, a2, slot;
	Call(unsigned f) {
		static uint32_t code[16]; static ImgSym sy[4]; unsigned ns = 0; for (unsigned i = 0; i < 16; i++) code[i] = 0x4C000020u; // ret
		for (unsigned i = 0; i < 4 && names[f][i]; i++) { sy[ns++] = { names[f][i], Img::TEXT + 16 * i, 4 }; }
		static Img img; img.program(code, 16, sy, ns, Img::TEXT + 60);
		MachineOptions o = plain_options(); o.memory_max = SZ; o.stack_size = 4096; o.brk_size = 4096;
		m = new Machine(img.view(), o); m->setup_accelerated_syscalls();
		ro = Img::TEXT; data = Img::DATA; ram = arena(*m); __vs_havoc(ram, SZ, "ram"); g_base = ram;
		a0 = sym64("a0"); a1 = sym64("a1"); a2 = sym64("a2"); k = sym64("watched"); ASSUME(k < SZ); old = ram[k]; g_watch = k;
		uint64_t alias = __vs_param("alias", 9); if (alias > 3) { alias = sym8("alias"); ASSUME(alias < ns); alias = __vs_concretize(alias); }
		slot = Img::TEXT + 16 * alias;
	}
	// through the patched function, as a guest call with a return address
	int go() {
		auto& r = m->cpu.registers(); r.pc = slot; m->cpu.reg(REG_A0) = a0; m->cpu.reg(REG_A1) = a1; m->cpu.reg(REG_A2) = a2; m->cpu.reg(REG_RA) = Img::TEXT + 60;
		m->install_syscall_handler(93, nullptr);
		return guarded([&] { m->simulate(1); });
	}
	uint64_t res() { return m->cpu.reg(REG_A0); }
	uint64_t room(uint64_t lo, uint64_t a) const { return (a >= lo) & (a < SZ) ? SZ - a : 0; }
	bool rd(uint64_t a, uint64_t n) const { return (n <= room(ro, a)) & (a >= ro) & (a < SZ); }
	bool wr(uint64_t a, uint64_t n) const { return (n <= room(data, a)) & (a >= data) & (a < SZ); }
	uint8_t at(uint64_t a) const { return ram[a < SZ ? a : 0]; }
	void same(const char* m) { ASSERT(ram[k] == old, m); }
};
HARNESS(nat_memcpy) {
	bool mv = __vs_param("move", 0); Call c(mv ? MEMMOVE : MEMCPY); uint64_t n = c.a2;
	uint64_t off = c.k - c.a0; uint8_t src = c.at(c.a1 + off); bool overlap = (c.a0 - c.a1 < n) | (c.a1 - c.a0 < n);
	bool ok = c.wr(c.a0, n) & c.rd(c.a1, n);
	int th = c.go();
	if (th) { COVER("fault"); ASSERT(!ok | (n == 0), "P17: copy refused valid ranges"); c.same("P17: refused copy changed memory"); if (n == 0) ASSERT(!ok, "P17: empty copy of valid ranges refused"); return; }
	COVER("ok"); ASSERT(ok | (n == 0), "P17: copy accepted a range outside guest memory"); ASSERT(c.res() == c.a0, "P17: copy returns its destination");
	if (off < n) { if (mv | !overlap) ASSERT(c.ram[c.k] == src, "P17: copied byte"); } else c.same("P17: copy changed another byte");
}
HARNESS(nat_memset) {
	Call c(MEMSET); uint64_t n = c.a2; bool ok = c.wr(c.a0, n); int th = c.go();
	if (th) { COVER("fault"); ASSERT(!ok, "P17: fill refused a valid range"); c.same("P17: refused fill changed memory"); return; }
	COVER("ok"); ASSERT(ok | (n == 0), "P17: fill accepted a range outside writable memory"); ASSERT(c.res() == c.a0, "P17: fill returns its destination");
	ASSERT(c.ram[c.k] == (c.k - c.a0 < n ? (uint8_t)c.a1 : c.old), "P17: fill effect");
}
static int sgn(int64_t x) { return (x > 0) - (x < 0); }
HARNESS(nat_memcmp) {
	Call c(MEMCMP); uint64_t n = c.a2, N = __vs_param("n", 8); bool big = __vs_param("big", 0); if (!big) ASSUME((n <= N)); else ASSUME(n > 32);
	bool ok = c.rd(c.a0, n) & c.rd(c.a1, n); int want = 0;
	if (!big) for (uint64_t i = N; i-- > 0;) { int x = c.at(c.a0 + i), y = c.at(c.a1 + i); want = (i < n) & (x != y) ? (x < y ? -1 : 1) : want; }
	int th = c.go(); c.same("P17: compare changed memory");
	if (th) { COVER("fault"); ASSERT(!ok, "P17: compare refused valid ranges"); return; }
	COVER("ok"); ASSERT(ok | (n == 0), "P17: compare accepted a range outside guest memory");
	int64_t r = (int64_t)c.res(); if (!big) { ASSERT(r == (int32_t)r, "P17: comparison result is not a sign-extended int"); ASSERT(sgn(r) == want, "P17: comparison result"); }
}
HARNESS(nat_memchr) {
	Call c(MEMCHR); uint64_t n = c.a2; bool ok = c.rd(c.a0, n);
#ifndef SUM
	uint64_t N = __vs_param("n", 5); ASSUME((n <= N) | (n > SZ)); uint64_t want = 0; for (uint64_t i = N; i-- > 0;) want = (i < n) & (c.at(c.a0 + i) == (uint8_t)c.a1) ? c.a0 + i : want;
#endif
	int th = c.go(); c.same("P17: memchr changed memory");
	if (th) { COVER("fault"); ASSERT(!ok, "P17: memchr refused a valid range"); return; }
	uint64_t r = c.res(); COVER("ok"); ASSERT(ok | (n == 0), "P17: memchr accepted a range outside guest memory");
#ifndef SUM
	ASSERT(r == want, "P17: memchr result");
#else
	if (r) { ASSERT(r - c.a0 < n, "P17: memchr found a byte outside the range"); ASSERT(c.at(r) == (uint8_t)c.a1, "P17: memchr found another byte"); ASSERT(!(c.k - c.a0 < r - c.a0) | (c.old != (uint8_t)c.a1), "P17: memchr skipped a match"); COVER("found"); }
	else { ASSERT(!(c.k - c.a0 < n) | (c.old != (uint8_t)c.a1), "P17: memchr missed a match"); COVER("missing"); }
#endif
}
HARNESS(nat_strlen) {
	bool lim = __vs_param("strn", 0); Call c(lim ? STRNLEN : STRLEN); uint64_t n = lim ? c.a1 : ~0ull, a = c.a0;
#ifndef SUM
	uint64_t N = __vs_param("n", 5); uint64_t len = ~0ull; for (uint64_t i = N + 1; i-- > 0;) len = (a + i < SZ) & (c.at(a + i) == 0) ? i : len;
	ASSUME((len <= N) | (n <= N) | (a >= SZ - N) | (a < c.ro)); bool term = (len < n) & (a < SZ) & (a >= c.ro); uint64_t want = term ? len : n;
#endif
	int th = c.go(); c.same("P17: strlen changed memory"); uint64_t r = c.res();
#ifndef SUM
	bool ok = term | ((n != ~0ull) & c.rd(a, n)) ;
	if (th) { COVER("fault"); ASSERT(!ok, "P17: string length of a valid string refused"); return; }
	COVER("ok"); ASSERT(ok | (n == 0), "P17: string outside guest memory accepted"); ASSERT(r == want, "P17: string length");
#else
	if (th) { COVER("fault"); // the string leaves guest memory before it ends: no terminator up to the last byte, and the limit lies beyond
		ASSERT((a < c.ro) | (a >= SZ) | ((n > SZ - a) & (!(c.k - a < SZ - a) | (c.old != 0))), "P17: string length of a valid string refused"); return; }
	COVER("ok"); if (n == 0) { ASSERT(r == 0, "P17: empty limit"); return; }
	ASSERT((a >= c.ro) & (a < SZ), "P17: string outside guest memory accepted"); ASSERT(r <= n, "P17: length beyond the limit"); ASSERT(r <= SZ - a, "P17: length beyond guest memory");
	ASSERT(!(c.k - a < r) | (c.old != 0), "P17: terminator skipped"); ASSERT((r == n) | ((r < SZ - a) & (c.at(a + r) == 0)), "P17: length without a terminator");
#endif
}
HARNESS(nat_strcmp) {
	bool lim = __vs_param("strn", 0); Call c(lim ? STRNCMP : STRCMP); uint64_t n = lim ? c.a2 : ~0ull, a = c.a0, b = c.a1, N = __vs_param("n", 3);
	// walk both strings as C defines: until the limit, a difference or the terminator
	int want = 0; bool fault = false, done = n == 0;
	for (uint64_t i = 0; i <= N; i++) {
		bool out = (a + i >= SZ) | (a + i < c.ro) | (b + i >= SZ) | (b + i < c.ro); int x = c.at(a + i), y = c.at(b + i);
		fault = fault | (!done & out); bool diff = !done & !out & (x != y); want = diff ? (x < y ? -1 : 1) : want;
		done = done | out | diff | (x == 0) | (i + 1 >= n);
	}
	ASSUME(done);
	// the accelerated calls measure both strings first: strings that end inside guest memory within the bound
	bool ta = false, tb = false; for (uint64_t i = 0; i <= N; i++) { ta = ta | ((a + i < SZ) & (c.at(a + i) == 0)); tb = tb | ((b + i < SZ) & (c.at(b + i) == 0)); }
	ASSUME((ta | (a >= SZ - N) | (a < c.ro) | (n <= N)) & (tb | (b >= SZ - N) | (b < c.ro) | (n <= N)));
	int th = c.go(); c.same("P17: strcmp changed memory");
	bool ra = ta | ((n <= N + 1) & (a + n <= SZ)), rb = tb | ((n <= N + 1) & (b + n <= SZ)); bool inr = (a >= c.ro) & (a < SZ) & (b >= c.ro) & (b < SZ);
	if (th) { COVER("fault"); ASSERT(!(ra & rb & inr), "P17: string comparison of valid strings refused"); return; }
	COVER("ok"); int64_t r = (int64_t)c.res(); ASSERT(!fault | (n == 0), "P17: comparison past guest memory accepted"); ASSERT(r == (int32_t)r, "P17: comparison result is not a sign-extended int"); ASSERT(sgn(r) == want, "P17: string comparison result");
}
