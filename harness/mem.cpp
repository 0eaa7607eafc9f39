// P01-P03: the host side of guest memory access.
#include "common.hpp"
// One arbitrary byte of the arena, watched across an operation.
struct Watch { uint64_t k; uint8_t old; };
static Watch watch(Machine& m, const Geo& g) { Watch w; w.k = sym64("watched"); ASSUME(w.k < g.size + 64); w.old = arena(m)[w.k]; return w; }

template <class T> static void do_read() {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(); give_arena(m, g);
	uint64_t a = sym64("addr"); Watch w = watch(m, g);
	T v{}; int th = guarded([&] { v = m.memory.read<T>(a); });
	if (th) { COVER("read-fault"); ASSERT((a < g.ro) | (a >= g.size), "P01: load from guest memory faulted"); }
	else { COVER("read-ok"); ASSERT((a >= g.ro) & (a < g.size), "P01: load outside guest memory succeeded");
		uint8_t b[sizeof(T)]; memcpy(b, &v, sizeof(T)); uint64_t i = sym64("byte"); ASSUME(i < sizeof(T)); ASSERT(b[i] == arena(m)[a + i], "P05: load returned other bytes"); }
	ASSERT(arena(m)[w.k] == w.old, "P01: load changed guest memory");
}
template <class T> static void do_write() {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(); give_arena(m, g);
	uint64_t a = sym64("addr"); Watch w = watch(m, g); T v = sym<T>("value");
	int th = guarded([&] { m.memory.write<T>(a, v); });
	if (th) { COVER("write-fault"); ASSERT((a < g.data) | (a >= g.size), "P01: store to writable guest memory faulted"); ASSERT(arena(m)[w.k] == w.old, "P02: faulting store changed memory"); }
	else { COVER("write-ok"); ASSERT((a >= g.data) & (a < g.size), "P02: store outside the writable part succeeded");
		uint8_t b[sizeof(T)]; memcpy(b, &v, sizeof(T));
		uint64_t off = w.k - a; uint8_t want = off < sizeof(T) ? b[off % sizeof(T)] : w.old;
		ASSERT(arena(m)[w.k] == want, "P02: store changed another byte or stored a wrong value"); }
}
HARNESS(read8) { do_read<uint8_t>(); }
HARNESS(read16) { do_read<uint16_t>(); }
HARNESS(read32) { do_read<uint32_t>(); }
HARNESS(read64) { do_read<uint64_t>(); }
HARNESS(write8) { do_write<uint8_t>(); }
HARNESS(write16) { do_write<uint16_t>(); }
HARNESS(write32) { do_write<uint32_t>(); }
HARNESS(write64) { do_write<uint64_t>(); }

// ---- bulk interface
static uint64_t room(const Geo& g, uint64_t lo, uint64_t a) { return (a >= lo) & (a < g.size) ? g.size - a : 0; }
HARNESS(copy_to) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); give_arena(m, g);
	uint64_t a = sym64("addr"), n = sym64("len"); uint64_t cap = sym64("hostcap"); ASSUME(cap <= (1ull << 21));
	Watch w = watch(m, g);
	// the caller vouches for its own buffer only up to the size it passes
	ASSUME((n <= cap) | (n > (1ull << 21)));
	uint8_t* src = new uint8_t[cap + 1]; __vs_havoc(src, cap + 1, "host");
	int th = guarded([&] { m.memory.copy_to_guest(a, src, n); });
	bool inside = (n <= room(g, g.data, a)) & (a >= g.data) & (a < g.size);
	if (th) { COVER("fault"); ASSERT(!inside | (n == 0), "P03: copy_to_guest refused a valid range"); ASSERT(arena(m)[w.k] == w.old, "P02: refused copy changed memory"); }
	else { COVER("ok"); ASSERT(inside | (n == 0), "P03: copy_to_guest accepted a range outside writable memory");
		uint64_t off = w.k - a; uint8_t want = off < n ? src[off % (cap + 1)] : w.old; ASSERT(arena(m)[w.k] == want, "P03: copy_to_guest effect"); }
}
HARNESS(copy_from) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); give_arena(m, g);
	uint64_t a = sym64("addr"), n = sym64("len"); uint64_t cap = sym64("hostcap"); ASSUME(cap <= (1ull << 21)); ASSUME((n <= cap) | (n > (1ull << 21)));
	Watch w = watch(m, g); uint8_t* dst = new uint8_t[cap + 1]; __vs_havoc(dst, cap + 1, "host"); uint64_t i = sym64("i"); ASSUME(i <= cap); uint8_t oldd = dst[i];
	int th = guarded([&] { m.memory.copy_from_guest(dst, a, n); });
	bool inside = (n <= room(g, g.ro, a)) & (a >= g.ro) & (a < g.size);
	if (th) { COVER("fault"); ASSERT(!inside | (n == 0), "P03: copy_from_guest refused a valid range"); ASSERT(dst[i] == oldd, "P03: refused copy changed the buffer"); }
	else { COVER("ok"); ASSERT(inside | (n == 0), "P03: copy_from_guest accepted a range outside guest memory");
		uint8_t want = i < n ? arena(m)[a + i < g.size ? a + i : 0] : oldd; ASSERT(dst[i] == want, "P03: copy_from_guest effect"); }
	ASSERT(arena(m)[w.k] == w.old, "P03: copy_from_guest changed guest memory");
}
HARNESS(fill) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(); give_arena(m, g);
	uint64_t a = sym64("addr"), n = sym64("len"); uint8_t v = sym8("value"); Watch w = watch(m, g);
	int th = guarded([&] { m.memory.memset(a, v, n); });
	bool inside = (n <= room(g, g.data, a)) & (a >= g.data) & (a < g.size);
	if (th) { COVER("fault"); ASSERT(!inside | (n == 0), "P03: memset refused a valid range"); ASSERT(arena(m)[w.k] == w.old, "P02: refused memset changed memory"); }
	else { COVER("ok"); ASSERT(inside | (n == 0), "P03: memset accepted a range outside writable memory"); ASSERT(arena(m)[w.k] == (w.k - a < n ? v : w.old), "P03: memset effect"); }
}
HARNESS(compare) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); give_arena(m, g);
	uint64_t a = sym64("addr"), b = sym64("addr2"), n = sym64("len"), N = __vs_param("n", 8); Watch w = watch(m, g);
	bool ia = (n <= room(g, g.ro, a)) & (a >= g.ro) & (a < g.size), ib = (n <= room(g, g.ro, b)) & (b >= g.ro) & (b < g.size);
	if (!(ia & ib)) { // must be refused, whatever the length
		int th = guarded([&] { m.memory.memcmp(a, b, n); }); COVER("fault"); ASSERT(th | (n == 0), "P03: memcmp accepted a range outside guest memory"); ASSERT(arena(m)[w.k] == w.old, "P03: memcmp changed guest memory"); return; }
	ASSUME(n <= N); n = __vs_concretize(n); int want = 0; for (uint64_t i = n; i-- > 0;) { int x = arena(m)[a + i], y = arena(m)[b + i]; want = x != y ? x - y : want; }
	int r = 0; int th = guarded([&] { r = m.memory.memcmp(a, b, n); });
	ASSERT(!th, "P03: memcmp refused valid ranges"); COVER("ok"); ASSERT((want < 0) == (r < 0), "P03: memcmp less"); ASSERT((want > 0) == (r > 0), "P03: memcmp greater");
	ASSERT(arena(m)[w.k] == w.old, "P03: memcmp changed guest memory");
}
template <class T, bool WR> static void do_array() {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(); give_arena(m, g); uint64_t a = sym64("addr"), n = sym64("count"); uint64_t lo = WR ? g.data : g.ro;
	const T* p = nullptr; int th = guarded([&] { if constexpr (WR) p = m.memory.writable_memarray<T>(a, n); else p = m.memory.memarray<T>(a, n); });
	bool inside = (a >= lo) & (a < g.size) & (n <= room(g, lo, a) / sizeof(T));
	if (th) { COVER("fault"); ASSERT(!inside | (n == 0), "P03: a view of a valid array was refused"); }
	else { COVER("ok"); ASSERT(inside | (n == 0), "P03: a view outside guest memory was granted"); ASSERT((n == 0) | ((const uint8_t*)p == arena(m) + a), "P03: a view of another place"); }
}
struct Twelve { uint32_t a, b, c; };
HARNESS(array1) { do_array<char, false>(); }
HARNESS(array8) { do_array<uint64_t, false>(); }
HARNESS(array12) { do_array<Twelve, false>(); }
HARNESS(warray1) { do_array<char, true>(); }
HARNESS(warray8) { do_array<uint64_t, true>(); }
HARNESS(warray12) { do_array<Twelve, true>(); }
HARNESS(view) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(); give_arena(m, g); uint64_t a = sym64("addr"), n = sym64("len");
	std::string_view v; int th = guarded([&] { v = m.memory.memview(a, n); });
	bool inside = (n <= room(g, g.ro, a)) & (a >= g.ro) & (a < g.size);
	if (th) { COVER("fault"); ASSERT(!inside | (n == 0), "P03: a valid view was refused"); }
	else { COVER("ok"); ASSERT(v.size() == n, "P03: view of another length"); ASSERT(inside | (n == 0), "P03: a view outside guest memory was granted"); ASSERT((n == 0) | ((const uint8_t*)v.data() == arena(m) + a), "P03: a view of another place"); }
}
#ifdef SUM
// see native.cpp: any result of a scan consistent with the watched byte, every byte it reads checked
static uint64_t g_watch = ~0ull; static const uint8_t* g_base;
extern "C" __attribute__((used)) size_t sum_strnlen(const char* s, size_t n) asm("__vs_override__strnlen");
extern "C" __attribute__((used)) size_t sum_strnlen(const char* s, size_t n) {
	if (n == 0) return 0;
	size_t l = sym64("scan"); ASSUME(l <= n); __vs_touch(s, l + (l < n), "string scan");
	uint64_t o = (const uint8_t*)s - g_base; ASSUME((l == n) | (s[l < n ? l : 0] == 0)); ASSUME(!((g_watch - o) < l) | (g_base[g_watch] != 0));
	return l;
}
HARNESS(measure) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); give_arena(m, g); Watch w = watch(m, g); ASSUME(w.k < g.size); g_watch = w.k; g_base = arena(m);
	uint64_t a = sym64("addr"), n = sym64("maxlen"), r = 0; int th = guarded([&] { r = m.memory.strlen(a, n); });
	bool in = (a >= g.ro) & (a < g.size);
	if (th) { COVER("fault"); ASSERT(!in, "P03: measuring a string inside guest memory was refused"); return; }
	COVER("ok"); ASSERT(in | (r == 0), "P03: a string outside guest memory was measured"); ASSERT(r <= n, "P03: length beyond the limit"); ASSERT(!in | (r <= g.size - a), "P03: length beyond guest memory");
	ASSERT(!(w.k - a < r) | (w.old != 0), "P03: terminator skipped"); ASSERT(!in | (r == n) | (r == g.size - a) | ((r < g.size - a) & (arena(m)[a + r < g.size ? a + r : 0] == 0)), "P03: length without a terminator");
}
#endif
HARNESS(string) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); give_arena(m, g); uint64_t a = sym64("addr"), n = sym64("maxlen"), N = __vs_param("n", 6);
	uint64_t len = N + 1; for (uint64_t i = N + 1; i-- > 0;) len = (a + i >= g.size) | (i >= n) | (arena(m)[a + i < g.size ? a + i : 0] == 0) ? i : len;
	bool in = (a >= g.ro) & (a < g.size); ASSUME((len <= N) | !in);
	std::string s; int th = guarded([&] { s = m.memory.memstring(a, n); });
	if (th) { COVER("fault"); ASSERT(!in, "P03: a string inside guest memory was refused"); return; }
	COVER("ok"); ASSERT(in | (s.size() == 0), "P03: a string outside guest memory was read"); ASSERT(!in | (s.size() == len), "P03: string of another length");
	uint64_t i = sym64("i"); ASSUME(i < N); ASSERT(!in | (i >= s.size()) | ((uint8_t)s.data()[i < s.size() ? i : 0] == arena(m)[a + i < g.size ? a + i : 0]), "P03: string of another content");
}
// the loader's copy: anywhere in the arena, but nowhere else
HARNESS(load_copy) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); give_arena(m, g); uint64_t a = sym64("addr"), n = sym64("len"); uint64_t cap = sym64("hostcap"); ASSUME(cap <= (1ull << 21));
	Watch w = watch(m, g); ASSUME((n <= cap) | (n > (1ull << 21))); uint8_t* src = new uint8_t[cap + 1]; __vs_havoc(src, cap + 1, "host");
	int th = guarded([&] { m.memory.copy_into_arena_unsafe(a, src, n); }); bool inside = (a <= g.size) & (n <= g.size - (a <= g.size ? a : 0));
	if (th) { COVER("fault"); ASSERT(!inside | (n == 0), "P03: a valid copy was refused"); ASSERT(arena(m)[w.k] == w.old, "P03: refused copy changed memory"); }
	else { COVER("ok"); ASSERT(inside | (n == 0), "P03: copy outside guest memory"); uint64_t off = w.k - a; ASSERT(arena(m)[w.k] == (off < n ? src[off % (cap + 1)] : w.old), "P03: copy effect"); }
}
// memory boundaries asked for by the host: refused, or consistent for every later access, also after a second call
HARNESS(boundaries) {
	Machine m{std::string_view{}, plain_options()}; Geo g = sym_geo(1ull << 20); if (symbool("twice")) give_arena(m, g);
	uint64_t size = sym64("size2"), ro = sym64("ro2"), data = sym64("data2"); ASSUME(size <= (1ull << 20));
	if (guarded([&] { m.memory.allocate_custom_arena(size, ro, data); })) { COVER("fault"); ASSERT((ro >= size) | (data >= size) | (ro > data), "P03: valid boundaries refused"); return; }
	COVER("ok"); uint64_t a = sym64("addr"), v = 0; int th = guarded([&] { v = m.memory.read<uint64_t>(a); }); ASSERT((th == 0) == ((a >= ro) & (a < size)), "P01: readable range differs from the boundaries");
	th = guarded([&] { m.memory.write<uint64_t>(a, v); }); ASSERT((th == 0) == ((a >= data) & (a < size)), "P02: writable range differs from the boundaries");
	uint64_t n = sym64("len"); ASSUME(n > 0); th = guarded([&] { m.memory.writable_memarray<char>(a, n); }); ASSERT((th == 0) == ((a >= data) & (a < size) & (n <= (a < size ? size - a : 0))), "P03: bulk range differs from the boundaries");
}
