// P16/P18: the native guest heap, from every well-formed state of up to K chunks.
#include "elfimg.hpp"
#include <libloong/native/heap.hpp>
using PT = Arena::PointerType;
static constexpr unsigned MAXK = 8;
struct Pre { unsigned n; uint64_t base, total; uint64_t data[MAXK], size[MAXK]; bool free[MAXK]; };
// a well-formed chunk list: contiguous, no two free neighbours, sizes in whole granules except at the end
static void build(Arena& a, Pre& p, unsigned k, uint64_t base, uint64_t cap) {
	p.n = k; p.base = base; uint64_t at = base; bool prevfree = false; ArenaChunk* ch = &a.base_chunk();
	bool recycled = symbool("recycled"); ArenaChunk* rec = recycled ? a.new_chunk() : nullptr;
	for (unsigned i = 0; i < k; i++) {
		uint64_t s = sym32("size"); if (i + 1 < k) s = (s & 0x0FFFFFFF) << 4; ASSUME((s <= cap) & (s >= 1));
		bool f = prevfree ? false : symbool("free"); if (!f) { if (i + 1 == k) ASSUME(s >= 16); }
		prevfree = f; p.data[i] = at; p.size[i] = s; p.free[i] = f;
		if (i) { ArenaChunk* n = a.new_chunk((ArenaChunk*)nullptr, ch, (size_t)0, false, (PT)0); ch->next = n; n->prev = ch; ch = n; }
		ch->size = s; ch->free = f; ch->data = (PT)at; ch->next = nullptr; at += s;
	}
	p.total = at - base; ASSUME(p.total <= cap);
	if (rec) a.free_chunk(rec);
}
static bool used_at(Arena& a, uint64_t ptr, uint64_t* size = nullptr) { bool r = false; for (ArenaChunk* c = &a.base_chunk(); c; c = c->next) { bool h = !c->free & (c->data == ptr); if (h) { r = true; if (size) *size = c->size; } } return r; }
// the list is well formed; every block of before except `gone` is still live and unchanged
static void check(Arena& a, const Pre& p, int gone, unsigned limit) {
	uint64_t at = p.base, used = 0, fr = 0; bool prevfree = false; unsigned n = 0; ArenaChunk* prev = nullptr;
	for (ArenaChunk* c = &a.base_chunk(); c; c = c->next) {
		ASSERT(++n <= limit, "P16: the chunk list grew by more than one or is cyclic"); ASSERT(c->prev == prev, "P16: broken back link"); ASSERT(c->data == at, "P16: blocks overlap or leave a gap");
		ASSERT(c->size >= 1, "P16: empty block"); bool f = c->free; ASSERT(!(f && prevfree), "P16: free neighbours are not joined");
		ASSERT(f | (c->size >= 16), "P16: undersized live block"); ASSERT((c->next == nullptr) | ((c->size & 15) == 0), "P16: misaligned block boundary");
		if (f) fr += c->size; else used += c->size;
		for (auto* r : a.m_free_chunks) ASSERT(r != c, "P16: a linked chunk is also in the pool of unused ones");
		prevfree = f; at += c->size; prev = c;
	}
	ASSERT(at - p.base == p.total, "P16: the blocks do not cover the heap"); ASSERT(a.bytes_free() == fr, "P16: free bytes"); ASSERT(a.bytes_used() == used, "P16: used bytes"); ASSERT(fr + used == p.total, "P16: free and used bytes do not add up");
	for (unsigned i = 0; i < p.n; i++) if (!p.free[i] && (int)i != gone) { uint64_t s = 0; ASSERT(used_at(a, p.data[i], &s), "P16: a live block was lost"); ASSERT(s == p.size[i], "P16: a live block changed its size"); }
}
static bool fits(const Pre& p, uint64_t want) { bool r = false; for (unsigned i = 0; i < p.n; i++) r = r | (p.free[i] & (p.size[i] >= want) & (((p.size[i] & ~15ull) >= want) | true)); return r; }
static void unchanged(Arena& a, const Pre& p, const char* m) { unsigned i = 0; for (ArenaChunk* c = &a.base_chunk(); c; c = c->next, i++) { ASSERT(i < p.n, m); ASSERT((c->data == p.data[i]) & (c->size == p.size[i]) & (c->free == p.free[i]), m); } ASSERT(i == p.n, m); }
static uint64_t granules(uint64_t n) { return n <= 16 ? 16 : n > ~0ull - 15 ? ~0ull : (n + 15) & ~15ull; }
// a live block that was not live before, of at least n bytes, 16-aligned, inside the heap
static void fresh(Arena& a, const Pre& p, uint64_t r, uint64_t n, int gone) {
	uint64_t s = 0; ASSERT(used_at(a, r, &s), "P16: the returned block is not live"); ASSERT(s >= n, "P16: the returned block is smaller than requested"); ASSERT((r & 15) == 0, "P16: misaligned block");
	ASSERT((r >= p.base) & (r - p.base <= p.total) & (s <= p.total - (r - p.base)), "P16: block outside the heap");
	for (unsigned i = 0; i < p.n; i++) if (!p.free[i] && (int)i != gone) ASSERT((r + s <= p.data[i]) | (p.data[i] + p.size[i] <= r), "P16: the returned block overlaps a live one");
}
static uint64_t heapbase() { uint64_t b = sym32("base"); ASSUME(b >= 16); return b & ~15ull; } // an address of zero means failure
static unsigned chunks() { unsigned k = (unsigned)__vs_param("k", 0); return k; }
HARNESS(heap_init) {
	uint64_t b = sym32("base"), s = sym32("size"); ASSUME((s >= 1) & (s <= 0xFFFFFFFFull - b)); Arena a((PT)b, (PT)(b + s)); Pre p{}; p.n = 0; p.base = b; p.total = s;
	check(a, p, -1, 1); ASSERT(a.bytes_free() == s, "P16: a new heap is free"); COVER("init");
}
HARNESS(heap_malloc) {
	Pre p; Arena a(0, 0); build(a, p, chunks(), heapbase(), 0xFFFF0000ull); ASSUME(p.base + p.total <= 0xFFFFFFFFull);
	if (symbool("exhausted")) a.set_max_chunks((unsigned)a.m_chunks.size());
	uint64_t n = sym64("n"); uint64_t r = 0; bool can = fits(p, granules(n));
	int th = guarded([&] { r = a.malloc(n); });
	if (th) { unchanged(a, p, "P16: a refused allocation changed the heap"); COVER("exhausted"); return; }
	check(a, p, -1, p.n + 1);
	if (r == 0 && !used_at(a, 0)) { ASSERT(!can, "P16: allocation failed with enough room"); unchanged(a, p, "P16: a failed allocation changed the heap"); COVER("none"); return; }
	fresh(a, p, r, n, -1); COVER("ok");
}
static int pick(const Pre& p, uint64_t ptr) { int g = -1; for (unsigned i = 0; i < p.n; i++) if (!p.free[i] && p.data[i] == ptr) g = (int)i; return g; }
HARNESS(heap_free) {
	Pre p; Arena a(0, 0); build(a, p, chunks(), heapbase(), 0xFFFF0000ull); ASSUME(p.base + p.total <= 0xFFFFFFFFull);
	uint64_t ptr = sym64("ptr"); ASSUME(ptr <= (uint64_t)(PT)~0ull); int g = pick(p, ptr);
	int r = 0; int th = guarded([&] { r = a.free((PT)ptr); }); ASSERT(th == 0, "P16: free raised");
	if (g < 0) { ASSERT(r < 0, "P16: freeing an address that is not a live block was accepted"); unchanged(a, p, "P16: a rejected free changed the heap"); COVER("rejected"); return; }
	ASSERT(r == 0, "P16: freeing a live block was rejected"); check(a, p, g, p.n); ASSERT(!used_at(a, ptr), "P16: the freed block is still live"); COVER("ok");
}
HARNESS(heap_realloc) {
	Pre p; Arena a(0, 0); build(a, p, chunks(), heapbase(), 0xFFFF0000ull); ASSUME(p.base + p.total <= 0xFFFFFFFFull);
	if (symbool("exhausted")) a.set_max_chunks((unsigned)a.m_chunks.size());
	uint64_t ptr = sym64("ptr"), n = sym64("n"); ASSUME(ptr <= (uint64_t)(PT)~0ull); int g = ptr ? pick(p, ptr) : -1; uint64_t old = g >= 0 ? p.size[g] : 0; bool can = fits(p, granules(n));
	uint64_t r = 0, len = 0; int th = guarded([&] { auto [x, l] = a.realloc((PT)ptr, n); r = x; len = l; });
	if (th) { COVER("exhausted"); uint64_t s = 0; check(a, p, g, p.n + 1); if (g >= 0) { ASSERT(used_at(a, ptr, &s), "P16: a refused resize lost the block"); ASSERT(s >= old, "P16: a refused resize shrank the block"); } return; }
	if (g < 0) {
		if (ptr == 0 && r) { check(a, p, -1, p.n + 1); fresh(a, p, r, n, -1); COVER("malloc"); ASSERT(len == 0, "P16: nothing to move for a new block"); return; }
		ASSERT(r == 0, "P16: resizing an address that is not a live block was accepted"); if (ptr == 0) ASSERT(!can, "P16: allocation failed with enough room"); unchanged(a, p, "P16: a rejected resize changed the heap"); COVER("rejected"); return;
	}
	check(a, p, g, p.n + 1);
	if (r == 0) { uint64_t s = 0; ASSERT(used_at(a, ptr, &s), "P16: a failed resize lost the block"); ASSERT(s == old, "P16: a failed resize changed the block"); ASSERT(!can, "P16: resize failed with enough room"); COVER("none"); return; }
	fresh(a, p, r, n, g);
	if (r == ptr) { ASSERT(len == 0, "P16: a block resized in place needs no move"); COVER("inplace"); }
	else { ASSERT(len == old, "P16: the length to move is not the old one"); ASSERT(!used_at(a, ptr) , "P16: the old block is still live"); COVER("moved"); }
}
// ---- P18: through the system calls of a patched program
static constexpr uint64_t SZ = 1 << 20, HB = 0x40000;
struct Sys {
	Machine* m; Pre p; uint8_t* ram; uint64_t k; uint8_t old; uint64_t pc;
	Sys(unsigned which) {
		static uint32_t code[16]; static ImgSym sy[4] = { { "malloc", Img::TEXT, 4 }, { "calloc", Img::TEXT + 16, 4 }, { "realloc", Img::TEXT + 32, 4 }, { "free", Img::TEXT + 48, 4 } };
		for (unsigned i = 0; i < 16; i++) code[i] = 0x4C000020u;
		static Img img; img.program(code, 16, sy, 4, Img::TEXT + 60);
		MachineOptions o = plain_options(); o.memory_max = SZ; o.stack_size = 4096; o.brk_size = 4096; m = new Machine(img.view(), o);
		m->setup_accelerated_heap(HB, 0x10000); build(m->arena(), p, chunks(), HB, 0x10000); ASSUME(p.total == 0x10000);
		ram = arena(*m); __vs_havoc(ram, SZ, "ram"); k = sym64("watched"); ASSUME(k < SZ); old = ram[k]; pc = Img::TEXT + 16 * which;
	}
	int go(uint64_t a0, uint64_t a1) { m->cpu.registers().pc = pc; m->cpu.reg(REG_A0) = a0; m->cpu.reg(REG_A1) = a1; m->cpu.reg(REG_RA) = Img::TEXT + 60; return guarded([&] { m->simulate(1); }); }
	uint64_t res() { return m->cpu.reg(REG_A0); }
	void same(const char* s) { ASSERT(ram[k] == old, s); }
};
HARNESS(sys_malloc) {
	bool cal = __vs_param("calloc", 0); Sys s(cal ? 1 : 0); uint64_t x = sym64("a0"), y = 1;
	if (cal) { static const uint64_t ys[9] = { 0, 1, 3, 8, 24, 1ull << 32, (1ull << 32) + 1, 1ull << 60, 0x1000000000000001ull }; uint64_t q = sym8("elem"); ASSUME(q < 9); y = ys[__vs_concretize(q)]; } // 64x64-bit symbolic products are out of the solver's reach
	unsigned __int128 prod = (unsigned __int128)x * y; bool wraps = (uint64_t)(prod >> 64) != 0; uint64_t n = (uint64_t)prod;
	int th = s.go(x, y); Arena& a = s.m->arena();
	if (th) { s.same("P18: a refused allocation changed memory"); ASSERT(false, "P18: an allocation raised an exception"); return; }
	uint64_t r = s.res(); check(a, s.p, -1, s.p.n + 1);
	if (!r) { ASSERT(wraps | !fits(s.p, granules(n)), "P18: allocation failed with enough room"); unchanged(a, s.p, "P18: a failed allocation changed the heap"); s.same("P18: a failed allocation changed memory"); COVER("none"); return; }
	ASSERT(!wraps, "P18: the size product wrapped"); fresh(a, s.p, r, n, -1); COVER("ok");
	uint64_t off = s.k - r; if (cal && off < n) ASSERT(s.ram[s.k] == 0, "P18: calloc memory is not zero"); else s.same("P18: an allocation changed other memory");
}
HARNESS(sys_realloc) {
	Sys s(2); uint64_t ptr = sym64("a0"), n = sym64("a1"); int g = ptr ? pick(s.p, ptr) : -1; uint64_t old = g >= 0 ? s.p.size[g] : 0; bool can = fits(s.p, granules(n));
	uint64_t i = sym64("i"); ASSUME(i < 0x10000); uint8_t was = s.ram[(ptr + i) & (SZ - 1)];
	int th = s.go(ptr, n); Arena& a = s.m->arena(); 
	if (th) { ASSERT(g < 0 && ptr != 0, "P18: resizing a live block raised an exception"); unchanged(a, s.p, "P18: a refused resize changed the heap"); s.same("P18: a refused resize changed memory"); COVER("rejected"); return; }
	uint64_t r = s.res();
	if (g < 0 && !(ptr == 0 && r)) { ASSERT(r == 0, "P18: resizing an address that is not a live block was accepted"); unchanged(a, s.p, "P18: a rejected resize changed the heap"); s.same("P18: a rejected resize changed memory"); COVER("rejected"); return; }
	check(a, s.p, g, s.p.n + 1);
	if (!r) { uint64_t z = 0; ASSERT(used_at(a, ptr, &z), "P18: a failed resize lost the block"); s.same("P18: a failed resize changed memory"); ASSERT(!can, "P18: resize failed with enough room"); COVER("none"); return; }
	fresh(a, s.p, r, n, g); COVER("ok");
	if (i < old) { if (i < n) ASSERT(s.ram[(r + i) & (SZ - 1)] == was, "P18: resizing lost contents"); }
	if (g < 0 || r == ptr) s.same("P18: resizing in place changed memory");
	else if (!(s.k - r < n)) s.same("P18: resizing changed memory outside the new block");
}
HARNESS(sys_free) {
	Sys s(3); uint64_t ptr = sym64("a0"); int g = pick(s.p, ptr); int th = s.go(ptr, sym64("a1")); Arena& a = s.m->arena(); s.same("P18: free changed memory");
	if (g < 0) { ASSERT((th == 1) | (ptr == 0), "P18: freeing an address that is not a live block was accepted"); unchanged(a, s.p, "P18: a rejected free changed the heap"); COVER("rejected"); return; }
	ASSERT(th == 0, "P18: freeing a live block was refused"); check(a, s.p, g, s.p.n); ASSERT(!used_at(a, ptr), "P18: the freed block is still live"); COVER("ok");
}
