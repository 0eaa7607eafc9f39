// P13/P14/P15: the program loader on any image.
#include "elfimg.hpp"
#include <libloong/util/crc32.hpp>
static const uint8_t* B; static uint64_t BN; // the image
// Decoding of the code found in the image is the subject of P12: here, it is told apart by its place in the image.
extern "C" __attribute__((used)) void ovr_populate(Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>&, address_t, const uint8_t*, size_t, bool) __asm__("__vs_override___ZN9loongarch22populate_decoder_cacheERNS_7MachineERKNS_14MachineOptionsERSt10shared_ptrINS_21DecodedExecuteSegmentEEmPKhmb");
void ovr_populate(Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>& s, address_t begin, const uint8_t* code, size_t size, bool) {
	__vs_touch(code, size, "P13: the decoder is given bytes outside the image"); ASSERT((size & 3) == 0, "P13: code size is not a multiple of four"); ASSERT(s->exec_begin() == begin, "P14: executable segment begins elsewhere");
	s->set_crc32c_hash((uint32_t)(code - B)); }
static bool came_from(DecodedExecuteSegment* s, uint64_t off) { if (__vs_symbolic()) return s->crc32c_hash() == (uint32_t)off; return s->crc32c_hash() == util::crc32c(B + off, s->exec_end() - s->exec_begin()); }
template <class T> static T rd(uint64_t o) { T v; memcpy(&v, B + o, sizeof(T)); return v; }
struct Ph { uint32_t type, flags; uint64_t off, va, pa, fsz, msz, al; };
struct Cfg { MachineOptions o; Machine* m = nullptr; int th; };
static void load(Cfg& c) { c.th = guarded([&] { c.m = new Machine(std::string_view((const char*)B, BN), c.o); }); }
static void options(Cfg& c) { c.o = plain_options(); c.o.memory_max = sym64("memory_max"); ASSUME((c.o.memory_max >= 1) & (c.o.memory_max <= (1ull << 30))); if (__vs_param("narrow", 0)) { c.o.memory_max = sym32("memory_max"); ASSUME((c.o.memory_max >= 1) & (c.o.memory_max <= (1ull << 30))); c.o.stack_size = sym32("stack"); c.o.brk_size = sym32("brk"); return; } c.o.stack_size = sym64("stack"); c.o.brk_size = sym64("brk"); }
static uint64_t up(uint64_t v) { return (v + 4095) & ~4095ull; }
// what an accepted image must look like
static void placed(Cfg& c, bool text = false) { unsigned part = (unsigned)__vs_param("place", 7);
	Memory& M = c.m->memory; uint64_t SZ = M.arena_size(); ASSERT(SZ == c.o.memory_max, "P14: arena size"); unsigned n = rd<uint16_t>(56); uint64_t po = rd<uint64_t>(32); uint64_t lo = ~0ull, hi = 0, w = ~0ull; uint64_t k = sym64("watched"); ASSUME(k < SZ); uint8_t want = 0;
	unsigned loads = 0;
	for (unsigned i = 0; i < n; i++) { Ph p = rd<Ph>(po + 56 * i); if (p.type != 1) continue; loads++; ASSERT((p.fsz <= p.msz) & (p.msz <= SZ) & (p.va <= SZ - p.msz), "P14: a segment outside memory was accepted");
		if (p.msz == 0 && p.va >= SZ) continue;
		lo = p.va < lo ? p.va : lo; hi = p.va + p.msz > hi ? p.va + p.msz : hi; if (p.flags & 2) w = p.va < w ? p.va : w;
		if (p.fsz) { ASSERT((p.off <= BN) & (p.fsz <= BN - p.off), "P14: a segment outside the file was accepted"); if (part & 1) if (k - p.va < p.fsz) want = B[p.off + (k - p.va)]; } }
	ASSERT(loads > 0, "P14: an image without loadable segments was accepted"); if (part & 1) ASSERT(arena(*c.m)[k] == want, "P14: guest memory differs from the file, or is not zero beyond it");
	if (part & 2) { ASSERT(M.start_address() == rd<uint64_t>(24), "P14: entry point"); ASSERT(c.m->cpu.pc() == rd<uint64_t>(24), "P14: the machine does not start at the entry point");
	ASSERT(M.rodata_start() == lo, "P14: readable memory does not begin at the image"); ASSERT(M.data_start() == (w != ~0ull ? w : up(hi)), "P14: writable memory does not begin at the first writable segment");
	ASSERT((M.m_arena_end_sub_rodata == SZ - lo) & (M.m_arena_end_sub_data == SZ - M.data_start()), "P14: protection boundaries are inconsistent");
	uint64_t brk = M.brk_address(), st = M.stack_address(), mm = M.mmap_address(); ASSERT((c.o.brk_size <= SZ) & (c.o.stack_size <= SZ), "P14: stack or heap larger than memory accepted");
	ASSERT((brk >= hi) & (brk <= SZ - c.o.brk_size), "P14: heap overlaps the image or leaves memory"); ASSERT((st >= c.o.stack_size) & (st - c.o.stack_size >= brk + c.o.brk_size) & (st <= SZ), "P14: stack overlaps the heap or leaves memory"); ASSERT((mm >= st) & (mm <= SZ) & ((mm & 4095) == 0), "P14: the mapping area overlaps the stack or leaves memory"); ASSERT(M.heap_address() >= hi, "P14: heap area overlaps the image"); }
	if (text | !(part & 4)) return;
	DecodedExecuteSegment* first = nullptr; unsigned x = 0; // each executable segment, in order
	for (unsigned i = 0; i < n; i++) { Ph p = rd<Ph>(po + 56 * i); if ((p.type != 1) || (p.fsz == 0) || ((p.flags & 1) == 0)) continue;
		DecodedExecuteSegment* s; if (!x) s = M.m_main_exec_segment.get(); else { ASSERT(M.m_exec.size() >= x, "P14: an executable segment is missing"); s = M.m_exec[x - 1].get(); } x++;
		ASSERT(s != nullptr, "P14: no executable segment"); ASSERT((s->exec_begin() == p.va) & (s->exec_end() == p.va + (p.fsz & ~3ull)), "P14: executable range differs from the segment"); ASSERT(came_from(s, p.off), "P14: executable segment made from other bytes"); }
	ASSERT(M.m_exec.size() == (x ? x - 1 : 0), "P14: more executable segments than in the image"); if (x) COVER("code"); }
static void image(uint64_t max, bool fixedlen = false) { BN = fixedlen ? max : sym64("len"); ASSUME(BN <= max); uint8_t* b = (uint8_t*)malloc(BN ? BN : 1); __vs_havoc(b, BN, "image"); B = b; }
// any file header and program headers; no section headers
HARNESS(elf_headers) { image(__vs_param("max", 512)); unsigned ph = (unsigned)__vs_param("ph", 2), pn = (unsigned)__vs_param("pn", 0); Cfg c; options(c);
	if (__vs_param("at", 0) && BN >= 64) { uint64_t at = __vs_param("at", 0); memcpy((void*)(B + 32), &at, 8); }
	if (BN >= 64) { uint16_t n = rd<uint16_t>(56); ASSUME((n == ph) | ((n > ph) & (pn != 0))); ASSUME((rd<uint64_t>(40) == 0) | (rd<uint16_t>(60) == 0)); if (pn) ASSUME((uint64_t)rd<uint64_t>(32) + 56ull * n > BN || n > 256); }
	load(c); if (c.th) { COVER("refused"); return; } COVER("accepted"); if (BN == 0) return; ASSERT(BN >= 64, "P13: an image without a header was accepted"); if (__vs_param("place", 1)) placed(c); }
// fixed headers (one executable segment, sections at the end), any section headers
static void shell(uint8_t* b, uint64_t n, unsigned ns, unsigned shstrndx) { Img i; i.ehdr(0x10000, 1, 128, ns, shstrndx); i.phdr(0, 1, 5, 0x40, 0x10000, n - 0x40, n - 0x40); memcpy(b, i.b, 120); }
HARNESS(elf_text) { unsigned ns = (unsigned)__vs_param("ns", 3); uint64_t n = 128 + 64 * ns + __vs_param("tail", 32); uint8_t* b = (uint8_t*)malloc(n); __vs_havoc(b, n, "image"); B = b; BN = n; shell(b, n, ns, (unsigned)__vs_param("idx", 0)); Cfg c; c.o = plain_options(); c.o.memory_max = 1 << 20; c.o.stack_size = c.o.brk_size = 4096;
	for (unsigned i = 0; i < ns; i++) { uint32_t t = rd<uint32_t>(128 + 64 * i + 4); ASSUME((t != 2) & (t != 11)); }
	load(c); ASSERT(c.th == 0, "P14: section headers make a valid image unusable"); placed(c, true); DecodedExecuteSegment* s = c.m->memory.m_main_exec_segment.get(); ASSERT(s != nullptr, "P14: no executable segment");
	uint64_t va = 0x10000, fs = n - 0x40; ASSERT((s->exec_begin() >= va) & (s->exec_end() <= va + fs) & (s->exec_begin() <= s->exec_end()), "P14: executable range leaves the segment"); ASSERT(came_from(s, 0x40 + (s->exec_begin() - va)), "P14: executable segment made from other bytes");
	bool whole = (s->exec_begin() == va) & (s->exec_end() == va + (fs & ~3ull)); if (whole) { COVER("whole"); return; } COVER("text"); // otherwise it is the range of some section
	unsigned si = (unsigned)__vs_param("idx", 0); uint64_t base = rd<uint64_t>(128 + 64 * si + 24);
	auto named = [&](unsigned i, const char* w) { uint64_t o = base + rd<uint32_t>(128 + 64 * i); if (!((base < n) & (o <= n - 6))) return false; uint8_t t[6]; memcpy(t, B + o, 6); bool e = true; for (int x = 0; x < 6; x++) e &= t[x] == (uint8_t)w[x]; return e; };
	bool some = false; for (unsigned i = 0; i < ns; i++) { uint64_t a = rd<uint64_t>(128 + 64 * i + 16), z = rd<uint64_t>(128 + 64 * i + 32); if ((s->exec_end() == a + (z & ~3ull)) & (s->exec_begin() == a)) some |= named(i, ".text");
		if (i + 1 < ns) { uint64_t a2 = rd<uint64_t>(128 + 64 * i + 80), z2 = rd<uint64_t>(128 + 64 * i + 96); if ((s->exec_begin() == a) & (s->exec_end() == a + ((a2 + z2 - a) & ~3ull))) some |= named(i, ".iplt") && named(i + 1, ".text"); } } ASSERT(some, "P14: executable range is not that of the code section"); }
// any symbol and string table headers
HARNESS(elf_symhdr) { unsigned ns = (unsigned)__vs_param("ns", 2); uint64_t n = 128 + 64 * ns + 28; uint8_t* b = (uint8_t*)malloc(n); __vs_havoc(b, n, "image"); B = b; BN = n; shell(b, n, ns, 0xffff); Cfg c; c.o = plain_options(); c.o.memory_max = 1 << 17; c.o.stack_size = c.o.brk_size = 4096;
	for (unsigned i = 0; i < ns; i++) { uint32_t ty = (uint32_t)(i == 2 ? 0 : __vs_param(i ? "t1" : "t0", 0)), lk = rd<uint32_t>(128 + 64 * i + 40); if (ty) memcpy(b + 128 + 64 * i + 4, &ty, 4); else { ty = rd<uint32_t>(128 + 64 * i + 4); ASSUME((ty != 2) & (ty != 11)); } ASSUME(lk <= ns); lk = (uint32_t)__vs_concretize(lk); memcpy(b + 128 + 64 * i + 40, &lk, 4); if (ty && ns == 3) ASSUME(lk >= 2); }
	for (unsigned i = 0; i < ns; i++) { uint64_t z = rd<uint64_t>(128 + 64 * i + 32); uint32_t ty = rd<uint32_t>(128 + 64 * i + 4); ASSUME((z <= __vs_param("str", 3)) | (z > n) | (((ty == 2) | (ty == 11)) & (z < 48) & (z > 23) & (rd<uint32_t>(128 + 64 * i + 40) != i))); }
	load(c); if (c.th) { COVER("refused"); return; } COVER("accepted"); placed(c, true); }
static NOINLINE bool same(const std::string& a, const char* b, unsigned n) { if (!b || a.size() != n) return false; bool e = true; for (unsigned i = 0; i < n; i++) e &= a[i] == b[i]; return e; }
// a symbol table with any contents, looked up by name and by address
HARNESS(elf_lookup) { unsigned k = (unsigned)__vs_param("syms", 2), L = (unsigned)__vs_param("strs", 6); uint64_t so = 128 + 64 * 3, to = so + 24 * k, n = to + L; uint8_t* b = (uint8_t*)malloc(n); memset(b, 0, n); B = b; BN = n; shell(b, n, 3, 0xffff); Img i; i.shdr(128, 1, 0, 2, 0, 0, so, 24 * k, 2, 24); i.shdr(128, 2, 0, 3, 0, 0, to, L, 0, 0); memcpy(b + 128, i.b + 128, 192); __vs_havoc(b + so, 24 * k + L, "table");
	Cfg c; c.o = plain_options(); c.o.memory_max = 1 << 20; c.o.stack_size = c.o.brk_size = 4096; load(c); ASSERT(c.th == 0, "P15: a symbol table makes a valid image unusable"); COVER("loaded");
	struct S { bool ok; uint64_t v, z; const char* s; unsigned len; } t[4];
	for (unsigned j = 0; j < k; j++) { uint32_t nm = rd<uint32_t>(so + 24 * j); uint8_t ty = B[so + 24 * j + 4] & 15; t[j].v = rd<uint64_t>(so + 24 * j + 8); t[j].z = rd<uint64_t>(so + 24 * j + 16); t[j].ok = ((ty == 1) | (ty == 2)) & (t[j].v != 0) & (nm < L); t[j].s = nullptr; t[j].len = 0;
		if (t[j].ok) { unsigned o = (unsigned)__vs_concretize(nm); unsigned e = o; while (e < L && B[to + e]) e++; t[j].len = e - o; t[j].s = (const char*)B + to + o; t[j].ok = (e < L) & (e > o); } }
	if (__vs_param("byname", 1)) { char q[8]; unsigned ql = (unsigned)__vs_param("qlen", 2); for (unsigned j = 0; j < ql; j++) { q[j] = sym8("name"); ASSUME(q[j] != 0); } q[ql] = 0; uint64_t r = 1, want = 0; bool found = false; int th = guarded([&] { r = c.m->address_of(std::string(q, ql)); }); ASSERT(th == 0, "P15: a name lookup raised");
		for (unsigned j = 0; j < k; j++) if (t[j].ok && t[j].len == ql && !found) { bool eq = true; for (unsigned x = 0; x < ql; x++) eq &= t[j].s[x] == q[x]; if (eq) { found = true; want = t[j].v; } }
		ASSERT(r == want, "P15: a name resolves to another address"); if (found) COVER("found"); else COVER("notfound"); return; }
	uint64_t a = sym64("addr"); const Symbol* r = c.m->memory.lookup_symbol(a); bool cov = false, below = false; for (unsigned j = 0; j < k; j++) { cov |= t[j].ok & (a >= t[j].v) & (a - t[j].v < t[j].z); below |= t[j].ok & (t[j].v <= a); }
	if (!r) { ASSERT(!cov, "P15: a covered address has no symbol"); COVER("notfound"); return; }
	bool is = false, closest = true; for (unsigned j = 0; j < k; j++) { is |= t[j].ok & (t[j].v == r->address) & (t[j].z == r->size) & same(r->name, t[j].s, t[j].len); closest &= !(t[j].ok & (t[j].v <= a) & (t[j].v > r->address)); }
	ASSERT(is, "P15: a symbol that is not in the table"); ASSERT(((a >= r->address) & (a - r->address < r->size)) | (!cov & (r->address <= a) & closest), "P15: a symbol that neither covers the address nor is the closest before it"); COVER("found"); }
