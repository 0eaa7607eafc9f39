// P28: decoded code is shared only between machines running identical code.
#include "elfimg.hpp"
#include <libloong/shared_exec_segment.hpp>
#include <libloong/threaded_bytecodes.hpp>
#include <libloong/util/crc32.hpp>
static std::shared_ptr<MachineOptions> opts(bool shared) { auto o = std::make_shared<MachineOptions>(plain_options()); o->use_shared_execute_segments = shared; return o; }
static SharedExecuteSegments& cache() { return get_shared_execute_segments(); }
// decoding proper is P12's subject: here each entry names its word and its pc
#ifdef OVR
#include <nmmintrin.h>
__attribute__((target("sse4.2"))) static uint32_t crc_of(const void* d, size_t n) { uint32_t c = ~0u; for (size_t i = 0; i < n; i++) c = _mm_crc32_u8(c, ((const uint8_t*)d)[i]); return ~c; }
#ifndef VS_NATIVE
static const void* known_code; static uint32_t known_crc;
extern "C" __attribute__((used)) uint32_t ovr_crc(const void* d, size_t n) __asm__("__vs_override___ZN9loongarch4util6crc32cEPKvm");
uint32_t ovr_crc(const void* d, size_t n) { return d == known_code ? known_crc : crc_of(d, n); } // the checksum (P29)
#endif
extern "C" __attribute__((used)) void ovr_populate(Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>&, address_t, const uint8_t*, size_t, bool) __asm__("__vs_override___ZN9loongarch22populate_decoder_cacheERNS_7MachineERKNS_14MachineOptionsERSt10shared_ptrINS_21DecodedExecuteSegmentEEmPKhmb");
void ovr_populate(Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>& s, address_t begin, const uint8_t* code, size_t size, bool) {
	s->set_crc32c_hash(util::crc32c(code, size)); auto* d = new DecoderData[size / 4 + 1]; memset(d, 0, (size / 4 + 1) * 8); for (size_t i = 0; i < size / 4; i++) { memcpy(&d[i].instr, code + 4 * i, 4); d[i].block_bytes = (uint16_t)(begin + 4 * i); } s->set_decoder_cache(d, size / 4); }
#endif
static bool same(DecodedExecuteSegment& a, DecodedExecuteSegment& b) {
	bool e = (a.exec_begin() == b.exec_begin()) & (a.exec_end() == b.exec_end()) & (a.decoder_cache_size() == b.decoder_cache_size()); if (!e) return false;
	for (size_t i = 0; i < a.decoder_cache_size(); i++) { const DecoderData &x = a.decoder_cache()[i], &y = b.decoder_cache()[i]; e &= (x.bytecode == y.bytecode) & (x.handler_idx == y.handler_idx) & (x.block_bytes == y.block_bytes) & (x.instr == y.instr); } return e; }
struct Mach { Machine* m; Machine* ref; std::shared_ptr<MachineOptions> so, po; uint32_t code[4]; uint64_t base; unsigned n; };
static void make(Mach& x, uint64_t arena) { x.so = opts(true); x.po = opts(false); x.m = new Machine(std::string_view{}, *x.so); x.m->set_options(x.so); x.ref = new Machine(std::string_view{}, *x.po); x.ref->set_options(x.po); x.m->memory.allocate_custom_arena(arena, 0x1000, 0x1000); x.ref->memory.allocate_custom_arena(arena, 0x1000, 0x1000); x.n = 0; }
static void load(Mach& x) { DecodedExecuteSegment& s = x.m->cpu.init_execute_area(x.code, x.base, 4 * x.n); DecodedExecuteSegment& r = x.ref->cpu.init_execute_area(x.code, x.base, 4 * x.n); ASSERT(same(s, r), "P28: a machine was given the decoded form of other code"); ASSERT(x.m->memory.exec_segment_for(x.base).get() == &s, "P28: the segment is not the machine's"); }
// two machines, any two programs
HARNESS(identity) { unsigned n1 = (unsigned)__vs_param("n1", 2), n2 = (unsigned)__vs_param("n2", 2); Mach a, b; uint64_t A1 = (uint64_t)__vs_concretize(8192 + 4096 * (uint64_t)symbool("arena1")), A2 = (uint64_t)__vs_concretize(8192 + 4096 * (uint64_t)symbool("arena2")); cache().clear(); make(a, A1); make(b, A2); a.n = n1; b.n = n2;
	for (unsigned i = 0; i < n2; i++) b.code[i] = sym32("code2");
#ifdef OVR
	static const uint32_t first[3] = { 0x02C00421u, 0x03400000u, 0x4C000020u }; memcpy(a.code, first, 12); uint32_t want = crc_of(a.code, 4 * n1) ^ (uint32_t)__vs_concretize(symbool("differ")); ASSUME(crc_of(b.code, 4 * n2) == want);
#ifndef VS_NATIVE
	known_code = b.code; known_crc = want;
#endif
	// equal hashes, or ones that differ in a bit
#endif
	a.base = 0x10000; b.base = __vs_concretize(0x10000 + 4 * (uint64_t)symbool("base2")); load(a); load(b); DecodedExecuteSegment *s = a.m->cpu.m_exec, *t = b.m->cpu.m_exec;
	bool eq = (n1 == n2) & (a.base == b.base); for (unsigned i = 0; i < n1 && i < n2; i++) eq &= a.code[i] == b.code[i];
	if (s == t) { ASSERT(eq, "P28: different code is shared"); ASSERT(A1 == A2, "P28: code is shared between machines of different memory size"); COVER("shared"); } else { ASSERT(!(eq & (A1 == A2)), "P28: identical code is not shared"); COVER("separate"); }
	// still there for the second when the first goes
	uint64_t how = __vs_concretize(symbool("destroy")); if (how) delete a.m; else { a.m->memory.evict_execute_segments(); ASSERT(a.m->memory.exec_segment_for(0x10000)->empty(), "P28: eviction left a segment"); }
	ASSERT(same(*t, *b.ref->cpu.m_exec), "P28: destroying a machine changed another's code"); ASSERT(b.m->memory.exec_segment_for(b.base).get() == t, "P28: destroying a machine removed another's code");
	if (s == t) ASSERT(cache().get_segment(SegmentKey::from(*t, A2)).get().get() == t, "P28: a segment in use left the cache");
	b.m->memory.evict_execute_segments(); ASSERT((&b.m->cpu.current_execute_segment())->empty(), "P28: an evicted machine keeps its segment"); SegmentKey k = SegmentKey::from(b.base, b.ref->cpu.m_exec->crc32c_hash(), A2); auto left = cache().get_segment(k).get(); ASSERT(!left || (how && s != t), "P28: eviction keeps an unused segment");
}
// keys
HARNESS(keys) { SegmentKey a = SegmentKey::from(sym64("pc"), sym32("crc"), sym64("size")), b = SegmentKey::from(sym64("pc"), sym32("crc"), sym64("size")), c = SegmentKey::from(sym64("pc"), sym32("crc"), sym64("size")); bool eq = (a.pc == b.pc) & (a.crc == b.crc) & (a.arena_size == b.arena_size);
	ASSERT((a == b) == eq, "P28: key equality"); ASSERT((!(a < b) & !(b < a)) == eq, "P28: key order is not consistent with equality"); ASSERT(!((a < b) & (b < c)) | (a < c), "P28: key order is not transitive"); ASSERT(!eq | (std::hash<SegmentKey>()(a) == std::hash<SegmentKey>()(b)), "P28: equal keys hash differently"); COVER("keys"); }
// machines that come and go: each keeps the decoded form of its own code
HARNESS(history) { cache().clear(); static Mach x[3]; bool live[3] = {}, tidy = true; unsigned steps = (unsigned)__vs_param("steps", 4), first = (unsigned)__vs_param("first", 0);
	static const uint32_t pool[2][2] = { { 0x02C00000u, 0x4C000020u }, { 0x02C00421u, 0x4C000020u } };
	for (unsigned i = 0; i < 3; i++) make(x[i], 8192);
	for (unsigned s = 0; s < steps; s++) { unsigned op = (unsigned)(s ? __vs_concretize(sym8("op") % 9) : first), i = op % 3; if (!x[i].m) continue;
		switch (op / 3) { case 0: { unsigned c = (unsigned)__vs_concretize(symbool("code")); memcpy(x[i].code, pool[c], 8); x[i].n = 2; x[i].base = 0x10000; tidy &= !live[i]; load(x[i]); live[i] = true; break; }
			case 1: x[i].m->memory.evict_execute_segments(); live[i] = false; break; case 2: delete x[i].m; x[i].m = nullptr; live[i] = false; break; }
		for (unsigned j = 0; j < 3; j++) if (live[j]) { auto g = x[j].m->memory.exec_segment_for(0x10000); ASSERT(g.get() == x[j].m->cpu.m_exec, "P28: a machine lost its segment"); ASSERT(same(*g, *x[j].ref->cpu.m_exec), "P28: a machine's decoded code changed"); for (unsigned k = 0; k < j; k++) if (live[k] && x[k].code[0] == x[j].code[0]) COVER(x[k].m->cpu.m_exec == x[j].m->cpu.m_exec ? "shared" : "apart"); } }
	for (unsigned j = 0; j < 3; j++) if (live[j]) x[j].m->memory.evict_execute_segments(); if (tidy && x[0].m && x[1].m && x[2].m) for (unsigned c = 0; c < 2; c++) ASSERT(!cache().get_segment(SegmentKey::from(0x10000, util::crc32c((const uint8_t*)pool[c], 8), 8192)).get(), "P28: an unused segment stays in the cache"); COVER("history"); }
// native calls are set up in one machine: others running the same program must not notice
HARNESS(patched) { cache().clear(); static uint32_t code[8]; for (auto& w : code) w = 0x4C000020u; ImgSym sy[3] = { { "malloc", Img::TEXT + 4, 4 }, { "__memcpy_aligned", Img::TEXT + 12, 4 }, { "free", Img::TEXT + 20, 4 } }; static Img img; img.program(code, 8, sy, 3); unsigned who = (unsigned)__vs_concretize(sym8("who") % 3), what = (unsigned)__vs_concretize(sym8("what") % 4);
	MachineOptions o; o.memory_max = 1 << 20; o.stack_size = o.brk_size = 4096; o.use_shared_execute_segments = false; Machine ref(img.view(), o); o.use_shared_execute_segments = true; Machine* m[3] = {};
	for (unsigned i = 0; i < 3; i++) { m[i] = new Machine(img.view(), o); if (i == who) { if (what & 1) m[i]->setup_accelerated_heap(0x80000, 0x10000); if (what & 2) m[i]->setup_accelerated_syscalls(); } }
	DecodedExecuteSegment& r = *ref.memory.exec_segment_for(Img::TEXT);
	for (unsigned i = 0; i < 3; i++) { DecodedExecuteSegment& s = *m[i]->memory.exec_segment_for(Img::TEXT); for (unsigned j = 0; j < 8; j++) { const DecoderData &a = s.decoder_cache()[j], &b = r.decoder_cache()[j]; bool heap = (i == who) & (what & 1) & ((j == 1) | (j == 5)), mem = (i == who) & ((what >> 1) & 1) & (j == 3); bool eq = (a.bytecode == b.bytecode) & (a.instr == b.instr) & (a.block_bytes == b.block_bytes);
			if (heap | mem) ASSERT(a.bytecode == LA64_BC_SYSCALLIMM, "P28: a native call was not set up"); else ASSERT(eq, "P28: one machine's native calls reach another machine"); } }
	m[who]->memory.evict_execute_segments(); delete m[(who + 1) % 3]; ASSERT(same(*m[(who + 2) % 3]->memory.exec_segment_for(Img::TEXT), r), "P28: a machine's code was changed by another"); COVER("patched"); }
