// P29: CRC32-C by every implementation.
#include <nmmintrin.h>
#include "common.hpp"
#include <libloong/util/crc32.hpp>
#ifndef VS_NATIVE
extern "C" { extern int __cpu_model[4]; int __cpu_model[4] = { 0, 0, 0, 0 }; }
#endif
// Castagnoli polynomial, reflected, bit by bit
static uint32_t step(uint32_t crc, uint8_t b) { crc ^= b; for (int i = 0; i < 8; i++) crc = (crc >> 1) ^ (0x82F63B78u & (0u - (crc & 1))); return crc; }
// the processor's byte instruction, shown equal to the definition by crc_step, then composed
__attribute__((target("sse4.2"))) static uint32_t bytes(uint32_t crc, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) crc = _mm_crc32_u8(crc, p[i]); return crc; }
HARNESS(crc_step) { uint32_t c = sym32("crc"); uint8_t b = sym8("byte"); ASSERT(bytes(c, &b, 1) == step(c, b), "P29: one byte"); COVER("step"); }
static void cpu(bool hw) {
#ifndef VS_NATIVE
	__cpu_model[3] = hw ? -1 : 0;
#endif
}
// the public functions: any contents, length, alignment and starting value
HARNESS(crc_bytes) {
	bool hw = __vs_param("hw", 1); cpu(hw); uint64_t N = __vs_param("n", 24), lo = __vs_param("lo", 0);
	static uint8_t raw[192]; uint8_t* base = (uint8_t*)(((uintptr_t)raw + 63) & ~63ull); __vs_havoc(base, 96, "data");
	uint64_t al = sym8("align"), n = sym8("len"); ASSUME((al < 8) & (n <= N) & (n >= lo)); al = __vs_concretize(al); n = __vs_concretize(n);
	const uint8_t* d = base + al;
	if (symbool("whole")) { ASSERT(util::crc32c(d, n) == (uint32_t)~bytes(0xFFFFFFFFu, d, n), "P29: CRC32-C of a buffer"); COVER("whole"); return; }
	uint32_t c = sym32("crc"); uint64_t cut = sym8("cut"); ASSUME(cut <= n); cut = __vs_concretize(cut);
	uint32_t r = util::crc32c(util::crc32c(c, d, cut), d + cut, n - cut); ASSERT(r == bytes(c, d, n), "P29: CRC32-C computed in two parts"); COVER("parts");
}
// the table-driven fallback: one byte equals the bitwise definition, and longer inputs are the composition of single bytes
HARNESS(crc_table) {
	static uint8_t d[64]; __vs_havoc(d, 64, "data"); uint32_t c = sym32("crc"); uint64_t N = __vs_param("n", 16);
	if (symbool("byte")) { cpu(false); ASSERT((util::crc32_sw<0x82F63B78>(c, d, 1) == step(c, d[0])), "P29: one byte by table"); ASSERT(util::crc32c(c, d, 1) == step(c, d[0]), "P29: one byte without hardware support"); COVER("byte"); return; }
	cpu(false); uint64_t n = sym8("len"); ASSUME(n <= N); n = __vs_concretize(n); uint32_t r = c; for (uint64_t i = 0; i < n; i++) r = util::crc32c(r, d + i, 1);
	ASSERT(util::crc32c(c, d, n) == r, "P29: longer input without hardware support"); ASSERT(util::crc32c(d, n) == (uint32_t)~util::crc32c(0xFFFFFFFFu, d, n), "P29: initial and final inversion"); COVER("compose");
}
