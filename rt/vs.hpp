// Harness interface: the same harness is executed symbolically (vse) and natively (replay).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
	void __vs_sym(void* p, size_t n, const char* name);
	void __vs_havoc(void* p, size_t n, const char* name);
	void __vs_assume(bool c);
	void __vs_assert(bool c, const char* msg);
	void __vs_assert_kf(bool ok, bool documented_fault, const char* id, const char* msg);
	[[noreturn]] void __vs_fail(const char* msg);
	void __vs_cover(const char* name);
	void __vs_trail(const char* name);
	uint64_t __vs_param(const char* name, uint64_t dflt);
	uint64_t __vs_concretize(uint64_t v);
	[[noreturn]] void __vs_end();
	int __vs_symbolic();
	void __vs_steplimit(uint64_t n, const char* msg);
	void __vs_touch(const void* p, size_t n, const char* what);
	void __vs_print(const char* n, uint64_t v);
	int __vs_expect_fault(int on);
}
template <class T> static inline T sym(const char* n) { T v; __vs_sym(&v, sizeof(v), n); return v; }
static inline uint64_t sym64(const char* n) { return sym<uint64_t>(n); }
static inline uint32_t sym32(const char* n) { return sym<uint32_t>(n); }
static inline uint8_t sym8(const char* n) { return sym<uint8_t>(n); }
static inline bool symbool(const char* n) { uint8_t v = sym<uint8_t>(n); __vs_assume(v <= 1); return v != 0; }
#define ASSUME(c) __vs_assume(c)
#define ASSERT(c, m) __vs_assert((c), (m))
#define COVER(n) __vs_cover(n)
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void name()
#define NOINLINE __attribute__((noinline))
