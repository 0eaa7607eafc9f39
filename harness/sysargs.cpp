// P26: system call arguments and results as host types.
#include "common.hpp"
enum class E8 : int8_t {}; enum class U8 : uint8_t {}; enum class E32 : int32_t {}; enum class U32 : uint32_t {}; enum class U64 : uint64_t {};
struct S1 { uint8_t a; }; struct S4 { uint16_t a; uint8_t b, c; }; struct S12 { uint32_t a, b, c; }; struct S16 { uint64_t a; uint32_t b; uint32_t c; }; struct S24 { uint64_t a; uint16_t b; uint8_t c[14]; };
static Machine* mk() { auto* m = new Machine{std::string_view{}, plain_options()}; __vs_havoc(&m->cpu.m_regs.m_regs, sizeof(m->cpu.m_regs.m_regs), "gpr"); __vs_havoc(&m->cpu.m_regs.m_vr, sizeof(m->cpu.m_regs.m_vr), "vr"); m->cpu.m_regs.m_regs[0] = 0; return m; }
static unsigned idx(unsigned n) { unsigned i = sym8("index"); ASSUME(i < n); return (unsigned)__vs_concretize(i); }
static uint64_t areg(Machine& m, unsigned i) { return m.cpu.m_regs.m_regs[4 + i]; }
static uint64_t freg(Machine& m, unsigned i) { uint64_t v; memcpy(&v, &m.cpu.m_regs.m_vr[i], 8); return v; }
template <class T> static void arg_scalar(Machine& m) {
	unsigned i = idx(8); uint64_t bits; T v = m.sysarg<T>((int)i);
	if constexpr (std::is_floating_point_v<T>) bits = freg(m, i); else bits = areg(m, i);
	if constexpr (std::is_same_v<T, bool>) { ASSUME(bits <= 1); ASSERT(v == (bits != 0), "P26: bool argument"); }
	else ASSERT(memcmp(&v, &bits, sizeof(T)) == 0, "P26: scalar argument");
	auto [w] = m.sysargs<T>(); uint64_t first; if constexpr (std::is_floating_point_v<T>) first = freg(m, 0); else first = areg(m, 0);
	if constexpr (std::is_same_v<T, bool>) ASSERT((first > 1) | (w == (first != 0)), "P26: bool tuple argument"); else ASSERT(memcmp(&w, &first, sizeof(T)) == 0, "P26: scalar tuple argument");
	COVER("scalar");
}
template <class T> static void arg_struct(Machine& m) {
	Geo g = sym_geo(1 << 20); give_arena(m, g); unsigned i = idx(8); uint64_t p = areg(m, i); T v; __vs_havoc(&v, sizeof(T), "before"); int th = guarded([&] { v = m.sysarg<T>((int)i); });
	bool inside = (p >= g.ro) & (p < g.size) & (g.size - p >= sizeof(T)); ASSERT(inside == !th, "P26: structure argument bounds");
	if (!th) { unsigned k = sym8("byte"); ASSUME(k < sizeof(T)); ASSERT(((uint8_t*)&v)[k] == arena(m)[p + k], "P26: structure argument contents"); COVER("struct"); } else COVER("fault");
}
template <class T> static void arg_pointer(Machine& m) {
	Geo g = sym_geo(1 << 20); give_arena(m, g); unsigned i = idx(8); uint64_t p = areg(m, i); T* v = nullptr; int th = guarded([&] { v = m.sysarg<T*>((int)i); });
	bool inside = (p >= g.ro) & (p < g.size) & (g.size - p >= sizeof(T)); if (!th) { ASSERT(inside, "P26: pointer argument outside guest memory"); ASSERT((const uint8_t*)v == arena(m) + p, "P26: pointer argument"); COVER("struct"); } else { ASSERT(!inside, "P26: pointer argument refused"); COVER("fault"); }
}
static void arg_view(Machine& m) {
	Geo g = sym_geo(1 << 20); give_arena(m, g); unsigned i = idx(7); uint64_t p = areg(m, i), n = areg(m, i + 1); std::string_view v; int th = guarded([&] { v = m.sysarg<std::string_view>((int)i); });
	bool inside = (p >= g.ro) & (p < g.size) & (n <= g.size - p);
	if (!th) { ASSERT(inside | (n == 0), "P26: view outside guest memory"); ASSERT(v.size() == n, "P26: view length"); ASSERT((n == 0) | ((const uint8_t*)v.data() == arena(m) + p), "P26: view address"); COVER("view"); } else { ASSERT(!inside | (n == 0), "P26: view refused"); COVER("fault"); }
}
static void arg_string(Machine& m) {
	Geo g = sym_geo(1 << 20); give_arena(m, g); unsigned i = idx(2) * 7; uint64_t p = areg(m, i); static const uint64_t N = __vs_param("len", 6);
	bool inside = (p >= g.ro) & (p < g.size); uint64_t room = inside ? g.size - p : 0, end = sym64("end"); ASSUME(end <= N); const uint8_t* r = arena(m);
	// a terminator within N bytes, or memory ending there
	if (inside) { ASSUME(end <= room); for (uint64_t k = 0; k < N; k++) if (k < end) ASSUME(r[p + (k < room ? k : 0)] != 0); ASSUME((end == room) | (r[p + (end < room ? end : 0)] == 0)); end = __vs_concretize(end); }
	std::string s; int th = guarded([&] { s = m.sysarg<std::string>((int)i); });
	ASSERT(inside == !th, "P26: string argument bounds"); 
	if (!th) { ASSERT(s.size() == end, "P26: string argument length"); for (uint64_t k = 0; k < end; k++) ASSERT((uint8_t)s[k] == r[p + k], "P26: string argument contents"); COVER("string"); } else COVER("fault");
}
HARNESS(args) {
	auto& m = *mk();
	switch (__vs_param("t", 0)) {
	case 0: return arg_scalar<int8_t>(m); case 1: return arg_scalar<uint8_t>(m); case 2: return arg_scalar<int16_t>(m); case 3: return arg_scalar<uint16_t>(m); case 4: return arg_scalar<int32_t>(m); case 5: return arg_scalar<uint32_t>(m);
	case 6: return arg_scalar<int64_t>(m); case 7: return arg_scalar<uint64_t>(m); case 8: return arg_scalar<bool>(m); case 9: return arg_scalar<float>(m); case 10: return arg_scalar<double>(m); case 11: return arg_scalar<E8>(m); case 12: return arg_scalar<U32>(m); case 13: return arg_scalar<U64>(m); case 14: return arg_scalar<char>(m);
	case 20: return arg_struct<S1>(m); case 21: return arg_struct<S4>(m); case 22: return arg_struct<S12>(m); case 23: return arg_struct<S24>(m);
	case 30: return arg_pointer<const uint8_t>(m); case 31: return arg_pointer<const uint64_t>(m); case 32: return arg_pointer<const S24>(m); case 33: return arg_pointer<S12>(m);
	case 40: return arg_view(m); case 41: return arg_string(m); }
}
// mixed lists: integer and floating-point registers are counted apart, views take two
HARNESS(mixed) {
	auto& m = *mk(); Geo g{0x10000, 0x1000, 0x4000}; give_arena(m, g); 
	switch (__vs_param("t", 0)) {
	case 0: { auto [a, f, b, d, c, e, h] = m.sysargs<int32_t, float, uint8_t, double, uint64_t, int16_t, float>();
		float f0, f2; double d1; uint64_t x; x = freg(m, 0); memcpy(&f0, &x, 4); x = freg(m, 1); memcpy(&d1, &x, 8); x = freg(m, 2); memcpy(&f2, &x, 4);
		ASSERT((a == (int32_t)areg(m, 0)) & (b == (uint8_t)areg(m, 1)) & (c == areg(m, 2)) & (e == (int16_t)areg(m, 3)), "P26: integers of a mixed list"); ASSERT((memcmp(&f, &f0, 4) == 0) & (memcmp(&d, &d1, 8) == 0) & (memcmp(&h, &f2, 4) == 0), "P26: floats of a mixed list"); COVER("mixed"); break; }
	case 1: { uint64_t p = areg(m, 1), n = areg(m, 2), q = areg(m, 4); ASSUME((p >= 0x1000) & (p < 0x10000) & (n <= 0x10000 - p)); ASSUME((q >= 0x1000) & (q <= 0x10000 - sizeof(S16)));
		auto [a, v, u, s, e] = m.sysargs<uint16_t, std::string_view, U8, S16, int64_t>(); unsigned k = sym8("byte"); ASSUME(k < 16);
		ASSERT((a == (uint16_t)areg(m, 0)) & ((uint8_t)u == (uint8_t)areg(m, 3)) & ((uint64_t)e == areg(m, 5)), "P26: integers around a view"); ASSERT((v.size() == n) & ((n == 0) | ((const uint8_t*)v.data() == arena(m) + p)), "P26: view in a list"); ASSERT(((uint8_t*)&s)[k] == arena(m)[q + k], "P26: structure in a list"); COVER("mixed"); break; }
	case 2: { uint64_t p = areg(m, 0), q = areg(m, 2); ASSUME((p >= 0x1000) & (p < 0x10000) & (q >= 0x1000) & (q <= 0x10000 - 8)); ASSUME((arena(m)[p] == 0) | ((p < 0xFFFF) & (arena(m)[p < 0xFFFF ? p + 1 : p] == 0)));
		auto [s, b, ptr, z] = m.sysargs<std::string, bool, const uint64_t*, uint32_t>(); ASSERT(s.size() == (arena(m)[p] != 0), "P26: string in a list"); ASSERT((const uint8_t*)ptr == arena(m) + q, "P26: pointer in a list"); ASSERT(z == (uint32_t)areg(m, 3), "P26: integer after a pointer"); ASSERT((areg(m, 1) > 1) | (b == (areg(m, 1) == 1)), "P26: bool in a list"); COVER("mixed"); break; }
	case 3: { auto t = m.sysargs<uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t>(); ASSERT((std::get<0>(t) == areg(m, 0)) & (std::get<1>(t) == areg(m, 1)) & (std::get<2>(t) == areg(m, 2)) & (std::get<3>(t) == areg(m, 3)) & (std::get<4>(t) == areg(m, 4)) & (std::get<5>(t) == areg(m, 5)) & (std::get<6>(t) == areg(m, 6)) & (std::get<7>(t) == areg(m, 7)), "P26: eight arguments"); COVER("mixed"); break; }
	case 4: { auto t = m.sysargs<double, double, double, double, double, double, double, double, int>(); bool ok = true; auto one = [&](unsigned i, double d) { uint64_t x = freg(m, i); ok &= memcmp(&x, &d, 8) == 0; }; one(0, std::get<0>(t)); one(1, std::get<1>(t)); one(2, std::get<2>(t)); one(3, std::get<3>(t)); one(4, std::get<4>(t)); one(5, std::get<5>(t)); one(6, std::get<6>(t)); one(7, std::get<7>(t)); ASSERT(ok, "P26: eight doubles"); ASSERT(std::get<8>(t) == (int)areg(m, 0), "P26: integer after doubles"); COVER("mixed"); break; }
	}
}
// results: the guest's view of A0/FA0, everything else unchanged; and read back by the host
template <class T> static uint64_t widened(T v) { if constexpr (std::is_enum_v<T>) return widened((std::underlying_type_t<T>)v); else if constexpr (sizeof(T) <= 4) return (uint64_t)(int64_t)(int32_t)v; else return (uint64_t)v; }
template <class T> static void res_scalar(Machine& m) {
	T v = sym<T>("value"); unsigned k = sym8("reg"), f = sym8("freg"); ASSUME((k < 32) & (f < 32)); uint64_t before = m.cpu.m_regs.m_regs[k], fb = freg(m, f);
	if constexpr (std::is_same_v<T, bool>) { uint8_t b = sym8("flag"); v = b & 1; }
	m.set_result(v);
	if constexpr (std::is_floating_point_v<T>) {
		ASSERT(m.cpu.m_regs.m_regs[k] == before, "P26: a floating-point result changed an integer register"); uint64_t now = freg(m, f); if (f == 0) ASSERT(memcmp(&now, &v, sizeof(T)) == 0, "P26: floating-point result"); else ASSERT(now == fb, "P26: a result changed another register");
		T r = m.return_value<T>(); ASSERT(memcmp(&r, &v, sizeof(T)) == 0, "P26: floating-point return value"); COVER("result");
	} else {
		ASSERT(m.cpu.m_regs.m_regs[k] == (k == 4 ? widened(v) : before), "P26: integer result"); ASSERT(freg(m, f) == fb, "P26: an integer result changed a vector register");
		if constexpr (!std::is_enum_v<T>) ASSERT(m.return_value<T>() == v, "P26: integer return value"); COVER("result");
	}
}
template <class T> static void res_struct(Machine& m) {
	T v; __vs_havoc(&v, sizeof(T), "value"); unsigned k = sym8("reg"); ASSUME(k < 32); uint64_t before = m.cpu.m_regs.m_regs[k]; m.set_result(v); unsigned b = sym8("byte"); ASSUME(b < sizeof(T));
	ASSERT((k == 4) | ((k == 5) & (sizeof(T) > 8)) | (m.cpu.m_regs.m_regs[k] == before), "P26: a structure result changed another register"); uint64_t w = areg(m, b / 8); ASSERT((uint8_t)(w >> (b % 8 * 8)) == ((uint8_t*)&v)[b], "P26: structure result"); COVER("result");
}
template <class T> static void ret_scalar(Machine& m) { uint64_t a = areg(m, 0), f = freg(m, 0); T v = m.return_value<T>(); if constexpr (std::is_floating_point_v<T>) ASSERT(memcmp(&v, &f, sizeof(T)) == 0, "P26: return value"); else ASSERT(memcmp(&v, &a, sizeof(T)) == 0, "P26: return value"); COVER("return"); }
HARNESS(results) {
	auto& m = *mk();
	switch (__vs_param("t", 0)) {
	case 0: return res_scalar<int8_t>(m); case 1: return res_scalar<uint8_t>(m); case 2: return res_scalar<int16_t>(m); case 3: return res_scalar<uint16_t>(m); case 4: return res_scalar<int32_t>(m); case 5: return res_scalar<uint32_t>(m);
	case 6: return res_scalar<int64_t>(m); case 7: return res_scalar<uint64_t>(m); case 8: return res_scalar<bool>(m); case 9: return res_scalar<float>(m); case 10: return res_scalar<double>(m); case 11: return res_scalar<E8>(m); case 12: return res_scalar<U32>(m); case 13: return res_scalar<U64>(m); case 14: return res_scalar<U8>(m); case 15: return res_scalar<long long>(m); case 16: return res_scalar<char>(m);
	case 20: return res_struct<S4>(m); case 21: return res_struct<S12>(m); case 22: return res_struct<S16>(m);
	case 30: return ret_scalar<int8_t>(m); case 31: return ret_scalar<uint16_t>(m); case 32: return ret_scalar<int32_t>(m); case 33: return ret_scalar<uint32_t>(m); case 34: return ret_scalar<int64_t>(m); case 35: return ret_scalar<float>(m); case 36: return ret_scalar<double>(m); }
}
