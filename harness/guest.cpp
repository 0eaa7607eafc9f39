// P30: host views of guest strings and vectors, on arbitrary guest structures and on well-formed ones.
#include "common.hpp"
#include <libloong/native/heap.hpp>
#include <libloong/guest_datatypes.hpp>
static constexpr uint64_t SZ = 1 << 20, LOW = 0x4000, HB = 0x40000, HS = 0x10000;
struct S { Machine* m; uint8_t* ram; uint64_t k; uint8_t kb; };
static void setup(S& s) { s.m = new Machine(std::string_view{}, plain_options()); s.m->memory.allocate_custom_arena(SZ, 0x2000, LOW); s.ram = arena(*s.m); __vs_havoc(s.ram, SZ, "ram"); s.m->m_arena.reset(new Arena(HB, HB + HS)); s.k = sym64("watched"); ASSUME(s.k < SZ); s.kb = s.ram[s.k]; }
template <class F> static int tried(F&& f) { try { f(); return 0; } catch (const std::exception&) { return 1; } }
static bool readable(uint64_t p, uint64_t n) { return (p >= 0x2000) & (p <= SZ) & (n <= SZ - p); }
static bool heap_empty(S& s) { return (s.m->arena().bytes_used() == 0) & (s.m->arena().bytes_free() == HS); }
static bool read_only_same(S& s) { return (s.k >= LOW) | (s.ram[s.k] == s.kb); }
// ---- strings
HARNESS(str_read) { S s; setup(s); static constexpr uint64_t AT = 0x5000; GuestStdString g; memcpy((void*)&g, s.ram + AT, sizeof(g)); bool view = __vs_param("view", 0), local = g.ptr == AT + 16; uint64_t i = sym64("index"), n = g.len; uint64_t cap = sym64("limit"); ASSUME(cap <= 4096); ASSUME(n < 16 || n <= 40 || n > cap || !readable(g.ptr, n));
	bool wf = n < 16 ? readable(g.ptr, n) : readable(g.ptr, n) & (n <= cap); std::string t; std::string_view v; int th = tried([&] { if (view) v = g.to_view(*s.m, cap); else { t = g.to_string(*s.m, cap); v = t; } });
	if (th) { ASSERT(!wf | (n == 0), "P30: a readable string was refused"); COVER("refused"); return; } if (n >= 16) ASSERT(wf, "P30: a string outside memory or over the limit was read"); ASSERT(v.size() == n, "P30: string length"); if (i < n) { bool same = !readable(g.ptr, n) || (uint8_t)v[i] == s.ram[g.ptr + i]; if (n < 16 && !local) __vs_assert_kf(same, true, "heap-short-string", "P30: a short string held on the heap reads as other characters"); else ASSERT(same, "P30: the characters read are not the guest's"); } if (n < 16) COVER("short"); else COVER("long"); ASSERT(s.ram[s.k] == s.kb, "P30: reading a string changed memory"); }
HARNESS(str_set) { S s; setup(s); static constexpr uint64_t AT = 0x5000; GuestStdString* g = new (s.ram + AT) GuestStdString(); uint8_t buf[48]; __vs_havoc(buf, 48, "text"); unsigned a = (unsigned)__vs_concretize(sym8("first") % 20), n = 12 + (unsigned)__vs_concretize(sym8("len") % 20), i = sym8("index"); bool direct = symbool("direct"); const uint64_t rep = __vs_param("again", 0);
	if (rep) g->set_string(*s.m, AT, buf, a + 6 > 15 ? a + 6 : 0); int th = tried([&] { g->set_string(*s.m, AT, buf, n, direct); }); ASSERT(!th, "P30: setting a string failed"); ASSERT(g->len == n, "P30: string length"); ASSERT(n < 16 ? g->ptr == AT + 16 : (g->ptr >= HB) & (g->ptr + n < HB + HS), "P30: where the characters are");
	if (n >= 16) ASSERT((g->capacity >= n) & (s.m->arena().size(g->ptr) >= g->capacity + 1), "P30: capacity beyond the allocation"); else ASSERT(heap_empty(s), "P30: the former text was not freed"); if (i < n) ASSERT(s.ram[g->ptr + i] == buf[i], "P30: the characters stored"); ASSERT(s.ram[g->ptr + n] == 0, "P30: a string is not terminated"); ASSERT((s.k - AT < 32) | (s.k - HB < HS) | (s.ram[s.k] == s.kb), "P30: other memory changed");
	std::string t = g->to_string(*s.m); ASSERT((t.size() == n) && (i >= n || (uint8_t)t[i] == buf[i]), "P30: a string does not read back"); g->free(*s.m); ASSERT(heap_empty(s), "P30: freeing a string leaks guest memory"); if (n < 16) COVER("short"); else COVER("long"); }
HARNESS(rust_read) { S s; setup(s); GuestRustString g; memcpy((void*)&g, s.ram + 0x5000, sizeof(g)); uint64_t i = sym64("index"), n = g.len, cap = sym64("limit"); bool view = __vs_param("view", 0); ASSUME(cap <= 4096); bool wf = readable(g.ptr, n) & (n <= cap); ASSUME(n <= 40 || !wf); std::string t; std::string_view v; int th = tried([&] { if (view) v = g.to_view(*s.m, cap); else { t = g.to_string(*s.m, cap); v = t; } });
	if (th) { ASSERT(!wf, "P30: a readable string was refused"); COVER("refused"); return; } ASSERT(wf | (n == 0), "P30: a string outside memory or over the limit was read"); ASSERT(v.size() == n, "P30: string length"); if (i < n) ASSERT((uint8_t)v[i] == s.ram[g.ptr + i], "P30: the characters read are not the guest's"); ASSERT(s.ram[s.k] == s.kb, "P30: reading a string changed memory"); COVER("read"); }
HARNESS(rust_set) { S s; setup(s); GuestRustString* g = new (s.ram + 0x5000) GuestRustString(); uint8_t buf[48]; __vs_havoc(buf, 48, "text"); unsigned a = (unsigned)__vs_concretize(sym8("first") % 4), n = (unsigned)__vs_concretize(sym8("len") % 36), i = sym8("index"); bool direct = symbool("direct"); if (a) g->set_string(*s.m, buf, a * 9); int th = tried([&] { g->set_string(*s.m, buf, n, direct); }); ASSERT(!th, "P30: setting a string failed");
	ASSERT(g->len == n, "P30: string length"); if (n) { ASSERT((g->ptr >= HB) & (g->ptr + n <= HB + HS) & (g->capacity >= n), "P30: where the characters are"); ASSERT(s.m->arena().size(g->ptr) >= g->capacity, "P30: capacity beyond the allocation"); if (i < n) ASSERT(s.ram[g->ptr + i] == buf[i], "P30: the characters stored"); } else ASSERT(heap_empty(s), "P30: the former text was not freed"); std::string t = g->to_string(*s.m); ASSERT((t.size() == n) && (i >= n || (uint8_t)t[i] == buf[i]), "P30: a string does not read back"); ASSERT((s.k - 0x5000 < 24) | (s.k - HB < HS) | (s.ram[s.k] == s.kb), "P30: other memory changed"); g->free(*s.m); ASSERT(heap_empty(s), "P30: freeing a string leaks guest memory"); COVER("set"); }
// ---- vectors of any shape a guest can make up
struct Odd { uint32_t a, b, c; bool operator==(const Odd&) const = default; };
template <class T> static T some(const char* n) { T t; __vs_havoc(&t, sizeof t, n); return t; }
template <class T> static void hostile() { S s; setup(s); unsigned op = (unsigned)__vs_param("op", 0); GuestStdVector<T> v; v.ptr_begin = sym64("begin"); v.ptr_end = sym64("end"); v.ptr_capacity = sym64("capacity"); const uint64_t b = v.ptr_begin, e = v.ptr_end, c = v.ptr_capacity, n = (e - b) / sizeof(T), bytes = e - b; if (op == 2 || (op >= 4 && op <= 7)) ASSUME((bytes <= 3 * sizeof(T) + 1) | (bytes > 16u << 20)); if (op == 10) ASSUME((bytes <= 3 * sizeof(T)) | (bytes > SZ));
	if (symbool("allocated")) { uint64_t p = s.m->arena().malloc(64); ASSUME(b == p); } T x = some<T>("element"); uint64_t i = sym64("index"); T got = x; bool r = false; T* at = nullptr; std::vector<T> all; uint64_t want = sym64("amount"); if (op == 2 || op == 3) ASSUME(want <= 5);
	int th = tried([&] { switch (op) { case 0: v.push_back(*s.m, x); break; case 1: { T y[3] = { x, x, x }; v.append(*s.m, y, 3); break; } case 2: v.resize(*s.m, want); break; case 3: v.reserve(*s.m, want); break; case 4: v.pop_back(*s.m); break; case 5: v.clear(*s.m); break; case 6: v.free(*s.m); break; case 7: { std::vector<T> y{ x, x }; v.assign(*s.m, y); break; }
		case 8: got = v.at(*s.m, i); r = true; break; case 9: at = v.as_array(*s.m); r = true; break; case 10: all = v.to_vector(*s.m); r = true; break; case 11: { const auto& cv = v; got = cv.at(*s.m, i); r = true; break; } case 12: { const auto& cv = v; at = (T*)cv.as_array(*s.m); r = true; break; } } });
	ASSERT(read_only_same(s), "P30: read-only memory changed"); bool rd = (b >= 0x2000) & (b <= SZ) & (n <= (SZ - b) / sizeof(T)), wr = rd & (b >= LOW); if (op >= 8) { ASSERT(s.ram[s.k] == s.kb, "P30: reading changed memory"); bool may = op == 8 || op == 9 ? wr : rd; if (r) ASSERT(may | (n == 0), "P30: elements outside memory"); if (op == 8 || op == 11) { if (r) { ASSERT(i < n, "P30: an element past the end"); ASSERT(memcmp(&got, s.ram + b + i * sizeof(T), sizeof(T)) == 0, "P30: another element"); COVER("read"); } else ASSERT(!may | (i >= n) | (bytes > 16u << 20), "P30: an element was refused"); } if ((op == 9 || op == 12) && r && n) { ASSERT((uint8_t*)at == s.ram + b, "P30: elements elsewhere"); COVER("read"); }
		if (op == 10) { if (r) { ASSERT(all.size() == n, "P30: number of elements"); if (i < n) ASSERT(memcmp(&all[i], s.ram + b + i * sizeof(T), sizeof(T)) == 0, "P30: another element"); COVER("read"); } else ASSERT(!rd | (n == 0) | (bytes > c - b), "P30: a vector was refused"); } }
	if (th) COVER("refused"); else COVER("done"); }
HARNESS(vec_hostile) { switch (__vs_param("type", 0)) { case 0: hostile<uint8_t>(); break; case 1: hostile<uint64_t>(); break; default: hostile<Odd>(); } }
template <class T> static void rust() { S s; setup(s); unsigned op = (unsigned)__vs_param("op", 0); GuestRustVector<T> v; v.ptr = sym64("ptr"); v.len = sym64("len"); v.capacity = sym64("capacity"); const uint64_t b = v.ptr, n = v.len; uint64_t i = sym64("index"); T got{}; bool r = false; T* at = nullptr; std::vector<T> all; const auto& cv = v; if (op == 3) ASSUME((n <= 3) | (n > SZ));
	int th = tried([&] { switch (op) { case 0: got = v.at(*s.m, i); break; case 1: at = v.as_array(*s.m); break; case 2: got = cv.at(*s.m, i); break; case 3: all = v.to_vector(*s.m); break; case 4: at = (T*)cv.as_array(*s.m); break; case 5: { std::vector<T> y{ some<T>("x"), some<T>("y") }; T z = y[1]; v.ptr = 0; v.assign(*s.m, y); ASSERT((v.len == 2) & (v.capacity >= 2), "P30: vector size"); ASSERT(memcmp(s.ram + v.ptr + sizeof(T), &z, sizeof(T)) == 0, "P30: the elements stored"); v.free(*s.m); ASSERT(heap_empty(s), "P30: freeing a vector leaks guest memory"); } } r = true; });
	bool rd = (b >= 0x2000) & (b <= SZ) & (n <= (SZ - b) / sizeof(T)), wr = rd & (b >= LOW), big = n > (16u << 20) / sizeof(T); if (op == 5) { ASSERT(!th, "P30: assigning failed"); COVER("done"); return; } ASSERT(s.ram[s.k] == s.kb, "P30: reading changed memory"); bool may = op < 2 ? wr : rd; if (th) { ASSERT(!may | big | (n == 0) | (i >= n), "P30: a vector was refused"); COVER("refused"); return; } ASSERT(may | ((op == 3) & (n == 0)), "P30: elements outside memory"); if (op == 0 || op == 2) { ASSERT(i < n, "P30: an element past the end"); ASSERT(memcmp(&got, s.ram + b + i * sizeof(T), sizeof(T)) == 0, "P30: another element"); } if (at && n) ASSERT((uint8_t*)at == s.ram + b, "P30: elements elsewhere"); if (op == 3) { ASSERT(all.size() == n, "P30: number of elements"); if (i < n) ASSERT(memcmp(&all[i], s.ram + b + i * sizeof(T), sizeof(T)) == 0, "P30: another element"); } COVER("done"); }
HARNESS(vec_rust) { switch (__vs_param("type", 0)) { case 0: rust<uint8_t>(); break; case 1: rust<uint64_t>(); break; default: rust<Odd>(); } }
// ---- well-formed vectors: each operation against std::vector, any contents
template <class T> static void shape(S& s, GuestStdVector<T>& g, const std::vector<T>& w) { ASSERT(g.size() == w.size(), "P30: number of elements"); ASSERT(g.capacity() >= g.size(), "P30: a vector over its capacity"); if (g.ptr_begin) ASSERT(s.m->arena().size(g.ptr_begin) >= g.capacity_bytes(), "P30: capacity beyond the allocation"); for (size_t i = 0; i < w.size(); i++) ASSERT(memcmp(s.ram + g.ptr_begin + i * sizeof(T), &w[i], sizeof(T)) == 0, "P30: the elements are not those put in"); }
template <class T> static void model() { S s; setup(s); unsigned op = (unsigned)__vs_param("op", 0); std::vector<T> w; unsigned n = (unsigned)__vs_concretize(sym8("size") % 6), cap = (unsigned)__vs_concretize(sym8("reserved") % 8); for (unsigned i = 0; i < n; i++) w.push_back(some<T>("element")); GuestStdVector<T> g(*s.m, w); shape(s, g, w); if (cap > n) { g.reserve(*s.m, cap); shape(s, g, w); } T x = some<T>("new"); unsigned k = (unsigned)__vs_concretize(sym8("amount") % 8);
	switch (op) { case 0: g.push_back(*s.m, x); w.push_back(x); break; case 1: { T y[8]; for (unsigned i = 0; i < k; i++) { y[i] = some<T>("more"); w.push_back(y[i]); } g.append(*s.m, y, k); break; } case 2: g.resize(*s.m, k); w.resize(k); break; case 3: g.reserve(*s.m, k); ASSERT(g.capacity() >= k, "P30: reserve"); break; case 4: if (n) { g.pop_back(*s.m); w.pop_back(); } break; case 5: g.clear(*s.m); w.clear(); break; case 6: { w.clear(); for (unsigned i = 0; i < k; i++) w.push_back(some<T>("more")); g.assign(*s.m, w); break; } case 7: { w.clear(); T y[8]; for (unsigned i = 0; i < k; i++) w.push_back(y[i] = some<T>("more")); g.assign(*s.m, y, k); break; } }
	if (op == 2) { for (unsigned i = n; i < k; i++) w[i] = T(); } shape(s, g, w); ASSERT((s.k - HB < HS) | (s.ram[s.k] == s.kb), "P30: memory outside the heap changed"); for (unsigned i = 0; i < w.size(); i++) ASSERT(memcmp(&g.at(*s.m, i), &w[i], sizeof(T)) == 0 && g.address_at(i) == g.data() + i * sizeof(T), "P30: element access"); if (op == 0) COVER("grown"); g.free(*s.m); ASSERT(heap_empty(s) & g.empty(), "P30: freeing a vector leaks guest memory"); COVER("done"); }
HARNESS(vec_model) { switch (__vs_param("type", 0)) { case 0: model<uint8_t>(); break; case 1: model<uint64_t>(); break; default: model<Odd>(); } }
// ---- vectors of strings
static std::string text(const char* nm, unsigned n) { uint8_t b[32]; __vs_havoc(b, 32, nm); return std::string((char*)b, n); }
static void strings(S& s, GuestStdVector<GuestStdString>& g, const std::vector<std::string>& w) { ASSERT(g.size() == w.size(), "P30: number of strings"); std::vector<std::string> got = g.to_string_vector(*s.m); ASSERT(got.size() == w.size(), "P30: number of strings"); for (size_t i = 0; i < w.size(); i++) { ASSERT(got[i].size() == w[i].size() && memcmp(got[i].data(), w[i].data(), w[i].size()) == 0, "P30: the strings are not those put in"); GuestStdString& e = g.at(*s.m, i); ASSERT(w[i].size() < 16 ? e.ptr == g.address_at(i) + 16 : (e.ptr >= HB) & (e.ptr < HB + HS), "P30: a string in a vector points elsewhere"); ASSERT(s.ram[e.ptr + w[i].size()] == 0, "P30: a string is not terminated"); ASSERT(memcmp(s.ram + e.ptr, w[i].data(), w[i].size()) == 0, "P30: the guest sees other characters"); } }
static void more_strings(S& s, unsigned op, std::vector<std::string>& w, const std::string& x) { unsigned n = w.size(), k = (unsigned)__vs_concretize(sym8("amount") % 5);
	if (op < 11) { GuestStdVector<GuestStdString> g(*s.m, w); switch (op) { case 8: g.resize(*s.m, k); w.resize(k); break; case 9: { GuestStdString e(*s.m, x); if (k & 1) g.push_back(*s.m, e); else g.push_back(*s.m, std::move(e)); w.push_back(x); break; }
		case 10: { GuestStdString e[2] = { GuestStdString(*s.m, x), GuestStdString(*s.m, std::string_view("more text than fits")) }; g.append(*s.m, e, 1 + (k & 1)); if (!(k & 1)) e[1].free(*s.m); w.push_back(x); if (k & 1) w.push_back("more text than fits"); } } strings(s, g, w); g.free(*s.m); }
	else if (op == 11) { GuestStdVector<GuestStdString> g(*s.m, (size_t)k); w.assign(k, std::string()); strings(s, g, w); g.free(*s.m); }
	else if (op == 12) { std::vector<GuestStdString> y; for (auto& t : w) y.push_back(GuestStdString(*s.m, t)); GuestStdVector<GuestStdString> g(*s.m, y); strings(s, g, w); g.free(*s.m); }
	else if (op == 13) { GuestStdVector<GuestStdVector<uint32_t>> g(*s.m, std::vector<GuestStdVector<uint32_t>>{}); std::vector<std::vector<uint32_t>> u; for (unsigned i = 0; i < n; i++) { std::vector<uint32_t> e; for (unsigned j = 0; j <= i; j++) e.push_back(some<uint32_t>("element")); g.push_back(*s.m, e); u.push_back(e); } switch (k) { case 0: if (n) { g.pop_back(*s.m); u.pop_back(); } break; case 1: g.resize(*s.m, n / 2); u.resize(n / 2); break; case 2: g.clear(*s.m); u.clear(); break; case 3: g.reserve(*s.m, 9); break; default: g.resize(*s.m, n + 1); u.resize(n + 1); }
		ASSERT(g.size() == u.size(), "P30: number of vectors"); for (unsigned i = 0; i < u.size(); i++) shape(s, g.at(*s.m, i), u[i]); g.free(*s.m); }
	else if (op == 14) { { ScopedRustVector<GuestRustString> g(*s.m, w); ASSERT(g->size() == n, "P30: number of strings"); for (unsigned i = 0; i < n; i++) { ASSERT(g->at(*s.m, i).to_string(*s.m) == w[i], "P30: the strings are not those put in"); } if (k == 1) g->free(*s.m); if (k == 2) g->assign(*s.m, std::vector<GuestRustString>(2, GuestRustString())); } }
	ASSERT(heap_empty(s), "P30: freeing a vector of strings leaks guest memory"); }
// the guest overwrites a scoped object: the host's destructor must cope
HARNESS(vec_wrecked) { S s; setup(s); unsigned t = (unsigned)__vs_param("type", 0); std::vector<std::string> w; unsigned n = (unsigned)__vs_concretize(sym8("size") % 3); for (unsigned i = 0; i < n; i++) w.push_back(text("text", 20)); ASSUME(s.k - HB >= HS); int th = tried([&] {
	if (t == 0) { ScopedCppVector<GuestStdString> g(*s.m, w); uint64_t f[3]; __vs_havoc(f, 24, "structure"); unsigned z = (unsigned)__vs_concretize(sym8("count") % 4); if (z < 3) { static const uint64_t at[] = { 0, LOW - 32, LOW, HB, HB + HS, SZ - 32, 0x60001 }; unsigned c = (unsigned)__vs_concretize(sym8("where") & 7); if (c < 7) f[0] = at[c]; else ASSUME(f[0] > SZ); f[1] = f[0] + z * 32 + (f[2] & 7); } else ASSUME(f[1] - f[0] > (16u << 20)); memcpy(s.ram + g.address(), f, 24); }
	else if (t == 1) { ScopedCppString g(*s.m, std::string_view("a string of some length")); uint64_t f[4]; __vs_havoc(f, 32, "structure"); memcpy(s.ram + g.address(), f, 32); }
	else if (t == 2) { ScopedRustVector<GuestRustString> g(*s.m, w); uint64_t f[3]; __vs_havoc(f, 24, "structure"); if (f[0] < 3) { static const uint64_t at[] = { 0, LOW - 24, LOW, HB, HB + HS, SZ - 24, 0x60001 }; unsigned c = (unsigned)__vs_concretize(sym8("where") & 7); if (c < 7) f[1] = at[c]; else ASSUME(f[1] > SZ); } else ASSUME(f[0] > (1u << 20)); memcpy(s.ram + g.address(), f, 24); }
	else { ScopedRustString g(*s.m, std::string_view("a string of some length")); uint64_t f[3]; __vs_havoc(f, 24, "structure"); memcpy(s.ram + g.address(), f, 24); } }); (void)th; ASSERT((s.k >= LOW) | (s.ram[s.k] == s.kb), "P30: destroying changed read-only memory"); COVER("done"); }
HARNESS(vec_strings) { S s; setup(s); unsigned op = (unsigned)__vs_param("op", 0); std::vector<std::string> w; unsigned n = (unsigned)__vs_concretize(sym8("size") % 4), l = (unsigned)__vs_concretize(sym8("lengths") & 15); for (unsigned i = 0; i < n; i++) w.push_back(text("text", l >> i & 1 ? 20 + i : 3 + 12 * (i & 1))); std::string x = text("new", l & 8 ? 31 : 5);
	if (op < 5) { GuestStdVector<GuestStdString> g(*s.m, w); strings(s, g, w); switch (op) { case 1: g.push_back(*s.m, std::string_view(x)); w.push_back(x); break; case 2: g.reserve(*s.m, 9); break; case 3: if (n) { g.pop_back(*s.m); w.pop_back(); } break; case 4: g.clear(*s.m); w.clear(); break; } strings(s, g, w); g.free(*s.m); ASSERT(heap_empty(s), "P30: freeing a vector of strings leaks guest memory"); }
	else if (op == 5) { { ScopedCppVector<GuestStdString> g(*s.m, w); strings(s, *g, w); ASSERT(memcmp(s.ram + g.address(), &*g, 24) == 0, "P30: a scoped object is not in guest memory"); } ASSERT(heap_empty(s), "P30: a scoped vector leaks guest memory"); }
	else if (op == 6) { { ScopedCppString g(*s.m, std::string_view(x)); ASSERT(g->ptr == (x.size() < 16 ? g.address() + 16 : g->ptr), "P30: a scoped string points elsewhere"); ASSERT(g->to_string(*s.m) == x, "P30: a scoped string"); std::string y = text("second", l & 4 ? 17 : 15); g = std::string_view(y); ASSERT(g->ptr == (y.size() < 16 ? g.address() + 16 : g->ptr), "P30: a scoped string points elsewhere"); ASSERT(memcmp(s.ram + g->ptr, y.data(), y.size()) == 0 && g->size() == y.size(), "P30: a scoped string assigned"); } ASSERT(heap_empty(s), "P30: a scoped string leaks guest memory"); }
	else if (op >= 8) more_strings(s, op, w, x);
	else { { ScopedCppString a(*s.m, std::string_view(x)), b(*s.m, std::string_view("another one")); b = std::move(a); ASSERT(b->to_string(*s.m) == x, "P30: a scoped string moved"); } ASSERT(heap_empty(s), "P30: moving a scoped string leaks guest memory"); }
	COVER("done"); }
