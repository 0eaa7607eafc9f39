#pragma once
#include "vs.hpp"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <memory>
#include <libloong/machine.hpp>
using namespace loongarch;

// run f; 0 = returned, 1 = the library's own exception
template <class F> static inline int guarded(F&& f) {
	try { f(); return 0; } catch (const MachineException&) { return 1; }
}
// A machine without a program, with an arena of symbolic geometry and arbitrary contents.
struct Geo { uint64_t size, ro, data; };
static inline Geo sym_geo(uint64_t maxsize = (1ull << 39)) {
	Geo g; g.size = sym64("arena_size"); g.ro = sym64("rodata_start"); g.data = sym64("data_start");
	ASSUME((g.size >= 1) & (g.size <= maxsize)); ASSUME((g.ro <= g.data) & (g.data < g.size));
	return g;
}
static inline uint8_t* arena(Machine& m) { return const_cast<uint8_t*>(m.memory.arena_ptr()); }
static inline void give_arena(Machine& m, const Geo& g, bool havoc = true) {
	m.memory.allocate_custom_arena(g.size, g.ro, g.data);
	if (havoc) __vs_havoc(arena(m), g.size + 64, "arena");
}
static inline MachineOptions plain_options() { MachineOptions o; o.use_shared_execute_segments = false; return o; }
