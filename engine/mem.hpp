// Values and the memory model.
#pragma once
#include "expr.hpp"
#include <map>
#include <set>

struct Val {
	enum K : uint8_t { None, Conc, Sym, Agg };
	K k = None;
	uint32_t prov = 0;    // object id a pointer-like value was derived from
	APInt c;              // Conc
	E e;                  // Sym (Bool sort for i1)
	std::shared_ptr<std::vector<Val>> agg;
	Val() : c(1, 0) {}
	static Val C64(uint64_t v, unsigned w = 64) { Val r; r.k = Conc; r.c = APInt(w, v); return r; }
	static Val CA(const APInt& v) { Val r; r.k = Conc; r.c = v; return r; }
	static Val S(const E& e) {
		Val r;
		if (isBoolE(e)) { if (isT(e)) return C64(1, 1); if (isF(e)) return C64(0, 1); }
		else { APInt v; if (getNum(e, v)) return CA(v); }
		r.k = Sym; r.e = e; return r;
	}
	static Val A(std::vector<Val> v) { Val r; r.k = Agg; r.agg = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
	bool conc() const { return k == Conc; }
	bool sym() const { return k == Sym; }
	unsigned w() const { return k == Conc ? c.getBitWidth() : k == Sym ? widthE(e) : 0; }
	uint64_t u() const { return c.getLimitedValue(); }
	Val withProv(uint32_t p) const { Val r = *this; r.prov = p; return r; }
	E toE() const { // i1 -> Bool
		if (k == Conc) return c.getBitWidth() == 1 ? (c.isZero() ? F() : T()) : numAP(c);
		return e;
	}
};

struct Upd; using UpdP = std::shared_ptr<Upd>;
struct Obj;
struct Upd {
	enum K { Store, Copy, Set, BaseArr, BaseCells, BaseConst } k;
	Val idx;        // 64-bit offset (Store, Copy, Set)
	Val n;          // length in bytes (Store: concrete)
	Val v;          // Store: value of n*8 bits; Set: 8 bit; BaseConst: 8 bit
	UpdP src; Val srcOff;   // Copy
	E arr;                  // BaseArr
	std::shared_ptr<Obj> cells; // BaseCells snapshot
	UpdP prev;
	// deep update chains must not recurse on destruction
	~Upd() { UpdP p = std::move(prev); while (p && p.use_count() == 1) { UpdP q = std::move(p->prev); p = std::move(q); } }
};

struct Obj {
	uint32_t id = 0;
	uint64_t base = 0;
	Val size;                // 64-bit, concrete or symbolic
	uint64_t reserve = 0;    // address space reserved
	bool freed = false, readonly = false, global = false;
	uint8_t kind = 0;        // 0 global 1 stack 2 heap(malloc) 3 new 4 mmap 5 new[] 6 other
	std::string name;
	// cell mode
	std::vector<uint8_t> data, st;          // st: 0 uninit 1 concrete 2 symbolic
	std::vector<std::pair<E, uint8_t>> sx;  // symbolic byte: (expr, byte index)
	std::vector<uint32_t> pv;               // provenance of the pointer this byte belongs to
	// array mode
	UpdP head;
	bool arr() const { return (bool)head; }
	bool concSize() const { return size.conc(); }
};
