// P04-P07: one instruction, on an arbitrary register file and memory, against the architecture.
#include "isa_spec.hpp"

static char msgbuf[160];
static const char* M(const char* name, const char* what) {
	unsigned n = 0; for (const char* s = name; *s && n < 60; s++) msgbuf[n++] = *s;
	msgbuf[n++] = ':'; msgbuf[n++] = ' '; for (const char* s = what; *s && n < 150; s++) msgbuf[n++] = *s; msgbuf[n] = 0; return msgbuf;
}
static bool is_madd(const char* n) { for (; n[0]; n++) if (n[0] == 'M' && (n[1] == 'A' || n[1] == 'S') && (n[2] == 'D' || n[2] == 'U') && (n[3] == 'D' || n[3] == 'B')) return true; return false; }
static Cat cat_of(uint32_t id) { // the category is a property of the opcode, evaluated on a dummy state
	static Spec* sp = new Spec(); static uint8_t ram[64]; sp->w = 0; for (unsigned i = 0; i < NROWS; i++) if ((uint32_t)rows[i].id == id) sp->w = rows[i].match;
	sp->ram = ram; sp->cat = INT; sp->size = 0; sp->ro = 0; sp->data = 0; sp->run((InstrId)id); return sp->cat;
}
struct State { Registers r; bool ll; };

static void instr(unsigned row, uint64_t size, uint64_t ro, uint64_t data) {
	const Row& R = rows[row]; const char* name = R.name;
	Machine m{std::string_view{}, plain_options()}; Geo g{size, ro, data}; give_arena(m, g);
	CPU& cpu = m.cpu;
	__vs_havoc(&cpu.m_regs.m_regs, sizeof(cpu.m_regs.m_regs), "gpr");
	__vs_havoc(&cpu.m_regs.m_vr, sizeof(cpu.m_regs.m_vr), "fpv");
	cpu.m_regs.m_regs[0] = 0;
	cpu.m_regs.m_fcc = sym8("fcc"); cpu.m_regs.m_fcsr.whole = sym32("fcsr");
	uint64_t pc = sym64("pc"); ASSUME((pc & 3) == 0); cpu.m_regs.pc = pc;
	bool ll = symbool("llbit"); cpu.m_ll_bit = ll;
	uint32_t fields = sym32("fields"); uint32_t w = R.match | (fields & ~R.mask);
	// more specific rows own their words (NOP inside ANDI, ...)
	for (unsigned i = 0; i < NROWS; i++) if (i != row && (rows[i].mask & R.mask) == R.mask && (rows[i].match & R.mask) == R.match && rows[i].mask != R.mask) ASSUME((w & rows[i].mask) != rows[i].match);
	__vs_trail(name);

	// rows whose result branches lane by lane: few register assignments (with and without aliasing), one lane at a time
	unsigned few = 0, lanes = 0, esz = 0; uint64_t fill = 0; unsigned src = 0;
	switch (R.id) {
	case InstrId::FTINTRZ_L_S: case InstrId::FTINTRZ_L_D: case InstrId::FTINTRZ_W_S: case InstrId::FTINTRZ_W_D: case InstrId::XVPERMI_D: case InstrId::XVPERMI_Q: case InstrId::VINSGR2VR_D: few = 3; break;
	case InstrId::VFTINTRZ_W_S: few = 3; lanes = 4; esz = 4; fill = 0x40400000; src = 5; break;
	case InstrId::VFTINTRZ_L_D: few = 3; lanes = 2; esz = 8; fill = 0x4008000000000000ull; src = 5; break;
	case InstrId::VFCMP_COND_D: few = 7; lanes = 2; esz = 8; fill = 0x4008000000000000ull; src = 5; break;
	case InstrId::XVFCMP_COND_D: few = 7; lanes = 4; esz = 8; fill = 0x4008000000000000ull; src = 5; break;
	case InstrId::VFRSTPI_B: few = 3; lanes = 16; esz = 1; fill = 5; src = 5; break;
	case InstrId::VSHUF_B: few = 15; lanes = 16; esz = 1; fill = 5; src = 15; break;
	default: break;
	}
	bool quick = __vs_param("full", 0) == 0; uint64_t part = __vs_param("part", 9); unsigned a = 0;
	if (few) {
		if (part < 9 && !lanes) ASSUME(((w >> 10) & 3) == part);
		if (quick && R.id == InstrId::XVPERMI_D) ASSUME(((w >> 14) & 15) == (((w >> 10) & 15) ^ 9));
		a = (unsigned)symbool("alias"); a = (unsigned)__vs_concretize(a);
		if (few & 1) w = (w & ~31u) | 1; if (few & 2) w = (w & ~(31u << 5)) | ((1 + a) << 5); if (few & 4) w = (w & ~(31u << 10)) | ((3 - a) << 10); if (few & 8) w = (w & ~(31u << 15)) | (4u << 15);
	}
	if (lanes) {
		unsigned q = (unsigned)sym8("lane"); ASSUME(q < lanes); if (quick && lanes == 16) ASSUME(((q == 3) & (a == 1)) | ((q == 15) & (a == 0))); if (part < 9) ASSUME((q & 3) == part); q = (unsigned)__vs_concretize(q); uint8_t* v = (uint8_t*)&cpu.m_regs.m_vr[(w >> src) & 31];
		unsigned rs = (unsigned)__vs_concretize((w >> src) & 31); v = (uint8_t*)&cpu.m_regs.m_vr[rs];
		for (unsigned i = 0; i < lanes; i++) if (i != q) memcpy(v + i * esz, &fill, esz);
	}
	Spec* sp = new Spec(); sp->w = w; sp->pc = pc; memcpy(sp->R, &cpu.m_regs.m_regs, sizeof(sp->R)); memcpy(sp->V, &cpu.m_regs.m_vr, sizeof(sp->V));
	sp->fcc = cpu.m_regs.m_fcc; sp->fcsr = cpu.m_regs.m_fcsr.whole; sp->llbit = ll; sp->ram = arena(m); sp->ro = g.ro; sp->data = g.data; sp->size = g.size;
	Spec* sp2 = nullptr; if (is_madd(name)) { sp2 = new Spec(*sp); sp2->fused = false; sp2->run(R.id); }
	sp->run(R.id);
	// one arbitrary byte of memory, one arbitrary register of each file
	uint64_t k = sym64("watched"); ASSUME(k < g.size); uint8_t old = arena(m)[k];
	unsigned gi = (unsigned)sym8("gpr_index"), vi = (unsigned)sym8("vr_index"); ASSUME((gi < 32) & (vi < 32));
	unsigned hit = (unsigned)sym8("stored_byte");
	int th = guarded([&] { cpu.execute(la_instruction(w)); });
	if (sp->undef) { COVER("undefined-encoding"); return; }
	bool start_ok = sp->mk == 0 ? true : sp->mk == 1 ? sp->okR() : sp->okW();
	bool whole_ok = start_ok & (g.size - sp->ma >= sp->mn);
	bool skipload = (sp->mk == 1) & sp->gw & (sp->rd() == 0); // a load into r0 may be treated as a prefetch
	const auto& R1 = cpu.m_regs.m_regs; const VR* V1 = (const VR*)&cpu.m_regs.m_vr;
	uint64_t vdiff = 0; for (unsigned l = 0; l < 4; l++) vdiff |= V1[vi].du[l] ^ sp->V[vi].du[l];
	if (th) {
		COVER("raised");
		ASSERT(!whole_ok | sp->may_raise, M(name, "raised an exception the architecture does not call for"));
		ASSERT(R1[gi] == sp->R[gi], M(name, "a faulting instruction changed a register"));
		ASSERT(vdiff == 0, M(name, "a faulting instruction changed a vector register"));
		ASSERT(arena(m)[k] == old, M(name, "a faulting instruction changed memory"));
		return;
	}
	COVER("done");
	ASSERT(start_ok | skipload, M(name, "an access outside the permitted memory did not fault"));
	ASSUME(whole_ok | skipload); // a straddling access that does not fault is confined by P01/P02
	ASSERT(R1[0] == 0, M(name, "the zero register changed"));
	if (sp->gw) ASSERT((R1[sp->gi] == sp->gv) | sp->gany | (sp->gi == 0), M(name, "general register result"));
	ASSERT((R1[gi] == sp->R[gi]) | (sp->gw & (gi == sp->gi)), M(name, "another general register changed"));
	if (sp->vw) {
		uint64_t d = 0, d2 = 0; for (unsigned l = 0; l < 4; l++) { uint64_t care = 0; for (unsigned b = 0; b < 8; b++) if ((sp->vcare >> (8 * l + b)) & 1) care |= 0xFFull << (8 * b); d |= (V1[sp->vi].du[l] ^ sp->vv.du[l]) & care; if (sp2) d2 |= (V1[sp->vi].du[l] ^ sp2->vv.du[l]) & care; }
		ASSERT((d == 0) | ((sp2 != nullptr) & (d2 == 0)), M(name, "vector register result"));
	}
	ASSERT((vdiff == 0) | (sp->vw & (vi == sp->vi)), M(name, "another vector register changed"));
	ASSERT(cpu.m_regs.m_fcc == sp->nfcc, M(name, "condition flags"));
	ASSERT(cpu.m_regs.m_fcsr.whole == sp->fcsr, M(name, "control/status register"));
	ASSERT(cpu.m_regs.pc + 4 == sp->npc, M(name, "next pc"));
	ASSERT(cpu.m_ll_bit == sp->nll, M(name, "LL bit"));
	if (sp->mk >= 2) { // memory: the bytes stored, then everything else
		ASSUME(hit <= sp->mn); hit = (unsigned)__vs_concretize(hit);
		if (hit < sp->mn) ASSERT(arena(m)[sp->ma + hit] == sp->md[hit], M(name, "bytes stored"));
		else { ASSUME(k - sp->ma >= sp->mn); ASSERT(arena(m)[k] == old, M(name, "other memory changed")); }
	} else ASSERT(arena(m)[k] == old, M(name, "memory changed"));
}
HARNESS(isa) {
	static const char* const pn[] = { "r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7" };
	uint64_t n = __vs_param("n", 1), cat = __vs_param("cat", INT), row = sym64("row"); bool in = false;
	for (unsigned i = 0; i < n; i++) in |= row == __vs_param(pn[i], 0);
	ASSUME(in & (row < NROWS)); row = __vs_concretize(row);
	if ((uint64_t)cat_of((uint32_t)rows[row].id) != cat) __vs_end();
	COVER("row");
	instr((unsigned)row, 0x100000, 0x1000, 0x4000);
}
