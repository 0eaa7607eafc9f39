// The LoongArch semantics of every instruction the library knows, written from the architecture
// manual.  Deliberately independent of the library's own helpers.
#pragma once
#include "common.hpp"
#include <cmath>
#include <libloong/la_instr_enum.hpp>
#include "isa_table.hpp"

struct Row { InstrId id; uint32_t match, mask; const char* name; };
#define ISA(n, m, k) { InstrId::n, m, k, #n },
static const Row rows[] = { ISA_TABLE(ISA) };
#undef ISA
static constexpr unsigned NROWS = sizeof(rows) / sizeof(rows[0]);

union VR { int8_t b[32]; int16_t h[16]; int32_t w[8]; int64_t d[4]; uint8_t bu[32]; uint16_t hu[16]; uint32_t wu[8]; uint64_t du[4]; float f[8]; double df[4]; };
static_assert(sizeof(VR) == 32);

enum Cat { INT = 4, MEM = 5, BR = 6, FPV = 7, SYS = 0 };

struct Spec {
	// pre-state
	uint32_t w; uint64_t pc; uint64_t R[32]; VR V[32]; uint8_t fcc; uint32_t fcsr; bool llbit;
	const uint8_t* ram; uint64_t ro, data, size;
	// post-state
	uint64_t npc; bool gw = false, gany = false; unsigned gi = 0; uint64_t gv = 0;
	bool vw = false; unsigned vi = 0; VR vv; uint32_t vcare = 0; // which bytes are architecturally defined
	uint8_t nfcc; bool nll; bool llany = false;
	unsigned mk = 0, mn = 0; uint64_t ma = 0; uint8_t md[32];
	bool undef = false, may_raise = false; Cat cat = INT;

	unsigned rd() const { return w & 31; } unsigned rj() const { return (w >> 5) & 31; } unsigned rk() const { return (w >> 10) & 31; } unsigned ra() const { return (w >> 15) & 31; }
	uint64_t u(unsigned hi, unsigned lo) const { return (uint64_t)(w >> lo) & ((1ull << (hi - lo + 1)) - 1); }
	int64_t s(unsigned hi, unsigned lo) const { unsigned n = hi - lo + 1; return (int64_t)(u(hi, lo) << (64 - n)) >> (64 - n); }
	uint64_t J() const { return R[rj()]; } uint64_t K() const { return R[rk()]; } uint64_t D() const { return R[rd()]; }
	void G(uint64_t v) { gw = true; gi = rd(); gv = v; }
	void GW(uint32_t v) { G((uint64_t)(int64_t)(int32_t)v); }
	const VR& VD() const { return V[rd()]; } const VR& VJ() const { return V[rj()]; } const VR& VK() const { return V[rk()]; } const VR& VA() const { return V[ra()]; }
	VR& out(uint32_t care) { vw = true; vi = rd(); vcare = care; vv = V[rd()]; return vv; }
	VR& lsx() { return out(0xFFFF); } VR& lasx() { return out(0xFFFFFFFFu); } VR& fps() { return out(0xF); } VR& fpd() { return out(0xFF); }
	bool okR() const { return (ma >= ro) & (ma < size); } bool okW() const { return (ma >= data) & (ma < size); }
	void acc(unsigned kind, uint64_t a, unsigned n) { mk = kind; ma = a; mn = n; }
	template <class T> T load() { T v; uint8_t b[sizeof(T)]; uint64_t a = okR() ? ma : 0; for (unsigned i = 0; i < sizeof(T); i++) b[i] = ram[a + i]; memcpy(&v, b, sizeof(T)); return v; }
	template <class T> void LD(uint64_t a) { acc(1, a, sizeof(T)); G((uint64_t)(int64_t)load<T>()); }
	template <class T> void ST(uint64_t a, T v) { acc(2, a, sizeof(T)); memcpy(md, &v, sizeof(T)); }
	void stv(uint64_t a, const VR& v, unsigned n) { acc(2, a, n); memcpy(md, &v, 32); }
	void ldv(uint64_t a, unsigned n) { acc(1, a, n); VR& o = n == 4 ? fps() : n == 8 ? fpd() : n == 16 ? lsx() : lasx(); uint64_t x = okR() ? ma : 0; for (unsigned i = 0; i < n; i++) o.bu[i] = ram[x + i]; }
	template <class T, class F> void AM(F f) { acc(3, J(), sizeof(T)); T old = load<T>(); T nv = f(old, (T)K()); memcpy(md, &nv, sizeof(T)); G((uint64_t)(int64_t)old);
		undef = ((rd() == rj()) | (rd() == rk())) & (rd() != 0); may_raise = (ma % sizeof(T)) != 0; }
	void cf(unsigned i, bool v) { nfcc = (uint8_t)((fcc & ~(1u << i)) | ((unsigned)v << i)); }
	void br(bool taken, int64_t off) { npc = taken ? pc + (uint64_t)off : pc + 4; }
	bool fused = true; // whether a multiply-add rounds once depends on the host: both are accepted
	double fm(double x, double y, double z) const { return fused ? std::fma(x, y, z) : x * y + z; }
	float fm(float x, float y, float z) const { return fused ? std::fma(x, y, z) : x * y + z; }
	void run(InstrId id); void runv(InstrId id);
};
#define EL(n) for (unsigned i = 0; i < (n); i++)
static inline uint64_t sxw(uint64_t v) { return (uint64_t)(int64_t)(int32_t)(uint32_t)v; }
static inline bool isw(uint64_t v) { return v == sxw(v); }
static inline uint64_t bitrev(uint64_t v, unsigned n) { uint64_t r = 0; EL(n) r |= ((v >> i) & 1) << (n - 1 - i); return r; }
static inline unsigned clz(uint64_t v, unsigned n) { unsigned r = n; EL(n) if ((v >> i) & 1) r = n - 1 - i; return r; }
static inline unsigned ctz(uint64_t v, unsigned n) { unsigned r = n; for (unsigned i = n; i-- > 0;) if ((v >> i) & 1) r = i; return r; }
static inline unsigned pcnt(uint64_t v, unsigned n) { unsigned r = 0; EL(n) r += (v >> i) & 1; return r; }
static inline int64_t tozl(double x) { return x != x ? 0 : x >= 9223372036854775808.0 ? INT64_MAX : x < -9223372036854775808.0 ? INT64_MIN : (int64_t)x; }
static inline int64_t tozlf(float x) { return x != x ? 0 : x >= 9223372036854775808.0f ? INT64_MAX : x < -9223372036854775808.0f ? INT64_MIN : (int64_t)x; }
static inline int32_t tozwf(float x) { return x != x ? 0 : x >= 2147483648.0f ? INT32_MAX : x < -2147483648.0f ? INT32_MIN : (int32_t)x; }
static inline int32_t tozw(double x) { return x != x ? 0 : x >= 2147483648.0 ? INT32_MAX : x < -2147483648.0 ? INT32_MIN : (int32_t)x; }
template <class T> static inline bool fcond(unsigned c, T a, T b) {
	bool un = (a != a) | (b != b), lt = a < b, eq = a == b, gt = a > b;
	return ((bool)(c & 2) & lt) | ((bool)(c & 4) & eq) | ((bool)(c & 8) & un) | ((bool)(c & 16) & (lt | gt));
}
static inline bool fcond_defined(unsigned c) { return (c < 16) | (c == 16) | (c == 17) | (c == 20) | (c == 21) | (c == 24) | (c == 25); }
// conditions this emulator documents as unimplemented (they raise)
static inline bool fcond_missing(unsigned c) { return (c < 2) | (c == 0xC) | (c == 0xD) | (c == 0x10) | (c == 0x11) | (c == 0x15); }
static inline bool vfcond_missing(unsigned c) { return !(((c >= 2) & (c <= 7)) | (c == 0xE) | (c == 0xF)); }
template <class U> static inline uint64_t fclass(U v, unsigned mb, unsigned eb) {
	U m = v & (((U)1 << mb) - 1); U e = (v >> mb) & (((U)1 << eb) - 1); bool neg = (v >> (mb + eb)) & 1; U emax = ((U)1 << eb) - 1;
	unsigned k = e == emax ? (m ? ((m >> (mb - 1)) & 1 ? 1 : 0) : (neg ? 2 : 6)) : e ? (neg ? 3 : 7) : m ? (neg ? 4 : 8) : (neg ? 5 : 9);
	return 1ull << k;
}
static inline uint64_t rep(uint64_t v, unsigned n) { for (unsigned i = n; i < 64; i *= 2) v |= v << i; return v; }
static inline uint64_t vldi_value(uint32_t imm, bool& undef) {
	if (!(imm & 0x1000)) { int64_t s10 = (int64_t)((uint64_t)imm << 54) >> 54; switch ((imm >> 10) & 3) {
		case 0: return rep(imm & 0xFF, 8); case 1: return rep(s10 & 0xFFFF, 16); case 2: return rep(s10 & 0xFFFFFFFF, 32); default: return (uint64_t)s10; } }
	uint64_t t = imm & 0xFF, b7 = (t >> 7) & 1, b6 = (t >> 6) & 1, lo = t & 63;
	uint64_t f32 = (b7 << 31) | ((b6 ? 0x1Full : 0x20ull) << 25) | (lo << 19);
	uint64_t f64 = (b7 << 63) | ((b6 ? 0xFFull : 0x100ull) << 54) | (lo << 48);
	switch ((imm >> 8) & 15) {
	case 0: return rep(t, 32); case 1: return rep(t << 8, 32); case 2: return rep(t << 16, 32); case 3: return rep(t << 24, 32);
	case 4: return rep(t, 16); case 5: return rep(t << 8, 16); case 6: return rep((t << 8) | 0xFF, 32); case 7: return rep((t << 16) | 0xFFFF, 32);
	case 8: return rep(t, 8); case 9: { uint64_t r = 0; EL(8) if ((t >> i) & 1) r |= 0xFFull << (8 * i); return r; }
	case 10: return rep(f32, 32); case 11: return f32; case 12: return f64; default: undef = true; return 0; }
}
#define MAX_(a, b) ((a) > (b) ? (a) : (b))
#define MIN_(a, b) ((a) < (b) ? (a) : (b))
#define VOP(m, n, e) { VR& o = lsx(); EL(n) o.m[i] = (e); break; }
#define XOP(m, n, e) { VR& o = lasx(); EL(n) o.m[i] = (e); break; }
#define CASE(n) case InstrId::n:
inline void Spec::runv(InstrId id) {
	const VR &d = VD(), &j = VJ(), &k = VK(), &a = VA(); const uint64_t ui5 = u(14, 10); const int64_t si5 = s(14, 10); const uint64_t ui8 = u(17, 10);
	switch (id) {
#define FS(e) { float r = (e); fps().f[0] = r; break; }
#define FD(e) { double r = (e); fpd().df[0] = r; break; }
	CASE(FADD_S) FS(j.f[0] + k.f[0])	CASE(FADD_D) FD(j.df[0] + k.df[0])	CASE(FSUB_S) FS(j.f[0] - k.f[0])	CASE(FSUB_D) FD(j.df[0] - k.df[0])
	CASE(FMUL_S) FS(j.f[0] * k.f[0])	CASE(FMUL_D) FD(j.df[0] * k.df[0])	CASE(FDIV_S) FS(j.f[0] / k.f[0])	CASE(FDIV_D) FD(j.df[0] / k.df[0])
	CASE(FMAX_S) FS(std::fmax(j.f[0], k.f[0]))	CASE(FMIN_S) FS(std::fmin(j.f[0], k.f[0]))	CASE(FMAX_D) FD(std::fmax(j.df[0], k.df[0]))	CASE(FMIN_D) FD(std::fmin(j.df[0], k.df[0]))
	CASE(FABS_S) { uint32_t r = j.wu[0] & 0x7FFFFFFFu; fps().wu[0] = r; break; }	CASE(FABS_D) { uint64_t r = j.du[0] & ~(1ull << 63); fpd().du[0] = r; break; }
	CASE(FNEG_D) { uint64_t r = j.du[0] ^ (1ull << 63); fpd().du[0] = r; break; }
	CASE(FMOV_S) { uint32_t r = j.wu[0]; fps().wu[0] = r; break; }	CASE(FMOV_D) { uint64_t r = j.du[0]; fpd().du[0] = r; break; }
	CASE(FCLASS_S) { uint32_t r = (uint32_t)fclass<uint32_t>(j.wu[0], 23, 8); fps().wu[0] = r; break; }	CASE(FCLASS_D) { uint64_t r = fclass<uint64_t>(j.du[0], 52, 11); fpd().du[0] = r; break; }
	CASE(FMADD_S) FS(fm(j.f[0], k.f[0], a.f[0]))	CASE(FMADD_D) FD(fm(j.df[0], k.df[0], a.df[0]))
	CASE(FMSUB_S) FS(fm(j.f[0], k.f[0], -a.f[0]))	CASE(FMSUB_D) FD(fm(j.df[0], k.df[0], -a.df[0]))
	CASE(FNMADD_S) FS(-fm(j.f[0], k.f[0], a.f[0]))	CASE(FNMADD_D) FD(-fm(j.df[0], k.df[0], a.df[0]))
	CASE(FNMSUB_S) FS(-fm(j.f[0], k.f[0], -a.f[0]))	CASE(FNMSUB_D) FD(-fm(j.df[0], k.df[0], -a.df[0]))
	CASE(FCVT_S_D) FS((float)j.df[0])	CASE(FCVT_D_S) FD((double)j.f[0])
	CASE(FFINT_D_L) FD((double)j.d[0])	CASE(FFINT_D_W) FD((double)j.w[0])	CASE(FFINT_S_W) FS((float)j.w[0])	CASE(FFINT_S_L) FS((float)j.d[0])
	CASE(FTINTRZ_W_S) { int32_t r = tozwf(j.f[0]); fps().w[0] = r; break; }	CASE(FTINTRZ_W_D) { int32_t r = tozw(j.df[0]); fps().w[0] = r; break; }
	CASE(FTINTRZ_L_S) { int64_t r = tozlf(j.f[0]); fpd().d[0] = r; break; }	CASE(FTINTRZ_L_D) { int64_t r = tozl(j.df[0]); fpd().d[0] = r; break; }
	CASE(FCMP_COND_S) may_raise = fcond_missing(u(19, 15)); cf(u(2, 0), fcond(u(19, 15), j.f[0], k.f[0])); undef = !fcond_defined(u(19, 15)); break;
	CASE(FCMP_COND_D) may_raise = fcond_missing(u(19, 15)); cf(u(2, 0), fcond(u(19, 15), j.df[0], k.df[0])); undef = !fcond_defined(u(19, 15)); break;
	CASE(VFCMP_COND_D) may_raise = vfcond_missing(u(19, 15)); undef = !fcond_defined(u(19, 15)); VOP(du, 2, fcond(u(19, 15), j.df[i], k.df[i]) ? ~0ull : 0)
	CASE(XVFCMP_COND_D) undef = !fcond_defined(u(19, 15)); XOP(du, 4, fcond(u(19, 15), j.df[i], k.df[i]) ? ~0ull : 0)
	CASE(FSEL) { bool c = (fcc >> u(17, 15)) & 1; uint64_t r = c ? k.du[0] : j.du[0]; fpd().du[0] = r; break; }
	CASE(MOVGR2FR_W) { uint32_t r = (uint32_t)J(); fps().wu[0] = r; break; }	CASE(MOVGR2FR_D) { uint64_t r = J(); fpd().du[0] = r; break; }
	CASE(MOVFR2GR_S) GW(j.wu[0]); break;	CASE(MOVFR2GR_D) G(j.du[0]); break;
	CASE(MOVFCSR2GR) { static const uint32_t m[4] = { 0xFFFFFFFFu, 0x1Fu, 0x1F1F0000u, 0x300u }; unsigned i = u(6, 5); undef = u(9, 7) != 0; GW(fcsr & (i == 0 ? m[0] : i == 1 ? m[1] : i == 2 ? m[2] : m[3])); break; }
	CASE(MOVFR2CF) cf(u(2, 0), j.bu[0] & 1); break;	CASE(MOVCF2FR) { uint64_t r = (fcc >> u(7, 5)) & 1; fpd().du[0] = r; break; }
	CASE(MOVGR2CF) cf(u(2, 0), J() & 1); break;	CASE(MOVCF2GR) G((fcc >> u(7, 5)) & 1); break;
	// ---- LSX
	CASE(VADD_B) VOP(bu, 16, j.bu[i] + k.bu[i])	CASE(VADD_H) VOP(hu, 8, j.hu[i] + k.hu[i])	CASE(VADD_W) VOP(wu, 4, j.wu[i] + k.wu[i])	CASE(VADD_D) VOP(du, 2, j.du[i] + k.du[i])
	CASE(VSUB_B) VOP(bu, 16, j.bu[i] - k.bu[i])	CASE(VSUB_H) VOP(hu, 8, j.hu[i] - k.hu[i])	CASE(VSUB_W) VOP(wu, 4, j.wu[i] - k.wu[i])	CASE(VSUB_D) VOP(du, 2, j.du[i] - k.du[i])
	CASE(VMUL_B) VOP(bu, 16, j.bu[i] * k.bu[i])	CASE(VMUL_H) VOP(hu, 8, (unsigned)j.hu[i] * k.hu[i])	CASE(VMUL_W) VOP(wu, 4, j.wu[i] * k.wu[i])	CASE(VMUL_D) VOP(du, 2, j.du[i] * k.du[i])
	CASE(VMADD_B) VOP(bu, 16, d.bu[i] + j.bu[i] * k.bu[i])	CASE(VMADD_H) VOP(hu, 8, d.hu[i] + (unsigned)j.hu[i] * k.hu[i])	CASE(VMADD_W) VOP(wu, 4, d.wu[i] + j.wu[i] * k.wu[i])	CASE(VMADD_D) VOP(du, 2, d.du[i] + j.du[i] * k.du[i])
	CASE(VADDI_BU) VOP(bu, 16, j.bu[i] + ui5)	CASE(VADDI_HU) VOP(hu, 8, j.hu[i] + ui5)	CASE(VADDI_WU) VOP(wu, 4, j.wu[i] + ui5)	CASE(VADDI_DU) VOP(du, 2, j.du[i] + ui5)
	CASE(VAND_V) VOP(du, 2, j.du[i] & k.du[i])	CASE(VOR_V) VOP(du, 2, j.du[i] | k.du[i])	CASE(VXOR_V) VOP(du, 2, j.du[i] ^ k.du[i])	CASE(VNOR_V) VOP(du, 2, ~(j.du[i] | k.du[i]))	CASE(VORN_V) VOP(du, 2, j.du[i] | ~k.du[i])
	CASE(VORI_B) VOP(bu, 16, j.bu[i] | ui8)
	CASE(VBITREVI_D) VOP(du, 2, j.du[i] ^ (1ull << u(15, 10)))
	CASE(VBITSEL_V) VOP(du, 2, (j.du[i] & ~a.du[i]) | (k.du[i] & a.du[i]))
	CASE(VSLLI_B) VOP(bu, 16, (unsigned)j.bu[i] << u(12, 10))	CASE(VSLLI_H) VOP(hu, 8, (unsigned)j.hu[i] << u(13, 10))	CASE(VSLLI_W) VOP(wu, 4, j.wu[i] << ui5)	CASE(VSLLI_D) VOP(du, 2, j.du[i] << u(15, 10))
	CASE(VMAX_B) VOP(b, 16, MAX_(j.b[i], k.b[i]))	CASE(VMAX_H) VOP(h, 8, MAX_(j.h[i], k.h[i]))	CASE(VMAX_W) VOP(w, 4, MAX_(j.w[i], k.w[i]))	CASE(VMAX_D) VOP(d, 2, MAX_(j.d[i], k.d[i]))
	CASE(VMAX_BU) VOP(bu, 16, MAX_(j.bu[i], k.bu[i]))	CASE(VMAX_HU) VOP(hu, 8, MAX_(j.hu[i], k.hu[i]))	CASE(VMAX_WU) VOP(wu, 4, MAX_(j.wu[i], k.wu[i]))	CASE(VMAX_DU) VOP(du, 2, MAX_(j.du[i], k.du[i]))
	CASE(VMIN_B) VOP(b, 16, MIN_(j.b[i], k.b[i]))	CASE(VMIN_H) VOP(h, 8, MIN_(j.h[i], k.h[i]))	CASE(VMIN_W) VOP(w, 4, MIN_(j.w[i], k.w[i]))	CASE(VMIN_D) VOP(d, 2, MIN_(j.d[i], k.d[i]))
	CASE(VMIN_BU) VOP(bu, 16, MIN_(j.bu[i], k.bu[i]))	CASE(VMIN_HU) VOP(hu, 8, MIN_(j.hu[i], k.hu[i]))	CASE(VMIN_WU) VOP(wu, 4, MIN_(j.wu[i], k.wu[i]))	CASE(VMIN_DU) VOP(du, 2, MIN_(j.du[i], k.du[i]))
	CASE(VSEQ_B) VOP(bu, 16, j.b[i] == k.b[i] ? 0xFF : 0)
	CASE(VSEQI_B) VOP(bu, 16, j.b[i] == si5 ? 0xFF : 0)	CASE(VSEQI_H) VOP(hu, 8, j.h[i] == si5 ? 0xFFFF : 0)	CASE(VSEQI_W) VOP(wu, 4, j.w[i] == si5 ? ~0u : 0)	CASE(VSEQI_D) VOP(du, 2, j.d[i] == si5 ? ~0ull : 0)
	CASE(VSLT_B) VOP(bu, 16, j.b[i] < k.b[i] ? 0xFF : 0)	CASE(VSLT_H) VOP(hu, 8, j.h[i] < k.h[i] ? 0xFFFF : 0)	CASE(VSLT_W) VOP(wu, 4, j.w[i] < k.w[i] ? ~0u : 0)	CASE(VSLT_D) VOP(du, 2, j.d[i] < k.d[i] ? ~0ull : 0)
	CASE(VPCNT_B) VOP(bu, 16, pcnt(j.bu[i], 8))	CASE(VPCNT_H) VOP(hu, 8, pcnt(j.hu[i], 16))	CASE(VPCNT_W) VOP(wu, 4, pcnt(j.wu[i], 32))	CASE(VPCNT_D) VOP(du, 2, pcnt(j.du[i], 64))
	CASE(VHADDW_D_W) VOP(d, 2, (int64_t)j.w[2 * i + 1] + (int64_t)k.w[2 * i])
	CASE(VILVL_B) VOP(b, 16, i & 1 ? j.b[i / 2] : k.b[i / 2])	CASE(VILVL_H) VOP(h, 8, i & 1 ? j.h[i / 2] : k.h[i / 2])	CASE(VILVL_W) VOP(w, 4, i & 1 ? j.w[i / 2] : k.w[i / 2])	CASE(VILVL_D) VOP(d, 2, i & 1 ? j.d[0] : k.d[0])
	CASE(VILVH_D) VOP(d, 2, i & 1 ? j.d[1] : k.d[1])
	CASE(VPICKEV_W) VOP(w, 4, i < 2 ? k.w[2 * i] : j.w[2 * (i - 2)])
	CASE(VSHUF_B) { VR r; EL(16) { unsigned x = a.bu[i] & 31; uint8_t lo = 0; for (unsigned q = 0; q < 16; q++) { lo = x == q ? k.bu[q] : lo; lo = x == q + 16 ? j.bu[q] : lo; } r.bu[i] = lo; undef |= a.bu[i] >= 64; } VR& o = lsx(); EL(16) o.bu[i] = r.bu[i]; break; }
	CASE(VFRSTPI_B) { unsigned x = 16; for (unsigned i = 16; i-- > 0;) if (j.b[i] < 0) x = i; VR& o = lsx(); EL(16) if (i == (ui5 & 15)) o.bu[i] = x; break; }
	CASE(VMSKNZ_B) { uint16_t r = 0; EL(16) r |= (uint16_t)(j.bu[i] != 0) << i; VR& o = lsx(); o.du[0] = r; o.du[1] = 0; break; }
	CASE(VSETANYEQZ_B) { bool r = false; EL(16) r |= j.bu[i] == 0; cf(u(2, 0), r); break; }	CASE(VSETALLNEZ_B) { bool r = true; EL(16) r &= j.bu[i] != 0; cf(u(2, 0), r); break; }
	CASE(VREPLGR2VR_B) VOP(bu, 16, (uint8_t)J())	CASE(VREPLGR2VR_H) VOP(hu, 8, (uint16_t)J())	CASE(VREPLGR2VR_W) VOP(wu, 4, (uint32_t)J())	CASE(VREPLGR2VR_D) VOP(du, 2, J())
	CASE(VREPLVEI_D) VOP(du, 2, u(10, 10) ? j.du[1] : j.du[0])
	CASE(VINSGR2VR_B) VOP(bu, 16, i == u(13, 10) ? (uint8_t)J() : d.bu[i])	CASE(VINSGR2VR_H) VOP(hu, 8, i == u(12, 10) ? (uint16_t)J() : d.hu[i])
	CASE(VINSGR2VR_W) VOP(wu, 4, i == u(11, 10) ? (uint32_t)J() : d.wu[i])	CASE(VINSGR2VR_D) VOP(du, 2, i == u(10, 10) ? J() : d.du[i])
#define PICK(m, n, hi, T) { T r = 0; EL(n) if (i == u(hi, 10)) r = j.m[i]; G((uint64_t)(int64_t)r); break; }
	CASE(VPICKVE2GR_B) PICK(b, 16, 13, int8_t)	CASE(VPICKVE2GR_H) PICK(h, 8, 12, int16_t)	CASE(VPICKVE2GR_W) PICK(w, 4, 11, int32_t)	CASE(VPICKVE2GR_D) PICK(d, 2, 10, int64_t)
	CASE(VPICKVE2GR_BU) PICK(bu, 16, 13, uint8_t)	CASE(VPICKVE2GR_HU) PICK(hu, 8, 12, uint16_t)	CASE(VPICKVE2GR_WU) PICK(wu, 4, 11, uint32_t)	CASE(VPICKVE2GR_DU) PICK(du, 2, 10, uint64_t)
	CASE(XVPICKVE2GR_W) PICK(w, 8, 12, int32_t)
	CASE(VLDI) { uint64_t v = vldi_value(u(17, 5), undef); VR& o = lsx(); EL(2) o.du[i] = v; break; }	CASE(XVLDI) { uint64_t v = vldi_value(u(17, 5), undef); VR& o = lasx(); EL(4) o.du[i] = v; break; }
	CASE(VFADD_D) VOP(df, 2, j.df[i] + k.df[i])	CASE(VFMUL_D) VOP(df, 2, j.df[i] * k.df[i])	CASE(VFMUL_S) VOP(f, 4, j.f[i] * k.f[i])	CASE(VFDIV_D) VOP(df, 2, j.df[i] / k.df[i])
	CASE(VFMADD_D) VOP(df, 2, fm(j.df[i], k.df[i], a.df[i]))	CASE(VFNMADD_D) VOP(df, 2, -fm(j.df[i], k.df[i], a.df[i]))
	CASE(VFTINTRZ_W_S) VOP(w, 4, tozwf(j.f[i]))	CASE(VFTINTRZ_L_D) VOP(d, 2, tozl(j.df[i]))
	// ---- LASX
	CASE(XVADD_D) XOP(du, 4, j.du[i] + k.du[i])	CASE(XVSUB_W) XOP(wu, 8, j.wu[i] - k.wu[i])	CASE(XVXOR_V) XOP(du, 4, j.du[i] ^ k.du[i])	CASE(XVORI_B) XOP(bu, 32, j.bu[i] | ui8)	CASE(XVXORI_B) XOP(bu, 32, j.bu[i] ^ ui8)
	CASE(XVSEQ_B) XOP(bu, 32, j.b[i] == k.b[i] ? 0xFF : 0)	CASE(XVMIN_BU) XOP(bu, 32, MIN_(j.bu[i], k.bu[i]))	CASE(XVMAX_BU) XOP(bu, 32, MAX_(j.bu[i], k.bu[i]))
	CASE(XVBITREVI_D) XOP(du, 4, j.du[i] ^ (1ull << u(15, 10)))	CASE(XVBITSEL_V) XOP(du, 4, (j.du[i] & ~a.du[i]) | (k.du[i] & a.du[i]))
	CASE(XVHADDW_D_W) XOP(d, 4, (int64_t)j.w[2 * i + 1] + (int64_t)k.w[2 * i])
	CASE(XVHADDW_Q_D) { VR& o = lasx(); EL(2) { __int128 x = (__int128)j.d[2 * i + 1] + (__int128)k.d[2 * i]; o.du[2 * i] = (uint64_t)x; o.du[2 * i + 1] = (uint64_t)(x >> 64); } break; }
	CASE(XVILVL_D) XOP(d, 4, i & 1 ? j.d[i & 2] : k.d[i & 2])	CASE(XVILVH_D) XOP(d, 4, i & 1 ? j.d[(i & 2) + 1] : k.d[(i & 2) + 1])
	CASE(XVPACKEV_D) CASE(XVPICKEV_D) XOP(d, 4, i & 1 ? j.d[i & 2] : k.d[i & 2])	CASE(XVPACKOD_D) CASE(XVPICKOD_D) XOP(d, 4, i & 1 ? j.d[(i & 2) + 1] : k.d[(i & 2) + 1])
	CASE(XVPICKEV_W) XOP(w, 8, (i & 3) < 2 ? k.w[(i & 4) + 2 * (i & 1)] : j.w[(i & 4) + 2 * (i & 1)])
	CASE(XVPERMI_D) { VR r; EL(4) { uint64_t x = (ui8 >> (2 * i)) & 3; r.du[i] = x == 0 ? j.du[0] : x == 1 ? j.du[1] : x == 2 ? j.du[2] : j.du[3]; } VR& o = lasx(); EL(4) o.du[i] = r.du[i]; break; }
	CASE(XVPERMI_Q) { VR r; EL(2) { uint64_t x = (ui8 >> (4 * i)) & 3; for (unsigned q = 0; q < 2; q++) r.du[2 * i + q] = x == 0 ? j.du[q] : x == 1 ? j.du[2 + q] : x == 2 ? d.du[q] : d.du[2 + q]; } VR& o = lasx(); EL(4) o.du[i] = r.du[i]; break; }
	CASE(XVPICKVE_W) { uint32_t r = 0; EL(8) if (i == u(12, 10)) r = j.wu[i]; VR& o = lasx(); EL(8) o.wu[i] = i ? 0 : r; break; }
	CASE(XVREPLVE_D) XOP(du, 4, K() & 1 ? j.du[(i & 2) + 1] : j.du[i & 2])
	CASE(XVREPLGR2VR_B) XOP(bu, 32, (uint8_t)J())
	CASE(XVMSKNZ_B) { VR& o = lasx(); for (unsigned q = 0; q < 2; q++) { uint16_t r = 0; EL(16) r |= (uint16_t)(j.bu[16 * q + i] != 0) << i; o.du[2 * q] = r; o.du[2 * q + 1] = 0; } break; }
	CASE(XVSETANYEQZ_B) { bool r = false; EL(32) r |= j.bu[i] == 0; cf(u(2, 0), r); break; }	CASE(XVSETEQZ_V) { uint64_t r = 0; EL(4) r |= j.du[i]; cf(u(2, 0), r == 0); break; }
	CASE(XVFADD_D) XOP(df, 4, j.df[i] + k.df[i])	CASE(XVFSUB_D) XOP(df, 4, j.df[i] - k.df[i])	CASE(XVFMUL_D) XOP(df, 4, j.df[i] * k.df[i])	CASE(XVFDIV_D) XOP(df, 4, j.df[i] / k.df[i])
	CASE(XVFMADD_D) XOP(df, 4, fm(j.df[i], k.df[i], a.df[i]))	CASE(XVFMSUB_D) XOP(df, 4, fm(j.df[i], k.df[i], -a.df[i]))	CASE(XVFNMADD_D) XOP(df, 4, -fm(j.df[i], k.df[i], a.df[i]))	CASE(XVFNMSUB_D) XOP(df, 4, -fm(j.df[i], k.df[i], -a.df[i]))
	CASE(XVFMADD_S) XOP(f, 8, fm(j.f[i], k.f[i], a.f[i]))	CASE(XVFMSUB_S) XOP(f, 8, fm(j.f[i], k.f[i], -a.f[i]))	CASE(XVFNMADD_S) XOP(f, 8, -fm(j.f[i], k.f[i], a.f[i]))	CASE(XVFNMSUB_S) XOP(f, 8, -fm(j.f[i], k.f[i], -a.f[i]))
	default: __vs_fail("instruction without a specification");
	}
}
inline void Spec::run(InstrId id) {
	npc = pc + 4; nfcc = fcc; nll = llbit;
	const VR &d = VD(), &j = VJ(), &k = VK(), &a = VA(); const uint64_t ui5 = u(14, 10); const int64_t si5 = s(14, 10); const uint64_t ui8 = u(17, 10);
	switch (id) {
	CASE(ADD_W) GW(J() + K()); break;	CASE(ADD_D) G(J() + K()); break;	CASE(SUB_W) GW(J() - K()); break;	CASE(SUB_D) G(J() - K()); break;
	CASE(SLT) G((int64_t)J() < (int64_t)K()); break;	CASE(SLTU) G(J() < K()); break;
	CASE(AND) G(J() & K()); break;	CASE(OR) G(J() | K()); break;	CASE(XOR) G(J() ^ K()); break;	CASE(NOR) G(~(J() | K())); break;	CASE(ORN) G(J() | ~K()); break;	CASE(ANDN) G(J() & ~K()); break;
	CASE(MASKEQZ) G(K() == 0 ? 0 : J()); break;	CASE(MASKNEZ) G(K() != 0 ? 0 : J()); break;
	CASE(SLL_W) GW((uint32_t)J() << (K() & 31)); break;	CASE(SRL_W) GW((uint32_t)J() >> (K() & 31)); break;	CASE(SRA_W) GW((int32_t)J() >> (K() & 31)); break;
	CASE(SLL_D) G(J() << (K() & 63)); break;	CASE(SRL_D) G(J() >> (K() & 63)); break;	CASE(SRA_D) G((int64_t)J() >> (K() & 63)); break;
	CASE(ROTR_W) { uint32_t x = (uint32_t)J(); unsigned n = K() & 31; GW((x >> n) | (x << ((32 - n) & 31))); break; }
	CASE(ROTR_D) { uint64_t x = J(); unsigned n = K() & 63; G((x >> n) | (x << ((64 - n) & 63))); break; }
	CASE(ROTRI_W) { uint32_t x = (uint32_t)J(); unsigned n = ui5; GW((x >> n) | (x << ((32 - n) & 31))); break; }
	CASE(ROTRI_D) { uint64_t x = J(); unsigned n = u(15, 10); G((x >> n) | (x << ((64 - n) & 63))); break; }
	CASE(SLLI_W) GW((uint32_t)J() << ui5); break;	CASE(SRLI_W) GW((uint32_t)J() >> ui5); break;	CASE(SRAI_W) GW((int32_t)J() >> ui5); break;
	CASE(SLLI_D) G(J() << u(15, 10)); break;	CASE(SRLI_D) G(J() >> u(15, 10)); break;	CASE(SRAI_D) G((int64_t)J() >> u(15, 10)); break;
	CASE(MUL_W) GW((uint32_t)J() * (uint32_t)K()); break;
	CASE(MULH_W) GW((uint32_t)(((int64_t)(int32_t)J() * (int64_t)(int32_t)K()) >> 32)); break;
	CASE(MULH_WU) GW((uint32_t)(((uint64_t)(uint32_t)J() * (uint64_t)(uint32_t)K()) >> 32)); break;
	CASE(MUL_D) G(J() * K()); break;
	CASE(MULH_D) G((uint64_t)(((__int128)(int64_t)J() * (__int128)(int64_t)K()) >> 64)); break;
	CASE(MULH_DU) G((uint64_t)(((unsigned __int128)J() * (unsigned __int128)K()) >> 64)); break;
#define DIVW(T, op, ovf) { T x = (T)J(), y = (T)K(); gany = (y == 0) | !isw(J()) | !isw(K()); bool o = std::is_signed_v<T> && (x == std::numeric_limits<T>::min()) && (y == (T)-1); GW((uint32_t)((y == 0) ? 0 : o ? (ovf) : x op y)); break; }
#define DIVD(T, op, ovf) { T x = (T)J(), y = (T)K(); gany = (y == 0); bool o = std::is_signed_v<T> && (x == std::numeric_limits<T>::min()) && (y == (T)-1); G((uint64_t)((y == 0) ? 0 : o ? (ovf) : x op y)); break; }
	CASE(DIV_W) DIVW(int32_t, /, x)	CASE(MOD_W) DIVW(int32_t, %, 0)	CASE(DIV_WU) DIVW(uint32_t, /, x)	CASE(MOD_WU) DIVW(uint32_t, %, 0)
	CASE(DIV_D) DIVD(int64_t, /, x)	CASE(MOD_D) DIVD(int64_t, %, 0)	CASE(DIV_DU) DIVD(uint64_t, /, x)	CASE(MOD_DU) DIVD(uint64_t, %, 0)
	CASE(ALSL_W) GW((uint32_t)((J() << (u(16, 15) + 1)) + K())); break;	CASE(ALSL_D) G((J() << (u(16, 15) + 1)) + K()); break;
	CASE(BYTEPICK_D) { unsigned n = 8 * u(17, 15); G(n ? (K() << n) | (J() >> (64 - n)) : K()); break; }
	CASE(ADDI_W) GW(J() + s(21, 10)); break;	CASE(ADDI_D) G(J() + s(21, 10)); break;	CASE(ADDU16I_D) G(J() + ((uint64_t)s(25, 10) << 16)); break;
	CASE(SLTI) G((int64_t)J() < s(21, 10)); break;	CASE(SLTUI) G(J() < (uint64_t)s(21, 10)); break;
	CASE(ANDI) G(J() & u(21, 10)); break;	CASE(ORI) G(J() | u(21, 10)); break;	CASE(XORI) G(J() ^ u(21, 10)); break;
	CASE(NOP) break;
	CASE(LU12I_W) GW((uint32_t)(u(24, 5) << 12)); break;	CASE(LU32I_D) G((D() & 0xFFFFFFFFull) | ((uint64_t)s(24, 5) << 32)); break;
	CASE(LU52I_D) G((J() & 0x000FFFFFFFFFFFFFull) | (u(21, 10) << 52)); break;
	CASE(PCADDI) G(pc + ((uint64_t)s(24, 5) << 2)); break;	CASE(PCADDU12I) G(pc + ((uint64_t)s(24, 5) << 12)); break;	CASE(PCADDU18I) G(pc + ((uint64_t)s(24, 5) << 18)); break;
	CASE(PCALAU12I) G((pc + ((uint64_t)s(24, 5) << 12)) & ~0xFFFull); break;
	CASE(BSTRINS_D) { unsigned m = u(21, 16), l = u(15, 10); undef = m < l; unsigned n = (m - l + 1) & 127; uint64_t k = (n >= 64 ? ~0ull : ((1ull << (n & 63)) - 1)) << l; G((D() & ~k) | ((J() << l) & k)); break; }
	CASE(BSTRPICK_D) { unsigned m = u(21, 16), l = u(15, 10); undef = m < l; unsigned n = (m - l + 1) & 127; uint64_t k = n >= 64 ? ~0ull : ((1ull << (n & 63)) - 1); G((J() >> l) & k); break; }
	CASE(BSTRINS_W) { unsigned m = u(20, 16), l = u(14, 10); undef = m < l; unsigned n = (m - l + 1) & 63; uint64_t k = ((1ull << n) - 1) << l; GW((uint32_t)((D() & ~k) | ((J() << l) & k))); break; }
	CASE(BSTRPICK_W) { unsigned m = u(20, 16), l = u(14, 10); undef = m < l; unsigned n = (m - l + 1) & 63; uint64_t k = (1ull << n) - 1; GW((uint32_t)(((uint32_t)J() >> l) & k)); break; }
	CASE(CLO_W) G(clz((uint32_t)~J(), 32)); break;	CASE(CLZ_W) G(clz((uint32_t)J(), 32)); break;	CASE(CTO_W) G(ctz((uint32_t)~J(), 32)); break;	CASE(CTZ_W) G(ctz((uint32_t)J(), 32)); break;
	CASE(CLO_D) G(clz(~J(), 64)); break;	CASE(CLZ_D) G(clz(J(), 64)); break;	CASE(CTO_D) G(ctz(~J(), 64)); break;	CASE(CTZ_D) G(ctz(J(), 64)); break;
	CASE(REVB_2H) { uint32_t x = (uint32_t)J(); GW(((x & 0x00FF00FFu) << 8) | ((x >> 8) & 0x00FF00FFu)); break; }
	CASE(REVB_4H) { uint64_t x = J(); G(((x & 0x00FF00FF00FF00FFull) << 8) | ((x >> 8) & 0x00FF00FF00FF00FFull)); break; }
	CASE(REVB_2W) { uint64_t x = J(), r = 0; EL(8) r |= ((x >> (8 * i)) & 0xFF) << (8 * ((i & 4) | (3 - (i & 3)))); G(r); break; }
	CASE(REVB_D) { uint64_t x = J(), r = 0; EL(8) r |= ((x >> (8 * i)) & 0xFF) << (8 * (7 - i)); G(r); break; }
	CASE(REVH_2W) { uint64_t x = J(), r = 0; EL(4) r |= ((x >> (16 * i)) & 0xFFFF) << (16 * (i ^ 1)); G(r); break; }
	CASE(REVH_D) { uint64_t x = J(), r = 0; EL(4) r |= ((x >> (16 * i)) & 0xFFFF) << (16 * (3 - i)); G(r); break; }
	CASE(BITREV_4B) { uint32_t x = (uint32_t)J(), r = 0; EL(4) r |= (uint32_t)bitrev((x >> (8 * i)) & 0xFF, 8) << (8 * i); GW(r); break; }
	CASE(BITREV_8B) { uint64_t x = J(), r = 0; EL(8) r |= bitrev((x >> (8 * i)) & 0xFF, 8) << (8 * i); G(r); break; }
	CASE(BITREV_W) GW((uint32_t)bitrev((uint32_t)J(), 32)); break;	CASE(BITREV_D) G(bitrev(J(), 64)); break;
	CASE(EXT_W_B) G((uint64_t)(int64_t)(int8_t)J()); break;	CASE(EXT_W_H) G((uint64_t)(int64_t)(int16_t)J()); break;
	CASE(CPUCFG) G(0); gany = true; break;	CASE(RDTIME_D) G(0); gany = true; undef = (rj() != 0); break;
	// ---- branches
	CASE(BEQZ) cat = BR; br(J() == 0, (int64_t)(((uint64_t)s(4, 0) << 18) | (u(25, 10) << 2))); break;
	CASE(BNEZ) cat = BR; br(J() != 0, (int64_t)(((uint64_t)s(4, 0) << 18) | (u(25, 10) << 2))); break;
	CASE(BCEQZ) cat = BR; br(!((fcc >> u(7, 5)) & 1), (int64_t)(((uint64_t)s(4, 0) << 18) | (u(25, 10) << 2))); break;
	CASE(BCNEZ) cat = BR; br((fcc >> u(7, 5)) & 1, (int64_t)(((uint64_t)s(4, 0) << 18) | (u(25, 10) << 2))); break;
	CASE(BEQ) cat = BR; br(J() == D(), s(25, 10) * 4); break;	CASE(BNE) cat = BR; br(J() != D(), s(25, 10) * 4); break;
	CASE(BLT) cat = BR; br((int64_t)J() < (int64_t)D(), s(25, 10) * 4); break;	CASE(BGE) cat = BR; br((int64_t)J() >= (int64_t)D(), s(25, 10) * 4); break;
	CASE(BLTU) cat = BR; br(J() < D(), s(25, 10) * 4); break;	CASE(BGEU) cat = BR; br(J() >= D(), s(25, 10) * 4); break;
	CASE(B) cat = BR; br(true, (int64_t)(((uint64_t)s(9, 0) << 18) | (u(25, 10) << 2))); break;
	CASE(BL) cat = BR; br(true, (int64_t)(((uint64_t)s(9, 0) << 18) | (u(25, 10) << 2))); gw = true; gi = 1; gv = pc + 4; break;
	CASE(JIRL) cat = BR; npc = J() + (uint64_t)(s(25, 10) * 4); G(pc + 4); break;
	// ---- memory
	CASE(LD_B) cat = MEM; LD<int8_t>(J() + s(21, 10)); break;	CASE(LD_H) cat = MEM; LD<int16_t>(J() + s(21, 10)); break;	CASE(LD_W) cat = MEM; LD<int32_t>(J() + s(21, 10)); break;	CASE(LD_D) cat = MEM; LD<int64_t>(J() + s(21, 10)); break;
	CASE(LD_BU) cat = MEM; LD<uint8_t>(J() + s(21, 10)); break;	CASE(LD_HU) cat = MEM; LD<uint16_t>(J() + s(21, 10)); break;	CASE(LD_WU) cat = MEM; LD<uint32_t>(J() + s(21, 10)); break;
	CASE(LDX_B) cat = MEM; LD<int8_t>(J() + K()); break;	CASE(LDX_H) cat = MEM; LD<int16_t>(J() + K()); break;	CASE(LDX_W) cat = MEM; LD<int32_t>(J() + K()); break;	CASE(LDX_D) cat = MEM; LD<int64_t>(J() + K()); break;
	CASE(LDX_BU) cat = MEM; LD<uint8_t>(J() + K()); break;	CASE(LDX_HU) cat = MEM; LD<uint16_t>(J() + K()); break;	CASE(LDX_WU) cat = MEM; LD<uint32_t>(J() + K()); break;
	CASE(LDPTR_W) cat = MEM; LD<int32_t>(J() + s(23, 10) * 4); break;	CASE(LDPTR_D) cat = MEM; LD<int64_t>(J() + s(23, 10) * 4); break;
	CASE(ST_B) cat = MEM; ST<uint8_t>(J() + s(21, 10), D()); break;	CASE(ST_H) cat = MEM; ST<uint16_t>(J() + s(21, 10), D()); break;	CASE(ST_W) cat = MEM; ST<uint32_t>(J() + s(21, 10), D()); break;	CASE(ST_D) cat = MEM; ST<uint64_t>(J() + s(21, 10), D()); break;
	CASE(STX_B) cat = MEM; ST<uint8_t>(J() + K(), D()); break;	CASE(STX_H) cat = MEM; ST<uint16_t>(J() + K(), D()); break;	CASE(STX_W) cat = MEM; ST<uint32_t>(J() + K(), D()); break;	CASE(STX_D) cat = MEM; ST<uint64_t>(J() + K(), D()); break;
	CASE(STPTR_W) cat = MEM; ST<uint32_t>(J() + s(23, 10) * 4, D()); break;	CASE(STPTR_D) cat = MEM; ST<uint64_t>(J() + s(23, 10) * 4, D()); break;
	CASE(PRELD) CASE(DBAR) CASE(IBAR) cat = MEM; break;
	CASE(LL_W) cat = MEM; LD<int32_t>(J() + s(23, 10) * 4); nll = true; may_raise = (ma & 3) != 0; break;
	CASE(LL_D) cat = MEM; LD<int64_t>(J() + s(23, 10) * 4); nll = true; may_raise = (ma & 7) != 0; break;
	CASE(SC_W) cat = MEM; G(llbit); if (llbit) ST<uint32_t>(J() + s(23, 10) * 4, D()); nll = false; may_raise = ((J() + s(23, 10) * 4) & 3) != 0; break;
	CASE(SC_D) cat = MEM; G(llbit); if (llbit) ST<uint64_t>(J() + s(23, 10) * 4, D()); nll = false; may_raise = ((J() + s(23, 10) * 4) & 7) != 0; break;
	CASE(AMSWAP_W) cat = MEM; AM<int32_t>([](int32_t, int32_t y) { return y; }); break;	CASE(AMSWAP_D) cat = MEM; AM<int64_t>([](int64_t, int64_t y) { return y; }); break;
	CASE(AMADD_W) cat = MEM; AM<int32_t>([](int32_t x, int32_t y) { return (int32_t)((uint32_t)x + (uint32_t)y); }); break;	CASE(AMADD_D) cat = MEM; AM<int64_t>([](int64_t x, int64_t y) { return (int64_t)((uint64_t)x + (uint64_t)y); }); break;
	CASE(AMAND_W) cat = MEM; AM<int32_t>([](int32_t x, int32_t y) { return x & y; }); break;	CASE(AMAND_D) cat = MEM; AM<int64_t>([](int64_t x, int64_t y) { return x & y; }); break;
	CASE(AMOR_W) cat = MEM; AM<int32_t>([](int32_t x, int32_t y) { return x | y; }); break;	CASE(AMOR_D) cat = MEM; AM<int64_t>([](int64_t x, int64_t y) { return x | y; }); break;
	CASE(AMXOR_W) cat = MEM; AM<int32_t>([](int32_t x, int32_t y) { return x ^ y; }); break;	CASE(AMXOR_D) cat = MEM; AM<int64_t>([](int64_t x, int64_t y) { return x ^ y; }); break;
	CASE(FLD_S) cat = MEM; ldv(J() + s(21, 10), 4); break;	CASE(FLD_D) cat = MEM; ldv(J() + s(21, 10), 8); break;	CASE(FLDX_S) cat = MEM; ldv(J() + K(), 4); break;	CASE(FLDX_D) cat = MEM; ldv(J() + K(), 8); break;
	CASE(FST_S) cat = MEM; stv(J() + s(21, 10), d, 4); break;	CASE(FST_D) cat = MEM; stv(J() + s(21, 10), d, 8); break;	CASE(FSTX_S) cat = MEM; stv(J() + K(), d, 4); break;	CASE(FSTX_D) cat = MEM; stv(J() + K(), d, 8); break;
	CASE(VLD) cat = MEM; ldv(J() + s(21, 10), 16); break;	CASE(VST) cat = MEM; stv(J() + s(21, 10), d, 16); break;	CASE(VLDX) cat = MEM; ldv(J() + K(), 16); break;	CASE(VSTX) cat = MEM; stv(J() + K(), d, 16); break;
	CASE(XVLD) cat = MEM; ldv(J() + s(21, 10), 32); break;	CASE(XVST) cat = MEM; stv(J() + s(21, 10), d, 32); break;	CASE(XVLDX) cat = MEM; ldv(J() + K(), 32); break;	CASE(XVSTX) cat = MEM; stv(J() + K(), d, 32); break;
	CASE(SYSCALL) CASE(BREAK) cat = SYS; break;
	default: cat = FPV; runv(id); break;
	}
}
