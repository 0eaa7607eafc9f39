// P20: every emulated Linux call, for any argument values, against its documented results and the memory it may touch.
#include "common.hpp"
#include <time.h>
#include <sys/time.h>
#ifdef VS_NATIVE
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <unistd.h>
#endif
static constexpr uint64_t SZ = 1 << 20, RO = 0x2000, LOW = 0x4000;
static bool armed; static unsigned prints; static struct { uint64_t at, len; } printed[8]; static uint8_t* ram; static uint64_t clk[2]; static unsigned clks;
extern "C" {
// the only host operations a guest may cause: output of its own memory, reading a clock
size_t h_fwrite(const void* p, size_t a, size_t b, FILE*) asm("fwrite");
size_t h_fwrite(const void* p, size_t a, size_t b, FILE*) {
	if (!armed) return b; uint64_t at = (const uint8_t*)p - ram, n = a * b; __vs_touch(p, n, "output"); ASSERT(n == 0 || ((at >= RO) & (at <= SZ) & (n <= SZ - at)), "P20: output from outside the guest's readable memory"); if (prints < 8) { printed[prints].at = at; printed[prints].len = n; } prints++; return b; }
static void tick() { clk[0] = sym64("host_sec") & 0x7fffffffff; clk[1] = sym32("host_frac") % 1000000u; clks++; }
int h_clock_gettime(clockid_t id, struct timespec* ts) asm("clock_gettime");
int h_clock_gettime(clockid_t id, struct timespec* ts) { ASSERT(!armed | (id >= 0), "P20: the guest reads a clock of another process"); if (id > 11) return -1; tick(); ts->tv_sec = (time_t)clk[0]; ts->tv_nsec = (long)clk[1]; return 0; }
int h_gettimeofday(struct timeval* tv, void*) asm("gettimeofday");
int h_gettimeofday(struct timeval* tv, void*) { tick(); tv->tv_sec = (time_t)clk[0]; tv->tv_usec = (long)clk[1]; return 0; }
#ifndef VS_NATIVE
#define HOST(f) long host_##f(...) asm(#f); long host_##f(...) { __vs_fail("P20: a guest call reaches the host: " #f); return 0; }
HOST(open) HOST(openat) HOST(open64) HOST(creat) HOST(read) HOST(pread) HOST(pread64) HOST(readv) HOST(write) HOST(pwrite) HOST(pwrite64) HOST(writev) HOST(close) HOST(dup) HOST(dup2) HOST(lseek) HOST(recv) HOST(send) HOST(socket) HOST(connect) HOST(unlink) HOST(unlinkat) HOST(rename) HOST(mkdir) HOST(rmdir) HOST(truncate) HOST(ftruncate) HOST(ioctl) HOST(fcntl) HOST(fcntl64) HOST(isatty)
HOST(fstat) HOST(stat) HOST(lstat) HOST(fstatat) HOST(fstat64) HOST(stat64) HOST(access) HOST(readlink) HOST(readlinkat) HOST(realpath) HOST(getcwd) HOST(chdir) HOST(getrandom) HOST(getentropy) HOST(arc4random) HOST(fopen) HOST(fopen64) HOST(freopen) HOST(fread) HOST(remove) HOST(system) HOST(popen) HOST(execve) HOST(execvp) HOST(fork) HOST(vfork) HOST(kill) HOST(raise) HOST(tgkill) HOST(exit) HOST(_exit) HOST(quick_exit) HOST(getenv) HOST(setenv)
HOST(getpid) HOST(getppid) HOST(gettid) HOST(getuid) HOST(geteuid) HOST(getgid) HOST(getegid) HOST(nanosleep) HOST(clock_nanosleep) HOST(usleep) HOST(sleep) HOST(poll) HOST(ppoll) HOST(select) HOST(pause) HOST(prctl) HOST(setrlimit) HOST(getrlimit) HOST(prlimit) HOST(prlimit64) HOST(setrlimit64) HOST(getrlimit64) HOST(sched_getaffinity) HOST(sched_setaffinity) HOST(sched_yield) HOST(sigaction) HOST(sigprocmask) HOST(pthread_sigmask) HOST(sigaltstack) HOST(syscall) HOST(uname) HOST(sysconf) HOST(brk) HOST(sbrk) HOST(mprotect) HOST(mremap)
#endif
}
static void confine() { armed = true;
#ifdef VS_NATIVE
	if (getenv("VS_NOSECCOMP")) return; static const int ok[] = { SYS_write, SYS_exit, SYS_exit_group, SYS_mmap, SYS_munmap, SYS_madvise, SYS_mprotect, SYS_futex, SYS_brk, SYS_rt_sigreturn, SYS_rt_sigprocmask, SYS_rt_sigaction, SYS_sigaltstack }; static sock_filter f[64]; unsigned n = 0; f[n++] = BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 0); for (int c : ok) { f[n++] = BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)c, 0, 1); f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW); } f[n++] = BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP); sock_fprog pr = { (unsigned short)n, f }; prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0); prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr);
#endif
}
static bool readable(uint64_t p, uint64_t n) { return (p >= RO) & (p <= SZ) & (n <= SZ - p); }
static bool writable(uint64_t p, uint64_t n) { return (p >= LOW) & (p <= SZ) & (n <= SZ - p); }
static uint64_t rd64(uint64_t p) { uint64_t v; memcpy(&v, ram + p, 8); return v; }
static uint32_t rd32(uint64_t p) { uint32_t v; memcpy(&v, ram + p, 4); return v; }
static int64_t neg(int e) { return -(int64_t)e; }
HARNESS(sys) {
	unsigned nr = (unsigned)__vs_param("nr", 64); Machine m{std::string_view{}, plain_options()}; m.memory.allocate_custom_arena(SZ, RO, LOW); ram = arena(m); __vs_havoc(ram, SZ, "ram"); m.cpu.reg(REG_SP) = 0x80000; m.setup_linux_syscalls(); if (__vs_param("threads", 0)) m.setup_posix_threads();
	m.memory.m_mmap_address = sym64("mmap") & ~4095ull; ASSUME(m.memory.m_mmap_address <= SZ); Registers& r = m.cpu.registers(); __vs_havoc(&r.m_regs, 256, "gpr"); __vs_havoc(&r.m_vr, 1024, "vr"); r.m_regs[0] = 0; r.pc = sym64("pc") & ~3ull; r.m_fcsr.whole = sym32("fcsr"); r.m_fcc = sym8("fcc"); Registers old = r;
	uint64_t a[6]; for (int i = 0; i < 6; i++) a[i] = old.m_regs[4 + i]; int fd = (int)a[0]; bool std3 = (fd >= 0) & (fd <= 2); unsigned cap = (unsigned)__vs_param("cap", 2); uint64_t k = sym64("watched"); ASSUME(k < SZ); uint8_t kb = ram[k]; unsigned wr = sym8("reg"), wv = sym<uint16_t>("vreg"); ASSUME((wr < 32) & (wr != 4) & (wv < 1024));
	// bounds of the calls that loop over guest-sized input
	if (nr == 66 || nr == 73) ASSUME(((nr == 66 ? a[2] : a[1]) <= cap) | ((nr == 66 ? a[2] : a[1]) > 1024)); if (nr == 278) ASSUME((a[1] <= 8 * cap) | (a[0] < LOW) | (a[0] > SZ - 8 * cap));
	if (nr == 78) { bool z = !readable(a[1], 16); if (!z) for (unsigned i = 0; i < 16; i++) z = z | (ram[a[1] + i] == 0); ASSUME(z); }
	uint64_t iov[8][2]; uint32_t pfd[8][2]; if (nr == 66) for (unsigned i = 0; i < cap; i++) if (readable(a[1] + 16 * i, 16)) { iov[i][0] = rd64(a[1] + 16 * i); iov[i][1] = rd64(a[1] + 16 * i + 8); } if (nr == 73) for (unsigned i = 0; i < cap; i++) if (readable(a[0] + 8 * i, 8)) { pfd[i][0] = rd32(a[0] + 8 * i); pfd[i][1] = rd32(a[0] + 8 * i + 4); }
	uint64_t brkaddr = 0; (void)brkaddr; m.set_max_instructions(1000); prints = clks = 0; confine(); int th = guarded([&] { m.system_call(nr); }); armed = false; uint64_t res = r.m_regs[4]; int64_t sres = (int64_t)res;
	// everything but the result register is as before
	ASSERT(r.m_regs[wr] == old.m_regs[wr], "P20: a call changed another register than its result"); ASSERT((((uint8_t*)&r.m_vr)[wv] == ((uint8_t*)&old.m_vr)[wv]) & (r.m_fcsr.whole == old.m_fcsr.whole) & (r.m_fcc == old.m_fcc) & (r.pc == old.pc), "P20: a call changed vector registers, flags or the program counter");
	bool stop = m.max_instructions() == 0; ASSERT(stop == ((nr == 93) | (nr == 94)), "P20: stops the machine, or not"); uint64_t o = 0, n = 0; bool changed = ram[k] != kb; // where output may go
	auto at = [&](uint64_t p, uint64_t len) { o = p; n = len; }; auto fault = [&](bool may) { ASSERT(may, "P20: a permitted call raised"); COVER("fault"); };
	switch (nr) {
	case 93: case 94: ASSERT(!th & (res == a[0]), "P20: exit"); break;
	case 64: if (th) { fault(((fd == 1) | (fd == 2)) & (!readable(a[1], a[2]) | (a[2] == 0))); break; } if ((fd == 1) | (fd == 2)) { ASSERT((prints == 1) & (res == a[2]) & (printed[0].len == a[2]) & ((a[2] == 0) | (printed[0].at == a[1])), "P20: write does not output the buffer"); COVER("output"); } else { ASSERT((prints == 0) & (sres < 0), "P20: write to a descriptor other than standard output and error"); COVER("refused"); } break;
	case 66: { if (a[2] > 1024) { ASSERT(th | (sres < 0), "P20: writev with too many buffers"); break; } if (!((fd == 1) | (fd == 2))) { ASSERT(!th & (prints == 0) & (sres < 0), "P20: writev to another descriptor"); COVER("refused"); break; }
		uint64_t tot = 0; unsigned np = 0; bool bad = false; for (unsigned i = 0; i < a[2] && !bad; i++) { if (!readable(a[1] + 16 * i, 16)) { bad = true; break; } uint64_t b = iov[i][0], l = iov[i][1]; if (l == 0) continue; if (l >= 1 << 20) { __vs_end(); } if (!readable(b, l)) { bad = true; break; } ASSERT((np < prints) && (printed[np].at == b) & (printed[np].len == l), "P20: writev does not output its buffers in order"); np++; tot += l; }
		if (th) { fault(bad); break; } if (!bad) { ASSERT((prints == np) & (res == tot), "P20: writev result"); COVER("output"); } break; }
	case 63: ASSERT(!th & (fd == 0 ? res == 0 : sres < 0), "P20: read"); break;
	case 56: case 291: ASSERT(!th & (sres < 0), "P20: a host file was opened or examined"); break;
	case 57: ASSERT(!th & (std3 ? res == 0 : sres < 0), "P20: close"); break; case 29: ASSERT(!th & (sres < 0), "P20: ioctl"); break;
	case 80: { bool ok = std3 & (a[1] != 0); if (ok) at(a[1], 128); if (th) { fault(ok & !writable(a[1], 128)); break; } ASSERT(ok ? res == 0 : sres < 0, "P20: fstat"); if (ok & (k - a[1] < 128)) { ASSERT(ram[k] == 0, "P20: fstat leaks"); COVER("filled"); } break; }
	case 226: case 233: case 25: case 99: case 135: case 167: case 214: case 172: ASSERT(!th & (res == 0), "P20: a stub returns something"); break;
	case 174: case 175: case 176: case 177: ASSERT(!th & (res == 1000), "P20: the fixed user"); break; case 178: case 96: ASSERT(!th & (res == (m.has_threads() ? 0 : 1)), "P20: thread number"); break;
	case 113: case 169: { uint64_t p = nr == 113 ? a[1] : a[0]; if (p) at(p, 16); if (th) { fault((p != 0) & !writable(p, 16)); break; } if (nr == 113 && p && (fd < 0 || fd > 11)) { ASSERT((sres < 0) & !changed, "P20: an unknown clock"); COVER("refused"); break; } ASSERT(res == 0, "P20: the time cannot be read"); if (p) { ASSERT(clks == 1, "P20: clock reads"); ASSERT((rd64(p) == clk[0]) & (rd64(p + 8) == clk[1]), "P20: the time stored is not the host's"); COVER("time"); } break; }
	case 101: { if (a[0] && a[1]) at(a[1], 16); if (th) { fault((a[0] != 0) & (!readable(a[0], 16) | ((a[1] != 0) & !writable(a[1], 16)))); break; } ASSERT(res == 0, "P20: nanosleep"); if (a[0] && a[1]) { ASSERT((rd64(a[1]) == 0) & (rd64(a[1] + 8) == 0), "P20: time left after sleeping"); COVER("slept"); } break; }
	case 123: { bool ok = (a[1] >= 8) & (a[2] != 0); if (ok) at(a[2], 8); if (th) { fault(ok & !writable(a[2], 8)); break; } if (ok) { ASSERT((res == 8) & (rd64(a[2]) == 1), "P20: processor mask"); COVER("mask"); } else ASSERT(sres < 0, "P20: processor mask too small"); break; }
	case 78: { at(a[2], a[3] < 12 ? a[3] : 12); if (th) { fault(!readable(a[1], 1) | !writable(a[2], n) | (n == 0)); break; } if (sres < 0) { n = 0; COVER("refused"); break; } ASSERT(readable(a[1], 1), "P20: a path outside memory"); ASSERT(res == (a[3] < 12 ? a[3] : 12), "P20: readlinkat length"); if (k - a[2] < n) { ASSERT(ram[k] == (uint8_t)("/tmp/program"[k - a[2]]), "P20: readlinkat leaks"); } COVER("link"); break; }
	case 261: { if (a[3]) at(a[3], 16); if (th) { fault((a[3] != 0) & !writable(a[3], 16)); break; } ASSERT(res == 0, "P20: prlimit"); if (a[3]) { ASSERT(rd64(a[3]) <= rd64(a[3] + 8), "P20: a soft limit over the hard limit"); COVER("limit"); } break; }
	case 278: { at(a[0], a[1]); if (th) { fault((a[1] != 0) & !writable(a[0], a[1])); break; } ASSERT(res == a[1], "P20: getrandom length"); if (a[1]) COVER("random"); break; }
	case 73: { if (a[1] > 1024) { ASSERT(th | (sres < 0), "P20: ppoll with too many descriptors"); break; } at(a[0], 8 * a[1]); if (th) { fault(!writable(a[0], 8 * a[1]) | (a[1] == 0)); break; } for (unsigned i = 0; i < a[1]; i++) { int f = (int)pfd[i][0]; uint32_t ev = pfd[i][1] & 0xffff; ASSERT((rd32(a[0] + 8 * i) == pfd[i][0]) & (rd32(a[0] + 8 * i + 4) == (ev | ((f >= 0) & (f <= 2) ? ev << 16 : 0))), "P20: ppoll results"); COVER("poll"); } break; }
	case 98: if (!m.has_threads()) ASSERT(!th, "P20: futex"); break;
	case 132: { if (a[1]) at(a[1], 24); if (th) fault(((a[0] != 0) & !readable(a[0], 24)) | ((a[1] != 0) & !writable(a[1], 24))); break; }
	case 134: { if (a[2]) at(a[2], 24); if (th) fault((fd < 1) | (fd > 64) | ((a[1] != 0) & !readable(a[1], 24)) | ((a[2] != 0) & !writable(a[2], 24))); break; }
	case 222: break; case 215: at(a[0], (a[1] + 4095) & ~4095ull); break; default: __vs_fail("unknown number"); }
	if (nr != 64 && nr != 66) ASSERT(prints == 0, "P20: a call other than write produces output"); if (nr != 113 && nr != 169) ASSERT(clks == 0, "P20: a call other than the clocks reads the time");
	ASSERT(!changed | (k - o < n), "P20: a call wrote guest memory other than its result"); ASSERT(!changed | (k >= LOW), "P20: a call wrote read-only memory"); COVER("done"); }
