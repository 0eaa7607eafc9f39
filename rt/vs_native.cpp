// Native side of the harness interface: replays a counterexample against the real code.
#include "vs.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <map>
#include <vector>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <signal.h>
#include <exception>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b)
#define ASAN_UNPOISON_MEMORY_REGION(a, b)
#endif
struct ArrIn { uint8_t def; std::vector<std::pair<uint64_t, uint8_t>> ents; };
static std::map<std::string, std::vector<uint8_t>> ins; static std::map<std::string, ArrIn> arrs;
static std::map<std::string, uint64_t> params; static std::map<std::string, int> cnt;
static uint64_t rng = 0; static bool perturb = false; static std::string trailS;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::string us(std::string s) { for (char& c : s) if (c == ' ') c = '_'; return s; } // the replay file separates by spaces
static std::string nm(const char* n) { int k = cnt[n]++; return us(k ? std::string(n) + "#" + std::to_string(k) : n); }
static void fillRandomFP(uint8_t* p, size_t n) { // nice float patterns for uninterpreted arithmetic
	for (size_t i = 0; i + 4 <= n; ) {
		uint64_t r = rnd();
		if (i + 8 <= n && (r & 1)) { double d = (double)(int64_t)((r >> 8) % 2000) / 8.0 - 100.0; if ((r >> 60) == 0) d = 1.0 + 1e-9 * ((r >> 8) % 1000); memcpy(p + i, &d, 8); i += 8; }
		else { float f = (float)((int64_t)((r >> 8) % 2000) / 8.0 - 100.0); memcpy(p + i, &f, 4); i += 4; }
	}
}
extern "C" {
void __vs_sym(void* p, size_t n, const char* name) {
	std::string k = nm(name); memset(p, 0, n); auto it = ins.find(k);
	if (it != ins.end()) memcpy(p, it->second.data(), it->second.size() < n ? it->second.size() : n);
	if (perturb && strncmp(name, "fp", 2) == 0) fillRandomFP((uint8_t*)p, n);
}
void __vs_havoc(void* p, size_t n, const char* name) {
	bool same = name[0] == '='; std::string k = same ? us(name + 1) : nm(name); auto it = arrs.find(k);
	if (it == arrs.end()) { if (n < (1u << 26)) memset(p, 0, n); }
	else {
		if (it->second.def || n < (1u << 26)) memset(p, it->second.def, n);
		for (auto& e : it->second.ents) if (e.first < n) ((uint8_t*)p)[e.first] = e.second;
	}
	if (perturb && strncmp(same ? name + 1 : name, "fp", 2) == 0) {
		static std::map<std::string, std::string> kept; auto& v = kept[k];
		if (v.size() < n) { v.assign(n, 0); fillRandomFP((uint8_t*)&v[0], n); }
		memcpy(p, v.data(), n);
	}
}
void __vs_assume(bool c) { if (!c) { if (!perturb) fprintf(stderr, "REPLAY: assumption does not hold\n"); _exit(77); } }
void __vs_assert(bool c, const char* m) { if (!c) { fprintf(stderr, "REPLAY: assertion failed: %s\n", m); _exit(42); } }
void __vs_assert_kf(bool ok, bool f, const char* id, const char* m) { if (!ok && f && getenv("VS_KNOWN")) { fprintf(stderr, "REPLAY: known finding %s: %s\n", id, m); _exit(43); } if (!ok && !f) __vs_assert(false, m); }
void __vs_fail(const char* m) { __vs_assert(false, m); _exit(42); }
void __vs_cover(const char*) {}
void __vs_trail(const char*) {}
uint64_t __vs_param(const char* n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
uint64_t __vs_concretize(uint64_t v) { return v; }
void __vs_end() { _exit(0); }
int __vs_symbolic() { return 0; }
static const char* stepMsg = nullptr;
static void onAlarm(int) { fprintf(stderr, "REPLAY: %s\n", stepMsg ? stepMsg : "time limit"); _exit(44); }
void __vs_steplimit(uint64_t n, const char* m) { if (n) { stepMsg = m; signal(SIGALRM, onAlarm); alarm(10); } else alarm(0); }
void __vs_touch(const void* p, size_t n, const char* what) {
#if defined(__SANITIZE_ADDRESS__)
	if (n) { void* b = __asan_region_is_poisoned((void*)p, n); if (b) { fprintf(stderr, "REPLAY: %s out of bounds\n", what); _exit(42); } }
#endif
}
void __vs_print(const char* n, uint64_t v) { fprintf(stderr, "[print] %s = 0x%llx\n", n, (unsigned long long)v); }
int __vs_expect_fault(int) { return 0; }
// guest arenas: exact size, surrounded by inaccessible memory
static std::map<void*, std::pair<void*, size_t>> maps;
void* verif_mmap(void*, size_t n, int, int, int, off_t) {
	if (n == 0 || n > (1ull << 40)) return MAP_FAILED;
	size_t pg = 65536, total = ((n + pg - 1) / pg) * pg + 2 * pg;
	char* r = (char*)::mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (r == (char*)MAP_FAILED) return MAP_FAILED;
	size_t body = total - 2 * pg;
	if (mprotect(r + pg, body, PROT_READ | PROT_WRITE)) return MAP_FAILED;
	ASAN_POISON_MEMORY_REGION(r + pg + n, body - n);
	maps[r + pg] = {r, total};
	return r + pg;
}
int verif_munmap(void* p, size_t) { auto it = maps.find(p); if (it == maps.end()) { fprintf(stderr, "REPLAY: munmap of host memory that is not a mapping\n"); _exit(42); } ::munmap(it->second.first, it->second.second); maps.erase(it); return 0; }
int verif_madvise(void* p, size_t n, int adv) { (void)p; (void)n; (void)adv; if (adv == 4) memset(p, 0, n); return 0; }
}
static void onSig(int sig) { char b[64]; int n = snprintf(b, 64, "REPLAY: host signal %d\n", sig); if (write(2, b, n)) {} _exit(45); }
static void onTerm() { fprintf(stderr, "REPLAY: uncaught exception\n"); _exit(46); }
static void load(const char* f) { // simple text format written by vf.py
	FILE* fp = fopen(f, "r"); if (!fp) { perror(f); _exit(2); }
	static char key[4096], val[1 << 16]; char t;
	while (fscanf(fp, " %c %4095s", &t, key) == 2) {
		if (t == 'p') { unsigned long long v; if (fscanf(fp, "%llu", &v) != 1) break; params[key] = v; }
		else if (t == 'v') { unsigned n; if (fscanf(fp, "%u", &n) != 1) break; std::vector<uint8_t> b; for (unsigned i = 0; i < n; i++) { unsigned x; if (fscanf(fp, "%2x", &x) != 1) break; b.push_back(x); } ins[key] = b; }
		else if (t == 'a') { unsigned d, n; if (fscanf(fp, "%u %u", &d, &n) != 2) break; ArrIn a; a.def = d; for (unsigned i = 0; i < n; i++) { unsigned long long x; unsigned y; if (fscanf(fp, "%llu %u", &x, &y) != 2) break; a.ents.push_back({x, (uint8_t)y}); } arrs[key] = a; }
	}
	fclose(fp);
}
int main(int argc, char** argv) {
	if (argc < 3) return 2;
	load(argv[2]);
	if (argc > 3) { perturb = true; rng = strtoull(argv[3], nullptr, 0) * 0x9E3779B97F4A7C15ull + 88172645463325252ull; }
	std::set_terminate(onTerm);
	for (int s : {SIGFPE, SIGSEGV, SIGBUS, SIGILL, SIGTRAP, SIGABRT, SIGSYS}) signal(s, onSig);
	void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
	fn();
	fprintf(stderr, "REPLAY: completed without failure\n");
	_exit(0);
}
