// Library code that the executor interprets (compiled to IR and linked with the code under test).
#include "vs.hpp"
#include <string>
#include <map>
#include <unordered_map>
#include <cstdarg>
#include <ctime>
#include <sys/time.h>
#include <chrono>
#include <cstdio>
template class std::basic_string<char>;
#define WEAK __attribute__((weak))
extern "C" {
WEAK size_t strlen(const char* s) { size_t n = 0; while (*(volatile const char*)(s + n)) n++; return n; }
WEAK size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && *(volatile const char*)(s + n)) n++; return n; }
WEAK int strcmp(const char* a, const char* b) { while (*(volatile const char*)a && *a == *(volatile const char*)b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
WEAK int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *(volatile const char*)a, y = *(volatile const char*)b; if (x != y) return (int)x - (int)y; if (!x) break; } return 0; }
WEAK void* vs_memchr(const void* p, int c, size_t n) asm("memchr");
WEAK void* vs_memchr(const void* p, int c, size_t n) { const volatile unsigned char* q = (const volatile unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
WEAK int vsnprintf(char* b, size_t n, const char*, va_list) { if (n) b[0] = 0; return 0; }
WEAK int vs_host_write_calls = 0;
WEAK ssize_t write(int, const void* p, size_t n) { vs_host_write_calls++; __vs_touch(p, n, "host write() buffer"); return (ssize_t)n; }
WEAK int vs_host_proc_calls = 0;
WEAK FILE* popen(const char*, const char*) { vs_host_proc_calls++; return nullptr; }
WEAK int pclose(FILE*) { return 0; }
WEAK char* fgets(char*, int, FILE*) { return nullptr; }
WEAK int clock_gettime(clockid_t id, struct timespec* ts) {
	if (id < 0 || id > 11) return -1;
	ts->tv_sec = (time_t)(sym64("host_clock_sec") & 0x7fffffffff); ts->tv_nsec = (long)(sym32("host_clock_nsec") % 1000000000u); return 0;
}
WEAK int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = (time_t)(sym64("host_tod_sec") & 0x7fffffffff); tv->tv_usec = (long)(sym32("host_tod_usec") % 1000000u); return 0; }
WEAK unsigned long long __isoc23_strtoull(const char*, char**, int) { return sym64("strtoull"); }
WEAK char* __cxa_demangle(const char*, char*, size_t*, int* st) { if (st) *st = -2; return nullptr; }
WEAK int __cpu_model[4] = {0, 0, 0, 0};
WEAK int __cpu_indicator_init() { return 0; }
}
namespace std { WEAK thread_local void* __once_callable; WEAK thread_local void (*__once_call)(); }
extern "C" { WEAK void __once_proxy() { if (std::__once_call) std::__once_call(); } }
namespace std { namespace chrono { inline namespace _V2 {
WEAK system_clock::time_point system_clock::now() noexcept { return time_point(duration((int64_t)(sym64("host_now") & 0x3fffffffffffffff))); }
WEAK steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)(sym64("host_mono") & 0x3fffffffffffffff))); }
} } }
// red-black tree support of libstdc++ (ordering only; colours are irrelevant to observable behaviour)
namespace std {
WEAK _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
	else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
	return x;
}
WEAK const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
WEAK _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
	else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
	else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
	return x;
}
WEAK const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// unbalanced insertion: header stays red, every node black
WEAK void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
WEAK _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
	auto*& root = h._M_parent;
	auto repl = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (root == o) root = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
	if (h._M_left == z) h._M_left = z->_M_right ? [&] { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; return y; }() : z->_M_parent;
	if (h._M_right == z) h._M_right = z->_M_left ? [&] { auto* y = z->_M_left; while (y->_M_right) y = y->_M_right; return y; }() : z->_M_parent;
	if (!z->_M_left) repl(z, z->_M_right);
	else if (!z->_M_right) repl(z, z->_M_left);
	else {
		auto* y = z->_M_right; while (y->_M_left) y = y->_M_left;
		if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
		repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
	}
	return z;
}
namespace __detail {
WEAK std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 197, 397, 797, 1597, 3203, 6421}; size_t r = 12853; for (size_t x : p) if (x >= n) { r = x; break; } _M_next_resize = r; return r; }
WEAK std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const {
	if (elt + ins > _M_next_resize) { size_t want = elt + ins; if (want < bkt * 2) want = bkt * 2; if (want < 11) want = 11; return {true, _M_next_bkt(want)}; }
	return {false, 0};
}
}
WEAK bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }
}
