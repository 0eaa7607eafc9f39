// A well-formed program image, built from the ELF specification (not from the loader).
#pragma once
#include "common.hpp"
struct ImgSym { const char* name; uint64_t value, size; uint8_t info = 0x12; };
struct Img {
	uint8_t* b; size_t n = 0;
	explicit Img(size_t cap = 8192) { b = new uint8_t[cap]; memset(b, 0, cap); }
	void put(size_t o, uint64_t v, unsigned k) { memcpy(b + o, &v, k); }
	void ehdr(uint64_t entry, unsigned phnum, uint64_t shoff, unsigned shnum, unsigned shstrndx) {
		static const uint8_t id[16] = { 0x7f, 'E', 'L', 'F', 2, 1, 1 }; memcpy(b, id, 16);
		put(16, 2, 2); put(18, 258, 2); put(20, 1, 4); put(24, entry, 8); put(32, 64, 8); put(40, shoff, 8); put(48, 0x43, 4);
		put(52, 64, 2); put(54, 56, 2); put(56, phnum, 2); put(58, 64, 2); put(60, shnum, 2); put(62, shstrndx, 2);
	}
	void phdr(unsigned i, uint32_t type, uint32_t flags, uint64_t off, uint64_t va, uint64_t fsz, uint64_t msz) {
		size_t o = 64 + 56 * i; put(o, type, 4); put(o + 4, flags, 4); put(o + 8, off, 8); put(o + 16, va, 8); put(o + 24, va, 8); put(o + 32, fsz, 8); put(o + 40, msz, 8); put(o + 48, 0x1000, 8);
	}
	void shdr(uint64_t shoff, unsigned i, uint32_t name, uint32_t type, uint64_t flags, uint64_t addr, uint64_t off, uint64_t size, uint32_t link, uint64_t entsize) {
		size_t o = shoff + 64 * i; put(o, name, 4); put(o + 4, type, 4); put(o + 8, flags, 8); put(o + 16, addr, 8); put(o + 24, off, 8); put(o + 32, size, 8); put(o + 40, link, 4); put(o + 48, 8, 8); put(o + 56, entsize, 8);
	}
	// code at TEXT (read/execute), one page of data at DATA (read/write), a symbol table
	static constexpr uint64_t TEXT = 0x10000, DATA = 0x20000;
	void program(const uint32_t* code, unsigned words, const ImgSym* sy, unsigned ns, uint64_t entry = TEXT) {
		size_t o = 64 + 2 * 56; o = (o + 15) & ~15ull; size_t co = o; memcpy(b + o, code, words * 4); o += words * 4;
		size_t dofs = o; put(o, 0x1122334455667788ull, 8); o += 8;
		size_t st = o; b[o++] = 0; size_t* nm = new size_t[ns + 1];
		for (unsigned i = 0; i < ns; i++) { nm[i] = o - st; size_t l = strlen(sy[i].name) + 1; memcpy(b + o, sy[i].name, l); o += l; }
		size_t stn = o - st; o = (o + 7) & ~7ull; size_t sm = o; o += 24;
		for (unsigned i = 0; i < ns; i++) { put(o, nm[i], 4); b[o + 4] = sy[i].info; put(o + 6, 1, 2); put(o + 8, sy[i].value, 8); put(o + 16, sy[i].size, 8); o += 24; }
		size_t smn = o - sm; size_t sh = o; // null, .text, .symtab, .strtab, .shstrtab
		static const char names[] = "\0.text\0.symtab\0.strtab\0.shstrtab"; size_t so = sh + 5 * 64; memcpy(b + so, names, sizeof(names)); n = so + sizeof(names) + 1;
		shdr(sh, 1, 1, 1, 6, TEXT, co, words * 4, 0, 0); shdr(sh, 2, 7, 2, 0, 0, sm, smn, 3, 24); shdr(sh, 3, 15, 3, 0, 0, st, stn, 0, 0); shdr(sh, 4, 23, 3, 0, 0, so, sizeof(names), 0, 0);
		ehdr(entry, 2, sh, 5, 4); phdr(0, 1, 5, co, TEXT, words * 4, words * 4); phdr(1, 1, 6, dofs, DATA, 8, 0x1000);
		delete[] nm;
	}
	std::string_view view() const { return std::string_view((const char*)b, n); }
};
