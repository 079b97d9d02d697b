// an independent reader and writer of (v7) tar archives for T01/T02
#pragma once
#include "zh.hpp"
struct Entry { std::string name, data; };
struct Hdr { std::string name; u64 size; u64 offset; char type; };
static bool octal(const std::string &f, u64 &v) { v = 0; size_t i = 0; while (i < f.size() && f[i] == ' ') i++; size_t d = i; while (i < f.size() && f[i] >= '0' && f[i] <= '7') v = v * 8 + (f[i++] - '0'); return i > d && (i == f.size() || f[i] == 0 || f[i] == ' '); }
static u64 checksum(const std::string &h) { u64 s = 0; for (size_t i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : (unsigned char)h[i]; return s; }
// strict reader: every deviation from the format is an error
static std::vector<Entry> read_tar(const std::string &a) {
    std::vector<Entry> out; size_t p = 0; REQUIRE(a.size() % 512 == 0, "archive of %zu bytes is not made of blocks", a.size());
    for (;;) { REQUIRE(p + 512 <= a.size(), "archive has no end marker"); std::string h = a.substr(p, 512); p += 512; if (h.find_first_not_of('\0') == std::string::npos) { REQUIRE(p + 512 <= a.size() && a.find_first_not_of('\0', p) == std::string::npos, "data behind the end marker, or only one zero block"); REQUIRE(a.size() == p + 512, "more than two blocks at the end"); return out; }
        u64 sz, ck, tmp; REQUIRE(octal(h.substr(124, 12), sz), "size field %s", esc(h.substr(124, 12)).c_str()); REQUIRE(octal(h.substr(148, 8), ck), "checksum field"); REQUIRE(ck == checksum(h), "header checksum is %llu, should be %llu", (unsigned long long)ck, (unsigned long long)checksum(h)); REQUIRE(octal(h.substr(100, 8), tmp) && octal(h.substr(136, 12), tmp), "mode or time field"); REQUIRE(h[156] == '0', "type 0x%02x", (unsigned char)h[156]);
        Entry e; e.name = std::string(h.c_str(), strnlen(h.data(), 100)); REQUIRE(p + sz <= a.size(), "entry longer than the archive"); e.data = a.substr(p, sz); size_t pad = (512 - sz % 512) % 512; REQUIRE(p + sz + pad <= a.size() && a.substr(p + sz, pad).find_first_not_of('\0') == std::string::npos, "padding"); p += sz + pad; out.push_back(e); }
}
static std::string make_hdr(const std::string &name, u64 size, char type, int style) {
    std::string h(512, 0); h.replace(0, std::min<size_t>(100, name.size()), name, 0, 100); h.replace(100, 7, "0000644"); char b[16];
    snprintf(b, sizeof b, style == 0 ? "%llo" : style == 1 ? "%011llo" : style == 2 ? "%012llo" : "%11llo ", (unsigned long long)size); h.replace(124, strlen(b), b); snprintf(b, sizeof b, "%011o", 1700000000u); h.replace(136, strlen(b), b); h[156] = type; snprintf(b, sizeof b, style == 0 ? "%o" : "%06o", (unsigned)checksum(h)); h.replace(148, strlen(b), b); if (style) { h[148 + 6] = 0; h[148 + 7] = ' '; } return h;
}
static std::string make_tar(const std::vector<Entry> &es, int style, char type = '0', bool end = true) { std::string a; for (auto &e : es) { a += make_hdr(e.name, e.data.size(), type, style) + e.data; a.resize((a.size() + 511) / 512 * 512, 0); } if (end) a.resize(a.size() + 1024, 0); return a; }
static std::string some_data(Gen &g) { size_t n = g.u(3) == 0 ? 512 * g.u(6) + 4096 * g.u(3) + (size_t)g.range(-1, 1) : g.size(1500); if ((int64_t)n < 0) n = 0; std::string s(n, 0); u64 x = g.u(1000); for (auto &c : s) c = (char)splitmix(x); return s; }
