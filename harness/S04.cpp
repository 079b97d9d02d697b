// S04: UTF-8 and 16-bit text
#include "zh.hpp"
static bool scalar(unsigned r) { return r <= 0x10ffff && !(r >= 0xd800 && r <= 0xdfff); }
static std::string enc(unsigned r) { std::string s; if (r < 0x80) s += (char)r; else if (r < 0x800) { s += (char)(0xc0 | r >> 6); s += (char)(0x80 | (r & 63)); } else if (r < 0x10000) { s += (char)(0xe0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); } else { s += (char)(0xf0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); } return s; }
// reference decoder: length of the well-formed sequence at the start, 0 if malformed
static int dec(const unsigned char *p, size_t n, unsigned &r) {
    if (!n) return 0; unsigned c = p[0]; int l = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0; if (!l || (size_t)l > n) return 0; r = l == 1 ? c : l == 2 ? c & 31 : l == 3 ? c & 15 : c & 7;
    for (int i = 1; i < l; i++) { if ((p[i] & 0xc0) != 0x80) return 0; r = r << 6 | (p[i] & 63); } if (!scalar(r) || enc(r).size() != (size_t)l) return 0; return l;
}
static unsigned any_rune(Gen &g) { static const unsigned edge[] = {0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1ffff, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x7fffffff}; switch (g.u(6)) { case 0: return edge[g.u(23)]; case 1: return (unsigned)g.u(0x80); case 2: return (unsigned)g.u(0x800); case 3: return (unsigned)g.u(0x10000); case 4: return (unsigned)g.u(0x110000); default: return (unsigned)g.u(0x200000); } }
static unsigned any_scalar(Gen &g, bool zero = false) { for (;;) { unsigned r = any_rune(g); if (scalar(r) && (r || zero)) return r; } }
static std::u16string to16(const std::vector<unsigned> &rs) { std::u16string u; for (unsigned r : rs) if (r < 0x10000) u += (char16_t)r; else { u += (char16_t)(0xd800 + ((r - 0x10000) >> 10)); u += (char16_t)(0xdc00 + ((r - 0x10000) & 0x3ff)); } return u; }
PROPERTY(code_points, 4352, 69632, "always (256 consecutive code points; the 4352 batches of the quick tier cover 0..0x110000 together with the batch index)") {
    // the batch number is a choice; random batches plus all-edge batches. Exhaustive enumeration is done once below.
    unsigned b = (unsigned)g.u(4353); g.note("code points from 0x%x", b * 256); g.nontrivial();
    for (unsigned r = b * 256; r < b * 256 + 256; r++) { Exact o(4, 0x55); zpl_isize n = zpl_utf8_encode_rune(o.p, (zpl_rune)r); std::string w = enc(scalar(r) ? r : 0xfffd); REQUIRE(n == (zpl_isize)w.size() && !memcmp(o.p, w.data(), w.size()), "U+%04X encodes to %s", r, esc(o.p, n).c_str()); for (size_t i = w.size(); i < 4; i++) REQUIRE(o.p[i] == 0x55, "encoding U+%04X writes past its %zu bytes", r, w.size());
        if (scalar(r)) { Exact e(w); zpl_rune c = -5; REQUIRE(zpl_utf8_decode(e.p, w.size(), &c) == (zpl_isize)w.size() && c == (zpl_rune)r, "U+%04X decodes to 0x%x", r, c); } }
}
PROPERTY(all_code_points, 1, 1, "always (every code point 0..0x1100ff once)") {
    g.nontrivial(); g.draw(0);
    for (unsigned r = 0; r < 0x110100; r++) { zpl_u8 o[4]; zpl_isize n = zpl_utf8_encode_rune(o, (zpl_rune)r); std::string w = enc(scalar(r) ? r : 0xfffd); REQUIRE(n == (zpl_isize)w.size() && !memcmp(o, w.data(), w.size()), "U+%04X encodes to %s", r, esc(o, n).c_str()); zpl_rune c = -5; REQUIRE(zpl_utf8_decode(o, n, &c) == n && c == (scalar(r) ? (zpl_rune)r : 0xfffd), "U+%04X decodes to 0x%x", r, c); }
}
PROPERTY(decode_any, 1200000, 20000000, "a well-formed multi-byte sequence and a malformed one") {
    std::string s; int n = 1 + (int)g.size(12); for (int i = 0; i < n; i++) switch (g.u(6)) { case 0: case 1: s += enc(any_scalar(g)); break; case 2: s += (char)g.u(256); break; case 3: { unsigned r = any_rune(g) & 0x1fffff; std::string e = enc(r); if (g.boolean()) e = e.substr(0, 1 + g.u(e.size())); s += e; break; } case 4: { static const char *bad[] = {"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\x80", "\xff", "\xe2\x82", "\xf0\x9f\x98"}; s += bad[g.u(14)]; break; } default: s += (char)g.u(128); }
    Exact e(s); g.note("bytes %s", esc(s).c_str()); size_t i = 0; bool good = false, bad = false;
    while (i < s.size()) { unsigned r = 0; int l = dec(e.p + i, s.size() - i, r); zpl_rune c = -5; zpl_isize w = zpl_utf8_decode(e.p + i, s.size() - i, &c);
        if (l) { REQUIRE(w == l && c == (zpl_rune)r, "at %zu: width %ld, code point 0x%x, expected width %d, 0x%x", i, (long)w, c, l, r); good |= l > 1; } else { REQUIRE(w == 1 && c == 0xfffd, "malformed sequence at %zu: width %ld, code point 0x%x", i, (long)w, c); bad = true; }
        REQUIRE(zpl_utf8_decode(e.p + i, s.size() - i, 0) == w, "width without an output differs"); if (l && s[i]) REQUIRE(zpl_utf8_codepoint_size(e.p + i, l) == l, "codepoint_size at %zu is %ld, expected %d", i, (long)zpl_utf8_codepoint_size(e.p + i, l), l); i += w; }
    zpl_rune c = 7; REQUIRE(zpl_utf8_decode(e.p, 0, &c) == 0, "decoding nothing advances"); if (good && bad) g.nontrivial();
}
PROPERTY(lengths_and_conversion, 600000, 10000000, "at least 2 code points outside ASCII and one outside 16 bits") {
    std::vector<unsigned> rs; size_t n = g.size(20); for (size_t i = 0; i < n; i++) rs.push_back(any_scalar(g)); std::string s; size_t wide = 0, astral = 0; for (unsigned r : rs) { s += enc(r); wide += r > 0x7f; astral += r > 0xffff; } if (wide >= 2 && astral) g.nontrivial(); g.note("text %s", esc(s).c_str());
    Exact e(s, true); REQUIRE(zpl_utf8_strlen(e.p) == (zpl_isize)n, "utf8_strlen %ld, expected %zu", (long)zpl_utf8_strlen(e.p), n);
    { size_t k = g.u(n + 1); std::string pre; for (size_t i = 0; i < k; i++) pre += enc(rs[i]); Exact p(pre); REQUIRE(zpl_utf8_strnlen(p.p, pre.size()) == (zpl_isize)k, "utf8_strnlen of %zu bytes: %ld, expected %zu", pre.size(), (long)zpl_utf8_strnlen(p.p, pre.size()), k); REQUIRE(zpl_utf8_strnlen(e.p, s.size() + 1 + g.u(9)) == (zpl_isize)n, "utf8_strnlen beyond the end"); }
    std::u16string u = to16(rs); size_t cap = g.boolean() ? u.size() + 1 : 1 + g.u(u.size() + 6); std::string raw(cap * 2, 0x55); Exact b(raw); zpl_u16 *r = zpl_utf8_to_ucs2((zpl_u16 *)b.p, cap, e.p);
    if (cap > u.size()) { REQUIRE(r == (zpl_u16 *)b.p, "conversion to 16 bit failed with room for %zu of %zu units", cap, u.size() + 1); REQUIRE(!memcmp(r, u.c_str(), (u.size() + 1) * 2), "16-bit text is wrong: %s", esc(r, (u.size() + 1) * 2).c_str()); } else REQUIRE(!r, "conversion claims to fit %zu units into %zu", u.size() + 1, cap);
    Exact src(std::string((const char *)u.c_str(), (u.size() + 1) * 2)); size_t c8 = g.boolean() ? s.size() + 1 : 1 + g.u(s.size() + 6); Exact o(c8, 0x55); zpl_u8 *q = zpl_ucs2_to_utf8(o.p, c8, (zpl_u16 *)src.p);
    if (c8 > s.size()) { REQUIRE(q == o.p, "conversion to 8 bit failed with %zu bytes for %zu", c8, s.size() + 1); REQUIRE(!memcmp(q, s.c_str(), s.size() + 1), "8-bit text is %s", esc(q, s.size() + 1).c_str()); } else REQUIRE(!q, "conversion claims to fit %zu bytes into %zu", s.size() + 1, c8);
    zpl_u16 *rb = zpl_utf8_to_ucs2_buf(e.p); REQUIRE(rb && !memcmp(rb, u.c_str(), (u.size() + 1) * 2), "utf8_to_ucs2_buf"); zpl_u8 *qb = zpl_ucs2_to_utf8_buf((zpl_u16 *)src.p); REQUIRE(qb && !memcmp(qb, s.c_str(), s.size() + 1), "ucs2_to_utf8_buf");
}
PROPERTY(convert_malformed, 600000, 10000000, "the text is malformed") {
    if (g.boolean()) { std::string s; int n = 1 + (int)g.size(8); for (int i = 0; i < n; i++) { if (g.u(3)) s += enc(any_scalar(g)); else { std::string e = enc(any_rune(g) & 0x1fffff); s += e.substr(0, 1 + g.u(e.size())); if (g.boolean()) s += (char)(0x80 + g.u(128)); } } s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
        bool ok = true; std::vector<unsigned> rs; for (size_t i = 0; i < s.size();) { unsigned r; int l = dec((const unsigned char *)s.data() + i, s.size() - i, r); if (!l) { ok = false; break; } rs.push_back(r); i += l; } if (!ok) g.nontrivial(); g.note("bytes %s", esc(s).c_str());
        Exact e(s, true); size_t cap = s.size() + 1; std::string raw(cap * 2, 0x55); Exact b(raw); zpl_u16 *r = zpl_utf8_to_ucs2((zpl_u16 *)b.p, cap, e.p); REQUIRE(!!r == ok, "conversion of %s text reports %s", ok ? "well-formed" : "malformed", r ? "success" : "failure"); if (r) { std::u16string u = to16(rs); REQUIRE(!memcmp(r, u.c_str(), (u.size() + 1) * 2), "wrong 16-bit text"); }
    } else { std::u16string u; int n = 1 + (int)g.size(8); for (int i = 0; i < n; i++) switch (g.u(4)) { case 0: u += (char16_t)(0xd800 + g.u(0x400)); break; case 1: u += (char16_t)(0xdc00 + g.u(0x400)); break; default: u += (char16_t)(1 + g.u(0xffff)); }
        bool ok = true; std::string w; for (size_t i = 0; i < u.size(); i++) { unsigned c = u[i]; if (c >= 0xdc00 && c < 0xe000) ok = false; else if (c >= 0xd800 && c < 0xdc00) { if (i + 1 < u.size() && u[i + 1] >= 0xdc00 && u[i + 1] < 0xe000) { w += enc(0x10000 + ((c - 0xd800) << 10) + (u[i + 1] - 0xdc00)); i++; } else ok = false; } else w += enc(c); } if (!ok) g.nontrivial();
        Exact src(std::string((const char *)u.c_str(), (u.size() + 1) * 2)); g.note("16-bit units %s", esc(src.p, u.size() * 2).c_str()); size_t cap = u.size() * 4 + 1; Exact o(cap, 0x55); zpl_u8 *q = zpl_ucs2_to_utf8(o.p, cap, (zpl_u16 *)src.p); REQUIRE(!!q == ok, "conversion of %s 16-bit text reports %s", ok ? "well-formed" : "malformed", q ? "success" : "failure"); if (q) REQUIRE(!memcmp(q, w.c_str(), w.size() + 1), "wrong 8-bit text"); }
}
PROPERTY(lengths_any, 600000, 10000000, "a sequence is cut off by the end of the text") {
    std::string s; int n = (int)g.size(8); for (int i = 0; i < n; i++) switch (g.u(4)) { case 0: s += enc(any_scalar(g)); break; case 1: s += (char)(1 + g.u(127)); break; case 2: s += (char)(0x80 + g.u(128)); break; default: { std::string e = enc(0x80 + (any_rune(g) & 0xfffff)); s += e.substr(0, 1 + g.u(e.size())); } }
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end()); size_t count = 0; bool ok = true, cut = false; for (size_t i = 0; i < s.size();) { unsigned r; int l = dec((const unsigned char *)s.data() + i, s.size() - i, r); if (!l) ok = false; unsigned c = (unsigned char)s[i]; size_t w = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; if (c >= 0xc0 && i + w > s.size()) cut = true; i += l ? l : 1; count++; }
    if (cut) g.nontrivial(); g.note("text %s", esc(s).c_str()); Exact e(s, true), bare(s); size_t max = g.u(s.size() + 1);
    zpl_isize a = zpl_utf8_strlen(e.p), b = zpl_utf8_strnlen(e.p, s.size() + g.u(9)), c = zpl_utf8_strnlen(bare.p, max);
    if (ok) REQUIRE(a == (zpl_isize)count && b == a, "lengths of a well-formed text: %ld and %ld, expected %zu", (long)a, (long)b, count); REQUIRE(a >= -1 && a <= (zpl_isize)s.size() && b >= -1 && b <= (zpl_isize)s.size() && c >= -1 && c <= (zpl_isize)max, "lengths %ld, %ld and %ld of %zu bytes (the last of %zu)", (long)a, (long)b, (long)c, s.size(), max);
}
