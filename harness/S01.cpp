// S01: managed strings
#include "zh.hpp"
static bool refuse; static int refused, countdown = -1; static long live;
static void *flaky(void *, zpl_alloc_type t, zpl_isize size, zpl_isize al, void *old, zpl_isize os, zpl_u64 fl) {
    bool gets = t == ZPL_ALLOCATION_ALLOC || t == ZPL_ALLOCATION_RESIZE;
    if (gets && (refuse || (countdown >= 0 && countdown-- == 0))) { refused++; return 0; }
    zpl_allocator h = zpl_heap_allocator(); void *p = h.proc(h.data, t, size, al, old, os, fl); if (t == ZPL_ALLOCATION_ALLOC && p) live++; if (t == ZPL_ALLOCATION_FREE && old) live--; return p;
}
static void check(zpl_string s, const std::string &m, const char *w) {
    REQUIRE(s, "%s gave no string", w); REQUIRE(zpl_string_length(s) == (zpl_isize)m.size(), "length is %ld, expected %zu, after %s", (long)zpl_string_length(s), m.size(), w);
    REQUIRE(zpl_string_capacity(s) >= zpl_string_length(s), "capacity %ld below length %ld after %s", (long)zpl_string_capacity(s), (long)zpl_string_length(s), w);
    REQUIRE(!memcmp(s, m.data(), m.size()), "contents are %s, expected %s, after %s", esc(s, m.size()).c_str(), esc(m).c_str(), w); REQUIRE(s[m.size()] == 0, "not terminated after %s", w);
    REQUIRE(zpl_string_available_space(s) == zpl_string_capacity(s) - zpl_string_length(s), "available space %ld with capacity %ld and length %zu", (long)zpl_string_available_space(s), (long)zpl_string_capacity(s), m.size());
    memset(s + m.size(), 0, zpl_string_capacity(s) - m.size() + 1);               // the whole reported capacity is the string's own memory
}
static std::string utf8(unsigned r) { std::string s; if (r > 0x10ffff || (r >= 0xd800 && r <= 0xdfff)) r = 0xfffd; if (r < 0x80) s += (char)r; else if (r < 0x800) { s += (char)(0xc0 | r >> 6); s += (char)(0x80 | (r & 63)); } else if (r < 0x10000) { s += (char)(0xe0 | r >> 12); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); } else { s += (char)(0xf0 | r >> 18); s += (char)(0x80 | (r >> 12 & 63)); s += (char)(0x80 | (r >> 6 & 63)); s += (char)(0x80 | (r & 63)); } return s; }
PROPERTY(history, 500000, 10000000, "the string reached at least 30 bytes, its storage moved, and it was shortened by trimming, clearing or assignment") {
    zpl_allocator a; a.proc = flaky; a.data = 0; refuse = false; std::string m; zpl_string s; size_t maxm = 0; bool moved = false, cut = false;
    auto text = [&](size_t mx) { return g.u(3) ? g.str(mx, "ab \t\n\r,xyz") : g.str(mx, "\x80\xff\xe2\x82\xac z"); };
    switch (g.u(5)) {
        case 0: m = text(40); { Exact e(m, true); s = zpl_string_make(a, e.c()); } break; case 1: s = zpl_string_make(a, 0); break;
        case 2: { m = text(40); if (!m.empty() && g.boolean()) m[g.u(m.size())] = 0; Exact e(m); s = zpl_string_make_length(a, e.p, m.size()); break; }
        case 3: { size_t c = g.size(60); s = zpl_string_make_reserve(a, c); REQUIRE(s && zpl_string_capacity(s) >= (zpl_isize)c, "make_reserve(%zu)", c); break; }
        default: { size_t c = g.size(30); m.assign(c, 0); s = zpl_string_make_length(a, 0, c); break; }
    }
    g.note("made %s", esc(m).c_str()); check(s, m, "making"); int nops = 1 + (int)g.size(40);
    for (int k = 0; k < nops; k++) {
        const char *w = ""; zpl_string before = s; std::string old = m; bool inner0 = m.find('\0') != std::string::npos; refused = 0; int op = (int)g.u(16); refuse = op <= 7 && g.u(25) == 24; zpl_string r = s;
        switch (op) {
            case 0: case 1: { w = "appendc"; std::string t = text(40); Exact e(t, true); g.note("appendc %s", esc(t).c_str()); r = zpl_string_appendc(s, e.c()); m += t; break; }
            case 2: { w = "append_length"; std::string t = g.boolean() ? g.bytes(g.size(40)) : text(40); Exact e(t); g.note("append_length %s", esc(t).c_str()); r = zpl_string_append_length(s, e.p, t.size()); m += t; break; }
            case 3: { w = "append"; std::string t = text(40); bool rf = refuse; refuse = false; zpl_string o = zpl_string_make_length(a, t.data(), t.size()); refuse = rf; g.note("append %s", esc(t).c_str()); r = zpl_string_append(s, o); check(o, t, "being appended to another"); zpl_string_free(o); m += t; break; }
            case 4: { w = "append_rune"; static const unsigned edge[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x110000}; unsigned c = g.boolean() ? edge[g.u(14)] : 1 + (unsigned)g.u(0x10ffff); g.note("append_rune U+%04X", c); r = zpl_string_append_rune(s, (zpl_rune)c); m += utf8(c); break; }
            case 5: { w = "append_fmt"; std::string t = text(30); int v = (int)g.i64any(); g.note("append_fmt %%s|%%d|%%x with %s, %d", esc(t).c_str(), v); r = zpl_string_append_fmt(s, "%s|%d|%x", t.c_str(), v, v); char b[200]; snprintf(b, sizeof b, "%s|%d|%x", t.c_str(), v, v); m += b; break; }
            case 6: { w = "set"; std::string t = text(60); Exact e(t, true); g.note("set %s", esc(t).c_str()); r = zpl_string_set(s, e.c()); cut |= t.size() < m.size(); m = t; break; }
            case 7: { w = "make_space_for"; size_t n = g.size(80); g.note("make_space_for %zu", n); r = zpl_string_make_space_for(s, n); if (r) REQUIRE(zpl_string_available_space(r) >= (zpl_isize)n, "make_space_for(%zu) leaves room for %ld", n, (long)zpl_string_available_space(r)); break; }
            case 8: { w = "clear"; if (g.u(3)) break; zpl_string_clear(s); cut |= !m.empty(); m.clear(); g.note("clear"); break; }
            case 9: { w = "trim"; if (inner0) break; std::string set = g.str(4, "ab \t,x"); Exact e(set, true); g.note("trim %s", esc(set).c_str()); r = zpl_string_trim(s, e.c()); size_t i = m.find_first_not_of(set), j = m.find_last_not_of(set); if (i == std::string::npos) m.clear(); else m = m.substr(i, j - i + 1); cut |= m.size() < old.size(); REQUIRE(r == s, "trim moved the string"); break; }
            case 10: { w = "trim_space"; if (inner0) break; g.note("trim_space"); r = zpl_string_trim_space(s); size_t i = m.find_first_not_of(" \t\r\n\v\f"), j = m.find_last_not_of(" \t\r\n\v\f"); if (i == std::string::npos) m.clear(); else m = m.substr(i, j - i + 1); cut |= m.size() < old.size(); break; }
            case 11: { w = "duplicate"; zpl_string d = zpl_string_duplicate(a, s); check(d, m, "duplicate (the copy)"); REQUIRE(zpl_string_are_equal(d, s) && zpl_string_are_equal(s, d), "the duplicate is not equal"); if (!m.empty()) { d[g.u(m.size())] ^= 1; REQUIRE(!zpl_string_are_equal(d, s), "strings with different contents are equal"); } zpl_string_free(d); break; }
            case 12: { w = "are_equal"; std::string t = g.boolean() ? m + std::string(1, 0) : m.substr(0, m.empty() ? 0 : m.size() - 1); zpl_string d = zpl_string_make_length(a, t.data(), t.size()); REQUIRE(!!zpl_string_are_equal(d, s) == (t == m) && !!zpl_string_are_equal(s, d) == (t == m), "are_equal of lengths %zu and %zu", t.size(), m.size()); zpl_string_free(d); break; }
            case 13: { w = "join"; size_t n = g.u(5); std::vector<std::string> ps; std::vector<const char *> pp; std::string glue = g.str(3, ", "), want; for (size_t i = 0; i < n; i++) ps.push_back(text(12)); for (auto &p : ps) pp.push_back(p.c_str()); for (size_t i = 0; i < n; i++) { want += ps[i]; if (i + 1 < n) want += glue; } zpl_string j = zpl_string_join(a, pp.data(), n, glue.c_str()); check(j, want, "join"); zpl_string_free(j); break; }
            case 14: { w = "sprintf"; std::string t = text(40); char buf[300]; zpl_string j = g.boolean() ? zpl_string_sprintf_buf(a, "<%s:%d>", t.c_str(), (int)t.size()) : zpl_string_sprintf(a, buf, sizeof buf, "<%s:%d>", t.c_str(), (int)t.size()); check(j, "<" + t + ":" + std::to_string(t.size()) + ">", "sprintf"); zpl_string_free(j); break; }
            default: { w = "writing through the string"; if (m.empty()) break; size_t i = g.u(m.size()); s[i] = m[i] = 'Q'; break; }
        }
        refuse = false;
        if (refused) { REQUIRE(!r, "%s gave a string though its allocation was refused", w); m = old; } else s = r;
        check(s, m, w); maxm = std::max(maxm, m.size()); moved |= s != before;
    }
    if (maxm >= 30 && moved && cut) g.nontrivial(); zpl_string_free(s); zpl_string_free(0);
}

// Functions that make a string in several steps, the allocator refusing one of them: nothing comes back and nothing stays behind.
PROPERTY(refusals, 200000, 3000000, "an allocation was refused") {
    zpl_allocator a; a.proc = flaky; a.data = 0; refuse = false; refused = 0; countdown = -1; size_t n = g.u(6); std::vector<std::string> ps; std::vector<const char *> pp; std::string glue = g.str(3, ", "), want; for (size_t i = 0; i < n; i++) ps.push_back(g.str(30, "ab ")); for (auto &p : ps) pp.push_back(p.c_str());
    for (size_t i = 0; i < n; i++) { want += ps[i]; if (i + 1 < n) want += glue; } int op = (int)g.u(5); zpl_string src = zpl_string_make_length(a, want.data(), (zpl_isize)want.size()), r = 0; long before = live; char buf[400]; int at = (int)g.u(op == 0 ? 12 : 2); countdown = at; g.note("operation %d, %s, allocation %d refused", op, esc(want).c_str(), at);
    switch (op) { case 0: r = zpl_string_join(a, pp.data(), (zpl_isize)n, glue.c_str()); break; case 1: r = zpl_string_duplicate(a, src); break; case 2: r = zpl_string_sprintf_buf(a, "%s", want.c_str()); break; case 3: r = zpl_string_sprintf(a, buf, sizeof buf, "%s", want.c_str()); break; default: r = zpl_string_make(a, want.c_str()); }
    countdown = -1; if (refused) { g.nontrivial(); REQUIRE(!r, "operation %d gave a string though an allocation was refused", op); } else { check(r, want, "the operation"); zpl_string_free(r); }
    REQUIRE(live == before, "%ld blocks stayed allocated", live - before); check(src, want, "an operation elsewhere"); zpl_string_free(src);
}

// Formatted text of any length is appended whole; when there is no memory for it the string stays as it was.
PROPERTY(long_format, 1500, 40000, "at least 65534 characters were formatted") {
    zpl_allocator a; a.proc = flaky; a.data = 0; refuse = false; refused = 0; countdown = -1; long before = live; std::string m = g.str(20, "ab "); zpl_string s = zpl_string_make(a, m.c_str()); size_t n = 1 + g.u(3); bool big = false;
    for (size_t i = 0; i < n; i++) { size_t len = g.u(4) ? 65520 + g.u(30) : g.u(4) ? 65000 + g.u(3000) : 60000 + g.u(200000); std::string t(len, (char)('a' + g.u(26))); int v = (int)g.i64any(), w = (int)g.u(3); char b[40]; snprintf(b, sizeof b, "|%d", v); std::string add = w == 0 ? t : w == 1 ? t + b : std::string(len, ' ') + b; bool no = g.u(6) == 5; refuse = no; refused = 0;
        g.note("append %zu characters%s", add.size(), no ? ", refused" : ""); zpl_string r = w == 0 ? zpl_string_append_fmt(s, "%s", t.c_str()) : w == 1 ? zpl_string_append_fmt(s, "%s|%d", t.c_str(), v) : zpl_string_append_fmt(s, "%*s|%d", (int)len, "", v); refuse = false; big |= add.size() >= 65534;
        if (refused) REQUIRE(!r, "append_fmt gave a string though its allocation was refused"); else { REQUIRE(r, "append_fmt gave no string"); s = r; m += add; } REQUIRE(zpl_string_length(s) == (zpl_isize)m.size(), "length is %ld, expected %zu", (long)zpl_string_length(s), m.size()); REQUIRE(!memcmp(s, m.c_str(), m.size() + 1), "the contents differ"); REQUIRE(zpl_string_capacity(s) >= zpl_string_length(s), "capacity below length"); }
    if (big) g.nontrivial(); zpl_string_free(s); REQUIRE(live == before, "%ld blocks stayed allocated", live - before);
}
