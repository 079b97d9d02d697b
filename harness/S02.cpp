// S02: C-string helpers
#include "zh.hpp"
static int sgn(int v) { return (v > 0) - (v < 0); }
static std::string any_str(Gen &g, size_t maxl) {                      // no inner NULs; small alphabets so that matches happen
    switch (g.u(5)) { case 0: return g.str(maxl, "ab"); case 1: return g.str(maxl, "aAbBzZ09 \t\n\r\v\f"); case 2: return g.str(maxl, "abc,;/\\\"'"); case 3: return g.str(maxl, "\x80\xff\x7f" "a\xe9Z");
        default: { size_t l = g.size(maxl); std::string s; for (size_t i = 0; i < l; i++) s += (char)(1 + g.u(255)); return s; } }
}
static char any_char(Gen &g, const std::string &s) { if (!s.empty() && g.u(3)) return s[g.u(s.size())]; return (char)g.u(256); }
PROPERTY(characters, 60000, 1200000, "always (one character, all 256 reachable)") {
    unsigned char b = (unsigned char)g.u(256); char c = (char)b; g.note("character 0x%02x", b); g.nontrivial();
    bool up = b >= 'A' && b <= 'Z', lo = b >= 'a' && b <= 'z', dg = b >= '0' && b <= '9'; int hx = dg ? b - '0' : b >= 'a' && b <= 'f' ? b - 'a' + 10 : b >= 'A' && b <= 'F' ? b - 'A' + 10 : -1;
    REQUIRE((unsigned char)zpl_char_to_lower(c) == (up ? b + 32 : b), "to_lower gives 0x%02x", (unsigned char)zpl_char_to_lower(c)); REQUIRE((unsigned char)zpl_char_to_upper(c) == (lo ? b - 32 : b), "to_upper gives 0x%02x", (unsigned char)zpl_char_to_upper(c));
    REQUIRE(!!zpl_char_is_space(c) == (b == ' ' || (b >= 9 && b <= 13)), "is_space"); REQUIRE(!!zpl_char_is_digit(c) == dg, "is_digit"); REQUIRE(!!zpl_char_is_hex_digit(c) == (hx >= 0), "is_hex_digit");
    REQUIRE(!!zpl_char_is_alpha(c) == (up || lo), "is_alpha"); REQUIRE(!!zpl_char_is_alphanumeric(c) == (up || lo || dg), "is_alphanumeric");
    REQUIRE(zpl_hex_digit_to_int(c) == hx, "hex_digit_to_int gives %d", zpl_hex_digit_to_int(c)); if (dg) REQUIRE(zpl_digit_to_int(c) == b - '0', "digit_to_int gives %d", zpl_digit_to_int(c));
    REQUIRE(zpl_char_to_hex_digit(c) == (hx < 0 ? 0 : hx), "char_to_hex_digit gives %d", zpl_char_to_hex_digit(c));
    if (b) REQUIRE(!!zpl_char_is_control(c) == !!strchr("\"\\/bfnrt", b), "is_control");
}
PROPERTY(compare, 500000, 8000000, "both strings non-empty and sharing a first character") {
    std::string a = any_str(g, 60), b; switch (g.u(4)) { case 0: b = any_str(g, 60); break; case 1: b = a; break; case 2: b = a.substr(0, g.u(a.size() + 1)) + any_str(g, 6); break; default: b = a; if (!b.empty()) b[g.u(b.size())] = (char)(1 + g.u(255)); }
    if (g.boolean()) std::swap(a, b); Exact x(a, true), y(b, true); g.note("a = %s", esc(a).c_str()); g.note("b = %s", esc(b).c_str()); if (!a.empty() && !b.empty() && a[0] == b[0]) g.nontrivial();
    REQUIRE(zpl_strlen(x.c()) == (zpl_isize)a.size(), "strlen = %ld", (long)zpl_strlen(x.c())); REQUIRE(zpl_strlen(0) == 0, "strlen of nothing");
    int w = sgn(strcmp(a.c_str(), b.c_str())), r = zpl_strcmp(x.c(), y.c()); REQUIRE(sgn(r) == w, "strcmp = %d, expected sign %d", r, w);
    size_t n = g.u(4) ? g.size(70) : std::min(a.size(), b.size()) + g.u(2); int wn = sgn(strncmp(a.c_str(), b.c_str(), n)); r = zpl_strncmp(x.c(), y.c(), n); REQUIRE(sgn(r) == wn, "strncmp(%zu) = %d, expected sign %d", n, r, wn); REQUIRE(sgn(zpl_strncmp(y.c(), x.c(), n)) == -wn, "strncmp is not antisymmetric");
    if (n <= a.size()) { Exact e(a.substr(0, n)); REQUIRE(zpl_strnlen(e.c(), n) == (zpl_isize)n, "strnlen of %zu bytes without a terminator = %ld", n, (long)zpl_strnlen(e.c(), n)); }
    { std::string pad = a + std::string(1, 0) + g.bytes(g.size(20)); Exact e(pad); size_t m = g.u(pad.size() + 1); REQUIRE(zpl_strnlen(e.c(), m) == (zpl_isize)std::min(m, a.size()), "strnlen(%zu) of a string of %zu = %ld", m, a.size(), (long)zpl_strnlen(e.c(), m)); }
    REQUIRE(!!zpl_str_has_prefix(x.c(), y.c()) == (a.compare(0, b.size(), b) == 0 && a.size() >= b.size()), "has_prefix"); REQUIRE(!!zpl_str_has_suffix(x.c(), y.c()) == (a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0), "has_suffix");
}
PROPERTY(search, 400000, 6000000, "the character occurs at least twice") {
    std::string a = any_str(g, 60); char c = any_char(g, a); Exact x(a, true); g.note("string %s, character 0x%02x", esc(a).c_str(), (unsigned char)c); if (c && std::count(a.begin(), a.end(), c) >= 2) g.nontrivial();
    const char *f = strchr(a.c_str(), c), *l = strrchr(a.c_str(), c); auto off = [&](const char *p) -> long { return p ? (long)(p - x.c()) : -1; };
    REQUIRE(off(zpl_char_first_occurence(x.c(), c)) == (f ? f - a.c_str() : -1), "first occurrence at %ld", off(zpl_char_first_occurence(x.c(), c))); REQUIRE(off(zpl_char_last_occurence(x.c(), c)) == (l ? l - a.c_str() : -1), "last occurrence at %ld", off(zpl_char_last_occurence(x.c(), c)));
    size_t sk = c ? std::min(a.find(c), a.size()) : a.size(); REQUIRE(off(zpl_str_skip(x.c(), c)) == (long)sk, "skip stops at %ld, expected %zu", off(zpl_str_skip(x.c(), c)), sk);
    std::string set = any_str(g, 4); Exact ss(set, true); size_t sa = std::min(a.find_first_of(set), a.size()); REQUIRE(off(zpl_str_skip_any(x.c(), ss.c())) == (long)sa, "skip_any(%s) stops at %ld, expected %zu", esc(set).c_str(), off(zpl_str_skip_any(x.c(), ss.c())), sa);
    for (int nl = 0; nl < 2; nl++) { size_t i = 0; while (i < a.size() && (a[i] == ' ' || (a[i] >= 9 && a[i] <= 13)) && !(nl && a[i] == '\n')) i++; REQUIRE(off(zpl_str_trim(x.c(), nl)) == (long)i, "trim(%d) stops at %ld, expected %zu", nl, off(zpl_str_trim(x.c(), nl)), i); }
    if (c != '\\') {                                                   // delimiters may be escaped with a backslash
        size_t i = 0; while (i < a.size() && a[i] != c) { if (a[i] == '\\' && i + 1 < a.size()) i++; i++; } REQUIRE(off(zpl_str_skip_literal(x.c(), c)) == (long)i, "skip_literal stops at %ld, expected %zu", off(zpl_str_skip_literal(x.c(), c)), i);
        size_t j = i; if (!c || !strchr("\"\\/bfnrt", c)) j = sk; if (c) REQUIRE(off(zpl_str_control_skip(x.c(), c)) == (long)j, "control_skip stops at %ld, expected %zu", off(zpl_str_control_skip(x.c(), c)), j);
        REQUIRE(off(zpl_str_control_skip(x.c(), 0)) == (long)a.size(), "control_skip to the end stops at %ld of %zu", off(zpl_str_control_skip(x.c(), 0)), a.size());
    }
}
PROPERTY(copy, 400000, 6000000, "source of at least 2 characters and a bounded copy that truncates it") {
    std::string a = any_str(g, 60), b = any_str(g, 20); Exact x(a, true), y(b, true); g.note("a = %s, b = %s", esc(a).c_str(), esc(b).c_str());
    { Exact d(a.size() + 1, 0x55); REQUIRE(zpl_strcpy(d.c(), x.c()) == d.c(), "strcpy return"); REQUIRE(!memcmp(d.p, a.c_str(), a.size() + 1), "strcpy gives %s", esc(d.p, a.size() + 1).c_str()); }
    { Exact d(a.size() + b.size() + 1, 0x55); memcpy(d.p, b.c_str(), b.size() + 1); REQUIRE(zpl_strcat(d.c(), x.c()) == d.c(), "strcat return"); std::string w = b + a; REQUIRE(!memcmp(d.p, w.c_str(), w.size() + 1), "strcat gives %s", esc(d.p, w.size() + 1).c_str()); }
    { size_t n = g.boolean() ? g.u(a.size() + 4) : g.size(70); Exact d(n, 0x55); REQUIRE(zpl_strncpy(d.c(), x.c(), n) == d.c(), "strncpy return"); std::string w(n, 0); strncpy(&w[0], a.c_str(), n); REQUIRE(!memcmp(d.p, w.data(), n), "strncpy(%zu) gives %s", n, esc(d.p, n).c_str()); if (n < a.size() && a.size() >= 2) g.nontrivial();
      if (n) { Exact e(n, 0x55); zpl_isize r = zpl_strlcpy(e.c(), x.c(), n); std::string v = a.substr(0, n - 1); REQUIRE(memchr(e.p, 0, n), "strlcpy(%zu) left the destination unterminated", n); REQUIRE(v == e.c(), "strlcpy(%zu) gives %s", n, esc(e.c(), strlen(e.c())).c_str()); REQUIRE(r == (zpl_isize)v.size() || r == (zpl_isize)a.size(), "strlcpy(%zu) of %zu characters returns %ld", n, a.size(), (long)r); } }
    { size_t n = g.boolean() ? g.u(a.size() + 4) : g.size(70); char *d = zpl_strdup(zpl_heap_allocator(), x.c(), n); std::string w = a.substr(0, n); REQUIRE(d && !memcmp(d, w.c_str(), w.size() + 1), "strdup(max %zu) gives %s", n, esc(d, w.size() + 1).c_str()); zpl_free(zpl_heap_allocator(), d); }
    { size_t la = g.u(a.size() + 1), lb = g.u(b.size() + 1); Exact d(la + lb + 1, 0x55), xa(a.substr(0, la)), yb(b.substr(0, lb)); zpl_str_concat(d.c(), la + lb + 1, xa.c(), la, yb.c(), lb); std::string w = a.substr(0, la) + b.substr(0, lb); REQUIRE(!memcmp(d.p, w.c_str(), w.size() + 1), "concat gives %s", esc(d.p, w.size() + 1).c_str()); }
    { Exact d(a, true); zpl_str_to_lower(d.c()); std::string w = a; for (auto &c : w) if (c >= 'A' && c <= 'Z') c += 32; REQUIRE(w == d.c(), "to_lower gives %s", esc(d.p, a.size()).c_str()); }
    { Exact d(a, true); zpl_str_to_upper(d.c()); std::string w = a; for (auto &c : w) if (c >= 'a' && c <= 'z') c -= 32; REQUIRE(w == d.c(), "to_upper gives %s", esc(d.p, a.size()).c_str()); }
    { Exact d(a, true); REQUIRE(zpl_strrev(d.c()) == d.c(), "strrev return"); std::string w(a.rbegin(), a.rend()); REQUIRE(!memcmp(d.p, w.c_str(), w.size() + 1), "strrev gives %s", esc(d.p, a.size() + 1).c_str()); }
}
PROPERTY(split, 400000, 6000000, "at least 3 tokens or lines") {
    {   std::string a = g.boolean() ? g.str(60, "abc, ;") : any_str(g, 60), del = any_str(g, 3); Exact x(a, true), dl(del, true); std::vector<std::string> got, want; g.note("tokens of %s by %s", esc(a).c_str(), esc(del).c_str());
        { size_t i = 0; while (i < a.size()) { size_t j = std::min(a.find_first_of(del, i), a.size()); want.push_back(a.substr(i, j - i)); i = j + 1; } }
        const char *s = x.c(); size_t guard = 0; while (*s) { size_t rest = strlen(s); size_t toklen = std::min(std::string(s).find_first_of(del), rest); Exact out(toklen + 1, 0x55); s = zpl_strtok(out.c(), s, dl.c()); REQUIRE(memchr(out.p, 0, toklen + 1), "token not terminated"); got.push_back(out.c()); REQUIRE(++guard <= a.size() + 1, "strtok does not advance"); }
        REQUIRE(got == want, "strtok gives %zu tokens, expected %zu", got.size(), want.size()); if (want.size() >= 3) g.nontrivial();
        size_t cap = 2 + g.size(12); got.clear(); s = x.c(); guard = 0; std::string cur; while (*s) { Exact out(cap, 0x55); const char *n = zpl_strntok(out.c(), cap, s, dl.c()); REQUIRE(memchr(out.p, 0, cap), "strntok(%zu) left the token unterminated", cap);
            REQUIRE(n > s && n <= x.c() + a.size(), "strntok(%zu) does not advance within the text", cap); cur += out.c(); if (n > s && del.find(n[-1]) != std::string::npos && (size_t)(n - s) == strlen(out.c()) + 1) { got.push_back(cur); cur.clear(); } else if (!*n) { got.push_back(cur); cur.clear(); } s = n; REQUIRE(++guard <= a.size() + 1, "strntok loops"); }
        REQUIRE(got == want, "strntok(%zu) pieces join to %zu tokens, expected %zu", cap, got.size(), want.size()); }
    {   std::string a = g.u(4) ? g.str(80, "ab \n\n\r") : any_str(g, 60); bool strip = g.boolean(); Exact x(a, true); g.note("lines of %s, strip %d", esc(a).c_str(), strip); std::vector<std::string> want; size_t i = 0;
        while (i < a.size()) { size_t j = std::min(a.find('\n', i), a.size()); std::string l = a.substr(i, j - i); if (!l.empty() && l.back() == '\r') l.pop_back(); if (!strip || !l.empty()) want.push_back(l); i = j + 1; }
        char **lines = zpl_str_split_lines(zpl_heap_allocator(), x.c(), strip); REQUIRE(zpl_array_count(lines) == (zpl_isize)want.size(), "%ld lines, expected %zu", (long)zpl_array_count(lines), want.size());
        for (size_t k = 0; k < want.size(); k++) REQUIRE(want[k] == lines[k], "line %zu is %s, expected %s", k, esc(lines[k], strlen(lines[k])).c_str(), esc(want[k]).c_str()); if (want.size() >= 3) g.nontrivial(); zpl_array_free(lines); }
}
