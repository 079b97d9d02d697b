// E01: regular expressions match what their definition says
// @fuzz-quick 10
// @fuzz-thorough 240
#include "treelib.hpp"
#include <bitset>
// ---- reference: syntax tree, parser of the documented notation, and backtracking by definition
struct Alt; struct Item { int kind = 0; /* 0 one byte of a set, 1 capture, 2 start, 3 end */ std::bitset<256> set; int min = 1, max = 1; bool lazy = false; int cap = 0; std::shared_ptr<Alt> sub; };
typedef std::vector<Item> Seq; struct Alt { std::vector<Seq> alts; };
static bool in_class(char k, unsigned char c) {
    switch (k) { case 's': return c && strchr(" \r\t\n\v\f", c); case 'S': return !in_class('s', c); case 'd': return c >= '0' && c <= '9'; case 'D': return !in_class('d', c); case 'a': return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); case 'l': return c >= 'a' && c <= 'z'; case 'u': return c >= 'A' && c <= 'Z';
        case 'w': return in_class('a', c) || in_class('d', c) || c == '_'; case 'W': return !in_class('w', c); case 'x': return in_class('d', c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); case 'p': return c >= 0x20 && c <= 0x7e; case '0': return c == 0; } return false;
}
static bool hexd(char c) { return in_class('x', (unsigned char)c); }
static int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
struct Parser {
    const std::string &p; size_t i = 0; int caps = 0, quants = 0; bool bad = false; Parser(const std::string &s) : p(s) {}
    std::bitset<256> escape() {                                             // behind the backslash, which is not the last byte
        std::bitset<256> r; if (i + 1 < p.size() && hexd(p[i]) && hexd(p[i + 1])) { r.set((size_t)(hexv(p[i]) * 16 + hexv(p[i + 1]))); i += 2; return r; }
        char k = p[i++]; if (k && strchr("sSdDaluwWxp0", k)) { for (int c = 0; c < 256; c++) if (in_class(k, (unsigned char)c)) r.set((size_t)c); return r; }
        const char *from = "tnrfv", *to = "\t\n\r\f\v"; if (k && strchr(from, k)) k = to[strchr(from, k) - from]; r.set((unsigned char)k); return r;
    }
    Alt parse(int level) {
        Alt a; a.alts.emplace_back(); bool quantifiable = false;
        while (i < p.size() && !bad) {
            char c = p[i++]; Item it; Seq &seq = a.alts.back();
            if (c == '^' || c == '$') { it.kind = c == '^' ? 2 : 3; seq.push_back(it); quantifiable = false; }
            else if (c == '(') { it.kind = 1; it.cap = caps++; it.sub = std::make_shared<Alt>(parse(level + 1)); if (bad) return a; seq.push_back(it); quantifiable = false; }
            else if (c == ')') { if (!level) bad = true; return a; }
            else if (c == ']') bad = true;
            else if (c == '|') { if (a.alts.size() == 1 && seq.empty()) bad = true; a.alts.emplace_back(); quantifiable = false; }
            else if (c == '*' || c == '+' || c == '?') { if (!quantifiable) { bad = true; return a; } quants++; Item &l = seq.back(); l.min = c == '+'; l.max = c == '?' ? 1 : 1 << 30; if (c != '?' && i < p.size() && p[i] == '?') { l.lazy = true; i++; } quantifiable = false; }
            else if (c == '.') { it.set.set(); seq.push_back(it); quantifiable = true; }
            else if (c == '\\') { if (i >= p.size()) break; it.set = escape(); seq.push_back(it); quantifiable = true; }
            else if (c == '[') { bool neg = i < p.size() && p[i] == '^', closed = false; if (neg) i++; while (i < p.size()) { if (p[i] == ']') { i++; closed = true; break; } if (p[i] == '\\') { i++; if (i >= p.size()) break; it.set |= escape(); } else it.set.set((unsigned char)p[i++]); } if (!closed) { bad = true; return a; } if (neg) it.set.flip(); seq.push_back(it); quantifiable = true; }
            else { it.set.set((unsigned char)c); seq.push_back(it); quantifiable = true; }
        }
        if (level) bad = true; return a;
    }
};
struct Matcher {
    const std::string &t; std::vector<std::pair<long, long>> cap; long steps = 0; typedef std::function<bool(long)> K; Matcher(const std::string &s, int n) : t(s), cap((size_t)n, {-1, -1}) {}
    bool alt(const Alt &a, long at, const K &k) { for (auto &s : a.alts) if (seq(s, 0, at, k)) return true; return false; }
    bool seq(const Seq &s, size_t i, long at, const K &k) {
        if (++steps > 2000000) throw Discard(); if (i == s.size()) return k(at); const Item &it = s[i];
        if (it.kind == 2) return at == 0 && seq(s, i + 1, at, k);
        if (it.kind == 3) return at == (long)t.size() && seq(s, i + 1, at, k);
        if (it.kind == 1) { auto &c = cap[(size_t)it.cap]; auto old = c; if (alt(*it.sub, at, [&](long e) { auto o = c; c = {at, e}; if (seq(s, i + 1, e, k)) return true; c = o; return false; })) return true; c = old; return false; }
        long n = 0; while (n < it.max && at + n < (long)t.size() && it.set[(unsigned char)t[(size_t)(at + n)]]) n++;
        if (it.lazy) { for (long r = it.min; r <= n; r++) if (seq(s, i + 1, at + r, k)) return true; } else for (long r = n; r >= it.min; r--) if (seq(s, i + 1, at + r, k)) return true; return false;
    }
    bool find(const Alt &a, long &start, long &end) { for (long s = 0; s <= (long)t.size(); s++) if (alt(a, s, [&](long e) { end = e; return true; })) { start = s; return true; } return false; }
};
// ---- generators
static std::string gen_char(Gen &g, bool set) {
    if (g.u(5)) return std::string(1, g.pickc("aab01B_ \n-")); if (g.boolean()) { char b[8]; snprintf(b, sizeof b, g.boolean() ? "\\%02x" : "\\%02X", (unsigned)(g.u(3) ? (unsigned)g.pickc("ab0(") : g.u(256))); return b; }
    switch (g.u(3)) { case 0: return std::string("\\") + g.pickc("sSdDaluwWxp"); case 1: return std::string("\\") + g.pickc(set ? "\\]^[" : "^$()[].*+?|\\"); default: return std::string("\\") + g.pickc("tnrvf"); }
}
static void piece(std::string &o, const std::string &x) { if (o.size() >= 2 && x.size() && hexd(x[0]) && hexd(o.back()) && o[o.size() - 2] == '\\') { char b[8]; snprintf(b, sizeof b, "\\%02x", (unsigned char)x[0]); o += b; o += x.substr(1); } else o += x; }
static void gen_alt(Gen &g, std::string &o, int depth, int &quants) {
    size_t alts = g.u(3) ? 1 : 1 + g.u(4);
    for (size_t a = 0; a < alts; a++) {
        if (a) o += "|"; size_t n = a ? g.u(4) : 1 + g.u(4); if (depth == 0) n += g.u(3);
        for (size_t k = 0; k < n; k++) switch (g.u(12)) {
            case 0: if (depth < 3) { o += "("; gen_alt(g, o, depth + 1, quants); o += ")"; break; } /* fallthrough */
            case 1: if (depth < 3) { o += "("; gen_alt(g, o, 3, quants); o += ")"; } else o += "b"; break;
            case 2: o += g.u(4) ? (k == 0 ? "^" : "$") : g.boolean() ? "$" : "^"; break;
            default: { std::string x; if (g.u(4) == 0) { x = "["; if (g.u(3) == 0) x += "^"; for (size_t c = g.u(5); c--;) { std::string e = gen_char(g, true); if (e == "^" && x.size() == 1) e = "a"; piece(x, e); } x += "]"; } else if (g.u(8) == 0) x = "."; else x = gen_char(g, false); piece(o, x); if (quants < 5 && g.u(3) == 0) { quants++; o += g.pickc("*+?"); if (o.back() != '?' && g.u(3) == 0) o += "?"; } } }
    }
}
static std::string sample(Gen &g, const Alt &a) { std::string o; auto &s = a.alts[g.u(a.alts.size())]; for (auto &it : s) { if (it.kind == 1) o += sample(g, *it.sub); if (it.kind) continue; if (it.set.none()) continue; long n = it.max > 1 ? it.min + (long)g.u(4) : it.min + (long)g.u((u64)(it.max - it.min) + 1); for (long k = 0; k < n; k++) { unsigned c = (unsigned)g.u(256); static const char pref[] = "ab01B _-\n"; unsigned p = (unsigned char)pref[g.u(9)]; if (it.set[p]) c = p; while (!it.set[c & 255]) c++; o += (char)c; } } return o; }
static std::string gen_text(Gen &g, const Alt *a, int quants) {
    size_t limit = quants >= 5 ? 8 : quants >= 4 ? 11 : 16; std::string t; if (a && g.u(4)) { for (u64 k = g.u(3); k--;) t += g.pickc("ab01B _"); t += sample(g, *a); for (u64 k = g.u(3); k--;) t += g.pickc("ab01B _"); if (t.size() && g.u(3) == 0) t[g.u(t.size())] = g.pickc("ab01Bx _\n-/9:@AZ[`z{~\x7f\x1f\t\r\x0e"); if (t.size() && g.u(4) == 0) t.erase(g.u(t.size()), 1); } else t = g.str(limit, std::string("aaab01B_ \n-\0\x80\xff", 14));
    if (t.size() > limit) t.resize(limit); return t;
}
static void compare(Gen &g, zpl_re &re, const Alt &a, int caps, const std::string &t) {
    Exact x(t); long start = -1, end = -1; Matcher m(t, caps); bool want = m.find(a, start, end); g.note("on %s: %s [%ld, %ld)", esc(t).c_str(), want ? "match" : "no match", start, end);
    size_t room = g.u(4) ? (size_t)caps : g.u((u64)caps + 1); Exact cb(room * sizeof(zpl_re_capture), 0); zpl_re_capture *cap = (zpl_re_capture *)cb.p; zpl_isize off = -77; zpl_b32 got = zpl_re_match(&re, (char *)x.p, (zpl_isize)x.n, cap, (zpl_isize)room, &off);
    REQUIRE(!got == !want, "the text %s is reported to %smatch", esc(t).c_str(), got ? "" : "not "); zpl_isize off2 = -77; REQUIRE(!zpl_re_match(&re, (char *)x.p, (zpl_isize)x.n, nullptr, 0, &off2) == !want && (!want || off2 == off), "without captures the result differs"); if (!want) return;
    REQUIRE(off == end, "the match is reported to end at %ld, expected %ld", (long)off, end);
    for (size_t k = 0; k < room; k++) { if (m.cap[k].first < 0) continue; REQUIRE(cap[k].str == (char *)x.p + m.cap[k].first && cap[k].len == m.cap[k].second - m.cap[k].first, "capture %zu is [%ld, +%ld), expected [%ld, +%ld)", k, (long)(cap[k].str - (char *)x.p), (long)cap[k].len, m.cap[k].first, m.cap[k].second - m.cap[k].first); }
}
PROPERTY(matching, 250000, 6000000, "an expression with a quantifier, alternation or capture, on a text it matches") {
    std::string p; int quants = 0; gen_alt(g, p, 0, quants); Parser ps(p); Alt a = ps.parse(0); g.note("/%s/", esc(p).c_str()); if (ps.bad || p.size() > 120) throw Discard();
    Meter m; zpl_re re; memset(&re, 0xa5, sizeof re); Exact e(p); zpl_regex_error err = zpl_re_compile(&re, meter_allocator(m), (char *)e.p, (zpl_isize)e.n); REQUIRE(err == ZPL_RE_ERROR_NONE, "/%s/ does not compile: error %d", esc(p).c_str(), (int)err); REQUIRE(zpl_re_capture_count(&re) == ps.caps, "%ld captures counted, expected %d", (long)zpl_re_capture_count(&re), ps.caps);
    bool any = false; for (u64 k = 1 + g.u(3); k--;) { std::string t = gen_text(g, &a, quants); Matcher mt(t, ps.caps); long s, n; any |= mt.find(a, s, n); compare(g, re, a, ps.caps, t); }
    if (g.u(4) == 0) { size_t need = (size_t)re.buf_len, have = g.boolean() ? need : g.u(need + 3); Exact b(have, 0xa5); zpl_re r2; memset(&r2, 0xa5, sizeof r2); zpl_regex_error e2 = zpl_re_compile_from_buffer(&r2, (char *)e.p, (zpl_isize)e.n, b.p, (zpl_isize)have); if (have >= need + 2) REQUIRE(e2 == ZPL_RE_ERROR_NONE, "a buffer of %zu bytes, %zu needed, does not suffice", have, need); if (e2 == ZPL_RE_ERROR_NONE) { compare(g, r2, a, ps.caps, gen_text(g, &a, quants)); zpl_re_destroy(&r2); } else REQUIRE(e2 == ZPL_RE_ERROR_TOO_LONG, "a short buffer is reported as error %d", (int)e2); }
    zpl_re_destroy(&re); REQUIRE(m.live == 0, "%ld blocks leak", m.live); if (any && (quants || ps.caps || p.find('|') != std::string::npos)) g.nontrivial();
}
PROPERTY(any_expression, 250000, 6000000, "an expression of at least 4 bytes with a bracket, quantifier or escape") {
    std::string p; if (g.boolean()) p = g.str(14, std::string("ab0d^$()[].*+?|\\\\]|)(\0\xff", 24)); else { int q = 0; gen_alt(g, p, 0, q); for (u64 k = 1 + g.u(3); k-- && p.size();) { size_t at = g.u(p.size()); switch (g.u(4)) { case 0: p.erase(at, 1); break; case 1: p[at] = g.pickc("()[]|\\*+?^$."); break; case 2: p.insert(at, 1, g.pickc("()[]|\\*+?^$.")); break; default: p.resize(at); } } } if (p.size() > 120) p.resize(120);
    Parser ps(p); Alt a = ps.parse(0); g.note("/%s/ %s", esc(p).c_str(), ps.bad ? "malformed" : "well-formed"); size_t q = 0; for (char c : p) q += c == '*' || c == '+' || c == '?'; if (q > 6) throw Discard();
    Meter m; zpl_re re; memset(&re, 0xa5, sizeof re); Exact e(p); zpl_regex_error err = zpl_re_compile(&re, meter_allocator(m), (char *)e.p, (zpl_isize)e.n); REQUIRE((err != ZPL_RE_ERROR_NONE) == ps.bad, "/%s/ is %s", esc(p).c_str(), err ? "refused" : "accepted");
    if (!err) { compare(g, re, a, ps.caps, gen_text(g, g.boolean() ? &a : nullptr, (int)q)); zpl_re_destroy(&re); } REQUIRE(m.live == 0, "%ld blocks leak", m.live); if (p.size() >= 4 && p.find_first_of("()[]\\*+?|") != std::string::npos) g.nontrivial();
}
PROPERTY(every_byte, 8000, 200000, "a set or class with at least 2 and at most 254 members") {
    // one piece of notation against each of the 256 bytes
    std::string p = "^", x; if (g.boolean()) { x = "["; if (g.u(3) == 0) x += "^"; for (size_t c = 1 + g.u(4); c--;) { std::string e = gen_char(g, true); if (e == "^" && x.size() == 1) e = "a"; piece(x, e); } x += "]"; } else x = g.u(8) ? gen_char(g, false) : "."; p += x; bool tail = g.boolean(); if (tail) piece(p, "$"); g.note("/%s/", esc(p).c_str());
    Parser ps(p); Alt a = ps.parse(0); if (ps.bad) throw Discard(); zpl_re re; Exact e(p); REQUIRE(!zpl_re_compile(&re, zpl_heap(), (char *)e.p, (zpl_isize)e.n), "/%s/ does not compile", esc(p).c_str());
    size_t members = 0; for (int c = 0; c < 256; c++) { std::string t(1, (char)c); Exact b(t); Matcher m(t, ps.caps); long s, n; bool want = m.find(a, s, n); members += want; zpl_isize off = -77; zpl_b32 got = zpl_re_match(&re, (char *)b.p, 1, nullptr, 0, &off); REQUIRE(!got == !want, "byte 0x%02x is reported to %smatch", c, got ? "" : "not "); } zpl_re_destroy(&re); if (members >= 2 && members <= 254) g.nontrivial();
}
PROPERTY(long_expression, 20000, 400000, "an expression of more than 120 bytes that compiles") {
    // lengths around the limits of the byte code: literals, sets, branches and captures
    std::string p, t; int kind = (int)g.u(5); size_t n = g.boolean() ? 120 + g.u(20) : 235 + g.u(45); switch (kind) { case 0: for (size_t k = 0; k < n; k++) p += (char)('a' + (k * 7 + k / 26) % 26); t = p; if (g.boolean()) p += "+", t += t.back(); break; case 1: p = "[" + std::string(n - 1, 'a') + "z]+"; t = "xazzay"; break; case 2: for (size_t k = 0; k < n; k++) p += "a"; t = p; p += "|b"; if (g.boolean()) t = "b"; break; case 3: p = "c|"; for (size_t k = 0; k < n; k++) p += "."; t = std::string(g.boolean() ? n : n - 1, 'x'); break; default: n = g.u(2) ? n : n / 4; for (size_t k = 0; k < n; k++) p += "(a)", t += "a"; }
    g.note("kind %d, %zu", kind, n); Parser ps(p); Alt a = ps.parse(0); zpl_re re; Meter m; Exact e(p); zpl_regex_error err = zpl_re_compile(&re, meter_allocator(m), (char *)e.p, (zpl_isize)e.n); if (err) { REQUIRE(err == ZPL_RE_ERROR_TOO_LONG && n >= 60, "refused with error %d", (int)err); } else { compare(g, re, a, ps.caps, t); zpl_re_destroy(&re); if (p.size() > 120) g.nontrivial(); } REQUIRE(m.live == 0, "%ld blocks leak", m.live);
}
PROPERTY(match_all, 120000, 3000000, "at least 2 matches") {
    std::string p; int quants = 0; gen_alt(g, p, 1, quants); if (g.u(4)) p = "(" + p + ")"; Parser ps(p); Alt a = ps.parse(0); if (ps.bad || p.size() > 120 || p.find('^') != std::string::npos) throw Discard();
    zpl_re re; if (zpl_re_compile(&re, zpl_heap(), p.c_str(), (zpl_isize)p.size())) throw Fail{"does not compile"}; std::string t = gen_text(g, &a, quants); for (u64 k = g.u(5); k--;) t += sample(g, a); t.resize(std::min<size_t>(t.size(), quants >= 4 ? 11 : 18)); Exact x(t); g.note("/%s/ on %s", esc(p).c_str(), esc(t).c_str());
    size_t room = (size_t)ps.caps; zpl_re_capture *out; zpl_array_init(out, zpl_heap()); zpl_re_match_all(&re, (char *)x.p, (zpl_isize)x.n, (zpl_isize)room, &out); size_t at = 0, found = 0;
    while (at < t.size()) { std::string rest = t.substr(at); Matcher m(rest, ps.caps); long s, e; if (!m.find(a, s, e)) break; REQUIRE((size_t)zpl_array_count(out) >= (found + 1) * room, "only %ld captures, at least %zu matches of %zu expected", (long)zpl_array_count(out), found + 1, room); for (size_t k = 0; k < room; k++) if (m.cap[k].first >= 0) { auto &c = out[found * room + k]; REQUIRE(c.str == (char *)x.p + at + m.cap[k].first && c.len == m.cap[k].second - m.cap[k].first, "match %zu, capture %zu is [%ld, +%ld), expected [%ld, +%ld)", found, k, (long)(c.str - (char *)x.p), (long)c.len, (long)at + m.cap[k].first, m.cap[k].second - m.cap[k].first); } found++; at += e > 0 ? (size_t)e : 1; }
    REQUIRE((size_t)zpl_array_count(out) == found * room, "%ld captures, expected %zu matches of %zu", (long)zpl_array_count(out), found, room); zpl_array_free(out); zpl_re_destroy(&re); if (found >= 2 && room) g.nontrivial();
}
