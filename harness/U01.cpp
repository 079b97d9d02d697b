// U01: URI parsing and writing are inverse and safe on any text
// @fuzz-quick 6
// @fuzz-thorough 240
#include "treelib.hpp"
#include <deque>
struct P { std::string name; int kind; std::string s; Lit l; };              // kind 0: no value, 1: text, 2: number
static bool numberish(const std::string &s) { size_t i = s.find_first_not_of("+-"); return i != s.npos && (isdigit((unsigned char)s[i]) || s[i] == '.'); }
static std::string enc(Gen &g, const std::string &s) {                        // any valid encoding of the text
    std::string r; for (unsigned char c : s) { char b[4]; bool must = c == '&' || c == '?' || c == '=' || c == '%' || c == '+' || isspace(c); if (c == ' ' && g.boolean()) r += '+'; else if (must || g.u(12) == 11) { snprintf(b, sizeof b, g.boolean() ? "%%%02X" : "%%%02x", c); r += b; } else r += (char)c; } return r;
}
static std::string word(Gen &g) { if (g.u(800) == 799) return g.str(70000, "ab %"); std::string s = g.u(4) ? g.str(8, "abcZ09 &=?%+-_.~/#\xc5\xbd") : g.bytes(g.size(8)); while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); return s; }
struct Uri { bool has_origin = false; std::string origin; std::vector<P> ps; };
static Uri gen_uri(Gen &g) {
    Uri u; u.has_origin = g.u(4); if (u.has_origin) { u.origin = g.boolean() ? "https://example.com/" + g.str(6, "ab/%=&+.#:s") : std::string(1, g.pickc("ahz/%")) + g.str(12, "ab/%sd=&+.#:@0"); }
    size_t n = g.size(6); for (size_t i = 0; i < n; i++) { P p; p.kind = (int)g.u(3); p.name = word(g); if (p.name.empty() && p.kind == 0) p.name = "n"; if (p.name == "__zpl_origin__") p.name = "x"; if (p.kind == 1) { p.s = word(g); if (numberish(p.s)) p.s = "t" + p.s; } if (p.kind == 2) { do p.l = gen_lit(g, false); while (p.l.text.find('+') != std::string::npos); } u.ps.push_back(p); } return u;
}
static M model(const Uri &u) { M m; m.type = T_OBJ; if (u.has_origin) { M o; o.named = true; o.name = "__zpl_origin__"; o.type = T_STR; o.s = u.origin; m.kids.push_back(o); } for (auto &p : u.ps) { M c; c.named = true; c.name = p.name; if (p.kind == 0) c.type = T_REAL, c.props = ZPL_ADT_PROPS_TRUE, c.v = 1; else if (p.kind == 1) c.type = T_STR, c.s = p.s; else c.type = p.l.real ? T_REAL : T_INT, c.i = p.l.i, c.v = p.l.v; m.kids.push_back(c); } return m; }
static std::string write(zpl_adt_node *n, Meter &mt, bool file) { if (file) { zpl_file f; REQUIRE(zpl_file_stream_new(&f, zpl_heap()), "no stream"); zpl_uri_write(&f, n); zpl_isize sz = 0; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); std::string s((char *)b, (size_t)sz); zpl_file_close(&f); return s; } zpl_string z = zpl_uri_write_string(meter_allocator(mt), n); REQUIRE(z, "writing failed"); std::string s(z, (size_t)zpl_string_length(z)); zpl_string_free(z); return s; }
// the written text parsed again gives the tree m; it contains only characters a URI may contain
static void back(Gen &g, const M &m, const std::string &w, size_t origin_len, Meter &mt) { g.note("written %s", esc(w, 500).c_str()); for (size_t i = origin_len; i < w.size(); i++) REQUIRE(isalnum((unsigned char)w[i]) || strchr("-_.~%+?&=", w[i]), "the written URI contains %s", esc(w.substr(i, 1)).c_str()); Exact e(w, true); zpl_uri_object r; zpl_u8 err = zpl_uri_parse(&r, e.c(), meter_allocator(mt)); REQUIRE(!err, "the written URI is rejected"); same_tree(m, &r, ""); zpl_uri_free(&r); }
PROPERTY(uris, 120000, 3000000, "a URI with an origin and at least 2 parameters, one percent-encoded") {
    Uri u = gen_uri(g); std::string t = g.u(8) == 7 ? " \n" : ""; t += u.origin; if (!u.ps.empty() || g.u(3) == 2) t += '?'; bool pct = false; for (size_t i = 0; i < u.ps.size(); i++) { auto &p = u.ps[i]; if (i) t += g.u(8) ? '&' : '?'; std::string nm = enc(g, p.name), v = p.kind == 1 ? enc(g, p.s) : p.kind == 2 ? p.l.text : ""; t += nm + (p.kind ? "=" + v : ""); pct |= (nm + v).find('%') != std::string::npos; }
    if (!u.ps.empty() && g.u(8) == 7) t += g.boolean() ? "&" : " rest=1&of the text"; g.note("uri %s", esc(t, 500).c_str()); Exact e(t, true); Meter mt; zpl_uri_object r; memset(&r, 0x55, sizeof r); zpl_u8 err = zpl_uri_parse(&r, e.c(), meter_allocator(mt)); REQUIRE(!err, "a valid URI is rejected"); M m = model(u); same_tree(m, &r, "");
    back(g, m, write(&r, mt, g.boolean()), u.origin.size(), mt); zpl_uri_free(&r); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (u.has_origin && u.ps.size() >= 2 && pct) g.nontrivial();
}
PROPERTY(built, 80000, 2000000, "at least 2 parameters") {
    Uri u = gen_uri(g); Meter mt; zpl_uri_object r; std::deque<std::string> pool; auto hold = [&](const std::string &s) { pool.push_back(s); return (char *)pool.back().c_str(); }; size_t at = u.has_origin && g.u(4) == 3 ? g.u(u.ps.size() + 1) : 0; bool late = u.has_origin && at > 0; REQUIRE(!zpl_uri_init(&r, u.has_origin && !late ? hold(u.origin) : NULL, meter_allocator(mt)), "init failed");
    for (size_t i = 0; i <= u.ps.size(); i++) { if (late && i == at) zpl_adt_append_str(&r, "__zpl_origin__", hold(u.origin)); if (i == u.ps.size()) break; auto &p = u.ps[i]; char *nm = hold(p.name); if (p.kind == 0) zpl_adt_append_flt(&r, nm, 1)->props = ZPL_ADT_PROPS_TRUE; else if (p.kind == 1) zpl_adt_append_str(&r, nm, p.s.empty() && g.boolean() ? NULL : hold(p.s)); else if (g.boolean()) { zpl_adt_node *n = zpl_adt_append_str(&r, nm, hold(p.l.text)); zpl_adt_str_to_number(n); } else { p.l.real = false; p.l.i = g.i64any(); zpl_adt_append_int(&r, nm, p.l.i); } }
    back(g, model(u), write(&r, mt, g.boolean()), u.origin.size(), mt); zpl_uri_free(&r); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (u.ps.size() >= 2) g.nontrivial();
}
PROPERTY(any_text, 150000, 4000000, "a text with a question mark and a percent sign") {
    std::string s = g.u(3) ? g.str(30, "ab?&=%+ 0f2\n/%%??==") : g.bytes(g.size(40)); if (g.u(400) == 399) s = "?a=" + std::string(60000 + g.u(10000), g.pickc("a%+")) + s; if (g.u(30) == 29) s = "?__zpl_origin__=" + s; while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); g.note("text %s", esc(s, 400).c_str()); Exact e(s, true); Meter mt; if (g.u(6) == 5) mt.budget = (long)g.u(4); zpl_uri_object r; memset(&r, 0x55, sizeof r); zpl_u8 err = zpl_uri_parse(&r, e.c(), meter_allocator(mt)); bool out = mt.budget == 0; mt.budget = -1;
    if (err) { REQUIRE(out, "parsing fails with %d", err); g.label("out of memory"); } else { std::string w = write(&r, mt, false); Exact e2(w, true); zpl_uri_object r2; REQUIRE(!zpl_uri_parse(&r2, e2.c(), meter_allocator(mt)), "the written URI is rejected"); std::string w2 = write(&r2, mt, false); if (s.find("__zpl_origin__") == s.npos) REQUIRE(w == w2, "written %s, written again %s", esc(w, 300).c_str(), esc(w2, 300).c_str()); zpl_uri_free(&r2); } zpl_uri_free(&r); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (s.find('?') != s.npos && s.find('%') != s.npos) g.nontrivial();
}
