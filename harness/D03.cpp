// D03: number texts parse to their value and print back
// @fuzz-quick 6
// @fuzz-thorough 240
#include "treelib.hpp"
static std::string print_num(zpl_adt_node *n) { zpl_file f; REQUIRE(zpl_file_stream_new(&f, zpl_heap()), "no stream"); zpl_adt_error e = zpl_adt_print_number(&f, n); zpl_isize sz = 0; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); std::string s((char *)b, (size_t)sz); zpl_file_close(&f); REQUIRE(e == ZPL_ADT_ERROR_NONE, "printing a number failed with %d", e); return s; }
static zpl_adt_node blank() { zpl_adt_node n; memset(&n, 0, sizeof n); return n; }
static void same(const zpl_adt_node &n, const Lit &l, const char *what) { if (l.real) REQUIRE(n.type == T_REAL, "%s: %s became type %d, expected a real", what, l.text.c_str(), n.type); else REQUIRE(n.type == T_INT, "%s: %s became type %d, expected an integer", what, l.text.c_str(), n.type);
    if (l.real) REQUIRE(near(n.real, l.v, 1e-12), "%s: %s became %.17g, expected %.17g", what, l.text.c_str(), n.real, l.v); else REQUIRE(n.integer == l.i, "%s: %s became %lld, expected %lld", what, l.text.c_str(), (long long)n.integer, (long long)l.i); }
static bool denotes(const std::string &t, const zpl_adt_node &n, double rel) { if (n.type == T_INT) { size_t s = t[0] == '-'; char *e; u64 u = t.compare(s, 2, "0x") == 0 ? strtoull(t.c_str() + s + 2, &e, 16) : strtoull(t.c_str() + s, &e, 10); return !*e && t.size() > s && n.integer == (int64_t)(s ? 0 - u : u); } char *e; double v = strtod(t.c_str(), &e); return !*e && !t.empty() && near(v, n.real, rel); }
PROPERTY(literals, 300000, 8000000, "a literal of at least 6 characters with a sign, fraction, exponent, hexadecimal prefix or more than 15 digits") {
    Lit l = gen_lit(g); std::string tail = g.u(3) ? "" : std::string(1, g.pickc(", }]\n:|/\"z_")) + g.str(6, "a0.e,-}"); g.note("literal %s tail %s", esc(l.text).c_str(), esc(tail).c_str()); Exact e(l.text + tail, true); zpl_adt_node n = blank();
    char *r = zpl_adt_parse_number(&n, e.c()); REQUIRE(r == e.c() + l.text.size(), "parsing stopped after %ld characters, the number has %zu", (long)(r - e.c()), l.text.size()); REQUIRE(l.text + tail == e.c(), "the text was changed"); same(n, l, "parsing");
    std::string p = print_num(&n); REQUIRE(denotes(p, n, 1e-12), "%s prints as %s, which denotes another value", l.text.c_str(), p.c_str());
    Exact e2(p, true); zpl_adt_node n2 = blank(); r = zpl_adt_parse_number(&n2, e2.c()); REQUIRE(!*r, "the printed text %s of %s is not one number", p.c_str(), l.text.c_str()); REQUIRE(n2.type == n.type, "%s prints as %s, which is of another type", l.text.c_str(), p.c_str()); Lit l2 = l; l2.v = n.real; l2.i = n.integer; same(n2, l2, "parsing the printed text"); REQUIRE(print_num(&n2) == p, "printing %s again gives %s", p.c_str(), print_num(&n2).c_str());
    zpl_adt_node s = blank(); s.type = T_STR; s.string = e.c(); zpl_adt_node before = s; zpl_adt_error err = zpl_adt_str_to_number_strict(&s); if (tail.empty()) { REQUIRE(err == ZPL_ADT_ERROR_NONE, "strict conversion reports %d", err); same(s, l, "strict conversion"); REQUIRE(zpl_adt_str_to_number_strict(&s) == ZPL_ADT_ERROR_ALREADY_CONVERTED && zpl_adt_str_to_number(&s) == ZPL_ADT_ERROR_ALREADY_CONVERTED, "converting a number again is not reported"); same(s, l, "second conversion"); }
    else REQUIRE(s.type == T_STR && s.string == before.string, "strict conversion took %s for a number", esc(l.text + tail).c_str());
    zpl_adt_node w = blank(); w.type = T_MSTR; w.string = e.c(); REQUIRE(zpl_adt_str_to_number(&w) == ZPL_ADT_ERROR_NONE, "conversion failed"); same(w, l, "conversion");
    g.label(l.real ? "real" : "integer"); size_t d = 0; for (char c : l.text) d += isdigit((unsigned char)c) != 0; if (l.text.size() >= 6 && (l.text.find_first_of("+-.eExX") != l.text.npos || d > 15)) g.nontrivial();
}
PROPERTY(assigned, 150000, 4000000, "a value that is no integer below 1000") {
    zpl_adt_node n = blank(); if (g.boolean()) { int64_t v = g.i64any(); zpl_adt_set_int(&n, "n", v); if (g.u(4) == 3) n.props = ZPL_ADT_PROPS_IS_HEX; std::string p = print_num(&n); g.note("integer %lld prints %s", (long long)v, p.c_str()); Exact e(p, true); zpl_adt_node m = blank(); char *r = zpl_adt_parse_number(&m, e.c()); REQUIRE(!*r && m.type == T_INT && m.integer == v, "integer %lld printed as %s parses to type %d, %lld", (long long)v, p.c_str(), m.type, (long long)m.integer); if (v < -1000 || v > 1000) g.nontrivial(); return; }
    double v; switch (g.u(4)) { case 0: v = (double)g.range(-1000000, 1000000) / 64; break; case 1: v = (double)g.i64any(); break; case 2: v = (double)g.range(-1000000000, 1000000000) / 1e6; break; default: { u64 b = g.u(~0ull); memcpy(&v, &b, 8); if (!(std::fabs(v) < 1e280)) v = 0; } }
    zpl_adt_set_flt(&n, "n", v); std::string p = print_num(&n); g.note("real %.17g prints %s", v, p.c_str()); Exact e(p, true); zpl_adt_node m = blank(); char *r = zpl_adt_parse_number(&m, e.c()); if (v == 0 && m.type == T_INT && m.integer == 0) return; REQUIRE(!*r && m.type == T_REAL, "real %.17g printed as %s parses to type %d", v, p.c_str(), m.type); REQUIRE(std::fabs(m.real - v) <= 1e-6 + 1e-12 * std::fabs(v), "real %.17g printed as %s parses to %.17g", v, p.c_str(), m.real); if (v != std::floor(v) || std::fabs(v) > 1000) g.nontrivial();
}
PROPERTY(any_text, 200000, 5000000, "a text that starts like a number and goes on otherwise") {
    std::string s; switch (g.u(4)) { case 0: s = g.bytes(g.size(20)); break; case 1: s = g.str(80, "0123456789"); break; case 2: { Lit l = gen_lit(g); s = l.text; for (size_t i = 0, k = 1 + g.u(3); i < k; i++) s.insert(g.u(s.size() + 1), 1, g.pickc("0123456789.eE+-xXaf ")); break; } default: s = g.str(24, "0123456789..eE+-xXafg "); }
    while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); g.note("text %s", esc(s).c_str()); Exact e(s, true); zpl_adt_node n = blank(); n.name = "keep"; char *r = zpl_adt_parse_number(&n, e.c()); REQUIRE(r >= e.c() && r <= e.c() + s.size(), "parsing ended outside the text"); REQUIRE(r > e.c() || s.empty(), "parsing made no progress"); REQUIRE(s == e.c() && !strcmp(n.name, "keep"), "the text or the node's name was changed"); REQUIRE(n.type == 0 || n.type == T_INT || n.type == T_REAL, "type %d", n.type); if (n.type) (void)print_num(&n);
    zpl_adt_node m = blank(); m.type = T_STR; m.string = e.c(); zpl_adt_error err = zpl_adt_str_to_number_strict(&m); REQUIRE(err == ZPL_ADT_ERROR_NONE, "strict conversion reports %d", err);
    // whether the whole text is a number, by the notation
    size_t i = 0, d = 0, f = 0; bool dot = false, ok; auto D = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; }; auto X = [&](size_t k) { return k < s.size() && isxdigit((unsigned char)s[k]); };
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    if (i + 2 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && X(i + 2)) { i += 2; while (X(i)) i++; ok = i == s.size(); }
    else { while (D(i)) i++, d++; if (i < s.size() && s[i] == '.') { dot = true; i++; while (D(i)) i++, f++; } ok = d || f; if (ok && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t k = i + 1; if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++; if (D(k)) { while (D(k)) k++; i = k; } } ok = ok && i == s.size(); }
    (void)dot; REQUIRE((m.type != T_STR) == ok, "strict conversion %s %s", m.type == T_STR ? "does not accept the number" : "takes for a number", esc(s).c_str()); if (m.type == T_STR) REQUIRE(m.string == e.c(), "a text that is no number was changed"); if (!s.empty() && isdigit((unsigned char)s[0]) && !ok) g.nontrivial();
    zpl_adt_node b = blank(); b.type = T_OBJ; REQUIRE(zpl_adt_str_to_number(&b) == ZPL_ADT_ERROR_INVALID_TYPE && zpl_adt_str_to_number_strict(&b) == ZPL_ADT_ERROR_INVALID_TYPE, "converting a container is not refused"); zpl_file fs; zpl_file_stream_new(&fs, zpl_heap()); REQUIRE(zpl_adt_print_number(&fs, &b) == ZPL_ADT_ERROR_INVALID_TYPE, "printing a container as a number is not refused"); zpl_file_close(&fs);
}
