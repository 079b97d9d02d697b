// J03: writing a tree as JSON and parsing it back gives the same tree
// @fuzz-quick 6
// @fuzz-thorough 300
#include "jsonlib.hpp"
#include <deque>
static zpl_string write(zpl_adt_node *n, zpl_isize indent, Meter &mt, bool to_file) {
    if (!to_file) { zpl_string s = zpl_json_write_string(meter_allocator(mt), n, indent); REQUIRE(s, "writing failed"); return s; }
    zpl_file f; REQUIRE(zpl_file_stream_new(&f, zpl_heap()), "no stream"); REQUIRE(zpl_json_write(&f, n, indent), "writing to a file failed"); zpl_isize sz = 0; zpl_u8 *b = zpl_file_stream_buf(&f, &sz); zpl_string s = zpl_string_make_length(meter_allocator(mt), b, sz); zpl_file_close(&f); return s;
}
static zpl_isize gen_indent(Gen &g) { switch (g.u(4)) { case 0: case 1: return 0; case 2: return ZPL_JSON_INDENT_STYLE_COMPACT; default: return 4 * (zpl_isize)g.u(4); } }
// parses the written text, compares with the model, writes again and expects the same text
// a quote that the text did not escape comes back escaped, everything else as it was
static std::string escaped(const std::string &s, char q) { std::string w; for (size_t j = 0; j < s.size(); j++) { if (s[j] == '\\' && j + 1 < s.size()) { w += s[j]; w += s[++j]; } else if (s[j] == '\\') w += "\\\\"; else if (s[j] == q) { w += '\\'; w += q; } else w += s[j]; } return w; }
static M as_written(M m) { if (m.type == T_STR) m.s = escaped(m.s, '"'); if (m.type == T_MSTR) m.s = escaped(m.s, '`'); for (auto &k : m.kids) k = as_written(k); return m; }
static void back(Gen &g, const M &m, zpl_string text, zpl_isize indent, Meter &mt, bool compare) {
    std::string t(text, (size_t)zpl_string_length(text)); g.note("written %s", esc(t, 500).c_str()); Exact e(t, true); zpl_json_object r; zpl_u8 err = zpl_json_parse(&r, e.c(), meter_allocator(mt)); REQUIRE(err == ZPL_JSON_ERROR_NONE, "the written text is rejected with error %d", err);
    if (compare) same_tree(as_written(m), &r, ""); zpl_string again = write(&r, indent, mt, false); std::string t2(again, (size_t)zpl_string_length(again)); REQUIRE(t2 == t, "written again: %s", esc(t2, 500).c_str()); zpl_string_free(again); zpl_json_free(&r);
}
// strings as written between quotes: no bare quote, escapes complete
static std::string body(Gen &g, char quote) { return str_body(g, quote); }
struct Build { std::deque<std::string> pool; const char *hold(const std::string &s) { pool.push_back(s); return pool.back().c_str(); } bool fancy = false; };
static void fill(Gen &g, Build &b, M &m, zpl_adt_node *n, int depth, size_t &budget) {
    bool obj = m.type == T_OBJ; size_t k = std::min(budget, g.size(depth ? 4 : 6)); budget -= k; m.kids.resize(k);
    for (size_t i = 0; i < k; i++) { M &c = m.kids[i]; c.named = obj; int style = obj ? (int)g.u(6) : 0; zpl_adt_node *r = NULL;
        if (obj) { if (style == 5) c.name = std::string(1, g.pickc("abzAZ_")) + g.str(5, "ab_19Z"), b.fancy = true; else if (style == 4) c.name = g.str(6, "a b\"{}:,|=\n"), b.fancy = true; else { c.name = g.str(6, "abc d'{}:,|="); if (g.u(4) == 3) c.name += "\\" + std::string(1, g.pickc("\"\\/bfnrt")); } }
        const char *nm = obj ? b.hold(c.name) : g.u(4) ? NULL : b.hold("spare");
        switch (g.u(depth >= 6 ? 7 : 9)) {
            case 0: c.type = T_INT; c.i = g.i64any(); r = zpl_adt_append_int(n, nm, c.i); if (g.u(5) == 4) r->props = ZPL_ADT_PROPS_IS_HEX; break;
            case 1: c.type = T_REAL; c.v = g.u(3) ? (double)g.range(-1000000, 1000000) / (g.boolean() ? 64 : 1e6) : (double)g.range(-4, 4) * pow(10, (double)g.range(-3, 16)); c.slack = -(1e-6 + 1e-12 * std::fabs(c.v)); r = zpl_adt_append_flt(n, nm, c.v); break;
            case 2: { static const struct { int p; double v; } L[] = {{ZPL_ADT_PROPS_TRUE, 1}, {ZPL_ADT_PROPS_FALSE, 0}, {ZPL_ADT_PROPS_NULL, 0}, {ZPL_ADT_PROPS_INFINITY, INFINITY}, {ZPL_ADT_PROPS_INFINITY_NEG, -INFINITY}, {ZPL_ADT_PROPS_NAN, NAN}, {ZPL_ADT_PROPS_NAN_NEG, NAN}}; auto &l = L[g.u(7)]; c.type = T_REAL; c.props = l.p; c.v = l.v; r = zpl_adt_append_flt(n, nm, l.v); if (l.p != ZPL_ADT_PROPS_INFINITY && l.p != ZPL_ADT_PROPS_INFINITY_NEG && l.p != ZPL_ADT_PROPS_NAN) r->props = (zpl_u8)l.p; else if (g.boolean()) r->props = (zpl_u8)l.p; break; }
            case 3: { Lit l = gen_lit(g); c.type = T_STR; c.s = l.text; r = zpl_adt_append_str(n, nm, b.hold(l.text)); zpl_adt_str_to_number(r); c.type = l.real ? T_REAL : T_INT; c.i = l.i; c.v = l.v; break; }
            case 4: c.type = T_MSTR; c.s = body(g, '`'); b.fancy = true; r = zpl_adt_append_str(n, nm, b.hold(c.s)); r->type = ZPL_ADT_TYPE_MULTISTRING; break;
            case 5: case 6: c.type = T_STR; c.s = body(g, '"'); r = zpl_adt_append_str(n, nm, b.hold(c.s)); break;
            case 7: c.type = T_ARR; r = zpl_adt_append_arr(n, nm); break; default: c.type = T_OBJ; r = zpl_adt_append_obj(n, nm); }
        if (obj) { r->name_style = style == 5 ? ZPL_ADT_NAME_STYLE_NO_QUOTES : style == 4 ? ZPL_ADT_NAME_STYLE_SINGLE_QUOTE : ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE; if (g.u(5) == 4) { b.fancy = true; r->assign_style = (zpl_u8)g.u(3); r->assign_line_width = (zpl_u8)g.u(8); } if (g.u(5) == 4) { b.fancy = true; r->delim_style = (zpl_u8)g.u(3); r->delim_line_width = (zpl_u8)g.u(8); } } }
    for (size_t i = 0; i < k; i++) if (m.kids[i].type == T_ARR || m.kids[i].type == T_OBJ) fill(g, b, m.kids[i], n->nodes + i, depth + 1, budget);
}
PROPERTY(built, 100000, 2500000, "a tree of at least 5 nodes and nesting 3") {
    Build b; Meter mt; M m; zpl_adt_node root; memset(&root, 0, sizeof root); m.type = g.u(3) ? T_OBJ : T_ARR; zpl_adt_make_branch(&root, meter_allocator(mt), NULL, m.type == T_ARR); size_t budget = 30; fill(g, b, m, &root, 0, budget);
    if (m.type == T_OBJ && !m.kids.empty() && g.u(6) == 5) { root.cfg_mode = 1; g.label("without outer braces"); } zpl_isize ind = gen_indent(g); zpl_string t = write(&root, ind, mt, g.boolean()); back(g, m, t, ind, mt, true); zpl_string_free(t); zpl_adt_destroy_branch(&root); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (b.fancy) g.label("styles or multi-line strings"); if (count_nodes(m) >= 5 && depth_of(m) >= 3) g.nontrivial();
}
PROPERTY(parsed, 100000, 2500000, "a document of at least 5 nodes and nesting 3") {
    JDoc d = gen_doc(g); g.note("document %s", esc(d.text, 500).c_str()); Exact e(d.text, true); Meter mt; zpl_json_object root; if (zpl_json_parse(&root, e.c(), meter_allocator(mt))) throw Discard(); zpl_isize ind = gen_indent(g); zpl_string t = write(&root, ind, mt, g.boolean()); back(g, d.root, t, ind, mt, true); zpl_string_free(t); zpl_json_free(&root); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); if (count_nodes(d.root) >= 5 && depth_of(d.root) >= 3) g.nontrivial();
}
PROPERTY(free_strings, 100000, 2500000, "a string with a quote, a backslash or a line break") {
    Meter mt; zpl_adt_node root; memset(&root, 0, sizeof root); zpl_adt_make_branch(&root, meter_allocator(mt), NULL, 0); std::deque<std::string> pool; bool special = false; size_t k = 1 + g.size(4);
    for (size_t i = 0; i < k; i++) { std::string s = g.boolean() ? g.str(10, "a\"\\`'n \n") : g.bytes(g.size(12)); while (s.find('\0') != s.npos) s.erase(s.find('\0'), 1); special |= s.find_first_of("\"\\\n") != s.npos; pool.push_back(s); zpl_adt_node *r = zpl_adt_append_str(&root, "k", pool.back().c_str()); if (g.u(3) == 2) r->type = ZPL_ADT_TYPE_MULTISTRING; g.note("string %s", esc(s).c_str()); }
    zpl_isize ind = gen_indent(g); zpl_string t = write(&root, ind, mt, false); std::string text(t, (size_t)zpl_string_length(t)); Exact e(text, true); zpl_json_object r; zpl_u8 err = zpl_json_parse(&r, e.c(), meter_allocator(mt)); REQUIRE(!err, "the written text %s is rejected with error %d", esc(text).c_str(), err); REQUIRE(zpl_array_count(r.nodes) == (zpl_isize)k, "the written text %s has %ld members, expected %zu", esc(text).c_str(), (long)zpl_array_count(r.nodes), k);
    // undoing the writer's escaping of bare quotes gives the original back
    for (size_t i = 0; i < k; i++) { const std::string &s = pool[i]; std::string got = r.nodes[i].string, want = escaped(s, root.nodes[i].type == T_MSTR ? '`' : '"'); REQUIRE(got == want, "string %s comes back as %s, expected %s", esc(s).c_str(), esc(got).c_str(), esc(want).c_str()); }
    zpl_string t2 = write(&r, ind, mt, false); REQUIRE(text == std::string(t2, (size_t)zpl_string_length(t2)), "written again: %s", esc(t2).c_str()); zpl_string_free(t); zpl_string_free(t2); zpl_json_free(&r); zpl_adt_destroy_branch(&root); REQUIRE(mt.live == 0, "leak"); if (special) g.nontrivial();
}
// the written text of a plain tree: compact without line breaks, indented with every member of an object on a line of its own, four columns further in than the object
struct Plain { bool arr = false; int kind = 0; std::string name, s; long i = 0; std::vector<Plain> kids; };
static void plain(Gen &g, Plain &p, zpl_adt_node *n, std::deque<std::string> &pool, bool objs, int depth, size_t &budget, size_t &nodes) {
    size_t k = std::min(budget, g.size(4)); budget -= k; p.kids.resize(k); nodes += k;
    for (size_t j = 0; j < k; j++) { Plain &c = p.kids[j]; const char *nm = NULL; if (!p.arr) { c.name = g.str(4, "ab_9 :,{"); pool.push_back(c.name); nm = pool.back().c_str(); }
        c.kind = (int)g.u(depth >= 6 ? 2 : 4); if (c.kind == 3 && p.arr && !objs) c.kind = 2;
        switch (c.kind) { case 0: c.i = (long)g.range(-99999, 99999); zpl_adt_append_int(n, nm, c.i); break; case 1: c.s = g.str(6, "ab :,{}[]|'="); pool.push_back(c.s); zpl_adt_append_str(n, nm, pool.back().c_str()); break; case 2: c.arr = true; zpl_adt_append_arr(n, nm); break; default: zpl_adt_append_obj(n, nm); } }
    for (size_t j = 0; j < k; j++) if (p.kids[j].kind >= 2) plain(g, p.kids[j], n->nodes + j, pool, objs, depth + 1, budget, nodes);
}
static std::string compact(const Plain &p) { std::string t; for (auto &c : p.kids) { if (!t.empty()) t += p.arr ? ", " : ","; if (!p.arr) t += "\"" + c.name + "\":"; t += c.kind == 0 ? std::to_string(c.i) : c.kind == 1 ? "\"" + c.s + "\"" : compact(c); } return p.arr ? "[" + t + "]" : "{" + t + "}"; }
static void indented(const Plain &p, long col, std::string &t) {
    if (p.arr) { t += "["; for (size_t j = 0; j < p.kids.size(); j++) { auto &c = p.kids[j]; if (j) t += ", "; if (c.kind >= 2) indented(c, col, t); else t += c.kind ? "\"" + c.s + "\"" : std::to_string(c.i); } t += "]"; return; }
    t += "{\n"; for (size_t j = 0; j < p.kids.size(); j++) { auto &c = p.kids[j]; t += std::string((size_t)col + 4, ' ') + "\"" + c.name + "\": "; if (c.kind >= 2) indented(c, col + 4, t); else t += c.kind ? "\"" + c.s + "\"" : std::to_string(c.i); t += j + 1 < p.kids.size() ? ",\n" : "\n"; } t += std::string((size_t)col, ' ') + "}";
}
// drops white space between tokens: all of it, or only what follows something else on the same line
static std::string squeeze(const std::string &s, bool all) { std::string w; bool in = false, start = true; for (char c : s) { if (c == '"') in = !in; if (!in && c == ' ' && (all || (!start && !w.empty() && w.back() == ' '))) continue; if (!in && c == '\n') { start = true; if (!all) w += c; continue; } if (c != ' ') start = false; w += c; } return w; }
PROPERTY(layout, 120000, 2500000, "a tree of at least 5 nodes with an object inside an object") {
    Meter mt; std::deque<std::string> pool; Plain p; zpl_adt_node root; memset(&root, 0, sizeof root); bool objs = g.u(3) == 2; size_t budget = 25, nodes = 0; zpl_adt_make_branch(&root, meter_allocator(mt), NULL, 0); plain(g, p, &root, pool, objs, 0, budget, nodes); bool deep = false; for (auto &c : p.kids) deep |= c.kind == 3 && !c.kids.empty(); bool to_file = g.boolean(); zpl_isize ind = 4 * (zpl_isize)g.u(4);
    std::string want = compact(p); g.note("%s, indented by %ld", esc(want).c_str(), (long)ind); zpl_string c = write(&root, ZPL_JSON_INDENT_STYLE_COMPACT, mt, to_file); REQUIRE(want == std::string(c, (size_t)zpl_string_length(c)), "the compact text is %s, expected %s", esc(c, 500).c_str(), esc(want, 500).c_str()); zpl_string_free(c);
    zpl_string t = write(&root, ind, mt, to_file); std::string got(t, (size_t)zpl_string_length(t)); zpl_string_free(t); REQUIRE(squeeze(got, true) == squeeze(want, true), "the indented text %s is no indented form of %s", esc(got, 500).c_str(), esc(want, 500).c_str());
    if (!objs) { std::string w; indented(p, ind, w); std::string a = got, b = w; size_t q = a.find('{'); REQUIRE(q != a.npos && a.find_first_not_of(' ') == q, "the text starts with %s", esc(a, 20).c_str()); a = a.substr(q); while (!a.empty() && a.back() == '\n') a.pop_back(); a = squeeze(a, false); b = squeeze(b, false); REQUIRE(a == b, "indented by %ld, the text is %s, expected %s", (long)ind, esc(a, 500).c_str(), esc(b, 500).c_str()); }
    zpl_adt_destroy_branch(&root); REQUIRE(mt.live == 0, "leak"); if (nodes >= 5 && deep) g.nontrivial();
}
