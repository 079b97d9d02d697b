// J01: any text parses safely
// @fuzz-quick 12
// @fuzz-thorough 600
#include "jsonlib.hpp"
static void walk(const zpl_adt_node *n, const Exact &e, int depth) {
    for (zpl_isize i = 0; i < zpl_array_count(n->nodes); i++) { const zpl_adt_node *c = n->nodes + i; REQUIRE(c->parent == n, "a child names another node as its container"); auto in = [&](const char *s) { return (unsigned char *)s >= e.p && (unsigned char *)s <= e.p + e.n && strlen(s) <= e.n; };
        if (n->type == ZPL_ADT_TYPE_OBJECT) REQUIRE(c->name && in(c->name), "a member has no name");
        switch (c->type) { case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: REQUIRE(c->string && in(c->string), "a string lies outside the text"); break; case ZPL_ADT_TYPE_OBJECT: case ZPL_ADT_TYPE_ARRAY: walk(c, e, depth + 1); break; case ZPL_ADT_TYPE_INTEGER: case ZPL_ADT_TYPE_REAL: break; default: fail("an uninitialised node in the tree of an accepted text"); } }
}
static void check_text(Gen &g, const std::string &t) {
    Exact e(t, true); Meter mt; zpl_json_object root; memset(&root, 0x55, sizeof root); zpl_u8 r = zpl_json_parse(&root, e.c(), meter_allocator(mt)); g.label(r ? "rejected" : "accepted");
    if (r == ZPL_JSON_ERROR_NONE) { walk(&root, e, 0); zpl_string s = zpl_json_write_string(zpl_heap_allocator(), &root, g.boolean() ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT); REQUIRE(s, "the tree cannot be written"); zpl_string_free(s); }
    else { REQUIRE(t == std::string(e.c(), e.n), "a rejected text was changed"); REQUIRE(r != ZPL_JSON_ERROR_OUT_OF_MEMORY, "out of memory reported although memory was granted"); }
    zpl_json_free(&root); REQUIRE(mt.live == 0, "%ld blocks remain after freeing the tree", mt.live);
}
PROPERTY(soup, 200000, 3000000, "at least 4 characters of the notation") {
    static const char *tok[] = {"{", "}", "[", "]", ",", ":", "=", "|", "\"", "'", "`", "\\", "\\\"", "//", "/*", "*/", "*", "/", "\n", " ", "a", "name", "$x", "_", "true", "false", "null", "NaN", "-NaN", "Infinity", "-Infinity", "-", "+", ".", "0", "1", "12", "1.5", "-.5", "1e5", "0x1F", "e", "x", "\\u12", "\\u0041", "@", "#", "\x80", "\xff", "\r", "\t", "\"a\":1", "a:1", "b='x'", "[1,2]", "{}", "1.2.3"};
    std::string t; size_t n = g.size(g.u(8) ? 24 : 300); for (size_t i = 0; i < n; i++) { t += tok[g.u(sizeof tok / sizeof *tok)]; }
    g.note("%s", esc(t, 400).c_str()); if (n >= 4) g.nontrivial(); check_text(g, t);
}
PROPERTY(mutated, 160000, 3000000, "a valid document of at least 3 nodes with at least one change") {
    JDoc d = gen_doc(g); std::string t = d.text; static const char *ins = "{}[],:=|\"'`\\/*\n a1-+.eExtfnNI$_@"; size_t n = 1 + g.u(4);
    for (size_t k = 0; k < n; k++) { size_t at = g.u(t.size() + 1); switch (g.u(5)) { case 0: t.insert(at, 1, g.pickc(ins)); break; case 1: if (at < t.size()) t.erase(at, 1 + g.u(3)); break; case 2: if (at < t.size()) t[at] = g.pickc(ins); break; case 3: if (at < t.size()) t[at] = (char)(1 + g.u(255)); break; default: t = t.substr(0, at); } }
    g.note("%s", esc(t, 500).c_str()); if (count_nodes(d.root) >= 3) g.nontrivial(); check_text(g, t);
}
PROPERTY(raw, 60000, 1000000, "at least 8 bytes") {
    std::string t = g.bytes(g.size(200)); for (auto &c : t) if (!c) c = '{'; g.note("%s", esc(t, 400).c_str()); if (t.size() >= 8) g.nontrivial(); check_text(g, t);
}
PROPERTY(refused_memory, 60000, 800000, "an allocation was refused after at least one was granted") {
    JDoc d = gen_doc(g); g.note("%s", esc(d.text, 500).c_str()); Exact e(d.text, true); Meter all; zpl_json_object root; { Exact e2(d.text, true); REQUIRE(zpl_json_parse(&root, e2.c(), meter_allocator(all)) == ZPL_JSON_ERROR_NONE, "a valid document is rejected"); zpl_json_free(&root); }
    Meter mt; mt.budget = (long)g.u(all.asked + 2); long granted = mt.budget; g.note("%ld of %ld allocations granted", granted, all.asked); zpl_u8 r = zpl_json_parse(&root, e.c(), meter_allocator(mt));
    if (granted < all.asked) { REQUIRE(r == ZPL_JSON_ERROR_OUT_OF_MEMORY, "a refused allocation gives error %d", r); REQUIRE(d.text == std::string(e.c(), e.n), "the text was changed although parsing failed"); if (granted) g.nontrivial(); } else REQUIRE(r == ZPL_JSON_ERROR_NONE, "error %d although memory was granted", r);
    zpl_json_free(&root); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live);
    mt.budget = -1; if (r) { REQUIRE(zpl_json_parse(&root, e.c(), meter_allocator(mt)) == ZPL_JSON_ERROR_NONE, "the text cannot be parsed again after a refused allocation"); same_tree(d.root, &root, ""); zpl_json_free(&root); REQUIRE(mt.live == 0, "%ld blocks remain", mt.live); }
}
