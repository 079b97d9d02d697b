// J02: documents parse to their meaning, faulty ones are rejected
// @fuzz-quick 6
// @fuzz-thorough 300
#include "jsonlib.hpp"
PROPERTY(meaning, 160000, 4000000, "a document of at least 5 nodes and nesting 3") {
    JDoc d = gen_doc(g); g.note("%s", esc(d.text, 700).c_str()); Exact e(d.text, true); Meter mt; zpl_json_object root; memset(&root, 0x55, sizeof root);
    zpl_u8 r = zpl_json_parse(&root, e.c(), meter_allocator(mt)); REQUIRE(r == ZPL_JSON_ERROR_NONE, "a valid document is rejected with error %d", r);
    same_tree(d.root, &root, ""); if (d.fancy) g.label("beyond plain JSON"); if (!d.braced) g.label("unbraced root");
    zpl_json_free(&root); REQUIRE(mt.live == 0, "%ld blocks remain after freeing the tree", mt.live); if (count_nodes(d.root) >= 5 && depth_of(d.root) >= 3) g.nontrivial();
}
PROPERTY(faults, 160000, 4000000, "a faulty document of at least 3 nodes") {
    JDoc d = gen_doc(g); std::string t = d.text; const char *what; size_t a = t.size();
    switch (g.u(7)) {
        case 0: { what = "cut short"; if (!d.braced) throw Discard(); t = t.substr(0, g.u(t.size())); break; }
        case 1: { what = "mismatched closer"; if (!d.braced) throw Discard(); char &c = t.back(); c = c == '}' ? ']' : '}'; break; }
        case 2: what = "doubled separator"; if (d.seps.empty()) throw Discard(); a = g.pick(d.seps); if (t[a] != ',') throw Discard(); t.insert(a, g.boolean() ? "," : ", "); break;
        case 3: what = "missing assignment"; if (d.assigns.empty()) throw Discard(); a = g.pick(d.assigns); t[a] = ' '; break;
        case 4: what = "missing value"; if (d.assigns.empty()) throw Discard(); a = g.pick(d.assigns); t.insert(a + 1, g.boolean() ? "," : "}"); break;
        case 5: { what = "unknown word"; std::vector<size_t> p; for (size_t k : d.assigns) p.push_back(k + 1); if (p.empty()) throw Discard(); a = g.pick(p); static const char *w[] = {"nil ", "truely ", "tru ", "Nan ", "-Inf ", "nullx ", "undefined ", "@ ", "? ", "+ ", ". "}; t.insert(a, w[g.u(11)]); break; }
        default: what = "missing name"; if (d.assigns.empty()) throw Discard(); a = g.pick(d.assigns); t.insert(a, g.boolean() ? ":" : "| ="); break;
    }
    g.note("%s at %zu: %s", what, a, esc(t, 700).c_str()); Exact e(t, true); Meter mt; zpl_json_object root; zpl_u8 r = zpl_json_parse(&root, e.c(), meter_allocator(mt));
    REQUIRE(r != ZPL_JSON_ERROR_NONE, "a document with a fault (%s) is accepted", what); REQUIRE(t == std::string(e.c(), e.n), "a rejected text was changed"); zpl_json_free(&root); REQUIRE(mt.live == 0, "%ld blocks remain after freeing the tree", mt.live);
    g.label(what); if (count_nodes(d.root) >= 3) g.nontrivial();
}
