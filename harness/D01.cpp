// D01: trees stay consistent under any history of edits
// @fuzz-quick 6
// @fuzz-thorough 240
#include "jsonlib.hpp"
#include <deque>
typedef std::vector<size_t> Path;
struct Tree {
    Meter mt; zpl_adt_node root; M m; std::deque<std::string> pool; Gen &g; zpl_allocator al;
    Tree(Gen &g) : g(g) { al = meter_allocator(mt); }
    const char *hold(const std::string &s) { pool.push_back(s); return pool.back().c_str(); }
    M &at(const Path &p) { M *x = &m; for (size_t k : p) x = &x->kids[k]; return *x; }
    zpl_adt_node *node(const Path &p) { zpl_adt_node *n = &root; for (size_t k : p) n = n->nodes + k; return n; }
    void all(std::vector<Path> &out, const Path &p, const M &x) { out.push_back(p); for (size_t k = 0; k < x.kids.size(); k++) { Path q = p; q.push_back(k); all(out, q, x.kids[k]); } }
    static bool box(const M &x) { return x.type == T_ARR || x.type == T_OBJ; }
    template <class F> bool choose(Path &out, F ok) { std::vector<Path> v, w; all(v, {}, m); for (auto &p : v) if (ok(p, at(p))) w.push_back(p); if (w.empty()) return false; out = g.pick(w); return true; }
    void check(const char *op) { try { same_tree(m, &root, ""); } catch (...) { g.note("after %s", op); throw; } }
};
static std::string show(const Path &p) { std::string s; for (size_t k : p) s += "/" + std::to_string(k); return s.empty() ? "/" : s; }
static bool within(const Path &outer, const Path &p) { return p.size() >= outer.size() && std::equal(outer.begin(), outer.end(), p.begin()); }
static void leaf_value(Gen &g, Tree &t, M &c, zpl_adt_node *n, const char *nm) {
    c.kids.clear(); c.props = 0;
    switch (g.u(3)) { case 0: c.type = T_STR; c.s = g.str(6, "abc \"\\"); REQUIRE(zpl_adt_set_str(n, nm, t.hold(c.s)), "set_str reports failure"); break;
        case 1: c.type = T_INT; c.i = g.i64any(); REQUIRE(zpl_adt_set_int(n, nm, c.i), "set_int reports failure"); break;
        default: c.type = T_REAL; c.v = (double)g.range(-100000, 100000) / 64; REQUIRE(zpl_adt_set_flt(n, nm, c.v), "set_flt reports failure"); }
}
// where a move leaves a path: removal of `from` first or an insertion at parent/index
static Path after_insert(Path p, const Path &parent, size_t idx) { if (p.size() > parent.size() && within(parent, p) && p[parent.size()] >= idx) p[parent.size()]++; return p; }
static Path after_remove(Path p, const Path &gone) { Path par(gone.begin(), gone.end() - 1); if (p.size() > par.size() && within(par, p) && p[par.size()] > gone.back()) p[par.size()]--; return p; }
PROPERTY(histories, 24000, 600000, "at least 12 effective edits including a move or swap of a container, or growth beyond 8 children of a container with container children") {
    Tree t(g); bool parsed = g.u(5) == 4; std::string text; int edits = 0; bool rich = false;
    if (parsed) { JDoc d = gen_doc(g); text = d.text; t.m = d.root; g.note("start from %s", esc(text, 300).c_str()); }
    std::vector<char> buf(text.begin(), text.end()); buf.push_back(0);
    if (parsed) { zpl_u8 r = zpl_json_parse(&t.root, buf.data(), t.al); if (r) throw Discard(); }
    else { memset(&t.root, 0, sizeof t.root); t.m.type = g.boolean() ? T_OBJ : T_ARR; REQUIRE(!(t.m.type == T_ARR ? zpl_adt_set_arr : zpl_adt_set_obj)(&t.root, NULL, t.al), "initialising a container failed"); }
    t.check("start");
    size_t n = 2 + g.size(40);
    for (size_t step = 0; step < n; step++) {
        Path c, x; auto isbox = [](const Path &, const M &m) { return Tree::box(m); }; auto notroot = [](const Path &p, const M &) { return !p.empty(); };
        std::string nm = g.str(3, "abcd"); const char *cn = t.hold(nm); bool tight = g.u(12) == 11; int op = (int)g.u(14); if (count_nodes(t.m) > 60 && op < 7) op = 7 + op % 4;
        switch (op) {
            case 0: case 1: case 2: case 3: {
                if (!t.choose(c, isbox)) break; M k; k.named = true; k.name = nm; zpl_adt_node *p = t.node(c), *r = NULL; int kind = (int)g.u(5); if (tight) t.mt.budget = g.u(2);
                switch (kind) { case 0: k.type = T_OBJ; r = zpl_adt_append_obj(p, cn); break; case 1: k.type = T_ARR; r = zpl_adt_append_arr(p, cn); break; case 2: k.type = T_STR; k.s = g.str(5, "xyz"); r = zpl_adt_append_str(p, cn, t.hold(k.s)); break;
                    case 3: k.type = T_REAL; k.v = g.range(-1000, 1000) / 8.0; r = zpl_adt_append_flt(p, cn, k.v); break; default: k.type = T_INT; k.i = g.i64any(); r = zpl_adt_append_int(p, cn, k.i); }
                t.mt.budget = -1; g.note("append %s kind %d to %s%s", nm.c_str(), kind, show(c).c_str(), tight ? " with little memory" : "");
                if (!r) { REQUIRE(tight, "appending failed although memory is available"); g.label("refused memory"); t.check("refused append"); break; }
                M &mp = t.at(c); REQUIRE(r == p->nodes + mp.kids.size(), "appending returned another node than the last child"); for (auto &kk : mp.kids) if (mp.kids.size() >= 8 && Tree::box(kk)) rich = true; mp.kids.push_back(k); edits++; t.check("append"); break; }
            case 4: case 5: { // insert at an index
                if (!t.choose(c, isbox)) break; M &mp = t.at(c); zpl_isize i = (zpl_isize)g.u(mp.kids.size() + 2) - (g.u(20) == 19); if (tight) t.mt.budget = 0; bool end = i == (zpl_isize)mp.kids.size() && g.boolean(); zpl_adt_node *r = end ? zpl_adt_alloc(t.node(c)) : zpl_adt_alloc_at(t.node(c), i); t.mt.budget = -1; g.note("insert %s at %s index %ld%s", nm.c_str(), show(c).c_str(), (long)i, tight ? " with no memory" : "");
                if (i < 0 || i > (zpl_isize)mp.kids.size()) { REQUIRE(!r, "inserting at %ld of %zu children did not fail", (long)i, mp.kids.size()); t.check("refused insert"); break; }
                if (!r) { REQUIRE(tight, "inserting failed although memory is available"); g.label("refused memory"); t.check("refused insert"); break; } REQUIRE(r == t.node(c)->nodes + i, "inserting returned another node than child %ld", (long)i); M k; k.named = true; k.name = nm; leaf_value(g, t, k, r, cn); mp.kids.insert(mp.kids.begin() + i, k); edits++; t.check("insert"); break; }
            case 6: { // nothing can be inserted into a leaf
                if (!t.choose(c, [](const Path &, const M &m) { return !Tree::box(m); })) break; REQUIRE(!zpl_adt_alloc(t.node(c)) && !zpl_adt_alloc_at(t.node(c), 0) && !zpl_adt_append_int(t.node(c), cn, 1), "a leaf accepted a child"); t.check("insert into a leaf"); break; }
            case 7: case 8: case 9: { // move
                if (!t.choose(x, notroot)) break; if (!t.choose(c, [&](const Path &p, const M &m) { return Tree::box(m) && !within(x, p); })) break;
                M moved = t.at(x); size_t cnt = t.at(c).kids.size(); bool to_end = g.boolean(); size_t i = to_end ? cnt : g.u(cnt + 1); g.note("move %s to %s index %zu%s", show(x).c_str(), show(c).c_str(), i, to_end ? " (end)" : "");
                if (tight) t.mt.budget = 0; zpl_adt_node *r = to_end ? zpl_adt_move_node(t.node(x), t.node(c)) : zpl_adt_move_node_at(t.node(x), t.node(c), (zpl_isize)i); t.mt.budget = -1;
                if (!r) { REQUIRE(tight, "moving failed although memory is available"); g.label("refused memory"); t.check("refused move"); break; }
                auto &ck = t.at(c).kids; ck.insert(ck.begin() + (long)i, moved); Path y = c; y.push_back(i); Path gone = after_insert(x, c, i); Path gp(gone.begin(), gone.end() - 1); auto &gk = t.at(gp).kids; gk.erase(gk.begin() + (long)gone.back()); y = after_remove(y, gone);
                if (Tree::box(moved) && !moved.kids.empty()) rich = true; if (gp == c) g.label("moved within its container"); edits++; t.check("move"); REQUIRE(r == t.node(y), "moving returned another node than the moved one at %s", show(y).c_str()); break; }
            case 10: { // move a detached leaf in
                if (!t.choose(c, isbox)) break; zpl_adt_node d; memset(&d, 0, sizeof d); M k; k.named = true; k.name = nm; leaf_value(g, t, k, &d, cn); size_t i = g.u(t.at(c).kids.size() + 1); g.note("move a new leaf %s to %s index %zu", nm.c_str(), show(c).c_str(), i);
                zpl_adt_node *r = zpl_adt_move_node_at(&d, t.node(c), (zpl_isize)i); REQUIRE(r == t.node(c)->nodes + i, "moving a new leaf returned another node"); auto &ck = t.at(c).kids; ck.insert(ck.begin() + (long)i, k); edits++; t.check("move of a new leaf"); break; }
            case 11: { // swap
                Path y; if (!t.choose(x, notroot)) break; if (!t.choose(y, [&](const Path &p, const M &) { return !p.empty() && (p == x || (!within(x, p) && !within(p, x))); })) break; g.note("swap %s and %s", show(x).c_str(), show(y).c_str());
                zpl_adt_swap_nodes(t.node(x), t.node(y)); if (Tree::box(t.at(x)) || Tree::box(t.at(y))) rich = true; if (x != y) std::swap(t.at(x), t.at(y)); edits++; t.check("swap"); break; }
            case 12: { // remove
                if (!t.choose(x, notroot)) break; if (count_nodes(t.at(x)) > 8 && g.u(3)) break; zpl_adt_destroy_branch(t.node(x)); zpl_adt_remove_node(t.node(x)); Path p(x.begin(), x.end() - 1); auto &k = t.at(p).kids; k.erase(k.begin() + (long)x.back()); g.note("remove %s", show(x).c_str()); edits++; t.check("remove"); break; }
            default: { // give a node another value
                if (!t.choose(x, notroot)) break; M &k = t.at(x); if (count_nodes(k) > 8 && g.u(3)) break; zpl_adt_destroy_branch(t.node(x)); k.named = true; k.name = nm; k.kids.clear(); k.props = 0;
                if (g.u(3)) leaf_value(g, t, k, t.node(x), cn); else { k.type = g.boolean() ? T_OBJ : T_ARR; REQUIRE(!(k.type == T_ARR ? zpl_adt_set_arr : zpl_adt_set_obj)(t.node(x), cn, t.al), "initialising a container failed"); }
                g.note("set %s to type %d", show(x).c_str(), k.type); edits++; t.check("set"); }
        }
    }
    zpl_adt_destroy_branch(&t.root); REQUIRE(t.mt.live == 0, "%ld blocks remain after destroying the tree", t.mt.live); if (edits >= 12 && rich) g.nontrivial();
}

// The macros that choose by the type of the value (C only) store that value: text as text, integers as integers, both floating types as reals.
#define PICKED(NAME, T) extern "C" zpl_adt_node *v_append_##NAME(zpl_adt_node *, const char *, T); extern "C" zpl_u8 v_set_##NAME(zpl_adt_node *, const char *, T);
PICKED(str, char *) PICKED(cstr, char const *) PICKED(f32, zpl_f32) PICKED(f64, zpl_f64) PICKED(i8, zpl_i8) PICKED(u8, zpl_u8) PICKED(i16, zpl_i16) PICKED(u16, zpl_u16) PICKED(i32, zpl_i32) PICKED(u32, zpl_u32) PICKED(i64, zpl_i64) PICKED(char, char) PICKED(long, long)
PROPERTY(chosen_by_type, 60000, 1500000, "values of at least 3 different types, one of them floating") {
    Tree t(g); bool obj = g.boolean(); memset(&t.root, 0, sizeof t.root); t.m.type = obj ? T_OBJ : T_ARR; (obj ? zpl_adt_set_obj : zpl_adt_set_arr)(&t.root, NULL, t.al); unsigned kinds = 0; size_t n = 1 + g.size(12);
    for (size_t i = 0; i < n; i++) {
        M k; k.named = true; k.name = g.str(3, "abc"); const char *nm = t.hold(k.name); bool again = !t.m.kids.empty() && g.u(3) == 2; size_t at = again ? g.u(t.m.kids.size()) : t.m.kids.size(); zpl_adt_node *r = again ? t.root.nodes + at : NULL; int kind = (int)g.u(13); kinds |= 1u << kind;
        int64_t v = g.i64any(); double d = g.boolean() ? (double)g.range(-1000000, 1000000) / 4096 : ldexp((double)g.range(-4000, 4000), (int)g.u(60) - 30); std::string s = g.str(6, "xyz 1"); char *c = (char *)t.hold(s);
        #define DO(NAME, V) do { if (again) REQUIRE(v_set_##NAME(r, nm, V), "set reports failure"); else { r = v_append_##NAME(&t.root, nm, V); REQUIRE(r == t.root.nodes + at, "appending returned another node than the last child"); } } while (0)
        #define WHOLE(NAME, T) { T x = (T)v; k.type = T_INT; k.i = (int64_t)x; DO(NAME, x); break; }
        switch (kind) { case 0: k.type = T_STR; k.s = s; DO(str, c); break; case 1: k.type = T_STR; k.s = s; DO(cstr, c); break; case 2: k.type = T_REAL; k.v = (float)d; DO(f32, (float)d); break; case 3: k.type = T_REAL; k.v = d; DO(f64, d); break;
            case 4: WHOLE(i8, zpl_i8) case 5: WHOLE(u8, zpl_u8) case 6: WHOLE(i16, zpl_i16) case 7: WHOLE(u16, zpl_u16) case 8: WHOLE(i32, zpl_i32) case 9: WHOLE(u32, zpl_u32) case 10: WHOLE(i64, zpl_i64) case 11: WHOLE(char, char) default: WHOLE(long, long) }
        g.note("%s %s with a value of kind %d", again ? "set" : "append", k.name.c_str(), kind); if (again) t.m.kids[at] = k; else t.m.kids.push_back(k); t.check(again ? "set" : "append");
    }
    if ((kinds & 12) && __builtin_popcount(kinds) >= 3) g.nontrivial(); zpl_adt_destroy_branch(&t.root); REQUIRE(t.mt.live == 0, "%ld blocks remain", t.mt.live);
}
